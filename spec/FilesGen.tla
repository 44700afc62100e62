------------------------------ MODULE FilesGen ------------------------------
(* Random histories of a writer that is given files, buffers and folders (tlc -simulate). *)
EXTENDS Files, Json
CONSTANTS MaxOps, Kinds
VARIABLES s, hist
vars == <<s, hist>>
Dirs == {"in", "sub dir", "lib a"}
MvrNames == {"a.bin", "b c.png", "~uni~.glb", "model.3ds", "Robe@X.gdtf", "B@y.gdtf", "same.bin"}
GdtfNames == {"base.3ds", "base.svg", "base.glb", "slot1.png", "thumb.png", "thumb.svg", "~uni~.png", "note.txt"}
DataKinds == {"one", "text", "zeros", "noise", "zip", "eocd", "crlf"}
Pick(S, x) == RandomElement(S)
Token(x) == IF Pick(1..8, x) = 1 THEN Empty ELSE Pick(DataKinds, x) \o "#" \o ToString(Len(x))
Op(x) ==
  LET k == Pick(1..10, x) mvr == s.kind = "mvr" names == IF mvr THEN MvrNames ELSE GdtfNames
      o == [m |-> "", dir |-> "", n |-> "", d |-> "", t |-> "RessoureFixture", as |-> "", sep |-> Pick({"/", "\\"}, x)]
  IN  CASE k \in 1..3 \/ (s.disk = <<>> /\ k < 8) -> [o EXCEPT !.m = "Put", !.dir = Pick(Dirs, x), !.n = Pick(names, x), !.d = Token(x)]
        [] k \in 4..5 -> IF Pick(1..6, x) = 1 THEN [o EXCEPT !.m = "AddFile", !.dir = Pick(Dirs, x), !.n = Pick(names, x), !.t = Pick(Types, x)]
                         ELSE LET p == s.disk[Pick(1..Len(s.disk), x)].p IN [o EXCEPT !.m = "AddFile", !.dir = p[1], !.n = p[2], !.t = IF mvr THEN "RessoureFixture" ELSE Pick(Types, x),
                                                                                !.as = IF mvr \/ Pick(1..2, x) = 1 THEN "" ELSE Pick(names, x)]
        [] k = 6 -> IF s.disk = <<>> \/ Pick(1..2, x) = 1 THEN [o EXCEPT !.m = "Nop"] ELSE LET p == s.disk[Pick(1..Len(s.disk), x)].p IN [o EXCEPT !.m = "Del", !.dir = p[1], !.n = p[2]]
        [] k = 7 /\ mvr -> [o EXCEPT !.m = "AddFolder", !.dir = Pick(Dirs, x)]
        [] k = 8 /\ mvr -> [o EXCEPT !.m = "Fixture", !.n = Pick({"Robe@X.gdtf", "B@y.gdtf", "gone.gdtf", "a.bin", ""}, x)]
        [] OTHER -> IF mvr THEN IF Pick(1..8, x) = 1 THEN [o EXCEPT !.m = "AddBuffer", !.n = Pick({"", "GeneralSceneDescription.xml"}, x), !.d = Token(x)]
                            ELSE [o EXCEPT !.m = "AddBuffer", !.dir = Pick({"", "sub/", "sub/deep/"}, x), !.n = Pick(names, x), !.d = Token(x)]
                    ELSE [o EXCEPT !.m = "AddBuffer", !.n = Pick(names, x), !.t = Pick(Types, x), !.d = Token(x)]
\* a scene description of the user's own only ever collides in the root
Ok(op) == ~(op.n = "GeneralSceneDescription.xml" /\ op.dir # "")
Init == hist = <<>> /\ s \in {Start(k) : k \in Kinds}
Next == /\ Len(hist) < MaxOps
        /\ \E op \in {Op(hist)} : IF Ok(op) THEN hist' = Append(hist, op) /\ s' = Apply(s, op).s ELSE hist' = Append(hist, [op EXCEPT !.m = "Nop"]) /\ s' = s
        /\ (Len(hist') = MaxOps => PrintT("@@" \o ToJson([kind |-> s'.kind, ops |-> hist'])))
=============================================================================
