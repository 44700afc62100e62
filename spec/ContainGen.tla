----------------------------- MODULE ContainGen -----------------------------
(* Archives with names of any shape, and scenes that name their fixture types in any way (tlc -simulate). *)
EXTENDS Contain, Json
CONSTANTS MaxReads
VARIABLES hist
Pick(S, x) == RandomElement(S)
OneIn(k, x) == Pick(1..k, x) = 1
Inner(x) == IF OneIn(2, x) THEN Pick({"a", "b"}, x) ELSE Pick({Up, Up, ".", "", "a"}, x)
RECURSIVE Ups(_)
Ups(s) == IF s = <<>> THEN 0 ELSE (IF Head(s) = Up THEN 1 ELSE 0) + Ups(Tail(s))
Name(i, x) ==
  LET n == Pick(0..5, x)
      pre == IF OneIn(4, x) THEN [k \in 1..Pick(1..4, x) |-> Up] ELSE [k \in 1..n |-> TLCEval(Inner(<<x, k>>))]
      last == IF OneIn(12, x) THEN Pick({Up, ".", ""}, x) ELSE "f" \o ToString(i)
  IN  [lead |-> IF OneIn(6, x) THEN Pick({"/", "//", "\\"}, x) ELSE "", segs |-> TLCEval(pre) \o <<last>>, sep |-> Pick({"/", "/", "/", "\\"}, x)]
\* the scratch folder is five folders deep
Tame(nm) == Ups(nm.segs) <= 4
Specs == {"..", "../x", "../../x", "a/b", "/x", ".", "", ".gdtf", "..gdtf", "ok@x", "./.", "x", "../MVR_Export/ok@x"}
Files == {"...gdtf", "..gdtf", ".gdtf", "ok@x.gdtf", "x.gdtf", "....gdtf"}
Read(x) == LET k == Pick({"mvr", "mvr", "gdtf", "mem"}, x) n == Pick(1..6, x) IN
  [kind |-> k, names |-> SelectSeq([i \in 1..n |-> TLCEval(Name(i, <<x, i>>))], Tame), specs |-> IF k = "mvr" THEN [i \in 1..Pick(0..3, x) |-> TLCEval(Pick(Specs, <<x, i>>))] ELSE <<>>,
   fixtures |-> IF k = "mvr" THEN SetToSeq({f \in Files : Pick(1..2, <<x, f>>) = 1}) ELSE <<>>]
Init == hist = <<>>
Next == /\ Len(hist) < MaxReads
        /\ \E r \in {Read(hist)} : hist' = Append(hist, r)
        /\ (Len(hist') = MaxReads => PrintT("@@" \o ToJson([reads |-> hist'])))
=============================================================================
