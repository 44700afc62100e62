------------------------------ MODULE ArchGen ------------------------------
(* Random archives of other programs, damaged or not, read one after the other (tlc -simulate). *)
EXTENDS Arch, Json
CONSTANTS MaxReads
VARIABLES hist
Pick(S, x) == RandomElement(S)
OneIn(k, x) == Pick(1..k, x) = 1
MvrNames == {<<"", "a.bin">>, <<"", "Robe@X.gdtf">>, <<"sub/", "x.glb">>, <<"sub/deep/", "y z.3ds">>, <<"", "~uni~.png">>, <<"~long~", "f">>, <<"sub/", "">>, <<"", "">>, <<"", "A.BIN">>, <<"", ".hidden">>}
FixNames == {<<"wheels/", "g.png">>, <<"models/3ds/", "m.3ds">>, <<"", "note.txt">>, <<"", "thumb.png">>, <<"wheels/", "">>, <<"", "">>, <<"models/gltf/", "~uni~.glb">>, <<"wheels/", "thumb.png">>, <<"own/", "n.bin">>}
DataKinds == {"one", "text", "zeros", "noise", "zip", "eocd", "crlf"}
How(x) == IF OneIn(6, x) THEN Pick(Alien, x) ELSE Pick(Plain, x)
Fault(clean, x) == IF clean \/ ~OneIn(5, x) THEN "none" ELSE IF OneIn(5, x) THEN Pick(Ends, x) ELSE Pick(Own \ {"none"}, x)
Member(nm, d, clean, x) ==
  LET f == Fault(clean, x) h == How(x) IN
  [n |-> nm, d |-> d, how |-> IF f \in {"garbage", "short"} THEN "deflated" ELSE h, fault |-> f,
   gap |-> IF OneIn(3, x) THEN Pick({1, 7, 100}, x) ELSE 0, lx |-> Pick({0, 0, 0, 9, 28, 28, 300, 65535}, x), cx |-> Pick({0, 0, 0, 24, 36, 36, 260, 65535}, x), cc |-> Pick({0, 0, 0, 0, 5, 300, 65535}, x)]
Token(k, x) == IF OneIn(6, x) THEN "empty" ELSE Pick(DataKinds, x) \o "#" \o ToString(k)
RECURSIVE Order(_, _)
Order(S, x) == IF S = {} THEN <<>> ELSE LET e == Pick(S, x) IN TLCEval(<<e>> \o Order(S \ {e}, x))
Archive(kind, x) ==
  LET clean == OneIn(3, x)
      cnt == Pick(0..7, x)
      plain == [i \in 1..cnt |-> TLCEval(Member(Pick(IF kind = "mvr" THEN MvrNames ELSE FixNames, <<x, i>>), Token(i, x), clean, <<x, i>>))]
      ds == [i \in 1..(IF OneIn(10, x) THEN 0 ELSE IF OneIn(6, x) THEN 2 ELSE 1) |-> TLCEval([Member(Desc(kind), "title#" \o ToString(i), clean \/ ~OneIn(3, x), x) EXCEPT !.how = IF OneIn(8, x) THEN Pick(Alien, x) ELSE IF @ \in Alien THEN "stored" ELSE @])]
      at == Pick(0..cnt, x)
      ms == SubSeq(plain, 1, at) \o ds \o SubSeq(plain, at + 1, cnt)
  IN  [ms |-> ms, place |-> IF OneIn(2, x) THEN [i \in 1..Len(ms) |-> i] ELSE Order(1..Len(ms), x), tail |-> Pick({0, 0, 0, 1, 17, 2000, 65535}, x),
       end |-> IF OneIn(8, x) THEN Pick({"cut", "wrong", "none", "empty", "tailcut"}, x) ELSE "ok"]
Read(x) == LET k == Pick({"mvr", "gdtf", "mem"}, x) IN [kind |-> k, a |-> TLCEval(Archive(k, x)), flips |-> IF OneIn(4, x) THEN Pick(1..6, x) ELSE 0, seed |-> Pick(1..1000000, x)]
\* a garbage member whose deflate stream is replaced needs a deflated one
Init == hist = <<>>
Next == /\ Len(hist) < MaxReads
        /\ \E r \in {Read(hist)} : hist' = Append(hist, r)
        /\ (Len(hist') = MaxReads => PrintT("@@" \o ToJson([reads |-> hist'])))
=============================================================================
