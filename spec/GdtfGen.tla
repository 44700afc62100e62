------------------------------ MODULE GdtfGen ------------------------------
(* Random behaviours of the GDTF writing API (tlc -simulate): the calls an application can make on a fixture    *)
(* under construction, with which arguments; only those are kept after which the fixture is well-formed.        *)
EXTENDS Gdtf, Json
CONSTANT MaxOps
VARIABLES nodes, hist, tries
Pick(S) == RandomElement(S)
Op(m, on, a, q, c) == [m |-> m, on |-> on, a |-> a, q |-> q, c |-> c]
NoOp == Op("", 0, <<>>, <<>>, "")
TargetsOf(ns, cs) == {i \in Idx(ns) : ns[i].c \in cs}
Suffix == {"", " a", "&<'\">"}
NumPool(max) == {0, 1, 5, 127, 128, 254, 255} \cup (IF max > 255 THEN {256, 1000, 32767, 65534} ELSE {}) \cup (IF max > 65535 THEN {65536, 1000000} ELSE {}) \cup {max} \cup (IF max = Top THEN {} ELSE {max - 1})
RefArg(i) == IF i = 0 THEN "@none" ELSE "@n" \o ToString(i)
AnyRef(T) == IF T = {} \/ Pick(1..6) = 1 THEN 0 ELSE Pick(T)
\* references without which the API does not create an object
MustHave == {<<"DMXChannel", 1>>, <<"LogicalChannel", 1>>, <<"SubChannelSet", 2>>, <<"Relation", 3>>, <<"Relation", 4>>, <<"PinPatch", 1>>, <<"MacroVisualValue", 2>>, <<"DMXPersonality", 2>>}

ParentsFor(ns, kc) == {i \in Idx(ns) : /\ \E n \in 1..Len(KidT[ns[i].c]) : KidT[ns[i].c][n].c = kc /\ KidT[ns[i].c][n].m # ""
                                       /\ kc \in Single => KidsC(ns, i, kc) = <<>>}
DmxOf(ns, i) == IF Up(ns, i, "DMXChannel") = 0 THEN 255 ELSE MaxAt(ns, i)
\* one creation argument: text and number
Arg(ns, on, ty, h) ==
  IF ty = "Nm" THEN [a |-> IF ns[on].c = "LogicalChannel" /\ Pick(1..4) = 1 THEN "" ELSE "N" \o ToString(h) \o Pick(Suffix), q |-> 0]
  ELSE IF ty = "#" THEN LET n == Pick(NumPool(DmxOf(ns, on))) IN [a |-> NumText(n), q |-> n]
  ELSE IF ty \in {"@Model", "@WiringObject", "@Attribute", "@SubPhysicalUnit", "@DMXChannel", "@ChannelFunction", "@DMXMode"} THEN
    LET i == AnyRef(OfClass(ns, SubSeq(ty, 2, Len(ty)))) IN [a |-> RefArg(i), q |-> i]
  ELSE IF ty = "@Geometry" THEN LET i == AnyRef(TargetsOf(ns, GeoClasses)) IN [a |-> RefArg(i), q |-> i]
  ELSE IF \E g \in GeoClasses : ty = "=" \o GeoTypes[g] THEN [a |-> SubSeq(ty, 2, Len(ty)), q |-> 0]
  ELSE [a |-> Pick(G(Dom(ty))), q |-> 0]
Create(ns, kc, h) ==
  LET ps == ParentsFor(ns, kc) IN
  IF ps = {} THEN NoOp
  ELSE LET on == Pick(ps)
           kd == KidOf(ns[on].c, kc)
           args == TLCEval([i \in 1..Len(kd.a) |-> Arg(ns, on, kd.a[i], h)])
       IN  IF \E i \in 1..Len(kd.a) : <<kc, i>> \in MustHave /\ args[i].a = "@none" THEN NoOp ELSE Op(kd.m, on, [i \in 1..Len(kd.a) |-> args[i].a], [i \in 1..Len(kd.a) |-> args[i].q], kc)
SetRow(ns) ==
  LET cs == {i \in Idx(ns) : \E k \in 1..Len(RowT[ns[i].c]) : RowT[ns[i].c][k].s # ""}
      c == Pick({ns[i].c : i \in cs})
      on == Pick(OfClass(ns, c))
      w == RowT[c][Pick({k \in 1..Len(RowT[c]) : RowT[c][k].s # ""})]
  IN  Op(w.s, on, <<IF w.t = "Nm" THEN "R" \o ToString(Len(ns)) \o "x" \o ToString(Pick(1..100000)) ELSE Pick(G(Dom(w.t)))>>, <<0>>, "")
SetRef(ns) ==
  LET cs == {i \in Idx(ns) : \E k \in 1..Len(RefT[ns[i].c]) : RefT[ns[i].c][k].s # ""}
  IN  IF cs = {} THEN NoOp
      ELSE LET c == Pick({ns[i].c : i \in cs})
               on == Pick(OfClass(ns, c))
               w == RefT[c][Pick({k \in 1..Len(RefT[c]) : RefT[c][k].s # ""})]
               T == TargetsOf(ns, w.cs)
           IN  IF T = {} THEN NoOp ELSE LET t == Pick(T) IN Op(w.s, on, <<RefArg(t)>>, <<t>>, "")
SetNum(ns) ==
  LET cs == {i \in Idx(ns) : \E k \in 1..Len(NumT[ns[i].c]) : NumT[ns[i].c][k].s # ""}
  IN  IF cs = {} THEN NoOp
      ELSE LET on == Pick(cs)
               w == NumT[ns[on].c][Pick({k \in 1..Len(NumT[ns[on].c]) : NumT[ns[on].c][k].s # ""})]
               v == IF w.g \in {"Coarse", "Fine", "Ultra", "Uber"} THEN Pick({1, 2, 3, 7, 100, 512}) ELSE Pick(NumPool(DmxOf(ns, on)))
           IN  Op(w.s, on, <<NumText(v)>>, <<v>>, "")
Special(ns) ==
  LET fs == OfClass(ns, "ChannelFunction")  gs == OfClass(ns, "Gamut") IN
  IF gs # {} /\ (fs = {} \/ Pick(1..3) = 1) THEN Op("CreatePoint", Pick(gs), <<Pick(G(ColDom))>>, <<0>>, "")
  ELSE IF fs = {} THEN NoOp
  ELSE LET m == Pick(fs \cup OfClass(ns, "DMXChannel"))
           a == Pick(NumPool(MaxAt(ns, m)))  b == Pick(NumPool(MaxAt(ns, m)))
       IN  Op(IF ns[m].c = "DMXChannel" THEN "SetModeMasterChannel" ELSE "SetModeMasterFunction", Pick(fs), <<RefArg(m), NumText(a), NumText(b)>>, <<m, a, b>>, "")
Start == <<"Geometry", "Attribute", "DMXMode", "DMXChannel", "", "LogicalChannel", "ChannelFunction">>
DmxClasses == {"DMXMode", "DMXChannel", "LogicalChannel", "ChannelFunction", "ChannelSet", "SubChannelSet", "Relation", "FTMacro", "Attribute", "SubPhysicalUnit"}
RandOp(ns, h) ==
  IF h <= Len(Start) /\ Pick(1..5) # 1 THEN (IF Start[h] = "" THEN SetNum(ns) ELSE Create(ns, Start[h], h))
  ELSE CASE Pick(1..20) \in 1..4 -> Create(ns, Pick({c \in Classes : ParentsFor(ns, c) # {}}), h)
         [] OTHER -> (LET w == Pick(1..16) IN
              CASE w \in 1..5 -> Create(ns, Pick({c \in DmxClasses : ParentsFor(ns, c) # {}}), h)
                [] w \in 6..9 -> SetRow(ns)
                [] w \in 10..12 -> SetRef(ns)
                [] w \in 13..15 -> SetNum(ns)
                [] OTHER -> Special(ns))
First == Init0("Spot 1", "ACME & Söhne", "5eed0000000000000000000000100000")
Init == nodes = First /\ hist = <<>> /\ tries = 0
Next == /\ tries < MaxOps
        /\ tries' = tries + 1
        /\ \E op \in {RandOp(nodes, tries + 1)} :
             IF op.m = "" THEN UNCHANGED <<nodes, hist>>
             ELSE \E r \in {Apply(nodes, op)} :
                    IF ~Regular(r.n) THEN UNCHANGED <<nodes, hist>>
                    ELSE nodes' = r.n /\ hist' = Append(hist, op @@ [ret |-> r.ret])
        /\ (tries' = MaxOps => PrintT("@@" \o ToJson(hist')))
=============================================================================
