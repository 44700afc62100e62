----------------------------- MODULE GdtfErrGen -----------------------------
(* Random documents with random mistakes in them: something left out, something nobody knows, a reference to    *)
(* nothing, a value that cannot be read, an element where it has no place, the same thing said twice.           *)
EXTENDS GdtfErr, GdtfDocGen
RefAttr == [t \in {"Attribute"} |-> {"ActivationGroup", "Feature", "MainAttribute"}] @@
  [GeometryReference |-> {"Geometry"}, DMXMode |-> {"Geometry"}, DMXChannel |-> {"Geometry", "InitialFunction"}, LogicalChannel |-> {"Attribute"},
   ChannelFunction |-> {"Attribute", "ModeMaster", "Wheel", "Emitter", "Filter"}, MacroDMXValue |-> {"DMXChannel"}, MacroVisualValue |-> {"ChannelFunction"}, DMXPersonality |-> {"DMXMode"}, Relation |-> {"Master", "Follower"}]
  @@ [t \in GeoClasses |-> {"Model"}]
\* these decide how numbers are read
Keep == {"Offset", "DMXFrom", "ModeFrom", "ModeTo", "DataVersion"}
Without1(a, x) == TLCEval([q \in DOMAIN a \ {x} |-> a[q]])
WithoutOne(a, S) == CHOOSE r \in {Without1(a, x) : x \in {RandomElement(S)}} : TRUE
SetA(els, i, x, v) == [els EXCEPT ![i].a = (x :> v) @@ @]
PickEl(els, S) == LET t == RandomElement({els[i].t : i \in S}) IN RandomElement({i \in S : els[i].t = t})
Fault(els, h) ==
  LET n == Len(els)
      rd == ReadMap(els)
      On(t) == {i \in 1..n : els[i].t = t /\ rd[i]}
      k == Rnd(13) + 0 * h
  IN  CASE k \in 0..2 -> LET S == {i \in 1..n : rd[i] /\ els[i].t \in FormatTags /\ DOMAIN els[i].a \ Keep # {}} IN
                        LET i == PickEl(els, S) IN [els EXCEPT ![i].a = WithoutOne(@, DOMAIN @ \ Keep)]
        [] k = 3 -> LET i == PickEl(els, {i \in 1..n : rd[i] /\ els[i].t # "GDTF"}) IN SetA(els, i, RandomElement({"vendorNote", "Nmae", "Colour", "X", "Offset2"}), "z")
        [] k \in {4, 5} -> LET S == {i \in 1..n : rd[i] /\ els[i].t \in DOMAIN RefAttr} IN
                    IF S = {} THEN els ELSE LET i == PickEl(els, S) IN SetA(els, i, RandomElement(RefAttr[els[i].t]), RandomElement({"Nowhere", "Nowhere.Nothing", "Beam_Dimmer.Dimmer.Nothing"}))
        [] k \in {6, 7} -> LET S == {i \in 1..n : rd[i] /\ els[i].t \in ValTags /\ ValT[els[i].t] # {}} IN
                    LET i == PickEl(els, S) w == RandomElement(ValT[els[i].t]) IN SetA(els, i, w[1], RandomElement(BadTexts[w[2]]))
        [] k = 8 -> LET S == {i \in 1..n : rd[i] /\ els[i].t \in {"Geometries"} \cup GeoClasses} IN
                    IF S = {} THEN els ELSE LET i == PickEl(els, S) IN
                    Append(els, [t |-> RandomElement({"Vendor", "Break", "FutureElement", "Protocol", "PinPatch", "Mirror", "DMXChannel"}), a |-> "Name" :> "odd one", p |-> i])
        [] k = 9 -> LET S == On("LogicalChannel") IN IF Cardinality(S) < 2 THEN els
                    ELSE LET i == RandomElement(S) T == {j \in S : j # i /\ els[els[j].p].p = els[els[i].p].p} IN
                         IF T = {} THEN els ELSE LET j == RandomElement(T)
                                                     e1 == IF HasA(els[j], "Attribute") THEN SetA(els, i, "Attribute", els[j].a["Attribute"]) ELSE els
                                                 IN  IF Rnd(2) = 0 /\ HasA(els[els[j].p], "Geometry") THEN SetA(e1, els[i].p, "Geometry", els[els[j].p].a["Geometry"]) ELSE e1
        [] k = 10 -> LET S == On("LogicalChannel") IN IF S = {} THEN els ELSE
                    LET l == RandomElement(S) F == {i \in On("ChannelFunction") : els[i].p = l} IN
                    IF F = {} \/ ~HasA(els[els[l].p], "Offset") THEN els
                    ELSE LET f == CHOOSE f \in F : \A g \in F : f <= g
                             o == els[els[l].p].a["Offset"]
                         IN  IF o \notin DOMAIN ResOf(nodes) THEN els ELSE SetA(els, f, "DMXFrom", DmxText(7, ResOf(nodes)[o]))
        [] k = 11 -> LET S == On("ChannelFunction") IN IF S = {} THEN els     \* the same mode master for all functions of a channel
                    ELSE LET f == RandomElement({i \in S : HasA(els[i], "ModeMaster")} \cup {0}) IN
                         IF f = 0 THEN els ELSE [i \in 1..n |-> IF els[i].p = els[f].p /\ els[i].t = "ChannelFunction"
                                                   THEN [els[i] EXCEPT !.a = [x \in {"ModeMaster", "ModeFrom", "ModeTo"} \cap DOMAIN els[f].a |-> els[f].a[x]] @@ Without1(Without1(Without1(@, "ModeMaster"), "ModeFrom"), "ModeTo")] ELSE els[i]]
        [] OTHER -> LET i == PickEl(els, {i \in 1..n : rd[i] /\ els[i].t \notin {"GDTF", "FixtureType", "ColorSpace"}}) IN [els EXCEPT ![i].t = "Gone"]      \* an element nobody knows in its place
Faulty(els, h) == LET e == TLCEval(Fault(els, h)) IN IF Clear(e) THEN e ELSE els
EWrite == /\ phase = "build" /\ tries = MaxOps /\ phase' = "done" /\ UNCHANGED <<nodes, hist, tries>>
          /\ \E style \in {RandomElement({"plain", "plain", "sparse", "mixed"})} :
             \E doc \in {Vary(DocXmlF(nodes, Rnd(3) # 0), style)} :
             \E n \in {RandomElement(0..4)} :
             \E els \in {FoldLeft(LAMBDA e, h: Faulty(e, h), Flat(doc), [h \in 1..n |-> h])} :
               PrintT("@@" \o ToJson([nums |-> NumsOf(nodes), res |-> ResOf(nodes), xml |-> Tree(els, 1)]))
ENext == Build \/ EWrite
=============================================================================
