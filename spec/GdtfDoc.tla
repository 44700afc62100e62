------------------------------- MODULE GdtfDoc -------------------------------
(* Documents of other programs: the same fixture written with its sections in another order, with attributes that *)
(* carry their default left out, without the channel sets that only fill gaps, with elements and attributes        *)
(* nobody knows, and with definitions missing to which something still refers.                                     *)
EXTENDS GdtfXml
Rnd(n) == RandomElement(0..(n - 1))

\* ---- attributes whose absence means the same as their presence with this value
Tags == {TagOf(c) : c \in Classes}
RowDefaults(c) == {<<RowT[c][j].x, Xv(RowT[c][j].t, IF RowT[c][j].t = "Str" THEN "" ELSE RowT[c][j].i)>> :
                     j \in {j \in 1..Len(RowT[c]) : LET w == RowT[c][j] IN w.x # "" /\ w.t # "Nm" /\ w.o = "-" /\ <<c, w.x>> \notin {<<"Fixture", "CanHaveChildren">>, <<"PrismFacet", "Color">>} /\ (w.t = "Str" \/ w.i \notin {"$1", "$2", "$3", "$4", "$5", "$6", "$7", "*", ""})}}
More == [DMXChannel |-> {<<"Highlight", "None">>, <<"Offset", "">>}, Structure |-> {<<"LinkedGeometry", "">>}, FixtureType |-> {<<"RefFT", "">>, <<"CanHaveChildren", "Yes">>},
         ChannelFunction |-> {<<f, v>> : f \in {"DMXFrom", "Default", "ModeFrom"}, v \in {"0/1", "0/2", "0/3", "0/4"}} \cup {<<"Name", "">>},
         ChannelSet |-> {<<"Name", "">>}, Relation |-> {<<"Type", "Override">>}, Facet |-> {},
         Weight |-> {<<"Value", "0">>}, LegHeight |-> {<<"Value", "0">>}, OperatingTemperature |-> {<<"Low", "0">>, <<"High", "40">>}]
DefT == [t \in Tags \cup DOMAIN More |-> UNION {RowDefaults(c) : c \in {c \in Classes : TagOf(c) = t}}
                                         \cup (IF t \in DOMAIN More THEN More[t] ELSE {})
                                         \cup (IF t \in GeoClasses THEN {<<"Position", Xv("Mat", IdMat)>>} ELSE {})]
Sparse(e, style) == IF style = "plain" \/ e.t \notin DOMAIN DefT THEN e.a
                    ELSE LET out == TLCEval({q \in DOMAIN e.a : <<q, e.a[q]>> \in DefT[e.t] /\ (style = "sparse" \/ Rnd(2) = 0)}) IN [q \in DOMAIN e.a \ out |-> e.a[q]]
Optional == {"ActivationGroups", "AdditionalColorSpaces", "Gamuts", "Filters", "Emitters", "DMXProfiles", "CRIs", "Connectors", "Relations", "FTMacros", "Revisions", "FTPresets", "Protocols", "Wheels", "Models",
             "Weight", "LegHeight", "OperatingTemperature", "Properties"}
IsEmpty(e) == e.k = <<>> /\ e.t \in Optional /\ \A q \in DOMAIN e.a : <<q, e.a[q]>> \in DefT[e.t]

Strange == {Xml("Vendor", "note" :> "x", "", <<Xml("DMXChannel", "Name" :> "y", "", <<>>)>>), Xml("FutureElement", NoA, "1", <<>>)}
Rotate(s, n) == IF s = <<>> THEN s ELSE [i \in 1..Len(s) |-> s[((i + n - 1) % Len(s)) + 1]]
Regroup(s) ==
  LET tags == SetToSeq({s[i].t : i \in 1..Len(s)})
      ts == Rotate(IF Rnd(2) = 0 THEN tags ELSE Reverse(tags), Rnd(7))
  IN  FlattenSeq([i \in 1..Len(ts) |-> SelectSeq(s, LAMBDA e: e.t = ts[i])])
Fixed == GeoClasses \cup {"Geometries", "GDTF"}
RECURSIVE Vary(_, _)
Vary(e, style) ==
  LET kids == IF style = "plain" THEN e.k ELSE SelectSeq(e.k, LAMBDA c: ~(IsEmpty(c) /\ (style = "sparse" \/ Rnd(2) = 0)))
      kept == IF e.t \in Fixed \/ style = "plain" THEN kids ELSE Regroup(kids)
      extra == IF e.t \notin {"GDTF"} /\ style # "plain" /\ Rnd(12) = 0 THEN <<RandomElement(Strange)>> ELSE <<>>
      all == IF Rnd(2) = 0 THEN extra \o kept ELSE kept \o extra
      attrs == TLCEval(Sparse(e, style)) @@ (IF style # "plain" /\ e.t \notin {"GDTF"} /\ Rnd(15) = 0 THEN "vendorNote" :> "z" ELSE NoA)
  IN  [e EXCEPT !.a = attrs, !.k = TLCEval([i \in 1..Len(all) |-> Vary(all[i], style)])]

\* ---- without the fillers
SortedSets(ns) ==
  LET w == WithoutSets(ns)
      sets == FlattenSeq([k \in 1..Len(w.n) |-> IF w.n[k].c # "ChannelFunction" THEN <<>>
                 ELSE LET ss == SetsInOrder(ns, w.at[k]) IN [s \in 1..Len(ss) |-> [ss[s] EXCEPT !.p = k]]])
  IN  w.n \o sets

\* ---- definitions that are missing: what referred to them refers to nothing
Lone == {"Model", "Wheel", "Emitter", "Filter", "Gamut", "DMXProfile", "ActivationGroup", "AdditionalColorSpace"}
Droppable(ns) == {i \in Idx(ns) : ns[i].c \in Lone /\ ns[i].f.Name # ""}
Without(ns, gone) ==
  LET keep == SelectSeq([j \in Idx(ns) |-> j], LAMBDA j: \A g \in gone : ~AncestorOrSelf(ns, g, j))
      R(x) == IF x = 0 \/ (\A k \in 1..Len(keep) : keep[k] # x) THEN 0 ELSE PosIn(keep, x)
  IN  [k \in 1..Len(keep) |-> [ns[keep[k]] EXCEPT !.p = R(@), !.r = [g \in DOMAIN @ |-> R(@[g])]]]
\* the document of ns with the elements of gone taken out, the references to them left in place
RECURSIVE DropEl(_, _)
DropEl(e, dead) == [e EXCEPT !.k = [i \in 1..Len(SelectSeq(e.k, LAMBDA c: c \notin dead)) |-> DropEl(SelectSeq(e.k, LAMBDA c: c \notin dead)[i], dead)]]
GoneDoc(ns, gone, fill) == DropEl(DocXmlF(ns, fill), {NodeXml(ns, g, fill) : g \in gone})
Reload(ns, gone, fill) == LET w == Without(ns, gone) IN SetEnds(Settle(AddNoFeature(IF fill THEN FillSets(w) ELSE SortedSets(w))))
=============================================================================
