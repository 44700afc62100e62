------------------------------- MODULE GdtfMC -------------------------------
(* Exhaustive check of the fixture model over small alphabets: every sequence of up to MaxOps calls on a     *)
(* fixture that starts as Base, with every argument of the small domains.                                     *)
EXTENDS GdtfXml
CONSTANTS MaxOps, Focus        \* Focus: "dmx", "geo", "attr"
VARIABLES nodes, steps
Op(m, on, a, q, c) == [m |-> m, on |-> on, a |-> a, q |-> q, c |-> c]
Do(ns, op) == Apply(ns, op).n
New(ns, on, c, a, q) == Do(ns, Op("Create", on, a, q, c))
Base0 == Init0("F", "M", "00000000000000000000000000000001")
WithGeo == New(Base0, 1, "Geometry", <<"9", "G", "", IdMat>>, <<0, 0, 0, 0>>)                              \* 3
WithAttr == New(New(New(WithGeo, 1, "FeatureGroup", <<"FG", "FG">>, <<0, 0>>), 4, "Feature", <<"Ft">>, <<0>>), 1, "Attribute", <<"Dim", "D">>, <<0, 0>>)   \* 4 5 6
WithMode == New(New(WithAttr, 1, "DMXMode", <<"M1">>, <<0>>), 7, "DMXChannel", <<"@n3">>, <<3>>)           \* 7 8
WithFunc == New(New(WithMode, 8, "LogicalChannel", <<"@n6">>, <<6>>), 9, "ChannelFunction", <<"F1">>, <<0>>)  \* 9 10
Base == CASE Focus = "dmx" -> WithFunc [] Focus = "geo" -> WithMode [] OTHER -> WithAttr
Nm(ns) == "X" \o ToString(Len(ns) + 1)
Nums1 == {0, 1, 128, 255}
All(ns, c) == OfClass(ns, c)
DmxOps(ns) ==
  {Op("", i, <<Nm(ns)>>, <<0>>, "ChannelFunction") : i \in All(ns, "LogicalChannel")}
  \cup {Op("", i, <<"">>, <<0>>, "ChannelFunction") : i \in All(ns, "LogicalChannel")}
  \cup {Op("", i, <<"S", "", "">>, <<0, a, b>>, "ChannelSet") : i \in All(ns, "ChannelFunction"), a \in Nums1, b \in Nums1}
  \cup {Op("SetStartAddress", i, <<"">>, <<v>>, "") : i \in All(ns, "ChannelFunction"), v \in Nums1}
  \cup {Op("SetCoarse", i, <<"">>, <<v>>, "") : i \in All(ns, "DMXChannel"), v \in {0, 1}}
  \cup {Op("SetModeMasterFunction", i, <<"", "", "">>, <<j, 0, 255>>, "") : i \in All(ns, "ChannelFunction"), j \in All(ns, "ChannelFunction")}
  \cup {Op("SetAttribute", i, <<"">>, <<j>>, "") : i \in All(ns, "ChannelFunction"), j \in All(ns, "Attribute")}
GeoOps(ns) ==
  {Op("", i, <<"9", Nm(ns), "", IdMat>>, <<0, 0, 0, 0>>, "Geometry") : i \in {1} \cup All(ns, "Geometry")}
  \cup {Op("", i, <<"17", Nm(ns), "", IdMat>>, <<0, 0, 0, 0>>, "GeometryReference") : i \in All(ns, "Geometry")}
  \cup {Op("SetGeometryReference", i, <<"">>, <<j>>, "") : i \in All(ns, "GeometryReference"), j \in All(ns, "Geometry")}
  \cup {Op("", i, <<"2", "7">>, <<0, 0>>, "Break") : i \in All(ns, "GeometryReference")}
  \cup {Op("SetGeometry", i, <<"">>, <<j>>, "") : i \in All(ns, "DMXMode") \cup All(ns, "DMXChannel"), j \in All(ns, "Geometry")}
  \cup {Op("", i, <<"">>, <<6>>, "LogicalChannel") : i \in All(ns, "DMXChannel")}
  \cup {Op("", i, <<"">>, <<3>>, "DMXChannel") : i \in All(ns, "DMXMode")}
  \cup {Op("SetName", i, <<"R" \o ToString(steps)>>, <<0>>, "") : i \in All(ns, "Geometry")}
AttrOps(ns) ==
  {Op("", 1, <<Nm(ns), "">>, <<0, 0>>, "Attribute"), Op("", 1, <<Nm(ns)>>, <<0>>, "ActivationGroup"), Op("", 1, <<Nm(ns), "">>, <<0, 0>>, "FeatureGroup"), Op("", 1, <<Nm(ns)>>, <<0>>, "DMXMode")}
  \cup {Op("", i, <<Nm(ns)>>, <<0>>, "Feature") : i \in All(ns, "FeatureGroup")}
  \cup {Op("SetFeature", i, <<"">>, <<j>>, "") : i \in All(ns, "Attribute"), j \in All(ns, "Feature")}
  \cup {Op("SetMainAttribute", i, <<"">>, <<j>>, "") : i \in All(ns, "Attribute"), j \in All(ns, "Attribute")}
  \cup {Op("SetActivationGroup", i, <<"">>, <<j>>, "") : i \in All(ns, "Attribute"), j \in All(ns, "ActivationGroup")}
  \cup {Op("", i, <<t>>, <<0>>, "SubPhysicalUnit") : i \in All(ns, "Attribute"), t \in {"0", "4", "7"}}
  \cup {Op("SetType", i, <<t>>, <<0>>, "") : i \in All(ns, "SubPhysicalUnit"), t \in {"0", "4", "7"}}
  \cup {Op("", i, <<"@n3">>, <<3>>, "DMXChannel") : i \in All(ns, "DMXMode")}
  \cup {Op("", i, <<"">>, <<j>>, "LogicalChannel") : i \in All(ns, "DMXChannel"), j \in All(ns, "Attribute")}
  \cup {Op("", i, <<Nm(ns)>>, <<0>>, "ChannelFunction") : i \in All(ns, "LogicalChannel")}
Ops(ns) == CASE Focus = "dmx" -> DmxOps(ns) [] Focus = "geo" -> GeoOps(ns) [] OTHER -> AttrOps(ns)
Init == nodes = Base /\ steps = 0
Next == steps < MaxOps /\ steps' = steps + 1 /\ \E op \in Ops(nodes) : nodes' = Do(nodes, op) /\ Regular(nodes')

Parents(ns) == \A i \in Idx(ns) : ns[i].p < i /\ (i > 1 => ns[i].p >= 1) /\ \E j \in 1..Len(KidT[ns[IF i = 1 THEN 1 ELSE ns[i].p].c]) : i = 1 \/ KidT[ns[ns[i].p].c][j].c = ns[i].c
WalkOnce(ns) == LET o == Preorder(ns, ColOrder) IN Len(o) = Len(ns) /\ {o[k] : k \in 1..Len(o)} = Idx(ns)
Targets(ns) == \A i \in Idx(ns) : \A j \in 1..Len(RefT[ns[i].c]) : LET w == RefT[ns[i].c][j] IN ns[i].r[w.g] # 0 => ns[ns[i].r[w.g]].c \in w.cs
Sound(ns) == Parents(ns) /\ WalkOnce(ns) /\ Targets(ns)
\* a saved fixture can be saved again without changing
SaveStable(Saved) == \A again \in {Restore(Saved)} : Dump(again, TRUE) = Dump(Saved, TRUE) /\ DocXml(again) = DocXml(Saved)
\* saving only adds: nothing that was described disappears
KeepsAll(Saved) == \A c \in Classes : Cardinality(OfClass(nodes, c)) <= Cardinality(OfClass(Saved, c))
\* references can be told apart by their text within one mode
Distinct == \A i, j \in Idx(nodes) : i < j /\ nodes[i].c = nodes[j].c /\ nodes[i].c \in {"ChannelFunction", "Attribute", "Feature", "Geometry"}
               /\ Up(nodes, i, "DMXMode") = Up(nodes, j, "DMXMode") => RefText(nodes, i) # RefText(nodes, j)
\* the sets of a function cover its range exactly once
Partition(Saved) == \A f \in OfClass(Saved, "ChannelFunction") :
  LET ss == SetsOf(Saved, f) IN
  ss # <<>> => /\ Saved[ss[1]].d.DmxStartAddress = Saved[f].d.StartAddress
               /\ Saved[ss[Len(ss)]].d.DmxEndAddress = FuncEnd(Saved, f, TRUE)
               /\ \A k \in 2..Len(ss) : Saved[ss[k]].d.DmxStartAddress = Saved[ss[k - 1]].d.DmxEndAddress + 1
               /\ \A k \in 1..Len(ss) : Saved[ss[k]].d.DmxStartAddress <= Saved[ss[k]].d.DmxEndAddress
SavedFine == \A s \in {Restore(nodes)} : Sound(nodes) /\ Sound(s) /\ SaveStable(s) /\ KeepsAll(s) /\ Partition(s)
=============================================================================
