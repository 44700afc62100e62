------------------------------ MODULE GdtfXml ------------------------------
(* The description.xml document that stands for a fixture of the model. *)
EXTENDS Gdtf

NoA == [q \in {} |-> ""]
Box(t, kids) == Xml(t, NoA, "", kids)
DmxText(n, b) == NumText(n) \o "/" \o ToString(b)
RECURSIVE Merge(_)
Merge(fs) == IF fs = <<>> THEN NoA ELSE fs[1] @@ Merge(Tail(fs))
RowAttrs(n) == Merge([j \in 1..Len(RowT[n.c]) |-> LET w == RowT[n.c][j] IN
  IF w.x = "" \/ w.g = "" THEN NoA ELSE IF w.o # "-" /\ n.f[w.g] = w.o THEN NoA ELSE w.x :> Xv(w.t, n.f[w.g])])
RefAttrs(ns, i) == LET c == ns[i].c IN Merge([j \in 1..Len(RefT[c]) |-> LET w == RefT[c][j] IN
  IF ns[i].r[w.g] # 0 THEN w.x :> RefText(ns, ns[i].r[w.g]) ELSE IF c = "Structure" /\ w.x = "LinkedGeometry" THEN w.x :> "" ELSE NoA])
Offsets(n) == LET s == <<n.d.Coarse, n.d.Fine, n.d.Ultra, n.d.Uber>>
                  k == IF \E j \in 1..4 : s[j] = 0 THEN (CHOOSE j \in 1..4 : s[j] = 0 /\ \A h \in 1..(j - 1) : s[h] # 0) - 1 ELSE 4
              IN  Join([j \in 1..k |-> ToString(s[j])], ",")
Special(ns, i) ==
  LET n == ns[i] IN
  CASE n.c = "DMXChannel" -> ("Offset" :> Offsets(n)) @@ ("Highlight" :> IF n.d.Highlight < 0 THEN "None" ELSE DmxText(n.d.Highlight, ChanBytes(n)))
    [] n.c = "ChannelFunction" -> ("DMXFrom" :> DmxText(n.d.StartAddress, BytesAt(ns, i))) @@ ("Default" :> DmxText(n.d.DefaultValue, BytesAt(ns, i)))
         @@ (LET m == n.r.ModeMaster IN IF m = 0 THEN NoA ELSE ("ModeMaster" :> RefText(ns, m)) @@ ("ModeFrom" :> DmxText(n.d.ModeFrom, BytesAt(ns, m))) @@ ("ModeTo" :> DmxText(n.d.ModeTo, BytesAt(ns, m))))
    [] n.c = "MacroDMXValue" -> IF n.r.DmxChannel = 0 THEN NoA ELSE "Value" :> DmxText(n.d.DmxValue, BytesAt(ns, n.r.DmxChannel))
    [] n.c = "MacroVisualValue" -> "Value" :> DmxText(n.d.DmxValue, BytesAt(ns, n.r.DmxChannel))
    [] n.c \in {"ColorSpace", "AdditionalColorSpace"} -> IF n.f.ColorSpace # "1" THEN NoA ELSE ("Red" :> n.f.Red) @@ ("Green" :> n.f.Green) @@ ("Blue" :> n.f.Blue) @@ ("WhitePoint" :> n.f.White)
    [] n.c = "AnimationSystem" -> ("P1" :> n.f.P1_X \o "," \o n.f.P1_Y) @@ ("P2" :> n.f.P2_X \o "," \o n.f.P2_Y) @@ ("P3" :> n.f.P3_X \o "," \o n.f.P3_Y)
    [] n.c = "Gamut" -> "Points" :> Join([j \in 1..Len(n.x) |-> "{" \o n.x[j] \o "}"], "")
    [] n.c = "Fixture" -> "RefFT" :> IF n.f.LinkedFixtureGUID = None THEN "" ELSE n.f.LinkedFixtureGUID
    [] OTHER -> NoA
\* a channel set: written where its range starts, the range itself only if it was given
SetXml(ns, f, s) == Xml("ChannelSet", ("Name" :> s.f.Name) @@ ("DMXFrom" :> DmxText(s.d.DmxStartAddress, BytesAt(ns, f))) @@ ("WheelSlotIndex" :> s.f.WheelSlot)
                        @@ (IF s.x = <<>> THEN NoA ELSE ("PhysicalFrom" :> s.f.PhysicalStart) @@ ("PhysicalTo" :> s.f.PhysicalEnd)), "", <<>>)
\* fill: write the sets that only fill gaps, as this library does
SetsInOrder(ns, i) == LET ss == SortSeq(SetsOf(ns, i), LAMBDA a, b: ns[a].d.DmxStartAddress < ns[b].d.DmxStartAddress) IN [k \in 1..Len(ss) |-> ns[ss[k]]]
RECURSIVE NodeXml(_, _, _)
NodeXml(ns, i, fill) ==
  LET n == ns[i]
      Of(cs) == LET s == SelectSeq([j \in Idx(ns) |-> j], LAMBDA j: ns[j].p = i /\ ns[j].c \in cs) IN [j \in 1..Len(s) |-> NodeXml(ns, s[j], fill)]
      PropXml == Box("Properties", <<Xml("OperatingTemperature", ("Low" :> n.f.OperatingTemperatureLow) @@ ("High" :> n.f.OperatingTemperatureHigh), "", <<>>),
                                     Xml("Weight", "Value" :> n.f.Weight, "", <<>>), Xml("LegHeight", "Value" :> n.f.LegHeight, "", <<>>)>>)
      kids == CASE n.c = "Fixture" ->
           <<Box("AttributeDefinitions", <<Box("ActivationGroups", Of({"ActivationGroup"})), Box("FeatureGroups", Of({"FeatureGroup"})), Box("Attributes", Of({"Attribute"}))>>),
             Box("Wheels", Of({"Wheel"})),
             Box("PhysicalDescriptions", Of({"ColorSpace"}) \o <<Box("AdditionalColorSpaces", Of({"AdditionalColorSpace"})), Box("Gamuts", Of({"Gamut"})), Box("Filters", Of({"Filter"})),
               Box("Emitters", Of({"Emitter"})), Box("DMXProfiles", Of({"DMXProfile"})), Box("CRIs", Of({"CRIGroup"})), Box("Connectors", Of({"Connector"})), PropXml>>),
             Box("Models", Of({"Model"})), Box("Geometries", Of(GeoClasses)), Box("DMXModes", Of({"DMXMode"})), Box("Revisions", Of({"Revision"})), Box("FTPresets", <<>>),
             Box("Protocols", Of({"FTRDM", "Art-Net", "sACN"}))>>
        [] n.c = "DMXMode" -> <<Box("DMXChannels", Of({"DMXChannel"})), Box("Relations", Of({"Relation"})), Box("FTMacros", Of({"FTMacro"}))>>
        [] n.c = "ChannelFunction" -> LET ss == IF fill THEN Filled(ns, i) ELSE SetsInOrder(ns, i) IN [j \in 1..Len(ss) |-> SetXml(ns, i, ss[j])] \o Of({"SubChannelSet"})
        [] OTHER -> Of(Classes)
  IN  Xml(TagOf(n.c), RowAttrs(n) @@ RefAttrs(ns, i) @@ Special(ns, i), "", kids)
DocXmlF(ns, fill) == Xml("GDTF", "DataVersion" :> "1.2", "", <<NodeXml(ns, 1, fill)>>)
DocXml(ns) == DocXmlF(ns, TRUE)
XmlOrdered == {"Geometries"}
=============================================================================
