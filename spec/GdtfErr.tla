------------------------------ MODULE GdtfErr ------------------------------
(* What is wrong with a description.xml, and where: the report that the reader of a fixture gives.  It is a     *)
(* function of the document alone: els is the document in preorder, els[i] = [t: tag, a: attributes, p: parent]. *)
EXTENDS GdtfDoc

RECURSIVE FlatFrom(_, _, _)
FlatFrom(e, p, at) == FoldLeft(LAMBDA acc, k: TLCEval(acc \o FlatFrom(k, at, at + Len(acc))), <<[t |-> e.t, a |-> e.a, p |-> p]>>, e.k)
Flat(e) == FlatFrom(e, 0, 1)
RECURSIVE Tree(_, _)
Tree(els, i) == LET ks == SelectSeq([j \in 1..Len(els) |-> j], LAMBDA j: els[j].p = i) IN Xml(els[i].t, els[i].a, "", [k \in 1..Len(ks) |-> Tree(els, ks[k])])

\* ---------------------------------------------------------------- the format: which element may stand where, with which attributes
GeoOnly == [t \in GeoClasses |-> GeoClasses \cup (CASE t = "GeometryReference" -> {"Break"} [] t = "Laser" -> {"Protocol"} [] t = "WiringObject" -> {"PinPatch"} [] OTHER -> {})]
Holds == GeoOnly @@ [
  GDTF |-> {"FixtureType"},
  FixtureType |-> {"AttributeDefinitions", "Wheels", "PhysicalDescriptions", "Models", "Geometries", "DMXModes", "Revisions", "Protocols"},
  AttributeDefinitions |-> {"ActivationGroups", "FeatureGroups", "Attributes"}, ActivationGroups |-> {"ActivationGroup"}, FeatureGroups |-> {"FeatureGroup"}, FeatureGroup |-> {"Feature"},
  Attributes |-> {"Attribute"}, Attribute |-> {"SubPhysicalUnit"}, Wheels |-> {"Wheel"}, Wheel |-> {"Slot"}, Slot |-> {"Facet", "AnimationSystem"},
  PhysicalDescriptions |-> {"ColorSpace", "AdditionalColorSpaces", "Gamuts", "Filters", "Emitters", "DMXProfiles", "CRIs", "Connectors", "Properties"},
  AdditionalColorSpaces |-> {"ColorSpace"}, Gamuts |-> {"Gamut"}, Filters |-> {"Filter"}, Emitters |-> {"Emitter"}, DMXProfiles |-> {"DMXProfile"}, CRIs |-> {"CRIGroup"}, Connectors |-> {"Connector"},
  Filter |-> {"Measurement"}, Emitter |-> {"Measurement"}, Measurement |-> {"MeasurementPoint"}, DMXProfile |-> {"Point"}, CRIGroup |-> {"CRI"},
  Models |-> {"Model"}, Geometries |-> GeoClasses, DMXModes |-> {"DMXMode"}, DMXMode |-> {"DMXChannels", "Relations", "FTMacros"}, DMXChannels |-> {"DMXChannel"}, Relations |-> {"Relation"}, FTMacros |-> {"FTMacro"},
  DMXChannel |-> {"LogicalChannel"}, LogicalChannel |-> {"ChannelFunction"}, ChannelFunction |-> {"ChannelSet", "SubChannelSet"},
  FTMacro |-> {"MacroDMX", "MacroVisual"}, MacroDMX |-> {"MacroDMXStep"}, MacroDMXStep |-> {"MacroDMXValue"}, MacroVisual |-> {"MacroVisualStep"}, MacroVisualStep |-> {"MacroVisualValue"},
  Revisions |-> {"Revision"}, Protocols |-> {"FTRDM", "Art-Net", "sACN"}, FTRDM |-> {"SoftwareVersionID"}, SoftwareVersionID |-> {"DMXPersonality"}] @@ ("Art-Net" :> {"Map"}) @@ ("sACN" :> {"Map"})
Attrs(need, opt) == [need |-> need, opt |-> opt]
Base == {"Name", "Position"}
Payload == {"ElectricalPayLoad", "VoltageRangeMin", "VoltageRangeMax", "FrequencyRangeMin", "FrequencyRangeMax", "CosPhi"}
Wired == Base \cup {"ComponentType", "ConnectorType", "SignalType", "PinCount", "SignalLayer", "Orientation", "WireGroup"}
Axes == {"X", "Y", "Z", "XX", "YY", "ZZ"}
Loads == {"Capacity" \o x : x \in Axes} \cup {"Resistance" \o x : x \in Axes}
FormatT == [
  ActivationGroup |-> Attrs({"Name"}, {}), Feature |-> Attrs({"Name"}, {}), FeatureGroup |-> Attrs({"Name", "Pretty"}, {}),
  SubPhysicalUnit |-> Attrs({"Type", "PhysicalUnit"}, {"PhysicalFrom", "PhysicalTo"}),
  Attribute |-> Attrs({"Name", "Pretty", "Feature"}, {"ActivationGroup", "MainAttribute", "PhysicalUnit", "Color"}),
  Wheel |-> Attrs({"Name"}, {}), Facet |-> Attrs({"Rotation"}, {"Color"}), AnimationSystem |-> Attrs({"P1", "P2", "P3", "Radius"}, {}),
  Slot |-> Attrs({"Name"}, {"Color", "MediaFileName", "Filter", "Duration", "Width", "Height", "FPS"}),
  Model |-> Attrs({"Name"}, {"File", "Length", "Width", "Height", "PrimitiveType", "SVGOffsetX", "SVGOffsetY", "SVGSideOffsetX", "SVGSideOffsetY", "SVGFrontOffsetX", "SVGFrontOffsetY"}),
  Display |-> Attrs(Base \cup {"Texture"}, {"Model", "Width", "Height", "IsCurved"}),
  Laser |-> Attrs(Base \cup {"ColorType", "OutputStrength", "BeamDiameter", "BeamDivergenceMin", "BeamDivergenceMax", "ScanAnglePan", "ScanAngleTilt", "ScanSpeed"}, {"Model", "Color", "Emitter"}),
  Protocol |-> Attrs({"Name"}, {}), PinPatch |-> Attrs({"ToWiringObject", "FromPin", "ToPin"}, {}),
  WiringObject |-> Attrs(Wired, {"Model", "MaxPayLoad", "Voltage", "FuseCurrent", "FuseRating"} \cup Payload),
  Inventory |-> Attrs(Base \cup {"Count"}, {"Model"}),
  Structure |-> Attrs(Base \cup {"StructureType"}, {"Model", "LinkedGeometry", "CrossSectionType", "CrossSectionHeight", "CrossSectionWallThickness", "TrussCrossSection"}),
  Support |-> Attrs(Base \cup {"SupportType"}, {"Model", "RopeCrossSection", "RopeOffset"} \cup Loads),
  Beam |-> Attrs(Base, {"LampType", "PowerConsumption", "LuminousFlux", "ColorTemperature", "BeamAngle", "FieldAngle", "BeamRadius", "ThrowRatio", "RectangleRatio", "BeamType", "ColorRenderingIndex", "Model", "EmitterSpectrum"}),
  Break |-> Attrs({}, {"DMXOffset", "DMXBreak"}), GeometryReference |-> Attrs(Base \cup {"Geometry"}, {"Model"}),
  DMXMode |-> Attrs({"Name", "Geometry"}, {"Description"}), DMXChannel |-> Attrs({"Geometry"}, {"InitialFunction", "DMXBreak", "Offset", "Highlight", "Default"}),
  LogicalChannel |-> Attrs({"Attribute"}, {"Snap", "Master", "MibFade", "DMXChangeTimeLimit"}),
  ChannelFunction |-> Attrs({}, {"Name", "Attribute", "OriginalAttribute", "Default", "DMXFrom", "PhysicalFrom", "PhysicalTo", "Wheel", "Emitter", "ModeMaster", "ModeFrom", "ModeTo", "RealFade", "Filter",
                                 "RealAcceleration", "ColorSpace", "Gamut", "DMXProfile", "Min", "Max", "CustomName"}),
  ChannelSet |-> Attrs({}, {"Name", "DMXFrom", "WheelSlotIndex", "PhysicalFrom", "PhysicalTo"}),
  SubChannelSet |-> Attrs({"SubPhysicalUnit"}, {"Name", "PhysicalFrom", "PhysicalTo", "DMXProfile"}),
  Relation |-> Attrs({"Name", "Master", "Follower", "Type"}, {}), Revision |-> Attrs({"Date"}, {"Text", "UserID", "ModifiedBy"}),
  Emitter |-> Attrs({"Name", "Color"}, {"DominantWaveLength", "DiodePart"}), FTMacro |-> Attrs({"Name"}, {"ChannelFunction"}), MeasurementPoint |-> Attrs({"WaveLength", "Energy"}, {}),
  FixtureType |-> Attrs({"Name", "ShortName", "LongName", "Manufacturer", "Description", "FixtureTypeID"}, {"Thumbnail", "RefFT", "ThumbnailOffsetX", "ThumbnailOffsetY", "CanHaveChildren"}),
  Point |-> Attrs({}, {"DMXPercentage", "CFC3", "CFC2", "CFC1", "CFC0"}), DMXProfile |-> Attrs({}, {"Name"}), CRIGroup |-> Attrs({}, {"ColorTemperature"}), CRI |-> Attrs({}, {"CES", "ColorRenderingIndex"}),
  FTRDM |-> Attrs({"ManufacturerID", "DeviceModelID"}, {}), Map |-> Attrs({"Key", "Value"}, {}), MacroDMXStep |-> Attrs({}, {"Duration"}), MacroDMXValue |-> Attrs({"Value", "DMXChannel"}, {}),
  MacroVisualStep |-> Attrs({}, {"Duration", "Fade", "Delay"}), MacroVisualValue |-> Attrs({"Value", "ChannelFunction"}, {}), Gamut |-> Attrs({"Name", "Points"}, {}),
  ColorSpace |-> Attrs({}, {"Red", "Green", "Blue", "WhitePoint", "Mode", "Name"}), Connector |-> Attrs({"Name", "Type"}, {"DMXBreak", "Gender", "Length"}), Protocols |-> Attrs({}, {})]
  @@ [t \in {"Geometry", "Axis", "FilterBeam", "FilterColor", "FilterShaper", "FilterGobo", "MediaServerCamera", "MediaServerLayer", "MediaServerMaster", "Magnet"} |-> Attrs(Base, {"Model"})]

HasA(e, x) == x \in DOMAIN e.a
Val(e, x) == IF HasA(e, x) THEN e.a[x] ELSE ""
\* what is mandatory may depend on what else the element says
NeedOf(e) == FormatT[e.t].need \cup
  CASE e.t = "Laser" -> IF Val(e, "ColorType") = "SingleWaveLength" THEN {"Color"} ELSE {}
    [] e.t = "WiringObject" -> (CASE Val(e, "ComponentType") = "Consumer" -> Payload [] Val(e, "ComponentType") = "PowerSource" -> {"MaxPayLoad", "Voltage"}
                                  [] Val(e, "ComponentType") = "Fuse" -> {"FuseCurrent", "FuseRating"} [] OTHER -> {})
    [] e.t = "Structure" -> IF Val(e, "CrossSectionType") = "Tube" THEN {"CrossSectionHeight", "CrossSectionWallThickness"} ELSE {"TrussCrossSection"}
    [] e.t = "Support" -> IF Val(e, "SupportType") = "GroundSupport" THEN Loads ELSE {"RopeCrossSection", "RopeOffset"}
    [] OTHER -> {}
KnownOf(e) == FormatT[e.t].need \cup FormatT[e.t].opt

\* ---------------------------------------------------------------- values that cannot be read, and what is said about them
EnumErr == [PrimitiveType |-> 22, PhysicalUnit |-> 24, BeamType |-> 25, LampType |-> 26, Snap |-> 28, Master |-> 29, Relation |-> 30, Ces |-> 45, ColorSpace |-> 45, Interpolation |-> 65, YesNo |-> 66]
BadT == TLCEval([t \in DOMAIN EnumErr |-> "Bogus" :> {EnumErr[t]}] @@
  [Col |-> ("0.3" :> {19, 54}) @@ ("0.1,0.2" :> {19}) @@ ("0.1,0.2,3,4" :> {19}),
   Mat |-> ("1,0,0,0}{0,1,0,0}{0,0,1,0}{0,0,0,1}" :> {46}) @@ ("{1,0,0,0}{0,1,0,0}{0,0,1,0}{0,0,0,1" :> {47}) @@ ("{1,0,0,0}{0,1,0,0}{0,0,1,0}" :> {48}) @@ ("{1,0,0,0}{0,1,0,0}{0,0}{0,0,0,1}" :> {49}),
   Rot |-> ("1,0,0}{0,1,0}{0,0,1}" :> {50}) @@ ("{1,0,0}{0,1,0}{0,0,1" :> {51}) @@ ("{1,0,0}{0,1,0}" :> {52}) @@ ("{1,0,0}{0,1,0,0}{0,0,1}" :> {53}),
   Vec |-> ("1,2,3}" :> {46}) @@ ("{1,2,3" :> {47}) @@ ("{1,2}" :> {49}),
   Date |-> ("2026-01-02" :> {57}), Hex |-> ("12" :> {61}) @@ ("0x1G" :> {61}) @@ ("0x10000" :> {60}),
   Dmx |-> ("12" :> {21}) @@ ("a/1" :> {21}) @@ ("1/b" :> {21}), Addr |-> ("0" :> {20}) @@ ("1.600" :> {20}) @@ ("0.5" :> {20}), Uid |-> ("5eed" :> {18}),
   Cols |-> ("0.1,0.2,3}" :> {71}) @@ ("{0.1,0.2,3}{0.1,0.2}" :> {71}) @@ ("{0.1,0.2,3" :> {71})])
BadKinds == TLCEval(DOMAIN BadT)
\* the attributes of which a value can be unreadable
FormatTags == TLCEval(DOMAIN FormatT)
Holders == TLCEval(DOMAIN Holds)
ValTags == FormatTags \cup {"Filter", "Measurement"}
ValT == TLCEval([t \in ValTags |->
   UNION {{<<RowT[c][j].x, RowT[c][j].t>> : j \in {j \in 1..Len(RowT[c]) : RowT[c][j].x # "" /\ RowT[c][j].t \in BadKinds}} : c \in {c \in Classes : TagOf(c) = t}}
   \cup (CASE t = "Gamut" -> {<<"Points", "Cols">>} [] t = "ChannelFunction" -> {<<"Default", "Dmx">>} [] t = "DMXChannel" -> {<<"Highlight", "Dmx">>} [] t = "FixtureType" -> {<<"RefFT", "Uid">>} [] OTHER -> {})])
BadTexts == TLCEval([t \in BadKinds |-> DOMAIN BadT[t]])
ValErrs(vt, e) == IF e.t \notin ValTags THEN {} ELSE UNION {IF w[1] \in DOMAIN e.a /\ ~(e.t = "ColorSpace" /\ w[1] # "Mode" /\ Val(e, "Mode") # "Custom") /\ e.a[w[1]] \in BadTexts[w[2]] THEN BadT[w[2]][e.a[w[1]]] ELSE {} : w \in vt[e.t]}
                  \cup (IF e.t = "Facet" /\ Val(e, "Rotation") = "" THEN {50, 51, 52} ELSE {})      \* a rotation that is not there has no brackets and no lines

\* ---------------------------------------------------------------- the report
\* an element that stands where the format has no place for it is passed over with all that it contains
ReadMap(els) == FoldLeft(LAMBDA m, i: TLCEval(Append(m, i = 1 \/ (els[i].p > 0 /\ m[els[i].p] /\ els[els[i].p].t \in Holders /\ els[i].t \in Holds[els[els[i].p].t]))), <<>>, [i \in 1..Len(els) |-> i])
Err(t, i, m) == [t |-> t, i |-> i, m |-> m]
\* nums: the DMX values in the document; res: the offsets of channels in it; vt: ValT
Report(els, nums, res, vt) ==
  LET rd == TLCEval(ReadMap(els))
      Live == TLCEval({i \in 1..Len(els) : rd[i]})
      OfTag == TLCEval([t \in {els[i].t : i \in Live} |-> {i \in Live : els[i].t = t}])
      All(t) == IF t \in DOMAIN OfTag THEN OfTag[t] ELSE {}
      Geos == UNION {All(t) : t \in GeoClasses}
      NamesIn(S) == {Val(els[i], "Name") : i \in S}
      ModelNames == TLCEval(NamesIn(All("Model")))
      GeoNames == TLCEval(NamesIn(Geos))
      TopNames == TLCEval(NamesIn({i \in Geos : els[els[i].p].t = "Geometries"}))
      AttrNames == TLCEval(NamesIn(All("Attribute")) \cup {"NoFeature"})
      Features == TLCEval({Val(els[els[i].p], "Name") \o "." \o Val(els[i], "Name") : i \in All("Feature")})
      Ref(i, x) == Val(els[i], x)
      KidsT(i, t) == SelectSeq([j \in 1..Len(els) |-> j], LAMBDA j: els[j].p = i /\ j \in All(t))
      \* attributes and elements
      ByFormat == UNION {IF els[i].t \notin FormatTags THEN {} ELSE {Err(0, i, x) : x \in NeedOf(els[i]) \ DOMAIN els[i].a} \cup {Err(1, i, x) : x \in DOMAIN els[i].a \ KnownOf(els[i])} : i \in Live}
      Strangers == UNION {IF els[i].p = 0 \/ ~rd[els[i].p] \/ rd[i] THEN {}
                          ELSE LET pt == els[els[i].p].t IN
                               CASE pt = "Geometries" -> {Err(2, i, "")}
                                 [] pt \in GeoClasses /\ els[i].t = "Break" -> {Err(2, i, ""), Err(5, i, "")}
                                 [] pt \in GeoClasses /\ els[i].t \notin {"Protocol", "PinPatch"} -> {Err(2, i, "")}
                                 [] OTHER -> {} : i \in 1..Len(els)}
      Values == UNION {{Err(t, i, "") : t \in ValErrs(vt, els[i])} : i \in Live}
      \* references
      Lost(t, tag, x, may, S) == {Err(t, i, "") : i \in {i \in All(tag) : ~(may /\ Ref(i, x) = "") /\ (Ref(i, x) = "" \/ Ref(i, x) \notin S)}}
      Refs1 == {Err(11, i, "") : i \in {i \in Geos : Ref(i, "Model") # "" /\ Ref(i, "Model") \notin ModelNames}}
               \cup Lost(12, "GeometryReference", "Geometry", FALSE, GeoNames) \cup Lost(13, "Attribute", "ActivationGroup", TRUE, NamesIn(All("ActivationGroup")))
               \cup Lost(14, "Attribute", "Feature", TRUE, Features) \cup Lost(15, "Attribute", "MainAttribute", TRUE, AttrNames) \cup Lost(16, "DMXMode", "Geometry", FALSE, TopNames)
               \cup Lost(8, "DMXChannel", "Geometry", FALSE, GeoNames) \cup Lost(9, "LogicalChannel", "Attribute", TRUE, AttrNames) \cup Lost(59, "ChannelFunction", "Attribute", TRUE, AttrNames)
               \cup Lost(58, "DMXPersonality", "DMXMode", FALSE, NamesIn(All("DMXMode")))
      \* channels, their names, and what refers to them
      ModeOf(i) == els[els[i].p].p
      Logs == TLCEval([c \in All("DMXChannel") |-> KidsT(c, "LogicalChannel")])
      Funs == TLCEval([l \in All("LogicalChannel") |-> KidsT(l, "ChannelFunction")])
      AttrOf(i) == IF Ref(i, "Attribute") = "" THEN "NoFeature" ELSE IF Ref(i, "Attribute") \in AttrNames THEN Ref(i, "Attribute") ELSE ""
      GeoOf(c) == IF Ref(c, "Geometry") \in GeoNames THEN Ref(c, "Geometry") ELSE ""
      ChanT == TLCEval([c \in All("DMXChannel") |-> LET ls == SelectSeq(Logs[c], LAMBDA l: AttrOf(l) # "") IN GeoOf(c) \o "_" \o (IF ls = <<>> THEN "" ELSE AttrOf(ls[1]))])
      FunText(c, l, k) == LET f == Funs[l][k] IN ChanT[c] \o "." \o AttrOf(l) \o "."
                            \o (IF Ref(f, "Name") # "" THEN Ref(f, "Name") ELSE (IF AttrOf(f) = "" THEN "NoFeature" ELSE AttrOf(f)) \o " " \o ToString(k))
      FunsOf(c) == UNION {{FunText(c, Logs[c][n], k) : k \in 1..Len(Funs[Logs[c][n]])} : n \in 1..Len(Logs[c])}
      FunTexts == TLCEval([c \in All("DMXChannel") |-> FunsOf(c)])
      ChansOf == TLCEval([m \in All("DMXMode") |-> {c \in All("DMXChannel") : ModeOf(c) = m}])
      Above(i) == els[i].p
      Known(m) == {ChanT[c] : c \in ChansOf[m]}
      KnownF(m) == UNION {FunTexts[c] : c \in ChansOf[m]}
      Refs2 == {Err(62, i, "") : i \in {i \in All("MacroDMXValue") : Ref(i, "DMXChannel") \notin Known(Above(Above(Above(Above(Above(i))))))}}
               \cup UNION {LET c == Above(Above(i))  m == ModeOf(c) IN IF Ref(i, "ModeMaster") = "" \/ Ref(i, "ModeMaster") \in Known(m) \cup KnownF(m) THEN {} ELSE {Err(17, c, "")} : i \in All("ChannelFunction")}
               \cup UNION {IF Ref(c, "InitialFunction") # "" THEN (IF Ref(c, "InitialFunction") \in FunTexts[c] THEN {} ELSE {Err(69, c, "")})
                           ELSE IF Logs[c] = <<>> \/ Funs[Logs[c][1]] = <<>> THEN {Err(68, c, "")} ELSE {} : c \in All("DMXChannel")}
      \* a geometry has one logical channel per attribute in a mode
      Pair(l) == <<ModeOf(els[l].p), GeoOf(els[l].p), AttrOf(l)>>
      Twice == {Err(70, l, "") : l \in {l \in All("LogicalChannel") : /\ GeoOf(els[l].p) # "" /\ AttrOf(l) \notin {"", "NoFeature", "Dummy"}
                                                                      /\ \E k \in All("LogicalChannel") : k < l /\ Pair(k) = Pair(l)}}
      \* functions that answer to the same DMX values need mode masters that tell them apart
      BytesOf(c) == IF Ref(c, "Offset") \in DOMAIN res THEN res[Ref(c, "Offset")] ELSE 2
      NumOf(f, x) == IF Ref(f, x) \in DOMAIN nums THEN nums[Ref(f, x)] ELSE 0
      Start(l, k) == IF k = 1 THEN 0 ELSE NumOf(Funs[l][k], "DMXFrom")
      NextL(l) == LET c == els[l].p  n == PosIn(Logs[c], l) IN IF n = Len(Logs[c]) THEN 0 ELSE Logs[c][n + 1]
      EndOf(l, k) == LET nx == IF k < Len(Funs[l]) THEN Start(l, k + 1) ELSE IF NextL(l) = 0 \/ Funs[NextL(l)] = <<>> THEN 0 ELSE Start(NextL(l), 1)
                     IN  IF nx > Start(l, k) THEN nx - 1 ELSE MaxOf(BytesOf(els[l].p))
      Met(a1, b1, a2, b2) == a1 <= b2 /\ a2 <= b1
      Overlap(l, i, j) == Met(Start(l, i), EndOf(l, i), Start(l, j), EndOf(l, j))
      MasterOf(l, k) == LET r == Ref(Funs[l][k], "ModeMaster")  m == ModeOf(els[l].p) IN IF r \in Known(m) \cup KnownF(m) THEN r ELSE ""
      Clash(l) == UNION {IF ~Overlap(l, w[1], w[2]) THEN {}
                         ELSE IF MasterOf(l, w[1]) = "" THEN {Err(67, 0, "")}
                         ELSE IF MasterOf(l, w[1]) = MasterOf(l, w[2]) /\ Met(NumOf(Funs[l][w[1]], "ModeFrom"), NumOf(Funs[l][w[1]], "ModeTo"), NumOf(Funs[l][w[2]], "ModeFrom"), NumOf(Funs[l][w[2]], "ModeTo"))
                              THEN {Err(72, 0, "")} ELSE {} : w \in {w \in (1..Len(Funs[l])) \X (1..Len(Funs[l])) : w[1] < w[2]}}
      Clashes == UNION {Clash(l) : l \in All("LogicalChannel")}
      NotZero == {Err(63, Funs[l][1], "") : l \in {l \in All("LogicalChannel") : Funs[l] # <<>> /\ NumOf(Funs[l][1], "DMXFrom") # 0}}
  IN  ByFormat \cup Strangers \cup Values \cup Refs1 \cup Refs2 \cup Twice \cup Clashes \cup NotZero
\* a document in which it cannot be told which of the nameless things is meant is not a question
Clear(els) == /\ \A i \in 1..Len(els) : els[i].t \in GeoClasses \cup {"Attribute", "DMXMode"} => HasA(els[i], "Name") /\ els[i].a["Name"] # ""
\* the DMX values and offsets a fixture can have
NumsOf(ns) == LET S == UNION {{ns[i].d[g] : g \in DOMAIN ns[i].d} : i \in Idx(ns)} \cup {0, 7}
                  T == TLCEval([p \in {n \in S : n >= 0} \X (1..4) |-> DmxText(p[1], p[2])])
              IN  TLCEval([x \in {T[p] : p \in DOMAIN T} |-> (CHOOSE p \in DOMAIN T : T[p] = x)[1]])
ResOf(ns) == LET S == OfClass(ns, "DMXChannel") IN TLCEval([x \in {Offsets(ns[i]) : i \in S} |-> ChanBytes(ns[CHOOSE i \in S : Offsets(ns[i]) = x])])
=============================================================================
