----------------------------- MODULE GdtfErrAll -----------------------------
(* One document that uses every kind of element and has nothing wrong with it, and every way in which a single    *)
(* thing in it can be wrong (and, in the thorough run, two things).                                               *)
EXTENDS GdtfErr, Json
CONSTANT Pairs      \* how many random pairs of mistakes per single mistake
A(s) == [x \in {s[2 * i - 1] : i \in 1..(Len(s) \div 2)} |-> s[2 * (CHOOSE i \in 1..(Len(s) \div 2) : s[2 * i - 1] = x)]]
E(t, s, k) == Xml(t, A(s), "", k)
M4 == "{1,0,0,0}{0,1,0,0}{0,0,1,0}{0,0,0,1}"
Geo(t, n, s, k) == E(t, <<"Name", n, "Model", "Body", "Position", M4>> \o s, k)
N(t, n) == E(t, <<"Name", n>>, <<>>)
Pay == <<"ElectricalPayLoad", "1", "VoltageRangeMin", "1", "VoltageRangeMax", "2", "FrequencyRangeMin", "1", "FrequencyRangeMax", "2", "CosPhi", "1">>
Wire(n, kind, s) == Geo("WiringObject", n, <<"ComponentType", kind, "ConnectorType", "Schuko", "SignalType", "DMX512", "PinCount", "3", "SignalLayer", "1", "Orientation", "Left", "WireGroup", "1">> \o s,
                        <<E("PinPatch", <<"ToWiringObject", "Wire", "FromPin", "1", "ToPin", "2">>, <<>>)>>)
AxesS == <<"X", "Y", "Z", "XX", "YY", "ZZ">>
LoadsS == FlattenSeq([i \in 1..6 |-> <<"Capacity" \o AxesS[i], "1", "Resistance" \o AxesS[i], "1">>])
Defs == E("AttributeDefinitions", <<>>, <<
  E("ActivationGroups", <<>>, <<N("ActivationGroup", "Gobos")>>),
  E("FeatureGroups", <<>>, <<E("FeatureGroup", <<"Name", "Dim", "Pretty", "D">>, <<N("Feature", "Dimmer"), N("Feature", "Shutter")>>), E("FeatureGroup", <<"Name", "Gob", "Pretty", "G">>, <<N("Feature", "Gobo")>>)>>),
  E("Attributes", <<>>, <<
    E("Attribute", <<"Name", "Dimmer", "Pretty", "Dim", "Feature", "Dim.Dimmer">>, <<>>),
    E("Attribute", <<"Name", "Gobo1", "Pretty", "G1", "Feature", "Gob.Gobo", "ActivationGroup", "Gobos", "MainAttribute", "Dimmer", "PhysicalUnit", "Percent", "Color", "0.3,0.3,50">>,
      <<E("SubPhysicalUnit", <<"Type", "PlacementOffset", "PhysicalUnit", "Angle", "PhysicalFrom", "0", "PhysicalTo", "1">>, <<>>)>>),
    E("Attribute", <<"Name", "Shutter1", "Pretty", "S1", "Feature", "Dim.Shutter">>, <<>>), E("Attribute", <<"Name", "NoFeature", "Pretty", "NF", "Feature", "Dim.Dimmer">>, <<>>)>>)>>)
WheelsX == E("Wheels", <<>>, <<E("Wheel", <<"Name", "Wheel">>, <<
  E("Slot", <<"Name", "Open", "Color", "0.3,0.3,100", "Filter", "Blue">>, <<E("Facet", <<"Color", "0.3,0.3,100", "Rotation", "{1,0,0}{0,1,0}{0,0,1}">>, <<>>)>>),
  E("Slot", <<"Name", "Anim", "Color", "0.3,0.3,100", "MediaFileName", "anim">>, <<E("AnimationSystem", <<"P1", "0,0", "P2", "1,1", "P3", "2,2", "Radius", "1">>, <<>>)>>)>>)>>)
Physics == E("PhysicalDescriptions", <<>>, <<
  E("ColorSpace", <<"Name", "", "Mode", "Custom", "Red", "0.1,0.1,1", "Green", "0.2,0.2,1", "Blue", "0.3,0.3,1", "WhitePoint", "0.4,0.4,1">>, <<>>),
  E("AdditionalColorSpaces", <<>>, <<E("ColorSpace", <<"Name", "More", "Mode", "ProPhoto">>, <<>>)>>), E("Gamuts", <<>>, <<E("Gamut", <<"Name", "Gamut", "Points", "{0.1,0.2,3}{0.1,0.2,4}">>, <<>>)>>),
  E("Filters", <<>>, <<E("Filter", <<"Name", "Blue", "Color", "0.1,0.1,100">>, <<E("Measurement", <<"Physical", "1", "Transmission", "2", "InterpolationTo", "Step">>, <<E("MeasurementPoint", <<"WaveLength", "500", "Energy", "1">>, <<>>)>>)>>)>>),
  E("Emitters", <<>>, <<E("Emitter", <<"Name", "LED", "Color", "0.1,0.1,100", "DominantWaveLength", "500", "DiodePart", "X">>,
      <<E("Measurement", <<"Physical", "1", "LuminousIntensity", "2", "InterpolationTo", "Log">>, <<E("MeasurementPoint", <<"WaveLength", "500", "Energy", "1">>, <<>>)>>)>>)>>),
  E("DMXProfiles", <<>>, <<E("DMXProfile", <<"Name", "Curve">>, <<E("Point", <<"DMXPercentage", "1", "CFC3", "1", "CFC2", "1", "CFC1", "1", "CFC0", "1">>, <<>>)>>)>>),
  E("CRIs", <<>>, <<E("CRIGroup", <<"ColorTemperature", "3200">>, <<E("CRI", <<"CES", "CES07", "ColorRenderingIndex", "90">>, <<>>)>>)>>),
  E("Connectors", <<>>, <<E("Connector", <<"Name", "In", "Type", "XLR3", "DMXBreak", "1", "Gender", "-1", "Length", "2">>, <<>>)>>),
  E("Properties", <<>>, <<E("OperatingTemperature", <<"Low", "0", "High", "40">>, <<>>), E("Weight", <<"Value", "20">>, <<>>), E("LegHeight", <<"Value", "1">>, <<>>)>>)>>)
ModelsX == E("Models", <<>>, <<E("Model", <<"Name", "Body", "Length", "1", "Width", "1", "Height", "1", "PrimitiveType", "Cube", "File", "body", "SVGOffsetX", "0", "SVGOffsetY", "0", "SVGSideOffsetX", "0", "SVGSideOffsetY", "0", "SVGFrontOffsetX", "0", "SVGFrontOffsetY", "0">>, <<>>)>>)
BeamS == <<"LampType", "LED", "PowerConsumption", "1", "LuminousFlux", "1", "ColorTemperature", "1", "BeamAngle", "1", "FieldAngle", "1", "BeamRadius", "1", "ThrowRatio", "1", "RectangleRatio", "1", "BeamType", "Spot", "ColorRenderingIndex", "90", "EmitterSpectrum", "LED">>
GeosX == E("Geometries", <<>>, <<
  Geo("Geometry", "Base", <<>>, <<
    Geo("Axis", "Yoke", <<>>, <<Geo("Axis", "Head", <<>>, <<Geo("Beam", "Beam", BeamS, <<>>), Geo("FilterBeam", "FB", <<>>, <<Geo("FilterColor", "FC", <<>>, <<>>), Geo("FilterGobo", "FG", <<>>, <<>>), Geo("FilterShaper", "FS", <<>>, <<>>)>>)>>)>>),
    Geo("GeometryReference", "Pixel1", <<"Geometry", "Pixel">>, <<E("Break", <<"DMXOffset", "1", "DMXBreak", "1">>, <<>>), E("Break", <<"DMXOffset", "2", "DMXBreak", "2">>, <<>>)>>),
    Geo("MediaServerLayer", "MSL", <<>>, <<>>), Geo("MediaServerCamera", "MSC", <<>>, <<>>), Geo("MediaServerMaster", "MSM", <<>>, <<>>),
    Geo("Display", "Disp", <<"Texture", "t", "Width", "2", "Height", "2", "IsCurved", "true">>, <<>>),
    Geo("Laser", "Laser", <<"ColorType", "RGB", "OutputStrength", "1", "BeamDiameter", "1", "BeamDivergenceMin", "1", "BeamDivergenceMax", "1", "ScanAnglePan", "1", "ScanAngleTilt", "1", "ScanSpeed", "1", "Emitter", "LED">>, <<N("Protocol", "ILDA")>>),
    Geo("Laser", "Laser1", <<"ColorType", "SingleWaveLength", "Color", "500", "OutputStrength", "1", "BeamDiameter", "1", "BeamDivergenceMin", "1", "BeamDivergenceMax", "1", "ScanAnglePan", "1", "ScanAngleTilt", "1", "ScanSpeed", "1">>, <<>>),
    Wire("Wire", "Consumer", Pay), Wire("Power", "PowerSource", <<"MaxPayLoad", "1", "Voltage", "230">>), Wire("Fuse", "Fuse", <<"FuseCurrent", "16", "FuseRating", "C">>), Wire("Plug", "Input", <<>>),
    Geo("Inventory", "Inv", <<"Count", "2">>, <<>>),
    Geo("Structure", "Tube", <<"LinkedGeometry", "Base", "StructureType", "CenterLineBased", "CrossSectionType", "Tube", "CrossSectionHeight", "1", "CrossSectionWallThickness", "1">>, <<>>),
    Geo("Structure", "Truss", <<"LinkedGeometry", "Base", "StructureType", "Detail", "CrossSectionType", "TrussFramework", "TrussCrossSection", "F34">>, <<>>),
    Geo("Support", "Rope", <<"SupportType", "Rope", "RopeCrossSection", "r", "RopeOffset", "{1,2,3}">>, <<>>), Geo("Support", "Foot", <<"SupportType", "GroundSupport">> \o LoadsS, <<>>),
    Geo("Magnet", "Magnet", <<>>, <<>>)>>),
  Geo("Beam", "Pixel", BeamS, <<>>)>>)
Fun(n, at, from, s) == E("ChannelFunction", <<"Name", n, "Attribute", at, "OriginalAttribute", "orig", "DMXFrom", from, "Default", "0/2", "PhysicalFrom", "0", "PhysicalTo", "1", "RealFade", "0", "RealAcceleration", "0", "Min", "0", "Max", "1", "CustomName", "cn">> \o s,
                         <<E("ChannelSet", <<"Name", "Set", "DMXFrom", from, "PhysicalFrom", "0", "PhysicalTo", "1", "WheelSlotIndex", "1">>, <<>>)>>)
Log(at, ks) == E("LogicalChannel", <<"Attribute", at, "Snap", "No", "Master", "Grand", "MibFade", "0", "DMXChangeTimeLimit", "0">>, ks)
Chan(g, off, init, ks) == E("DMXChannel", <<"DMXBreak", "1", "Offset", off, "InitialFunction", init, "Highlight", "65535/2", "Geometry", g>>, ks)
Mode1 == E("DMXMode", <<"Name", "Full", "Geometry", "Base", "Description", "all of it">>, <<
  E("DMXChannels", <<>>, <<
    Chan("Beam", "1,2", "Beam_Dimmer.Dimmer.Dim", <<Log("Dimmer", <<
        E("ChannelFunction", <<"Name", "Dim", "Attribute", "Dimmer", "OriginalAttribute", "", "DMXFrom", "0/2", "Default", "0/2", "PhysicalFrom", "0", "PhysicalTo", "1">>,
          <<E("ChannelSet", <<"Name", "Open", "DMXFrom", "65535/2", "PhysicalFrom", "0", "PhysicalTo", "1", "WheelSlotIndex", "1">>, <<>>),
            E("SubChannelSet", <<"Name", "Sub", "PhysicalFrom", "0", "PhysicalTo", "1", "SubPhysicalUnit", "PlacementOffset", "DMXProfile", "Curve">>, <<>>)>>)>>)>>),
    Chan("Head", "3,4", "Head_Gobo1.Gobo1.Second", <<Log("Gobo1", <<Fun("First", "Gobo1", "0/2", <<"Wheel", "Wheel", "Emitter", "LED", "Filter", "Blue", "ColorSpace", "More", "Gamut", "Gamut", "DMXProfile", "Curve">>),
                                                                   Fun("Second", "Shutter1", "1000/2", <<>>)>>),
                                                    Log("Shutter1", <<Fun("Third", "Shutter1", "0/2", <<>>)>>)>>),
    Chan("Yoke", "5,6", "Yoke_Gobo1.Gobo1.On", <<Log("Gobo1", <<Fun("On", "Gobo1", "0/2", <<"ModeMaster", "Beam_Dimmer", "ModeFrom", "0/2", "ModeTo", "1000/2">>),
                                                               Fun("Off", "Gobo1", "0/2", <<"ModeMaster", "Beam_Dimmer", "ModeFrom", "1001/2", "ModeTo", "2000/2">>),
                                                               Fun("Aux", "Gobo1", "0/2", <<"ModeMaster", "Head_Gobo1.Gobo1.First", "ModeFrom", "0/2", "ModeTo", "100/2">>)>>)>>),
    E("DMXChannel", <<"DMXBreak", "Overwrite", "Offset", "7,8", "Highlight", "None", "Geometry", "Pixel">>, <<Log("NoFeature", <<Fun("", "NoFeature", "0/2", <<>>)>>)>>)>>),
  E("Relations", <<>>, <<E("Relation", <<"Name", "R", "Master", "Beam_Dimmer", "Follower", "Head_Gobo1.Gobo1.First", "Type", "Multiply">>, <<>>)>>),
  E("FTMacros", <<>>, <<E("FTMacro", <<"Name", "Reset", "ChannelFunction", "Head_Gobo1.Gobo1.First">>, <<
    E("MacroDMX", <<>>, <<E("MacroDMXStep", <<"Duration", "1">>, <<E("MacroDMXValue", <<"Value", "100/2", "DMXChannel", "Beam_Dimmer">>, <<>>)>>)>>)>>)>>)>>)
Mode2 == E("DMXMode", <<"Name", "Small", "Geometry", "Pixel", "Description", "">>, <<E("DMXChannels", <<>>, <<Chan("Pixel", "1,2", "Pixel_Dimmer.Dimmer.Dim", <<Log("Dimmer", <<Fun("Dim", "Dimmer", "0/2", <<>>)>>)>>)>>)>>)
Revs == E("Revisions", <<>>, <<E("Revision", <<"Date", "2026-01-02T03:04:05", "Text", "first", "UserID", "1", "ModifiedBy", "me">>, <<>>)>>)
Prot == E("Protocols", <<>>, <<
  E("FTRDM", <<"ManufacturerID", "0x1234", "DeviceModelID", "0x1">>, <<E("SoftwareVersionID", <<"Value", "0x10">>, <<E("DMXPersonality", <<"Value", "0x1", "DMXMode", "Small">>, <<>>)>>)>>),
  E("Art-Net", <<>>, <<E("Map", <<"Key", "1", "Value", "2">>, <<>>)>>), E("sACN", <<>>, <<E("Map", <<"Key", "1", "Value", "2">>, <<>>)>>)>>)
BaseDoc == E("GDTF", <<"DataVersion", "1.2">>, <<E("FixtureType", <<"Name", "Spot 1", "ShortName", "S1", "LongName", "Spot One", "Manufacturer", "ACME & Söhne", "Description", "d", "FixtureTypeID", "5EED0000-0000-0000-0000-000000100000", "RefFT", "5EED0000-0000-0000-0000-000000000777",
                                                    "Thumbnail", "thumb", "ThumbnailOffsetX", "0", "ThumbnailOffsetY", "0", "CanHaveChildren", "No">>,
             <<Defs, WheelsX, Physics, ModelsX, GeosX, E("DMXModes", <<>>, <<Mode1, Mode2>>), Revs, Prot>>)>>)
BaseEls == TLCEval(Flat(BaseDoc))
DocNums == TLCEval(("0/2" :> 0) @@ ("65535/2" :> 65535) @@ [n \in {ToString(n) \o "/2" : n \in {100, 1000, 1001, 2000}} |-> CHOOSE m \in {100, 1000, 1001, 2000} : n = ToString(m) \o "/2"] @@ ("7/2" :> 7))
DocRes == [x \in {"1,2", "3,4", "5,6", "7,8"} |-> 2]

\* ---------------------------------------------------------------- mistakes
RefAttr == ("Attribute" :> {"ActivationGroup", "Feature", "MainAttribute"}) @@
  [GeometryReference |-> {"Geometry"}, DMXMode |-> {"Geometry"}, DMXChannel |-> {"Geometry", "InitialFunction"}, LogicalChannel |-> {"Attribute"},
   ChannelFunction |-> {"Attribute", "ModeMaster", "Wheel", "Emitter", "Filter", "ColorSpace", "Gamut", "DMXProfile"}, MacroDMXValue |-> {"DMXChannel"}, DMXPersonality |-> {"DMXMode"}, Relation |-> {"Master", "Follower"}]
  @@ [t \in GeoClasses |-> {"Model"}]
RefTags == TLCEval(DOMAIN RefAttr)
Odd == {"Vendor", "Break", "Protocol", "PinPatch", "Mirror", "DMXChannel"}
Ed(k, i, x, v) == [k |-> k, i |-> i, x |-> x, v |-> v]
\* every single mistake; ids refer to the positions in els
Edits(els, vt) == UNION {LET e == els[i] IN
  {Ed("drop", i, x, "") : x \in DOMAIN e.a} \cup (IF e.t = "GDTF" THEN {} ELSE {Ed("set", i, "vendorNote", "z")}) \cup (IF e.t \in {"GDTF", "FixtureType"} THEN {} ELSE {Ed("gone", i, "", "")})
  \cup (IF e.t \in RefTags THEN {Ed("set", i, x, v) : x \in RefAttr[e.t], v \in {"Nowhere", "", "Pixel", "Dimmer"}} ELSE {})
  \cup (IF e.t \in ValTags THEN UNION {{Ed("set", i, w[1], v) : v \in BadTexts[w[2]]} : w \in vt[e.t]} ELSE {})
  \cup (IF e.t \in GeoClasses \cup {"Geometries"} THEN {Ed("child", i, t, "") : t \in Odd} ELSE {})
  \cup (IF e.t = "ChannelFunction" THEN {Ed("set", i, "DMXFrom", v) : v \in {"7/2", "0/2", "1000/2"}} \cup {Ed("set", i, "ModeMaster", v) : v \in {"Beam_Dimmer", "Head_Gobo1", "Head_Gobo1.Gobo1.First", "Pixel_Dimmer"}}
          \cup {Ed("set", i, x, v) : x \in {"ModeFrom", "ModeTo"}, v \in {"100/2", "1000/2", "1001/2"}} ELSE {})
  \cup (IF e.t = "LogicalChannel" THEN {Ed("set", i, "Attribute", v) : v \in {"Dimmer", "Gobo1", "Shutter1"}} ELSE {})
  \cup (IF e.t = "DMXChannel" THEN {Ed("set", i, "Geometry", v) : v \in {"Beam", "Head", "Yoke"}} \cup {Ed("set", i, "InitialFunction", v) : v \in {"Beam_Dimmer.Dimmer.Dim", "Pixel_NoFeature.NoFeature.NoFeature 1", "Head_Gobo1.Shutter1.Third"}} ELSE {})
  : i \in 1..Len(els)}
Edit(els, d) == CASE d.k = "drop" -> [els EXCEPT ![d.i].a = [q \in DOMAIN @ \ {d.x} |-> @[q]]]
                  [] d.k = "set" -> [els EXCEPT ![d.i].a = (d.x :> d.v) @@ @]
                  [] d.k = "gone" -> [els EXCEPT ![d.i].t = "Gone"]
                  [] d.k = "child" -> Append(els, [t |-> d.x, a |-> "Name" :> "odd one", p |-> d.i])

\* a mistake is named at the element it is in
Named(d, els, r) == LET e == BaseEls[d.i] IN
  /\ (d.k = "drop" /\ e.t \in FormatTags /\ d.x \in NeedOf(e) /\ d.x \in NeedOf(els[d.i])) => Err(0, d.i, d.x) \in r
  /\ (d.k = "set" /\ d.x = "vendorNote" /\ e.t \in FormatTags) => r = {Err(1, d.i, "vendorNote")}
  /\ (d.k = "child" /\ d.x \notin {"Protocol", "PinPatch"} /\ d.x \notin Holds[e.t]) => Err(2, Len(els), "") \in r
VARIABLES edits, said
Doc(ds) == FoldLeft(LAMBDA e, d: TLCEval(Edit(e, d)), BaseEls, ds)
AInit == /\ said = [n |-> 0 - 1, ok |-> TRUE] /\ \E vt \in {ValT} : \E all \in {Edits(BaseEls, vt)} :
            edits \in {<<>>} \cup {<<d>> : d \in all} \cup (IF Pairs = 0 THEN {} ELSE UNION {{<<d, RandomElement(all)>> : k \in 1..Pairs} : d \in all})
ANext == /\ said.n < 0 /\ UNCHANGED edits
         /\ \E els \in {Doc(edits)} :
              /\ (Len(edits) < 2 \/ Clear(els)) => \E xml \in {Tree(els, 1)} : PrintT("@@" \o ToJson([nums |-> DocNums, res |-> DocRes, edits |-> edits, xml |-> xml]))
              /\ IF Len(edits) > 1 THEN said' = [n |-> 0, ok |-> TRUE]
                 ELSE \E vt \in {ValT} : \E r \in {Report(els, DocNums, DocRes, vt)} : said' = [n |-> Cardinality(r), ok |-> IF edits = <<>> THEN r = {} ELSE Named(edits[1], els, r)]
Sound == said.ok
=============================================================================
