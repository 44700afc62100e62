----------------------------- MODULE GdtfSchema -----------------------------
(* What a GDTF fixture type consists of: for every kind of node its data fields (getter, XML attribute,  *)
(* setter, type, initial value), its references and the collections it contains.  One table, from which *)
(* the API transitions, the description.xml and the reader's view are all derived.                       *)
EXTENDS DocTree, TLC

\* ---------------------------------------------------------------- value domains: [g: getter form, x: XML form]
V(g, x) == [g |-> g, x |-> x]
Same(S) == {V(s, s) : s \in S}
Enums == [
  PhysicalUnit |-> <<"None","Percent","Length","Mass","Time","Temperature","LuminousIntensity","Angle","Force","Frequency","Current","","Voltage","Power","Energy","Area","Volume","Speed","Acceleration","AngularSpeed","AngularAccc","WaveLength","ColorComponent">>,
  PrimitiveType |-> <<"Undefined","Cube","Cylinder","Sphere","Base","Yoke","Head","Scanner","Conventional","Pigtail","Base1_1","Scanner1_1","Conventional1_1">>,
  LampType |-> <<"Discharge","Tungsten","Halogen","LED">>,
  BeamType |-> <<"Wash","Spot","None","Rectangle","PC","Fresnel","Glow">>,
  Master |-> <<"None","Grand","Group">>,
  Snap |-> <<"Yes","No","On","Off">>,
  Relation |-> <<"","Multiply","Override">>,
  ColorSpace |-> <<"sRGB","Custom","ProPhoto","ANSI">>,
  Interpolation |-> <<"Linear","Step","Log">>,
  LaserColorType |-> <<"RGB","SingleWaveLength">>,
  ComponentType |-> <<"Input","Output","PowerSource","Consumer","Fuse","NetworkProvider","NetworkInput","NetworkOutput","NetworkInOut">>,
  Orientation |-> <<"Left","Right","Top","Bottom">>,
  FuseRating |-> <<"B","C","D","K","Z">>,
  StructureType |-> <<"CenterLineBased","Detail">>,
  CrossSection |-> <<"TrussFramework","Tube">>,
  SupportType |-> <<"Rope","GroundSupport">>,
  SubPhysicalUnit |-> <<"PlacementOffset","Amplitude","AmplitudeMin","AmplitudeMax","Duration","DutyCycle","TimeOffset","MinimumOpening","Value","RatioHorizontal","RatioVertical">>]
EnumDom(e) == {V(ToString(n - 1), Enums[e][n]) : n \in {n \in 1..Len(Enums[e]) : Enums[e][n] # ""}}
StrDom == Same({"", "A", "Front Truss", "a<b>&\"c'd", "~uni~", "~long~", "1.5", "0", "a,b;c"})
TxtDom == Same({"", "A", "Front Truss", "a<b>&\"c'd", "1.5", "0", "a,b;c"})   \* allowed in names
DblDom == Same({"0", "1", "90.5", "-359.25", "1000000.125", "-0.5"}) \cup {V("1e-06", "0.000001")}
UDom == Same({"0", "1", "7", "640", "2147483647"})
IDom == Same({"0", "1", "-7", "2147483647", "-2147483648"})
ColDom == Same({"0.3127,0.329,100", "0,0,0", "0.1,0.2,33.5", "1,1,0.001"})
IdMat == "1,0,0,0,1,0,0,0,1,0,0,0"
MatDom == {V(IdMat, "{1,0,0,0}{0,1,0,0}{0,0,1,0}{0,0,0,1}"), V("1,0,0,0,1,0,0,0,1,5,6,7", "{1,0,0,5}{0,1,0,6}{0,0,1,7}{0,0,0,1}"),
           V("0,1,0,-1,0,0,0,0,1,0.5,-0.25,1000", "{0,1,0,0.5}{-1,0,0,-0.25}{0,0,1,1000}{0,0,0,1}"),
           V("1,0,0,0,0,1,0,-1,0,0,0,0", "{1,0,0,0}{0,0,1,0}{0,-1,0,0}{0,0,0,1}"),
           V("1,0,0,0,1,0,0,0,1,0,0,-2.5", "{1,0,0,0}{0,1,0,0}{0,0,1,-2.5}{0,0,0,1}"),
           V("1,0,0,0,-1,0,0,0,1,0,0,0", "{1,0,0,0}{0,-1,0,0}{0,0,1,0}{0,0,0,1}")}
RotDom == {V(IdMat, "{1,0,0}{0,1,0}{0,0,1}"), V("0,1,0,-1,0,0,0,0,1,0,0,0", "{0,1,0}{-1,0,0}{0,0,1}"), V("0.5,0,0,0,0,1,0,-0.25,0,0,0,0", "{0.5,0,0}{0,0,1}{0,-0.25,0}")}
VecDom == {V("0,0,0", "{0,0,0}"), V("1,-0.5,2.25", "{1,-0.5,2.25}")}
DateDom == Same({"2026-01-02T03:04:05", "1999-12-31T23:59:59", "2024-02-29T00:00:00"})
HexDom == {V("0", "0x0"), V("1", "0x1"), V("10", "0xA"), V("255", "0xFF"), V("4660", "0x1234"), V("65535", "0xFFFF")}
YesNoDom == {V("true", "Yes"), V("false", "No")}
TfDom == Same({"true", "false"})
UidDom == Same({"00000000000000000000000000000001", "5eed0000000000000000000000100000", "ffffffffffffffffffffffffffffffff"})
CesDom == {V(ToString(n), IF n < 9 THEN "CES0" \o ToString(n + 1) ELSE "CES" \o ToString(n + 1)) : n \in {0, 1, 8, 9, 41, 98}}
CriDom == Same({"0", "1", "99", "100", "255"})
BrkDom == {V("0", "Overwrite"), V("1", "1"), V("2", "2"), V("7", "7")}
Brk1Dom == Same({"1", "2", "7", "640"})
AddrDom == Same({"1", "2", "3", "512", "513", "4711"})
Dom(ty) == CASE ty = "Str" -> StrDom [] ty = "Txt" -> TxtDom [] ty = "Dbl" -> DblDom [] ty = "U" -> UDom [] ty = "I" -> IDom [] ty = "Col" -> ColDom [] ty = "Mat" -> MatDom
             [] ty = "Rot" -> RotDom [] ty = "Vec" -> VecDom [] ty = "Date" -> DateDom [] ty = "Hex" -> HexDom [] ty = "YesNo" -> YesNoDom [] ty = "Tf" -> TfDom
             [] ty = "Uid" -> UidDom [] ty = "Ces" -> CesDom [] ty = "Cri" -> CriDom [] ty = "Brk" -> BrkDom [] ty = "Brk1" -> Brk1Dom [] ty = "Addr" -> AddrDom
             [] OTHER -> EnumDom(ty)
G(D) == {v.g : v \in D}
\* the XML form of value g of type ty (names and free texts are themselves)
Xv(ty, g) == IF ty \in {"Nm", "Str", "Txt", "Dbl", "U", "I", "Col", "Date", "Tf", "Uid", "Cri", "Addr", "Brk1"} THEN g ELSE (CHOOSE v \in Dom(ty) : v.g = g).x

\* ---------------------------------------------------------------- fields
\* g getter field, x XML attribute ("" none), s setter ("" none), t type, i initial value ("$k": k-th creation argument),
\* o: the value for which the attribute is left out ("-": never)
W(g, x, s, t, i) == [g |-> g, x |-> x, s |-> s, t |-> t, i |-> i, o |-> "-"]
D(g, t, i) == W(g, g, "Set" \o g, t, i)
Opt(row) == [row EXCEPT !.o = row.i]
Nam == W("Name", "Name", "", "Nm", "$1")
NamS == W("Name", "Name", "SetName", "Nm", "$1")

GeoTypes == [Geometry |-> "9", Axis |-> "10", FilterBeam |-> "11", FilterColor |-> "12", FilterGobo |-> "13", FilterShaper |-> "14", Beam |-> "15", GeometryReference |-> "17",
             MediaServerCamera |-> "76", MediaServerLayer |-> "77", MediaServerMaster |-> "78", Display |-> "79", Laser |-> "81", WiringObject |-> "82", Inventory |-> "83",
             Structure |-> "84", Support |-> "85", Magnet |-> "86"]
GeoClasses == DOMAIN GeoTypes
Doubles(names) == [n \in 1..Len(names) |-> D(names[n], "Dbl", "0")]
GeoRows == [Beam |-> <<D("LampType", "LampType", "0"), D("PowerConsumption", "Dbl", "1000"), W("LuminousIntensity", "LuminousFlux", "SetLuminousIntensity", "Dbl", "10000"), D("ColorTemperature", "Dbl", "6000"),
                       D("BeamAngle", "Dbl", "25"), D("BeamRadius", "Dbl", "50"), D("FieldAngle", "Dbl", "25"), D("ThrowRatio", "Dbl", "1"), D("RectangleRatio", "Dbl", "1.7777"),
                       D("BeamType", "BeamType", "0"), W("ColorIndex", "ColorRenderingIndex", "SetColorIndex", "I", "100")>>,
            Display |-> <<D("Texture", "Str", ""), D("Width", "U", "0"), D("Height", "U", "0"), D("IsCurved", "Tf", "false")>>,
            Laser |-> <<D("ColorType", "LaserColorType", "0"), W("LaserColor", "Color", "SetLaserColor", "Dbl", "0")>>
                      \o Doubles(<<"OutputStrength", "BeamDiameter", "BeamDivergenceMin", "BeamDivergenceMax", "ScanAnglePan", "ScanAngleTilt", "ScanSpeed">>),
            WiringObject |-> <<D("ConnectorType", "Str", ""), D("ComponentType", "ComponentType", "0"), D("SignalType", "Str", ""), D("PinCount", "U", "0"), D("SignalLayer", "U", "0"),
                               D("Orientation", "Orientation", "0"), D("WireGroup", "Str", ""), D("FuseRating", "FuseRating", "0")>>
                      \o Doubles(<<"ElectricalPayLoad", "VoltageRangeMin", "VoltageRangeMax", "FrequencyRangeMin", "FrequencyRangeMax", "CosPhi", "MaxPayLoad", "Voltage", "FuseCurrent">>),
            Inventory |-> <<W("InventoryCount", "Count", "SetInventoryCount", "U", "0")>>,
            Structure |-> <<D("StructureType", "StructureType", "0"), D("CrossSectionType", "CrossSection", "0"), D("CrossSectionHeight", "Dbl", "0"), D("CrossSectionWallThickness", "Dbl", "0"), D("TrussCrossSection", "Str", "")>>,
            Support |-> <<D("SupportType", "SupportType", "0"), D("RopeCrossSection", "Str", ""), D("RopeOffset", "Vec", "0,0,0")>>
                      \o Doubles(<<"CapacityX", "CapacityY", "CapacityZ", "CapacityXX", "CapacityYY", "CapacityZZ", "ResistanceX", "ResistanceY", "ResistanceZ", "ResistanceXX", "ResistanceYY", "ResistanceZZ">>)]
GeoBase == <<W("Name", "Name", "SetName", "Nm", "$2"), W("TransformMatrix", "Position", "SetTransformMatrix", "Mat", "$4"), W("GeometryType", "", "", "Str", "$1")>>
Rows(c) ==
  CASE c \in GeoClasses -> GeoBase \o (IF c \in DOMAIN GeoRows THEN GeoRows[c] ELSE <<>>)
    [] c = "Fixture" -> <<W("Name", "Name", "", "Str", ""), W("Manufacturer", "Manufacturer", "", "Str", ""), W("FixtureGUID", "FixtureTypeID", "", "Uid", ""),
         W("FixtureTypeDescription", "Description", "SetFixtureTypeDescription", "Str", ""), D("ShortName", "Str", ""), D("LongName", "Str", ""),
         W("FixtureThumbnail", "Thumbnail", "SetFixtureThumbnail", "Str", ""), D("ThumbnailOffsetX", "I", "0"), D("ThumbnailOffsetY", "I", "0"),
         D("CanHaveChildren", "YesNo", "false"), W("LinkedFixtureGUID", "", "SetLinkedFixtureGUID", "Uid", "!"),
         W("OperatingTemperatureLow", "", "SetOperatingTemperatureLow", "Dbl", "0"), W("OperatingTemperatureHigh", "", "SetOperatingTemperatureHigh", "Dbl", "40"),
         W("Weight", "", "SetWeight", "Dbl", "0"), W("LegHeight", "", "SetLegHeight", "Dbl", "0")>>
    [] c = "ActivationGroup" -> <<Nam>>
    [] c = "FeatureGroup" -> <<Nam, W("PrettyName", "Pretty", "SetPrettyName", "Str", "$2")>>
    [] c = "Feature" -> <<NamS>>
    [] c = "Attribute" -> <<Nam, W("PrettyName", "Pretty", "", "Str", "$2"), D("PhysicalUnit", "PhysicalUnit", "0"), [D("Color", "Col", "!") EXCEPT !.o = "!"]>>
    [] c = "SubPhysicalUnit" -> <<D("Type", "SubPhysicalUnit", "$1"), D("PhysicalFrom", "Dbl", "0"), D("PhysicalTo", "Dbl", "0"), D("PhysicalUnit", "PhysicalUnit", "*")>>
    [] c = "Wheel" -> <<Nam>>
    [] c = "WheelSlot" -> <<NamS, D("Color", "Col", "0.31273,0.32902,100"), Opt(W("Gobo", "MediaFileName", "SetGobo", "Str", "")), Opt(D("Duration", "Dbl", "0")), Opt(D("Width", "U", "0")),
                            Opt(D("Height", "U", "0")), Opt(D("FPS", "U", "0"))>>
    [] c = "PrismFacet" -> <<D("Color", "Col", "0.3127,0.329,100"), W("TransformMatrix", "Rotation", "SetTransformMatrix", "Rot", "$1")>>
    [] c = "AnimationSystem" -> <<W("P1_X", "", "SetP1_X", "Dbl", "$1"), W("P1_Y", "", "SetP1_Y", "Dbl", "$2"), W("P2_X", "", "SetP2_X", "Dbl", "$3"), W("P2_Y", "", "SetP2_Y", "Dbl", "$4"),
                                  W("P3_X", "", "SetP3_X", "Dbl", "$5"), W("P3_Y", "", "SetP3_Y", "Dbl", "$6"), D("Radius", "Dbl", "$7")>>
    [] c = "Model" -> <<NamS, D("Length", "Dbl", "0"), D("Width", "Dbl", "0"), D("Height", "Dbl", "0"), D("PrimitiveType", "PrimitiveType", "0"), W("GeometryFileName", "File", "SetGeometryFile", "Str", ""),
                        D("SVGOffsetX", "Dbl", "0"), D("SVGOffsetY", "Dbl", "0"), D("SVGSideOffsetX", "Dbl", "0"), D("SVGSideOffsetY", "Dbl", "0"), D("SVGFrontOffsetX", "Dbl", "0"), D("SVGFrontOffsetY", "Dbl", "0")>>
    [] c = "Break" -> <<W("DmxBreak", "DMXBreak", "SetDmxBreak", "Brk1", "$1"), W("DmxAddress", "DMXOffset", "SetDmxAddress", "Addr", "$2")>>
    [] c = "Protocol" -> <<NamS>>
    [] c = "PinPatch" -> <<D("FromPin", "U", "$2"), D("ToPin", "U", "$3")>>
    [] c = "DMXMode" -> <<Nam, D("Description", "Str", "")>>
    [] c = "DMXChannel" -> <<W("DmxBreak", "DMXBreak", "SetDmxBreak", "Brk", "1")>>
    [] c = "LogicalChannel" -> <<W("DmxSnap", "Snap", "SetDmxSnap", "Snap", "1"), W("DmxMaster", "Master", "SetDmxMaster", "Master", "0"),
                                 W("MoveInBlackFrames", "MibFade", "SetMoveInBlackFrames", "Dbl", "0"), W("DmxChangeTimeLimit", "DMXChangeTimeLimit", "SetDmxChangeTimeLimit", "Dbl", "0")>>
    [] c = "ChannelFunction" -> <<W("Name", "Name", "", "Nm", "$1"), D("OriginalAttribute", "Str", ""), D("CustomName", "Str", ""),
                                  W("PhysicalStart", "PhysicalFrom", "SetPhysicalStart", "Dbl", "0"), W("PhysicalEnd", "PhysicalTo", "SetPhysicalEnd", "Dbl", "1"),
                                  D("RealFade", "Dbl", "0"), D("RealAcceleration", "Dbl", "0"), D("Min", "Dbl", "0"), D("Max", "Dbl", "1")>>
    [] c = "ChannelSet" -> <<W("Name", "Name", "", "Txt", "$1"), W("WheelSlot", "WheelSlotIndex", "SetWheelSlot", "I", "0"),
                             W("PhysicalStart", "", "SetPhysicalStart", "Dbl", "0"), W("PhysicalEnd", "", "SetPhysicalEnd", "Dbl", "1")>>
    [] c = "SubChannelSet" -> <<W("Name", "Name", "SetName", "Txt", "$1"), D("PhysicalFrom", "Dbl", "0"), D("PhysicalTo", "Dbl", "1")>>
    [] c = "Relation" -> <<Nam, W("RelationType", "Type", "", "Relation", "$2")>>
    [] c = "FTMacro" -> <<NamS>>
    [] c = "MacroDMXStep" -> <<W("Duration", "Duration", "", "Dbl", "$1")>>
    [] c = "MacroVisualStep" -> <<D("Duration", "Dbl", "1"), D("Fade", "Dbl", "0"), D("Delay", "Dbl", "0")>>
    [] c = "Revision" -> <<D("Text", "Str", "$1"), D("Date", "Date", "$2"), W("UserId", "UserID", "SetUserId", "U", "0"), D("ModifiedBy", "Str", "")>>
    [] c = "Emitter" -> <<NamS, D("Color", "Col", "$2"), W("DominantWaveLength", "DominantWaveLength", "SetDominantWaveLength", "Dbl", "0"), D("DiodePart", "Str", "")>>
    [] c = "Filter" -> <<NamS, D("Color", "Col", "$2")>>
    [] c \in {"Measurement", "FilterMeasurement"} ->
         <<D("Physical", "Dbl", "0"), IF c = "Measurement" THEN D("LuminousIntensity", "Dbl", "0") ELSE D("Transmission", "Dbl", "0"), D("InterpolationTo", "Interpolation", "0")>>
    [] c = "MeasurementPoint" -> <<D("WaveLength", "Dbl", "0"), D("Energy", "Dbl", "0")>>
    [] c \in {"ColorSpace", "AdditionalColorSpace"} -> <<IF c = "ColorSpace" THEN W("Name", "Name", "SetName", "Txt", "") ELSE NamS, W("ColorSpace", "Mode", "SetColorSpace", "ColorSpace", IF c = "ColorSpace" THEN "0" ELSE "$2"),
         W("Red", "", "SetRed", "Col", "*"), W("Green", "", "SetGreen", "Col", "*"), W("Blue", "", "SetBlue", "Col", "*"), W("White", "", "SetWhite", "Col", "*")>>
    [] c = "Gamut" -> <<NamS>>
    [] c = "DMXProfile" -> <<W("Name", "Name", "SetName", "Nm", "")>>
    [] c = "Point" -> <<D("DMXPercentage", "Dbl", "$1"), D("CFC3", "Dbl", "$2"), D("CFC2", "Dbl", "$3"), D("CFC1", "Dbl", "$4"), D("CFC0", "Dbl", "$5")>>
    [] c = "CRIGroup" -> <<D("ColorTemperature", "Dbl", "$1")>>
    [] c = "CRI" -> <<W("HiddenCES", "CES", "SetColorSample", "Ces", "$1"), D("ColorRenderingIndex", "Cri", "$2")>>
    [] c = "Connector" -> <<NamS, D("Type", "Str", "$2"), W("DmxBreak", "DMXBreak", "SetDmxBreak", "U", "0"), D("Gender", "I", "0"), D("Length", "Dbl", "0")>>
    [] c = "FTRDM" -> <<W("ManufacturerID", "ManufacturerID", "SetManufacturerID", "Hex", "0"), W("DeviceModelID", "DeviceModelID", "SetDeviceModelID", "Hex", "0")>>
    [] c = "SoftwareVersionID" -> <<D("Value", "Hex", "$1")>>
    [] c = "DMXPersonality" -> <<D("Value", "Hex", "$1")>>
    [] c = "Map" -> <<D("Key", "U", "$1"), D("Value", "U", "$2")>>
    [] OTHER -> <<>>

\* references: g getter field, x attribute, s setter, cs classes of the target, k position of the creation argument (0: none at creation)
Rf(g, x, s, cs, k) == [g |-> g, x |-> x, s |-> s, cs |-> cs, k |-> k]
Refs(c) ==
  CASE c \in GeoClasses -> <<Rf("Model", "Model", "", {"Model"}, 3)>>
         \o (CASE c = "Beam" -> <<Rf("EmitterSpectrum", "EmitterSpectrum", "SetEmitterSpectrum", {"Emitter"}, 0)>>
               [] c = "Laser" -> <<Rf("Emitter", "Emitter", "SetEmitter", {"Emitter"}, 0)>>
               [] c = "Structure" -> <<Rf("StructureLinkedGeometry", "LinkedGeometry", "SetStructureLinkedGeometry", GeoClasses, 0)>>
               [] c = "GeometryReference" -> <<Rf("GeometryReference", "Geometry", "SetGeometryReference", GeoClasses \ {"GeometryReference"}, 0)>>
               [] OTHER -> <<>>)
    [] c = "Attribute" -> <<Rf("ActivationGroup", "ActivationGroup", "SetActivationGroup", {"ActivationGroup"}, 0), Rf("Feature", "Feature", "SetFeature", {"Feature"}, 0),
                            Rf("MainAttribute", "MainAttribute", "SetMainAttribute", {"Attribute"}, 0)>>
    [] c = "WheelSlot" -> <<Rf("Filter", "Filter", "SetFilter", {"Filter"}, 0)>>
    [] c = "PinPatch" -> <<Rf("LinkedWiringObject", "ToWiringObject", "SetLinkedWiringObject", {"WiringObject"}, 1)>>
    [] c = "DMXMode" -> <<Rf("Geometry", "Geometry", "SetGeometry", GeoClasses \ {"GeometryReference"}, 0)>>
    [] c = "DMXChannel" -> <<Rf("Geometry", "Geometry", "SetGeometry", GeoClasses, 1), Rf("InitialFunction", "InitialFunction", "SetInitialFunction", {"ChannelFunction"}, 0)>>
    [] c = "LogicalChannel" -> <<Rf("Attribute", "Attribute", "SetAttribute", {"Attribute"}, 1)>>
    [] c = "ChannelFunction" -> <<Rf("Attribute", "Attribute", "SetAttribute", {"Attribute"}, 0), Rf("OnWheel", "Wheel", "SetOnWheel", {"Wheel"}, 0), Rf("Emitter", "Emitter", "SetEmitter", {"Emitter"}, 0),
         Rf("Filter", "Filter", "SetFilter", {"Filter"}, 0), Rf("ColorSpace", "ColorSpace", "SetColorSpace", {"AdditionalColorSpace"}, 0), Rf("Gamut", "Gamut", "SetGamut", {"Gamut"}, 0),
         Rf("DMXProfile", "DMXProfile", "SetDMXProfile", {"DMXProfile"}, 0)>>
    [] c = "SubChannelSet" -> <<Rf("SubPhysicalUnit", "SubPhysicalUnit", "SetSubPhysicalUnit", {"SubPhysicalUnit"}, 2), Rf("DMXProfile", "DMXProfile", "SetDMXProfile", {"DMXProfile"}, 0)>>
    [] c = "Relation" -> <<Rf("MasterChannel", "Master", "", {"DMXChannel"}, 3), Rf("SlaveChannel", "Follower", "", {"ChannelFunction"}, 4)>>
    [] c = "FTMacro" -> <<Rf("ChannelFunction", "ChannelFunction", "SetChannelFunction", {"ChannelFunction"}, 0)>>
    [] c = "MacroDMXValue" -> <<Rf("DmxChannel", "DMXChannel", "", {"DMXChannel"}, 2)>>
    [] c = "MacroVisualValue" -> <<Rf("DmxChannel", "ChannelFunction", "SetDmxChannel", {"ChannelFunction"}, 2)>>
    [] c = "DMXPersonality" -> <<Rf("DmxMode", "DMXMode", "SetDmxMode", {"DMXMode"}, 2)>>
    [] OTHER -> <<>>

\* numeric DMX values: g getter field, s setter, k creation argument (0: starts as i)
Nu(g, s, k, i) == [g |-> g, s |-> s, k |-> k, i |-> i]
Nums(c) ==
  CASE c = "DMXChannel" -> <<Nu("Coarse", "SetCoarse", 0, 0), Nu("Fine", "SetFine", 0, 0), Nu("Ultra", "SetUltra", 0, 0), Nu("Uber", "SetUber", 0, 0), Nu("Highlight", "SetHighlight", 0, -1)>>
    [] c = "ChannelFunction" -> <<Nu("StartAddress", "SetStartAddress", 0, 0), Nu("DefaultValue", "SetDefaultValue", 0, 0)>>
    [] c = "ChannelSet" -> <<Nu("DmxStartAddress", "", 2, 0), Nu("DmxEndAddress", "", 3, 0)>>
    [] c = "MacroDMXValue" -> <<Nu("DmxValue", "", 1, 0)>>
    [] c = "MacroVisualValue" -> <<Nu("DmxValue", "SetDmxValue", 1, 0)>>
    [] OTHER -> <<>>

\* contained collections, in the order in which the walk visits them: k name, c class, m creation method, a its arguments
\* ("@C": reference to a node of class C or null, "=v": that value, "#": DMX value, "Nm": fresh name, else a type), 1: at most one
Kd(k, c, m, a) == [k |-> k, c |-> c, m |-> m, a |-> a]
GeoKids(k) == LET gs == SetToSeq(GeoClasses) IN [n \in 1..Len(gs) |-> Kd(k, gs[n], "CreateGeometry", <<"=" \o GeoTypes[gs[n]], "Nm", "@Model", "Mat">>)]
Kids(c) ==
  CASE c = "Fixture" -> <<Kd("ActivationGroup", "ActivationGroup", "CreateActivationGroup", <<"Nm">>),
         Kd("AdditionalColorSpace", "AdditionalColorSpace", "CreateAdditionalColorSpace", <<"Nm", "ColorSpace">>), Kd("ArtNet", "Art-Net", "CreateArtNet", <<>>),
         Kd("Attribute", "Attribute", "CreateAttribute", <<"Nm", "Str">>), Kd("CRIGroup", "CRIGroup", "CreateCRIGroup", <<"Dbl">>), Kd("ColorSpace", "ColorSpace", "", <<>>),
         Kd("Connector", "Connector", "CreateConnector", <<"Nm", "Str">>), Kd("DMXProfile", "DMXProfile", "CreateDMXProfile", <<>>), Kd("DmxMode", "DMXMode", "CreateDmxMode", <<"Nm">>),
         Kd("Emitter", "Emitter", "CreateEmitter", <<"Nm", "Col">>), Kd("FeatureGroup", "FeatureGroup", "CreateFeatureGroup", <<"Nm", "Str">>), Kd("Filter", "Filter", "CreateFilter", <<"Nm", "Col">>),
         Kd("Gamut", "Gamut", "CreateGamut", <<"Nm", "Col">>)>> \o GeoKids("Geometry") \o
       <<Kd("Model", "Model", "CreateModel", <<"Nm">>), Kd("ParsingError", "ParsingError", "", <<>>), Kd("RDM", "FTRDM", "CreateRDM", <<>>), Kd("Revision", "Revision", "CreateRevision", <<"Str", "Date">>),
         Kd("SACN", "sACN", "CreateSACN", <<>>), Kd("Wheel", "Wheel", "CreateWheel", <<"Nm">>)>>
    [] c = "FeatureGroup" -> <<Kd("Feature", "Feature", "CreateFeature", <<"Nm">>)>>
    [] c = "Attribute" -> <<Kd("SubPhysicalUnit", "SubPhysicalUnit", "CreateSubPhysicalUnit", <<"SubPhysicalUnit">>)>>
    [] c = "Wheel" -> <<Kd("WheelSlot", "WheelSlot", "CreateWheelSlot", <<"Nm">>)>>
    [] c = "WheelSlot" -> <<Kd("AnimationSystem", "AnimationSystem", "CreateAnimationSystem", <<"Dbl", "Dbl", "Dbl", "Dbl", "Dbl", "Dbl", "Dbl">>), Kd("PrismFacet", "PrismFacet", "CreatePrismFacet", <<"Rot">>)>>
    [] c = "GeometryReference" -> <<Kd("Break", "Break", "CreateBreak", <<"Brk1", "Addr">>)>>
    [] c \in GeoClasses -> GeoKids("InternalGeometry") \o (IF c = "Laser" THEN <<Kd("LaserProtocol", "Protocol", "CreateLaserProtocol", <<"Nm">>)>>
                                       ELSE IF c = "WiringObject" THEN <<Kd("PinPatch", "PinPatch", "CreatePinPatch", <<"@WiringObject", "U", "U">>)>> ELSE <<>>)
    [] c = "DMXMode" -> <<Kd("DmxChannel", "DMXChannel", "CreateDmxChannel", <<"@Geometry">>), Kd("DmxMacro", "FTMacro", "CreateDmxMacro", <<"Nm">>),
                          Kd("DmxRelation", "Relation", "CreateDmxRelation", <<"Nm", "Relation", "@DMXChannel", "@ChannelFunction">>)>>
    [] c = "DMXChannel" -> <<Kd("LogicalChannel", "LogicalChannel", "CreateLogicalChannel", <<"@Attribute">>)>>
    [] c = "LogicalChannel" -> <<Kd("DmxFunction", "ChannelFunction", "CreateDmxFunction", <<"Nm">>)>>
    [] c = "ChannelFunction" -> <<Kd("DmxChannelSet", "ChannelSet", "CreateDmxChannelSet", <<"Txt", "#", "#">>), Kd("DmxSubChannelSet", "SubChannelSet", "CreateDmxSubChannelSet", <<"Txt", "@SubPhysicalUnit">>)>>
    [] c = "FTMacro" -> <<Kd("MacroDMX", "MacroDMX", "CreateMacroDMX", <<>>), Kd("MacroVisual", "MacroVisual", "CreateMacroVisual", <<>>)>>
    [] c = "MacroDMX" -> <<Kd("Step", "MacroDMXStep", "CreateStep", <<"Dbl">>)>>
    [] c = "MacroDMXStep" -> <<Kd("DMXValue", "MacroDMXValue", "CreateDMXValue", <<"#", "@DMXChannel">>)>>
    [] c = "MacroVisual" -> <<Kd("VisualStep", "MacroVisualStep", "CreateVisualStep", <<>>)>>
    [] c = "MacroVisualStep" -> <<Kd("VisualValue", "MacroVisualValue", "CreateVisualValue", <<"#", "@ChannelFunction">>)>>
    [] c = "Emitter" -> <<Kd("Measurement", "Measurement", "CreateMeasurement", <<>>)>>
    [] c = "Filter" -> <<Kd("Measurement", "FilterMeasurement", "CreateMeasurement", <<>>)>>
    [] c \in {"Measurement", "FilterMeasurement"} -> <<Kd("MeasurementPoint", "MeasurementPoint", "CreateMeasurementPoint", <<>>)>>
    [] c = "DMXProfile" -> <<Kd("Point", "Point", "CreatePoint", <<"Dbl", "Dbl", "Dbl", "Dbl", "Dbl">>)>>
    [] c = "CRIGroup" -> <<Kd("CRI", "CRI", "CreateCRI", <<"Ces", "Cri">>)>>
    [] c = "FTRDM" -> <<Kd("SoftwareVersionID", "SoftwareVersionID", "CreateSoftwareVersionID", <<"Hex">>)>>
    [] c = "SoftwareVersionID" -> <<Kd("DMXPersonality", "DMXPersonality", "CreateDMXPersonality", <<"Hex", "@DMXMode">>)>>
    [] c \in {"Art-Net", "sACN"} -> <<Kd("Map", "Map", "CreateMap", <<"U", "U">>)>>
    [] OTHER -> <<>>
Single == {"AnimationSystem", "MacroDMX", "MacroVisual", "FTRDM", "Art-Net", "sACN"}
TagOf(c) == CASE c = "FilterMeasurement" -> "Measurement" [] c = "AdditionalColorSpace" -> "ColorSpace" [] c = "Fixture" -> "FixtureType" [] c = "WheelSlot" -> "Slot" [] c = "PrismFacet" -> "Facet" [] OTHER -> c
ClassOf(c) == CASE c \in GeoClasses -> "IGdtfGeometry" [] c = "PrismFacet" -> "IGdtfWheelSlotPrismFacet" [] c = "AnimationSystem" -> "IGdtfWheelSlotAnimationSystem"
                [] c = "Protocol" -> "IGdtfLaserProtocol" [] c = "DMXMode" -> "IGdtfDmxMode" [] c = "DMXChannel" -> "IGdtfDmxChannel" [] c = "LogicalChannel" -> "IGdtfDmxLogicalChannel"
                [] c = "ChannelFunction" -> "IGdtfDmxChannelFunction" [] c = "ChannelSet" -> "IGdtfDmxChannelSet" [] c = "SubChannelSet" -> "IGdtfDmxSubChannelSet"
                [] c = "Relation" -> "IGdtfDmxRelation" [] c = "FTMacro" -> "IGdtfMacro" [] c = "Emitter" -> "IGdtfPhysicalEmitter" [] c = "FilterMeasurement" -> "IGdtfMeasurement"
                [] c = "AdditionalColorSpace" -> "IGdtfColorSpace" [] c = "FTRDM" -> "IGdtf_FTRDM" [] c = "Art-Net" -> "IGdtfArtNet" [] c = "sACN" -> "IGdtfSACN" [] OTHER -> "IGdtf" \o c
=============================================================================
