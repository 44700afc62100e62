------------------------------ MODULE MvrOps ------------------------------
(* Which API calls are possible in a state (shapes) and with which arguments. *)
EXTENDS Mvr

\* the words of a UUID are of equal weight: objects differ in any one of them, the others may be zero
Guid(k) == LET d == ToString(100000 + k) IN
  CASE k % 5 = 0 -> "5eed0000000000000000000000" \o d [] k % 5 = 1 -> d \o "00000000000000000000000000" [] k % 5 = 2 -> "00000000" \o d \o "000000000000000000"
    [] k % 5 = 3 -> "0000000000000000" \o d \o "0000000000" [] OTHER -> "00" \o d \o "00ffffffff0000000000000a"
\* h: how many calls were made so far (makes UUIDs of new objects fresh)
NameDom == G(StrDom)
FileDom == {"model.3ds", "Main Stage.glb", "a.gltf"}
BreakDom == {"0", "1", "7"}
AddrDom == {"1", "512", "513", "4711"}
TypeNumDom == G(SrcDom)
WordDom == {"Beam", "g2", "a<b>&\"c'd", "~uni~"}

AuxCreates == {"CreateDataProviderObject", "CreatePositionObject", "CreateClassObject", "CreateSymDefObject", "CreateMappingDefinitionObject"}
ObjCreates == (DOMAIN SceneCreates) \cup {"CreateGroupObject3"}
Sh(m, on, r) == [m |-> m, on |-> on, r |-> r]
SceneIdx(nodes) == OfClass(nodes, "ISceneObj")
OfKind(nodes, K) == {i \in SceneIdx(nodes) : nodes[i].f.Kind \in K}
SubMethods == {"AddGeometry", "CreateConnection", "CreateCustomCommand", "CreateAlignment", "CreateOverwrite"}
FixtureMethods == {"AddAdress", "AddProtocol", "AddMapping"}

\* methods by family, with the pairs (receiver, referenced node) they can be called with
CreateShapes(nodes) == {Sh("CreateLayerObject", 1, 0)} \cup {Sh(m, 1, c) : m \in ObjCreates, c \in SceneIdx(nodes)}
AuxShapes(nodes) == {Sh(m, 1, 0) : m \in AuxCreates}
SetShapes(nodes) == UNION {{Sh(Setters(nodes[i])[k].m, i, 0) : k \in 1..Len(Setters(nodes[i]))} : i \in Idx(nodes)}
\* fixture-only setters called on some other kind of object must be refused
WrongShapes(nodes) == {Sh(FixtureSetters[k].m, i, 0) : k \in 1..Len(FixtureSetters), i \in OfKind(nodes, Kinds \ {"Fixture"})}
SubShapes(nodes) == {Sh(m, i, 0) : m \in SubMethods, i \in SceneIdx(nodes)}
               \cup {Sh(m, i, 0) : m \in FixtureMethods, i \in OfKind(nodes, {"Fixture"})}
               \cup {Sh("AddGeometry", i, 0) : i \in OfClass(nodes, "ISymDef")}
               \cup {Sh("AddSymbol", i, d) : i \in SceneIdx(nodes) \cup OfClass(nodes, "ISymDef"), d \in OfClass(nodes, "ISymDef")}
               \cup {Sh("AddKeyValue", i, 0) : i \in OfClass(nodes, "ISceneDataProvider")}
               \cup {Sh("SetSource", i, 0) : i \in OfClass(nodes, "IMappingDefinition")}
               \cup {Sh("SetVideoScreenSource", i, 0) : i \in OfKind(nodes, {"VideoScreen"})}
               \cup {Sh("SetProjectorSource", i, 0) : i \in OfKind(nodes, {"Projector"})}
RefShapes(nodes) == {Sh("SetClass", i, d) : i \in SceneIdx(nodes), d \in OfClass(nodes, "IClass")}
               \cup {Sh("SetPosition", i, d) : i \in OfKind(nodes, {"Fixture"}), d \in OfClass(nodes, "IPosition")}
               \cup {Sh("SetFocusPoint", i, d) : i \in OfKind(nodes, {"Fixture"}), d \in OfKind(nodes, {"FocusPoint"})}
               \cup {Sh("SetMultipatchParent", i, d) : i \in SceneIdx(nodes), d \in OfKind(nodes, {"Fixture"})}

GuidsOf(nodes, c) == {nodes[i].f.Guid : i \in OfClass(nodes, c)}
Args(nodes, sh, h) ==
  CASE sh.m = "CreateDataProviderObject" -> <<NameDom, NameDom>>
    [] sh.m = "AddKeyValue" -> <<NameDom, NameDom>>
    [] sh.m \in {"CreatePositionObject", "CreateClassObject"} -> <<{Guid(h)}, NameDom>>
    [] sh.m = "CreateSymDefObject" -> <<{Guid(h)} \cup GuidsOf(nodes, "ISymDef"), NameDom>>
    [] sh.m = "CreateMappingDefinitionObject" -> <<{Guid(h)} \cup GuidsOf(nodes, "IMappingDefinition"), NameDom>>
    [] sh.m = "CreateLayerObject" -> <<{Guid(h)}, NameDom>>
    [] sh.m = "CreateGroupObject3" -> <<{Guid(h)}, G(MatDom)>>
    [] sh.m \in DOMAIN SceneCreates -> <<{Guid(h)}, G(MatDom), NameDom>>
    [] sh.m = "AddGeometry" -> <<G(MatDom), FileDom>>
    [] sh.m = "AddSymbol" -> <<{Guid(h)}, G(MatDom)>>
    [] sh.m \in {"SetClass", "SetPosition", "SetFocusPoint", "SetMultipatchParent"} -> <<>>
    [] sh.m = "AddAdress" -> <<AddrDom, BreakDom>>
    [] sh.m = "AddProtocol" -> <<WordDom, NameDom, WordDom, WordDom, G(TrnDom)>>
    [] sh.m = "AddMapping" -> <<{Guid(0)} \cup GuidsOf(nodes, "IMappingDefinition")>>
    [] sh.m = "CreateConnection" -> <<WordDom, WordDom, {Guid(0)} \cup GuidsOf(nodes, "ISceneObj")>>
    [] sh.m = "CreateCustomCommand" -> <<G(CmdDom), G(BoolDom), G(CmdValDom)>>
    [] sh.m = "CreateAlignment" -> <<WordDom, G(VecDom), G(VecDom)>>
    [] sh.m = "CreateOverwrite" -> <<WordDom, WordDom>>
    [] sh.m \in {"SetSource", "SetVideoScreenSource", "SetProjectorSource"} -> <<NameDom, NameDom, TypeNumDom>>
    [] HasSetter(nodes[sh.on], sh.m) -> <<G(SetterOf(nodes[sh.on], sh.m).dom)>>
    [] OTHER -> <<G(FixtureSetters[CHOOSE k \in 1..Len(FixtureSetters) : FixtureSetters[k].m = sh.m].dom)>>

MkOp(sh, a) == [m |-> sh.m, on |-> sh.on, r |-> sh.r, a |-> a]
RECURSIVE AllSeqs(_)
AllSeqs(doms) == IF doms = <<>> THEN {<<>>} ELSE {<<v>> \o t : v \in doms[1], t \in AllSeqs(Tail(doms))}
AllShapes(nodes) == CreateShapes(nodes) \cup AuxShapes(nodes) \cup SetShapes(nodes) \cup WrongShapes(nodes) \cup SubShapes(nodes) \cup RefShapes(nodes)
AllOps(nodes, h) == UNION {{MkOp(sh, a) : a \in AllSeqs(Args(nodes, sh, h))} : sh \in AllShapes(nodes)}
=============================================================================
