-------------------------------- MODULE Mvr --------------------------------
(* State and transitions of the MVR scene API (IMediaRessourceVectorInterface and the interfaces it  *)
(* hands out): what an application has described, what the archive must contain, and what a reader   *)
(* must see.  All scalars are strings in the form the public getters return them.                    *)
EXTENDS DocTree, TLC

None == "!"                       \* a getter that reports an error / nothing set
NoRefs == [Multipatch |-> 0, Class |-> 0, Focus |-> 0, Position |-> 0, SymDef |-> 0]
NoSeqs == [addrs |-> <<>>, protos |-> <<>>, kv |-> <<>>]
Node(c, k, p, f) == [c |-> c, k |-> k, p |-> p, f |-> f, r |-> NoRefs, x |-> NoSeqs]

ROOT == "IMediaRessourceVectorInterface"
Init0 == <<Node(ROOT, "root", 0, [Kind |-> "Root"])>>

Kinds == {"Layer", "Group", "Fixture", "SceneObject", "FocusPoint", "VideoScreen", "Truss", "Support", "Projector"}
TypeNum(k) == CASE k = "Layer" -> "0" [] k = "Group" -> "1" [] k = "SceneObject" -> "2" [] k = "FocusPoint" -> "3"
                [] k = "Truss" -> "4" [] k = "VideoScreen" -> "5" [] k = "Fixture" -> "6" [] k = "Projector" -> "7" [] OTHER -> "8"
Container(k) == k \in {"Layer", "Group"}
GdtfSpec(k) == k \in Kinds \ {"Layer", "Group", "FocusPoint"}

\* ---------------------------------------------------------------- value domains: [g: getter form, x: XML form]
V(g, x) == [g |-> g, x |-> x]
Same(S) == {V(s, s) : s \in S}
IdMat == "1,0,0,0,1,0,0,0,1,0,0,0"
MatDom == {V(IdMat, "{1,0,0}{0,1,0}{0,0,1}{0,0,0}"), V("1,0,0,0,1,0,0,0,1,5,6,7", "{1,0,0}{0,1,0}{0,0,1}{5,6,7}"),
           V("0,1,0,-1,0,0,0,0,1,0.5,-0.25,1000", "{0,1,0}{-1,0,0}{0,0,1}{0.5,-0.25,1000}"),
           V("1,0,0,0,1,0,0,0,1,0,0,2500", "{1,0,0}{0,1,0}{0,0,1}{0,0,2500}"),
           V("1,0,0,0,0,1,0,-1,0,0,0,0", "{1,0,0}{0,0,1}{0,-1,0}{0,0,0}"),
           V("0.5,0,0,0,1,0,0,0,1,0,0,0", "{0.5,0,0}{0,1,0}{0,0,1}{0,0,0}"),
           V("1,0,0,0,-1,0,0,0,1,0,0,0", "{1,0,0}{0,-1,0}{0,0,1}{0,0,0}"),
           V("1,0,0,0,1,0,0,0,1,0,-0.5,0", "{1,0,0}{0,1,0}{0,0,1}{0,-0.5,0}"),
           V("1,0,0,0,1,0,0,0,-1,0,0,0", "{1,0,0}{0,1,0}{0,0,-1}{0,0,0}")}
StrDom == Same({"", "A", "Front Truss", "a<b>&\"c'd", "~uni~", "~long~", "1.5", "0", "a,b;c"})
BoolDom == Same({"true", "false"})
U32Dom == Same({"0", "1", "640", "2147483647"})
S32Dom == Same({"0", "1", "-7", "2147483647", "-2147483648"})
S8Dom == Same({"0", "1", "-128", "127"})
DblDom == Same({"0", "1", "90.5", "-359.25", "1000000.125"})
ColDom == Same({"0.312712,0.329008,100", "0,0,0", "0.1,0.2,33.5", "1,1,0.001"})
VecDom == {V("0,0,1", "{0,0,1}"), V("1,0,0", "{1,0,0}"), V("-0.5,0.25,0", "{-0.5,0.25,0}")}
SrcDom == {V("0", "NDI"), V("1", "File"), V("3", "CITP"), V("4", "CaptureDevice")}
SclDom == {V("0", "ScaleKeepRatio"), V("1", "ScaleIgnoreRatio"), V("2", "KeepSizeCenter")}
TrnDom == {V("0", "Unicast"), V("1", "Multicast"), V("2", "Broadcast"), V("3", "Anycast")}
CmdDom == Same({"Body_Pan", "Body.Pan 1 (fine)", "Dimmer", "Yoke_Pan_1"})
CmdValDom == Same({"0", "0.5", "-12.25", "1000"})
UidDom == Same({"00000000000000000000000000000001", "5eed0000000000000000000000100000", "ffffffffffffffffffffffffffffffff"})
Xv(D, g) == (CHOOSE v \in D : v.g = g).x
G(D) == {v.g : v \in D}

\* plain setters: class -> method -> [fld, dom]
Setter(m, fld, dom, el) == [m |-> m, fld |-> fld, dom |-> dom, el |-> el]
FixtureSetters == <<Setter("SetFunction", "Function", StrDom, "Function"), Setter("SetUnitNumber", "UnitNumber", S32Dom, "UnitNumber"),
  Setter("SetFixtureId", "FixtureId", StrDom, "FixtureID"), Setter("SetFixtureIdNumeric", "FixtureIdNumeric", U32Dom, "FixtureIDNumeric"),
  Setter("SetColor", "Color", ColDom, "Color"), Setter("SetFixtureTypeId", "FixtureTypeId", S8Dom, "FixtureTypeId"),
  Setter("SetCustomId", "CustomId", U32Dom, "CustomId"), Setter("SetGobo", "Gobo", StrDom, "Gobo"), Setter("SetGoboRotation", "GoboRotation", DblDom, ""),
  Setter("SetCastShadow", "CastShadow", BoolDom, "CastShadow"), Setter("SetDMXInvertPan", "DMXInvertPan", BoolDom, "DMXInvertPan"),
  Setter("SetDMXInvertTilt", "DMXInvertTilt", BoolDom, "DMXInvertTilt")>>
SpecSetters == <<Setter("SetGdtfName", "GdtfName", StrDom, "GDTFSpec"), Setter("SetGdtfMode", "GdtfMode", StrDom, "GDTFMode")>>
ProjSetters == <<Setter("SetScaleHandling", "ScaleHandling", SclDom, "ScaleHandling")>>
Setters(n) ==
  CASE n.c = "ISceneObj" -> (IF GdtfSpec(n.f.Kind) THEN SpecSetters ELSE <<>>)
                            \o (IF n.f.Kind = "Fixture" THEN FixtureSetters ELSE <<>>)
                            \o (IF n.f.Kind = "Projector" THEN ProjSetters ELSE <<>>)
    [] n.c = "IMappingDefinition" -> <<Setter("SetSizeX", "SizeX", U32Dom, "SizeX"), Setter("SetSizeY", "SizeY", U32Dom, "SizeY"),
                                       Setter("SetScaleHandling", "ScaleHandling", SclDom, "ScaleHandling")>>
    [] n.c = "ISource" -> <<Setter("SetValue", "Value", StrDom, ""), Setter("SetLinkedGeometry", "LinkedGeometry", StrDom, ""), Setter("SetType", "Type", SrcDom, "")>>
    [] n.c = "IMapping" -> <<Setter("SetLinkedDefUuid", "LinkedDefUuid", UidDom, ""), Setter("SetUx", "Ux", U32Dom, "ux"), Setter("SetUy", "Uy", U32Dom, "uy"), Setter("SetOx", "Ox", U32Dom, "ox"),
                             Setter("SetOy", "Oy", U32Dom, "oy"), Setter("SetRz", "Rz", DblDom, "rz")>>
    [] n.c = "IConnection" -> <<Setter("SetOwn", "Own", StrDom, ""), Setter("SetOther", "Other", StrDom, ""), Setter("SetToObject", "ToObject", UidDom, "")>>
    [] n.c = "ICustomCommand" -> <<Setter("SetChannelFunction", "ChannelFunction", CmdDom, ""), Setter("SetIsPercentage", "IsPercentage", BoolDom, ""), Setter("SetValue", "Value", CmdValDom, "")>>
    [] n.c = "IAlignment" -> <<Setter("SetBeamGeometry", "BeamGeometry", StrDom, ""), Setter("SetUpVector", "UpVector", VecDom, ""), Setter("SetDirection", "Direction", VecDom, "")>>
    [] n.c = "IOverwrite" -> <<Setter("SetUniversal", "Universal", StrDom, ""), Setter("SetTarget", "Target", StrDom, "")>>
    [] OTHER -> <<>>
SetterOf(n, m) == LET s == Setters(n) IN s[CHOOSE i \in 1..Len(s) : s[i].m = m]
HasSetter(n, m) == \E i \in 1..Len(Setters(n)) : Setters(n)[i].m = m

\* ---------------------------------------------------------------- initial fields of new nodes
FixtureF == [Function |-> "", UnitNumber |-> "0", FixtureId |-> "", FixtureIdNumeric |-> "0", Color |-> "0.312712,0.329008,100",
             FixtureTypeId |-> "0", CustomId |-> "0", Gobo |-> "", GoboRotation |-> "0", CastShadow |-> "false",
             DMXInvertPan |-> "false", DMXInvertTilt |-> "false"]
SceneF(kind, guid, name, mat) ==
  [Kind |-> kind, Type |-> TypeNum(kind), Guid |-> guid, Name |-> name, TransfromMatrix |-> mat]
  @@ (IF GdtfSpec(kind) THEN [GdtfName |-> "", GdtfMode |-> ""] ELSE <<>>)
  @@ (IF kind = "Fixture" THEN FixtureF ELSE <<>>)
  @@ (IF kind = "Projector" THEN [ScaleHandling |-> "0"] ELSE <<>>)

ColOrder(c) == CASE c = ROOT -> <<"Class", "DataProviderObject", "MappingDefinition", "PositionObject", "SymDef", "obj">>
                 [] c = "ISceneObj" -> <<"Alignment", "Connection", "CustomCommand", "Geometry", "Mapping", "Overwrite", "ProjectorSource", "VideoScreenSource", "obj">>
                 [] c = "ISymDef" -> <<"Geometry">>
                 [] c = "IMappingDefinition" -> <<"Source">>
                 [] OTHER -> <<>>

Idx(nodes) == 1..Len(nodes)
OfClass(nodes, c) == {i \in Idx(nodes) : nodes[i].c = c}
Find(nodes, P(_)) == LET s == {i \in Idx(nodes) : P(nodes[i])} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j

Res(nodes, rc, ret) == [n |-> nodes, rc |-> rc, ret |-> ret]
AddNode(nodes, nd) == Res(Append(nodes, nd), "ok", Len(nodes) + 1)

\* ---------------------------------------------------------------- the API transitions
\* op = [m: method, on: node index, a: sequence of string arguments, r: referenced node index or 0]
CreateAux(nodes, op) ==
  CASE op.m = "CreateDataProviderObject" -> AddNode(nodes, Node("ISceneDataProvider", "DataProviderObject", 1, [ProviderName |-> op.a[1], Version |-> op.a[2]]))
    \* a position is identified by its name; the last UUID given for it wins
    [] op.m = "CreatePositionObject" ->
         LET e == Find(nodes, LAMBDA n: n.c = "IPosition" /\ n.f.Name = op.a[2])
         IN IF e # 0 THEN Res([nodes EXCEPT ![e].f.Guid = op.a[1]], "ok", e)
            ELSE AddNode(nodes, Node("IPosition", "PositionObject", 1, [Guid |-> op.a[1], Name |-> op.a[2]]))
    \* a class is identified by its name
    [] op.m = "CreateClassObject" ->
         LET e == Find(nodes, LAMBDA n: n.c = "IClass" /\ n.f.Name = op.a[2])
         IN IF e # 0 THEN Res(nodes, "ok", e) ELSE AddNode(nodes, Node("IClass", "Class", 1, [Guid |-> op.a[1], Name |-> op.a[2]]))
    \* symbol and mapping definitions are identified by their UUID
    [] op.m = "CreateSymDefObject" ->
         LET e == Find(nodes, LAMBDA n: n.c = "ISymDef" /\ n.f.Guid = op.a[1])
         IN IF e # 0 THEN Res(nodes, "ok", e) ELSE AddNode(nodes, Node("ISymDef", "SymDef", 1, [Guid |-> op.a[1], Name |-> op.a[2]]))
    [] op.m = "CreateMappingDefinitionObject" ->
         LET e == Find(nodes, LAMBDA n: n.c = "IMappingDefinition" /\ n.f.Guid = op.a[1])
         IN IF e # 0 THEN Res(nodes, "ok", e)
            ELSE AddNode(nodes, Node("IMappingDefinition", "MappingDefinition", 1, [Guid |-> op.a[1], Name |-> op.a[2], SizeX |-> "0", SizeY |-> "0", ScaleHandling |-> "0"]))

SceneCreates == [CreateFixture |-> "Fixture", CreateSceneObject |-> "SceneObject", CreateFocusPoint |-> "FocusPoint", CreateVideoScreen |-> "VideoScreen",
                 CreateTruss |-> "Truss", CreateSupport |-> "Support", CreateProjector |-> "Projector", CreateGroupObject |-> "Group"]
CreateScene(nodes, op) ==
  IF op.m = "CreateLayerObject" THEN AddNode(nodes, Node("ISceneObj", "obj", 1, SceneF("Layer", op.a[1], op.a[2], IdMat)))
  ELSE IF op.m = "CreateGroupObject3" THEN AddNode(nodes, Node("ISceneObj", "obj", op.r, SceneF("Group", op.a[1], "", op.a[2])))
  ELSE AddNode(nodes, Node("ISceneObj", "obj", op.r, SceneF(SceneCreates[op.m], op.a[1], op.a[3], op.a[2])))

Upd(nodes, i, fld, v) == [nodes EXCEPT ![i].f = [@ EXCEPT ![fld] = v]]
SetSrc(nodes, op, k) ==
  LET e == Find(nodes, LAMBDA n: n.c = "ISource" /\ n.p = op.on)
      f == [Value |-> op.a[1], LinkedGeometry |-> op.a[2], Type |-> op.a[3]]
  IN  IF e # 0 THEN Res([nodes EXCEPT ![e].f = f], "ok", e) ELSE Res(Append(nodes, Node("ISource", k, op.on, f)), "ok", Len(nodes) + 1)

Apply(nodes, op) ==
  LET n == nodes[op.on] IN
  CASE op.m \in {"CreateDataProviderObject", "CreatePositionObject", "CreateClassObject", "CreateSymDefObject", "CreateMappingDefinitionObject"} -> CreateAux(nodes, op)
    [] op.m \in (DOMAIN SceneCreates) \cup {"CreateLayerObject", "CreateGroupObject3"} -> CreateScene(nodes, op)
    [] op.m = "AddKeyValue" -> Res([nodes EXCEPT ![op.on].x.kv = Append(@, op.a)], "ok", 0)
    [] op.m = "AddGeometry" -> Res(Append(nodes, Node("IGeometryReference", "Geometry", op.on, [IsSymbol |-> "false", TransfromMatrix |-> op.a[1], File |-> op.a[2]])), "ok", 0)
    [] op.m = "AddSymbol" -> Res(Append(nodes, [Node("IGeometryReference", "Geometry", op.on, [IsSymbol |-> "true", TransfromMatrix |-> op.a[2], Guid |-> op.a[1]])
                                                EXCEPT !.r.SymDef = op.r]), "ok", 0)
    [] op.m = "SetMultipatchParent" -> IF Container(n.f.Kind) THEN Res(nodes, "err", 0) ELSE Res([nodes EXCEPT ![op.on].r.Multipatch = op.r], "ok", 0)
    [] op.m = "SetClass" -> IF Container(n.f.Kind) THEN Res(nodes, "err", 0) ELSE Res([nodes EXCEPT ![op.on].r.Class = op.r], "ok", 0)
    [] op.m = "SetFocusPoint" -> Res([nodes EXCEPT ![op.on].r.Focus = op.r], "ok", 0)
    [] op.m = "SetPosition" -> Res([nodes EXCEPT ![op.on].r.Position = op.r], "ok", 0)
    \* one address per DMX break: a second one for the same break is ignored
    [] op.m = "AddAdress" -> IF \E j \in 1..Len(n.x.addrs) : n.x.addrs[j][2] = op.a[2] THEN Res(nodes, "ok", 0)
                             ELSE Res([nodes EXCEPT ![op.on].x.addrs = Append(@, op.a)], "ok", 0)
    [] op.m = "AddProtocol" -> Res([nodes EXCEPT ![op.on].x.protos = Append(@, op.a)], "ok", 0)
    \* a fixture has one mapping per mapping definition
    [] op.m = "AddMapping" -> IF \E j \in Idx(nodes) : nodes[j].c = "IMapping" /\ nodes[j].p = op.on /\ nodes[j].f.LinkedDefUuid = op.a[1] THEN Res(nodes, "err", 0)
                              ELSE Res(Append(nodes, Node("IMapping", "Mapping", op.on, [LinkedDefUuid |-> op.a[1], Ux |-> "0", Uy |-> "0", Ox |-> "0", Oy |-> "0", Rz |-> "0"])), "ok", Len(nodes) + 1)
    [] op.m = "CreateConnection" -> AddNode(nodes, Node("IConnection", "Connection", op.on, [Own |-> op.a[1], Other |-> op.a[2], ToObject |-> op.a[3]]))
    [] op.m = "CreateCustomCommand" -> AddNode(nodes, Node("ICustomCommand", "CustomCommand", op.on, [ChannelFunction |-> op.a[1], IsPercentage |-> op.a[2], Value |-> op.a[3]]))
    [] op.m = "CreateAlignment" -> AddNode(nodes, Node("IAlignment", "Alignment", op.on, [BeamGeometry |-> op.a[1], UpVector |-> op.a[2], Direction |-> op.a[3]]))
    [] op.m = "CreateOverwrite" -> AddNode(nodes, Node("IOverwrite", "Overwrite", op.on, [Universal |-> op.a[1], Target |-> op.a[2]]))
    [] op.m = "SetSource" -> SetSrc(nodes, op, "Source")
    [] op.m = "SetVideoScreenSource" -> SetSrc(nodes, op, "VideoScreenSource")
    [] op.m = "SetProjectorSource" -> SetSrc(nodes, op, "ProjectorSource")
    [] HasSetter(n, op.m) -> Res(Upd(nodes, op.on, SetterOf(n, op.m).fld, op.a[1]), "ok", 0)
    \* a setter that does not apply to this kind of object is refused and changes nothing
    [] OTHER -> Res(nodes, "err", 0)

\* ---------------------------------------------------------------- what a file keeps
\* Objects in groups without any child are dropped by the writer together with the group itself.
Kept(nodes) ==
  LET empty == {i \in Idx(nodes) : nodes[i].c = "ISceneObj" /\ nodes[i].f.Kind = "Group" /\ KidsOf(nodes, i, "obj") = <<>>}
  IN  {i \in Idx(nodes) : \A e \in empty : ~AncestorOrSelf(nodes, e, i)}
\* Everything else survives, except a gobo rotation without a gobo.
KeepF(n) == IF n.c = "ISceneObj" /\ n.f.Kind = "Fixture" /\ n.f.Gobo = "" THEN [n.f EXCEPT !.GoboRotation = "0"] ELSE n.f
\* the nodes of S (closed under parents), with parents and references renumbered
Keep(nodes, S) ==
  LET idx == SelectSeq([j \in Idx(nodes) |-> j], LAMBDA j: j \in S)
      R(x) == IF x \in S THEN PosIn(idx, x) ELSE 0
  IN  [k \in 1..Len(idx) |->
        [nodes[idx[k]] EXCEPT !.p = R(@), !.r = [Multipatch |-> R(@.Multipatch), Class |-> R(@.Class), Focus |-> R(@.Focus), Position |-> R(@.Position), SymDef |-> R(@.SymDef)]]]
Restore(nodes) == LET ns == Keep(nodes, Kept(nodes)) IN [k \in 1..Len(ns) |-> [ns[k] EXCEPT !.f = KeepF(ns[k])]]

\* ---------------------------------------------------------------- what the reader interface shows
Named(nodes, i, none) == IF i = 0 THEN none ELSE nodes[i].f.Guid \o "/" \o nodes[i].f.Name
SceneObjs(nodes) == {i \in Idx(nodes) : nodes[i].c = "ISceneObj" /\ ~Container(nodes[i].f.Kind)}
FirstLayer(nodes) == LET k == KidsOf(nodes, 1, "obj") IN IF k = <<>> THEN None ELSE Named(nodes, k[1], None)
Shown(nodes, i, read) ==
  LET n == nodes[i] IN
  CASE n.c = ROOT -> [FirstLayer |-> FirstLayer(nodes)]
         @@ (IF read THEN [SceneObjectCount |-> ToString(Cardinality(SceneObjs(nodes))),
                           DuplicatedUuids |-> IF \E a, b \in SceneObjs(nodes) : a # b /\ nodes[a].f.Guid = nodes[b].f.Guid THEN "true" ELSE "false",
                           MVRVersion |-> "1,6"] ELSE <<>>)
    [] n.c = "ISceneDataProvider" -> n.f @@ [KeyValues |-> Join([j \in 1..Len(n.x.kv) |-> n.x.kv[j][1] \o "=" \o n.x.kv[j][2]], "|")]
    [] n.c = "ISymDef" -> n.f @@ [IsContaingSymbolGeomtery |-> IF \E j \in Idx(nodes) : nodes[j].p = i /\ nodes[j].f.IsSymbol = "true" THEN "true" ELSE "false"]
    [] n.c = "IGeometryReference" -> [IsSymbol |-> n.f.IsSymbol, TransfromMatrix |-> n.f.TransfromMatrix]
         @@ (IF n.f.IsSymbol = "true" THEN [SymDef |-> Named(nodes, n.r.SymDef, None)] ELSE [FileForGeometry |-> n.f.File])
    [] n.c = "ISceneObj" -> [fl \in (DOMAIN n.f) \ {"Kind"} |-> n.f[fl]]
         @@ (IF Container(n.f.Kind) THEN <<>> ELSE [MultipatchParent |-> Named(nodes, n.r.Multipatch, None), Class |-> Named(nodes, n.r.Class, None)])
         @@ (IF n.f.Kind # "Fixture" THEN <<>>
             ELSE [FocusPoint |-> Named(nodes, n.r.Focus, None), Position |-> Named(nodes, n.r.Position, "/"),
                   Adresses |-> Join([j \in 1..Len(n.x.addrs) |-> n.x.addrs[j][2] \o ":" \o n.x.addrs[j][1]], " "),
                   Protocols |-> Join([j \in 1..Len(n.x.protos) |-> Join(n.x.protos[j], "|")], " "),
                   ProtocolsCount |-> ToString(Len(n.x.protos))])
    [] OTHER -> n.f

\* connections of other objects than fixtures are kept in the file but the interface does not show them
Visible(nodes) == Keep(nodes, {i \in Idx(nodes) : ~(nodes[i].c = "IConnection" /\ nodes[nodes[i].p].f.Kind # "Fixture")})
Dump(all, read) ==
  LET nodes == Visible(all)
      ord == Preorder(nodes, ColOrder)
  IN  [k \in 1..Len(ord) |-> [c |-> nodes[ord[k]].c, p |-> PosIn(ord, nodes[ord[k]].p), k |-> nodes[ord[k]].k, f |-> Shown(nodes, ord[k], read)]]

\* observed node o shows everything the model node m requires
Shows(m, o) == /\ o.c = m.c /\ o.p = m.p /\ o.k = m.k
               /\ \A fl \in DOMAIN m.f : fl \in DOMAIN o.f /\ o.f[fl] = m.f[fl]
DumpMatches(model, obs) == Len(model) = Len(obs) /\ \A i \in 1..Len(model) : Shows(model[i], obs[i])
=============================================================================
