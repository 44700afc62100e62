------------------------------- MODULE MvrDoc -------------------------------
(* Documents of other programs: the same scene written with its elements in another order, with elements that *)
(* carry their default left out, with elements nobody knows, and with definitions or layers missing to which   *)
(* something else still refers.  A reader must be shown the same scene (references to what is missing: none).  *)
EXTENDS MvrXml

\* elements whose absence means the same as their presence with this text and no children
DefaultText == [GDTFSpec |-> "", GDTFMode |-> "", FixtureID |-> "", UnitNumber |-> "0", FixtureTypeId |-> "0", CustomId |-> "0", CastShadow |-> "false",
                DMXInvertPan |-> "false", DMXInvertTilt |-> "false", Color |-> "0.312712,0.329008,100", Addresses |-> "", Mappings |-> "", Protocols |-> "",
                ux |-> "0", uy |-> "0", ox |-> "0", oy |-> "0", rz |-> "0", SizeX |-> "0", SizeY |-> "0", ScaleHandling |-> "ScaleKeepRatio", Sources |-> "", UserData |-> "", AUXData |-> "", ChildList |-> ""]
IsDefault(e) == e.t \in DOMAIN DefaultText /\ e.x = DefaultText[e.t] /\ e.k = <<>> /\ e.a = NoA

Rnd(n) == RandomElement(0..(n - 1))
Strange == {Xml("Vendor", "note" :> "x", "", <<El("Fixture", "y")>>), El("FutureElement", "1")}
Rotate(s, n) == IF s = <<>> THEN s ELSE [i \in 1..Len(s) |-> s[((i + n - 1) % Len(s)) + 1]]
\* children of one tag keep their order; the groups of tags are rotated and possibly reversed
Regroup(s) ==
  LET tags == SetToSeq({s[i].t : i \in 1..Len(s)})
      ts == Rotate(IF Rnd(2) = 0 THEN tags ELSE Reverse(tags), Rnd(7))
  IN  FlattenSeq([i \in 1..Len(ts) |-> SelectSeq(s, LAMBDA e: e.t = ts[i])])
Fixed == {"ChildList", "Geometries", "Layers", "UserData", "Addresses", "Mappings", "Protocols", "Alignments", "Overwrites", "Connections", "CustomCommands", "Sources", "Data"}
RECURSIVE Vary(_, _)
Vary(e, style) ==
  LET kids == IF style = "plain" THEN e.k ELSE SelectSeq(e.k, LAMBDA c: ~(IsDefault(c) /\ (style = "sparse" \/ Rnd(2) = 0)))
      kept == IF e.t \in Fixed \/ style = "plain" THEN kids ELSE Regroup(kids)
      extra == IF e.t \in {"Fixture", "Scene", "AUXData", "Layer", "ChildList", "GeneralSceneDescription", "Symdef", "Projector"} /\ Rnd(4) = 0 THEN <<RandomElement(Strange)>> ELSE <<>>
      all == IF Rnd(2) = 0 THEN extra \o kept ELSE kept \o extra
  IN  [e EXCEPT !.k = [i \in 1..Len(all) |-> Vary(all[i], style)]]

\* dropping definitions or layers: gone is a set of node indices (AUX definitions or layers) without their descendants
DropElem(doc, uuids) ==
  LET F(s) == SelectSeq(s, LAMBDA e: ~("uuid" \in DOMAIN e.a /\ e.a.uuid \in uuids /\ e.t \in {"Layer", "Class", "Position", "Symdef", "MappingDefinition"}))
      Sc(e) == [e EXCEPT !.k = [i \in 1..Len(e.k) |-> [e.k[i] EXCEPT !.k = F(@)]]]
  IN  [doc EXCEPT !.k = [i \in 1..Len(doc.k) |-> IF doc.k[i].t = "Scene" THEN Sc(doc.k[i]) ELSE doc.k[i]]]
Droppable(nodes) == {i \in Idx(nodes) : nodes[i].p = 1 /\ nodes[i].c # "ISceneDataProvider"}
Reload(nodes, gone) ==
  LET S == {i \in Kept(nodes) : \A g \in gone : ~AncestorOrSelf(nodes, g, i)}
      ns == Keep(nodes, S)
  IN  [k \in 1..Len(ns) |-> [ns[k] EXCEPT !.f = KeepF(ns[k])]]
=============================================================================
