------------------------------ MODULE MvrXml ------------------------------
(* The GeneralSceneDescription.xml document that stands for a model state. *)
EXTENDS Mvr

NoA == [q \in {} |-> ""]
El(t, x) == Xml(t, NoA, x, <<>>)
Grp(t, kids) == Xml(t, NoA, "", kids)
Opt(b, e) == IF b THEN <<e>> ELSE <<>>
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
At(b, k, v) == IF b THEN k :> v ELSE NoA

MatEl(m) == Opt(m # IdMat, El("Matrix", Xv(MatDom, m)))
ListEl(t, s) == Opt(s # <<>>, Grp(t, s))

CmdText(f) == f.ChannelFunction \o (IF f.IsPercentage = "true" THEN "/percent,f " ELSE ",f ") \o f.Value
SourceEl(n) == Xml("Source", At(n.f.LinkedGeometry # "", "linkedGeometry", n.f.LinkedGeometry) @@ ("type" :> Xv(SrcDom, n.f.Type)), n.f.Value, <<>>)

RECURSIVE ObjXml(_, _)
GeoXml(nodes, i) ==
  LET n == nodes[i] IN
  IF n.f.IsSymbol = "true"
  THEN Xml("Symbol", ("uuid" :> n.f.Guid) @@ At(n.r.SymDef # 0, "symdef", nodes[n.r.SymDef].f.Guid), "", MatEl(n.f.TransfromMatrix))
  ELSE Xml("Geometry3D", "fileName" :> n.f.File, "", MatEl(n.f.TransfromMatrix))

ObjXml(nodes, i) ==
  LET n == nodes[i]
      f == n.f
      k == f.Kind
      K(col, F(_)) == Map(KidsOf(nodes, i, col), F)
      tag == IF k = "Group" THEN "GroupObject" ELSE k
      objs == SelectSeq(KidsOf(nodes, i, "obj"), LAMBDA j: ~(nodes[j].f.Kind = "Group" /\ KidsOf(nodes, j, "obj") = <<>>))
      SE(s) == El(s.el, Xv(s.dom, f[s.fld]))
      Present(s) == /\ s.el # ""
                    /\ ~(s.fld = "FixtureIdNumeric" /\ f.FixtureIdNumeric = "0")
                    /\ ~(s.fld = "Function" /\ f.Function = "")
                    /\ s.fld # "Gobo"
      source(col) == LET s == KidsOf(nodes, i, col) IN Map(s, LAMBDA j: SourceEl(nodes[j]))
  IN
  Xml(tag, ("uuid" :> f.Guid) @@ At(f.Name # "", "name", f.Name) @@ At(n.r.Multipatch # 0, "multipatch", IF n.r.Multipatch = 0 THEN "" ELSE nodes[n.r.Multipatch].f.Guid), "",
    MatEl(f.TransfromMatrix)
    \o ListEl("Geometries", K("Geometry", LAMBDA j: GeoXml(nodes, j)))
    \o ListEl("CustomCommands", K("CustomCommand", LAMBDA j: El("CustomCommand", CmdText(nodes[j].f))))
    \o ListEl("Alignments", K("Alignment", LAMBDA j: Xml("Alignment", ("geometry" :> nodes[j].f.BeamGeometry) @@ ("up" :> Xv(VecDom, nodes[j].f.UpVector)) @@ ("direction" :> Xv(VecDom, nodes[j].f.Direction)), "", <<>>)))
    \o ListEl("Overwrites", K("Overwrite", LAMBDA j: Xml("Overwrite", ("universal" :> nodes[j].f.Universal) @@ ("target" :> nodes[j].f.Target), "", <<>>)))
    \o Opt(n.r.Class # 0, El("Classing", nodes[IF n.r.Class = 0 THEN 1 ELSE n.r.Class].f.Guid))
    \o ListEl("Connections", K("Connection", LAMBDA j: Xml("Connection", ("own" :> nodes[j].f.Own) @@ ("other" :> nodes[j].f.Other) @@ ("toObject" :> nodes[j].f.ToObject), "", <<>>)))
    \o Opt(KidsOf(nodes, i, "obj") # <<>>, Grp("ChildList", Map(objs, LAMBDA j: ObjXml(nodes, j))))
    \o (IF GdtfSpec(k) THEN Map(SpecSetters, SE) ELSE <<>>)
    \o (IF k # "Fixture" THEN <<>> ELSE
         Opt(n.r.Focus # 0, El("Focus", nodes[IF n.r.Focus = 0 THEN 1 ELSE n.r.Focus].f.Guid))
      \o Opt(n.r.Position # 0, El("Position", nodes[IF n.r.Position = 0 THEN 1 ELSE n.r.Position].f.Guid))
      \o <<Grp("Addresses", Map(n.x.addrs, LAMBDA ad: Xml("Address", "break" :> ad[2], ad[1], <<>>)))>>
      \o Map(SelectSeq(FixtureSetters, Present), SE)
      \o Opt(f.Gobo # "", Xml("Gobo", "rotation" :> f.GoboRotation, f.Gobo, <<>>))
      \o <<Grp("Mappings", K("Mapping", LAMBDA j: Xml("Mapping", "linkedDef" :> nodes[j].f.LinkedDefUuid, "",
                Map(SelectSeq(Setters(nodes[j]), LAMBDA s: s.el # ""), LAMBDA s: El(s.el, Xv(s.dom, nodes[j].f[s.fld]))))))>>
      \o <<Grp("Protocols", Map(n.x.protos, LAMBDA pr: Xml("Protocol", ("geometry" :> pr[1]) @@ ("name" :> pr[2]) @@ ("type" :> pr[3]) @@ ("version" :> pr[4]) @@ ("transmission" :> Xv(TrnDom, pr[5])), "", <<>>)))>>)
    \o (IF k # "VideoScreen" THEN <<>> ELSE <<Grp("Sources", source("VideoScreenSource"))>>)
    \o (IF k # "Projector" THEN <<>> ELSE <<Grp("Projections", <<Grp("Projection", source("ProjectorSource") \o <<El("ScaleHandling", Xv(SclDom, f.ScaleHandling))>>)>>)>>))

AuxXml(nodes, i) ==
  LET n == nodes[i]
      base == ("uuid" :> n.f.Guid) @@ At(n.f.Name # "", "name", n.f.Name)
  IN
  CASE n.c = "IPosition" -> Xml("Position", base, "", <<>>)
    [] n.c = "IClass" -> Xml("Class", base, "", <<>>)
    [] n.c = "ISymDef" -> Xml("Symdef", base, "", <<Grp("ChildList", Map(KidsOf(nodes, i, "Geometry"), LAMBDA j: GeoXml(nodes, j)))>>)
    [] n.c = "IMappingDefinition" -> Xml("MappingDefinition", base, "",
         Map(Setters(n), LAMBDA s: El(s.el, Xv(s.dom, n.f[s.fld]))) \o Map(KidsOf(nodes, i, "Source"), LAMBDA j: SourceEl(nodes[j])))

AuxOrder(nodes) == KidsOf(nodes, 1, "MappingDefinition") \o KidsOf(nodes, 1, "PositionObject") \o KidsOf(nodes, 1, "SymDef") \o KidsOf(nodes, 1, "Class")

DocXml(nodes) ==
  Xml("GeneralSceneDescription", ("verMajor" :> "1") @@ ("verMinor" :> "6") @@ ("provider" :> "") @@ ("providerVersion" :> ""), "",
    <<Grp("UserData", Map(KidsOf(nodes, 1, "DataProviderObject"), LAMBDA j: Xml("Data", ("provider" :> nodes[j].f.ProviderName) @@ ("ver" :> nodes[j].f.Version), "",
          Map(nodes[j].x.kv, LAMBDA e: Xml("VWEntry", "key" :> e[1], e[2], <<>>))))),
      Grp("Scene", <<Grp("Layers", Map(KidsOf(nodes, 1, "obj"), LAMBDA j: ObjXml(nodes, j))),
                     Grp("AUXData", Map(AuxOrder(nodes), LAMBDA j: AuxXml(nodes, j)))>>)>>)
XmlOrdered == {"ChildList", "Geometries", "Layers"}
=============================================================================
