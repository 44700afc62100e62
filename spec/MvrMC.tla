------------------------------- MODULE MvrMC -------------------------------
(* Exhaustive exploration of the MVR API model with small constants: the design-level properties.  *)
EXTENDS MvrXml, MvrOps
CONSTANTS MaxOps, Methods        \* which calls are explored
VARIABLES nodes, h

SmallStr == Same({"", "A"})
SmallMat == {V(IdMat, "{1,0,0}{0,1,0}{0,0,1}{0,0,0}"), V("1,0,0,0,1,0,0,0,1,5,6,7", "{1,0,0}{0,1,0}{0,0,1}{5,6,7}")}
OneAddr == {"1", "2"}
TwoBreaks == {"0", "1"}
OneFile == {"model.3ds"}

Init == nodes = Init0 /\ h = 0
Next == /\ h < MaxOps
        /\ \E sh \in AllShapes(nodes) : sh.m \in Methods /\
             \E a \in AllSeqs(Args(nodes, sh, h + 1)) :
               nodes' = Apply(nodes, MkOp(sh, a)).n
        /\ h' = h + 1

Parents == \A i \in Idx(nodes) : IF i = 1 THEN nodes[i].p = 0 ELSE nodes[i].p \in 1..(i - 1)
WalkOnce == LET w == Preorder(nodes, ColOrder) IN Len(w) = Len(nodes) /\ {w[k] : k \in 1..Len(w)} = Idx(nodes)
RefClass == [Multipatch |-> "ISceneObj", Class |-> "IClass", Focus |-> "ISceneObj", Position |-> "IPosition", SymDef |-> "ISymDef"]
RefsOk(ns) == \A i \in Idx(ns) : \A r \in DOMAIN RefClass : ns[i].r[r] # 0 => ns[i].r[r] \in Idx(ns) /\ ns[ns[i].r[r]].c = RefClass[r]
References == RefsOk(nodes) /\ RefsOk(Restore(nodes))
\* saving what was read back yields the same document, and reading is a projection (a group that is empty is
\* not written, so a group that only held such a group becomes empty itself: those documents shrink instead)
SaveStable == IF Kept(nodes) # Idx(nodes) THEN Len(Restore(Restore(nodes))) <= Len(Restore(nodes)) /\ Len(Restore(nodes)) < Len(nodes)
              ELSE Restore(Restore(nodes)) = Restore(nodes) /\ XmlEq(XmlOrdered, DocXml(Restore(nodes)), DocXml(nodes))
\* definitions are unique under the key they are looked up with
Unique(c, F(_)) == \A i, j \in OfClass(nodes, c) : F(nodes[i]) = F(nodes[j]) => i = j
Dedup == /\ Unique("IClass", LAMBDA n: n.f.Name) /\ Unique("IPosition", LAMBDA n: n.f.Name)
         /\ Unique("ISymDef", LAMBDA n: n.f.Guid) /\ Unique("IMappingDefinition", LAMBDA n: n.f.Guid)
\* one address per break, one mapping per definition at creation
Breaks == \A i \in Idx(nodes) : \A a, b \in 1..Len(nodes[i].x.addrs) : nodes[i].x.addrs[a][2] = nodes[i].x.addrs[b][2] => a = b
\* only empty groups disappear
Losses == LET k == Kept(nodes) IN \A i \in Idx(nodes) \ k : \E g \in Idx(nodes) : AncestorOrSelf(nodes, g, i) /\ nodes[g].c = "ISceneObj" /\ nodes[g].f.Kind = "Group"
Grow == [][Len(nodes') >= Len(nodes) /\ \A i \in Idx(nodes) : nodes'[i].c = nodes[i].c /\ nodes'[i].p = nodes[i].p]_<<nodes, h>>
=============================================================================
