------------------------------ MODULE MvrGen ------------------------------
(* Random behaviours of the MVR API (tlc -simulate): one history of Len(hist) = MaxOps calls per behaviour. *)
EXTENDS MvrOps, Json
CONSTANT MaxOps
VARIABLES nodes, hist
Family(ns, w) == CASE w \in 1..4 -> CreateShapes(ns) [] w = 5 -> AuxShapes(ns) [] w \in 6..8 -> SubShapes(ns)
                   [] w \in 9..11 -> SetShapes(ns) [] w = 12 -> WrongShapes(ns) [] OTHER -> RefShapes(ns)
\* pick a method first, so that a method with few receivers is not drowned by one with many
PickShape(F) == LET m == RandomElement({s.m : s \in F}) IN RandomElement({s \in F : s.m = m})
RandArgs(doms) == [k \in 1..Len(doms) |-> RandomElement(doms[k])]
RandOp(ns, h) ==
  LET fam == IF h = 1 THEN CreateShapes(ns)
             ELSE LET F == Family(ns, RandomElement(1..14)) IN IF F = {} THEN CreateShapes(ns) ELSE F
      sh == PickShape(fam)
  IN  MkOp(sh, RandArgs(Args(ns, sh, h)))
Init == nodes = Init0 /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in {RandOp(nodes, Len(hist) + 1)} :
             \E r \in {Apply(nodes, op)} :
               /\ nodes' = r.n
               /\ hist' = Append(hist, op @@ [ret |-> r.ret])
               /\ (Len(hist') = MaxOps => PrintT("@@" \o ToJson(hist')))
=============================================================================
