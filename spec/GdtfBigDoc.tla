------------------------------ MODULE GdtfBigDoc ------------------------------
(* Random documents of big fixtures: the fixtures of GdtfBig written in the variants of GdtfDoc. *)
EXTENDS GdtfBig, GdtfDoc
VARIABLE phase
Run(ops) == FoldLeft(LAMBDA ns, op: TLCEval(Apply(ns, op).n), First, ops)
DInit == Init /\ phase = "build"
Build == /\ phase = "build" /\ tries < MaxOps /\ tries' = tries + 1 /\ UNCHANGED phase
         /\ \E op \in {RandOp(nodes, tries + 1)} :
              IF op.m = "" THEN UNCHANGED <<nodes, hist>>
              ELSE \E r \in {Apply(nodes, op)} : IF ~Regular(r.n) THEN UNCHANGED <<nodes, hist>> ELSE nodes' = r.n /\ hist' = Append(hist, op @@ [ret |-> r.ret])
Write == /\ phase = "build" /\ tries = MaxOps /\ phase' = "done" /\ UNCHANGED <<nodes, hist, tries>>
         /\ \E plan \in {Plan(hist, RandomElement({"defs", "chans", "both"}))} :
            \E ops \in {Blow(hist, plan)} :
            \E ns \in {Run(ops)} :
            \E style \in {RandomElement({"plain", "sparse", "mixed", "mixed"})} :
            \E gone \in {IF Rnd(3) # 0 \/ Droppable(ns) = {} THEN {} ELSE {RandomElement(Droppable(ns)) : k \in 1..6}} :
            \E fill \in {Rnd(3) # 0} :
            \E full \in {GoneDoc(ns, gone, fill)} :
            \E doc \in {Vary(full, style)} :
              PrintT("@@" \o ToJson([ops |-> ops, gone |-> SetToSeq(gone), fill |-> fill, xml |-> doc]))
DNext == Build \/ Write
=============================================================================
