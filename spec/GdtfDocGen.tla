----------------------------- MODULE GdtfDocGen -----------------------------
(* Random documents: a random fixture (built by the calls of GdtfGen), written in a random variant. *)
EXTENDS GdtfDoc, GdtfGen
VARIABLE phase
DInit == Init /\ phase = "build"
Build == /\ phase = "build" /\ tries < MaxOps /\ tries' = tries + 1 /\ UNCHANGED phase
         /\ \E op \in {RandOp(nodes, tries + 1)} :
              IF op.m = "" THEN UNCHANGED <<nodes, hist>>
              ELSE \E r \in {Apply(nodes, op)} : IF ~Regular(r.n) THEN UNCHANGED <<nodes, hist>> ELSE nodes' = r.n /\ hist' = Append(hist, op)
Write == /\ phase = "build" /\ tries = MaxOps /\ phase' = "done" /\ UNCHANGED <<nodes, hist, tries>>
         /\ \E style \in {RandomElement({"plain", "sparse", "mixed", "mixed"})} :
            \E gone \in {IF Rnd(3) # 0 \/ Droppable(nodes) = {} THEN {} ELSE {RandomElement(Droppable(nodes)) : k \in 1..2}} :
            \E fill \in {Rnd(3) # 0} :
            \E full \in {GoneDoc(nodes, gone, fill)} :
            \E doc \in {Vary(full, style)} :
              PrintT("@@" \o ToJson([ops |-> hist, gone |-> SetToSeq(gone), fill |-> fill, xml |-> doc]))
DNext == Build \/ Write
=============================================================================
