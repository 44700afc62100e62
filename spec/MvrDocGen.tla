----------------------------- MODULE MvrDocGen -----------------------------
(* Random documents: a random scene (built by the calls of MvrGen), written in a random variant. *)
EXTENDS MvrDoc, MvrGen
VARIABLE phase
DInit == Init /\ phase = "build"
Build == phase = "build" /\ Len(hist) < MaxOps /\ (\E op \in {RandOp(nodes, Len(hist) + 1)} : \E r \in {Apply(nodes, op)} : nodes' = r.n /\ hist' = Append(hist, op)) /\ UNCHANGED phase
Write == /\ phase = "build" /\ Len(hist) = MaxOps /\ phase' = "done" /\ UNCHANGED <<nodes, hist>>
         /\ \E style \in {RandomElement({"plain", "sparse", "mixed", "mixed"})} :
            \E gone \in {IF Rnd(3) # 0 \/ Droppable(nodes) = {} THEN {} ELSE {RandomElement(Droppable(nodes)) : k \in 1..2}} :
            \E doc \in {Vary(DropElem(DocXml(nodes), {nodes[g].f.Guid : g \in gone}), style)} :
              PrintT("@@" \o ToJson([ops |-> hist, gone |-> SetToSeq(gone), xml |-> doc]))
DNext == Build \/ Write
=============================================================================
