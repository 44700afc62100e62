------------------------------- MODULE GroupGen -------------------------------
(* Random histories of a few stations: connect (one, or several at the same time), leave, connect again elsewhere, look around, send. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Steps
VARIABLES hist, srv, cache, cnt
vars == <<hist, srv, cache, cnt>>
St == {"s1", "s2", "s3", "s4"}
Rnd(k) == RandomElement(0..(k - 1))
Names == {"alpha", "beta", "al pha!", "Session_1-x"}
Svc == {"alpha", "beta"}
GInit == hist = <<>> /\ srv = [s \in St |-> "none"] /\ cache = [s \in St |-> "unset"] /\ cnt = 0
Log(e) == hist' = Append(hist, e) /\ cnt' = cnt + 1
Size(f, s) == IF f[s] = "none" THEN 0 ELSE Cardinality({t \in St \ {s} : f[t] = f[s]})
Want(f) == [s \in St |-> Size(f, s)]
\* what a station has looked up is out of date as soon as anybody comes or goes; a station that was connected looks again
Stale(c, who) == [t \in St |-> IF t \in who THEN "unset" ELSE IF c[t] = "ok" THEN "stale" ELSE c[t]]
Ready == {s \in St : cache[s] # "stale" \/ srv[s] # "none"}
Free(k) == {s \in Ready : srv[s] = "none"}
Connect(C) == C # {} /\ \E f \in {[s \in C |-> RandomElement(Svc)]} : \E g \in {TLCEval(f)} :
              LET h == [s \in St |-> IF s \in C THEN g[s] ELSE srv[s]] IN
              srv' = h /\ cache' = Stale(cache, C) /\ Log([e |-> "connect", list |-> SetToSeq({[s |-> s, v |-> g[s], name |-> s \o " " \o ToString(cnt)] : s \in C}), want |-> Want(h)])
Leave(C) == C # {} /\ LET h == [s \in St |-> IF s \in C THEN "none" ELSE srv[s]] IN srv' = h /\ cache' = Stale(cache, C) /\ Log([e |-> "leave", list |-> SetToSeq(C), want |-> Want(h)])
Query(s) == cache' = [cache EXCEPT ![s] = IF srv[s] = "none" THEN "ok" ELSE @] /\ UNCHANGED srv /\ Log([e |-> "query", s |-> s])
Send(s) == UNCHANGED <<srv, cache>> /\ Log([e |-> "send", s |-> s, to |-> TLCEval(IF Rnd(2) = 0 THEN <<>> ELSE <<RandomElement(St), RandomElement(St)>>)])
Some(S, k) == IF S = {} THEN {} ELSE {RandomElement(S)} \cup (IF k = 0 THEN {RandomElement(S), RandomElement(S)} ELSE {})
In(k) == {s \in St : srv[s] # "none"}
Step(r) == CASE r < 4 -> (IF Free(r) # {} THEN \E C \in {TLCEval(Some(Free(r), Rnd(3)))} : Connect(C) ELSE \E s \in {RandomElement(St)} : Query(s))
             [] r = 4 -> (IF In(r) \cap Ready # {} THEN \E s \in {RandomElement(In(r) \cap Ready)} : Connect({s}) ELSE \E s \in {RandomElement(St)} : Query(s))
             [] r \in {5, 6} -> (IF In(r) # {} THEN \E C \in {TLCEval(Some(In(r), Rnd(3)))} : Leave(C) ELSE \E s \in {RandomElement(St)} : Query(s))
             [] r = 7 -> \E s \in {RandomElement(St)} : Query(s)
             [] OTHER -> \E s \in {RandomElement(St)} : Send(s)
GNext == \/ Len(hist) < Steps /\ cnt < Steps /\ \E r \in {Rnd(11)} : Step(r)
         \/ cnt = Steps /\ cnt' = cnt + 1 /\ UNCHANGED <<hist, srv, cache>> /\ PrintT("@@" \o ToJson([ev |-> hist]))
=============================================================================
