------------------------------ MODULE GroupTrace ------------------------------
(* Judges recorded histories of real stations in a network of their own. The history is taken in the large: connects that  *)
(* overlap are one event. GroupMC shows that the steps inside such an event end in the groups demanded here.               *)
EXTENDS Group, Json, IOUtils
VARIABLES case, at, name
View == <<case.id, at>>
St == {"s1", "s2", "s3", "s4"}
Init == /\ \E cases \in {JsonDeserialize(IOEnv.CASES)} : \E k \in 1..Len(cases) : case = cases[k]
        /\ at = 1 /\ GroupInit /\ name = [s \in St |-> ""]
Say(v, why) == PrintT("@@" \o ToJson([id |-> case.id, v |-> v, why |-> why]))
Elems(q) == {q[k] : k \in 1..Len(q)}
Times(q, P(_)) == Cardinality({k \in 1..Len(q) : P(q[k])})
Together0(f, s) == IF f[s] = "none" THEN {} ELSE {t \in St \ {s} : f[t] = f[s]}
Err(w, x) == <<[at |-> w, observed |-> x]>>
\* groups: the members shown are the others of the session, each once, under their current names
GroupsOk(e, f, nm) == \A s \in St : LET g == e.groups[s] IN Len(g) = Cardinality(Together0(f, s)) /\ {m.s : m \in Elems(g)} = Together0(f, s) /\ \A m \in Elems(g) : m.name = nm[m.s]
Joins(e, t, s) == Times(e.calls[t], LAMBDA m : m.t = "JOIN" /\ m.s = s)
Leaves(e, t, s) == Times(e.calls[t], LAMBDA m : m.t = "LEAVE" /\ m.s = s)
Commits(e, t, s) == Times(e.calls[t], LAMBDA m : m.t = "COMMIT" /\ m.s = s)
Rets(e, s, k) == Times(e.rets[s], LAMBDA m : m.t = k)
Only(e, kinds) == \A t \in St : \A m \in Elems(e.calls[t]) : m.t \in kinds
ConnectOk(e, f, nm) ==
  LET C == {x.s : x \in Elems(e.list)} IN
  (IF GroupsOk(e, f, nm) THEN <<>> ELSE Err("groups after connect", e.groups))
  \o (IF \A s \in C : \A t \in St : Joins(e, t, s) = (IF t \in Together0(f, s) THEN IF t \in C THEN IF Joins(e, t, s) \in {0, 1} THEN Joins(e, t, s) ELSE 1 ELSE 1 ELSE 0) THEN <<>> ELSE Err("joins", e.calls))
  \o (IF \A s, t \in C : s # t /\ f[s] = f[t] => Joins(e, t, s) + Joins(e, s, t) >= 1 THEN <<>> ELSE Err("neither joined the other", e.calls))
  \o (IF \A s \in C : Rets(e, s, "JOIN_RET") = Cardinality({t \in St : Joins(e, t, s) = 1}) THEN <<>> ELSE Err("answers to joins", e.rets))
  \o (IF \A s \in C : \A t \in St : Leaves(e, t, s) = (IF t \in Together0(srv, s) THEN 1 ELSE 0) THEN <<>> ELSE Err("leaves of a station that connects again", e.calls))
  \o (IF Only(e, {"JOIN", "LEAVE"}) /\ \A t \in St : \A m \in Elems(e.calls[t]) : m.s \in C /\ (m.t = "JOIN" => m.name = nm[m.s]) THEN <<>> ELSE Err("other messages", e.calls))
LeaveOk(e, f) ==
  LET C == Elems(e.list) IN
  (IF GroupsOk(e, f, name) THEN <<>> ELSE Err("groups after leave", e.groups))
  \o (IF \A s \in C : \A t \in St : IF t \in C THEN Leaves(e, t, s) \in {0, 1} ELSE Leaves(e, t, s) = (IF t \in Together0(srv, s) THEN 1 ELSE 0) THEN <<>> ELSE Err("leaves", e.calls))
  \o (IF Only(e, {"LEAVE"}) /\ \A t \in St : \A m \in Elems(e.calls[t]) : m.s \in C THEN <<>> ELSE Err("other messages", e.calls))
QueryOk(e) ==
  (IF {[s |-> x.s, service |-> x.service, name |-> x.name] : x \in Elems(e.found)} = {[s |-> t, service |-> srv[t], name |-> name[t]] : t \in {u \in St \ {e.s} : srv[u] # "none"}} /\ Len(e.found) = Cardinality({u \in St \ {e.s} : srv[u] # "none"}) THEN <<>> ELSE Err("stations found", e.found))
  \o (IF \A x \in Elems(e.found) : x.ips # "0" THEN <<>> ELSE Err("without address", e.found)) \o (IF e.past # "0" THEN <<>> ELSE Err("index out of range accepted", e.past))
  \o (IF \A t \in St : e.calls[t] = <<>> THEN <<>> ELSE Err("messages", e.calls)) \o (IF GroupsOk(e, srv, name) THEN <<>> ELSE Err("groups", e.groups))
SendOk(e) ==
  LET T == Together0(srv, e.s)  R == IF e.to = <<>> THEN T ELSE T \cap Elems(e.to) IN
  (IF \A t \in St : Commits(e, t, e.s) = (IF t \in R THEN 1 ELSE 0) THEN <<>> ELSE Err("recipients", e.calls)) \o (IF Only(e, {"COMMIT"}) THEN <<>> ELSE Err("other messages", e.calls))
  \o (IF Rets(e, e.s, "COMMIT_RET") = Cardinality(R) THEN <<>> ELSE Err("answers", e.rets)) \o (IF GroupsOk(e, srv, name) THEN <<>> ELSE Err("groups", e.groups))
After(e) == CASE e.e = "connect" -> [s \in St |-> IF \E x \in Elems(e.list) : x.s = s THEN (CHOOSE x \in Elems(e.list) : x.s = s).v ELSE srv[s]]
              [] e.e = "leave" -> [s \in St |-> IF s \in Elems(e.list) THEN "none" ELSE srv[s]]
              [] OTHER -> srv
Named(e) == IF e.e = "connect" THEN [s \in St |-> IF \E x \in Elems(e.list) : x.s = s THEN (CHOOSE x \in Elems(e.list) : x.s = s).name ELSE name[s]] ELSE name
Judge(e, f, nm) == CASE e.e = "connect" -> ConnectOk(e, f, nm) [] e.e = "leave" -> LeaveOk(e, f) [] e.e = "query" -> QueryOk(e) [] e.e = "send" -> SendOk(e)
                     [] OTHER -> (IF \A t \in St : e.calls[t] = <<>> THEN <<>> ELSE Err("late messages", e.calls)) \o (IF GroupsOk(e, srv, name) THEN <<>> ELSE Err("groups at rest", e.groups)) \o (IF e.heard = "0" THEN <<>> ELSE Err("queries at rest", e.heard))
Next == /\ at > 0 /\ UNCHANGED <<case, ann, grp, todo, doing>>
        /\ IF at = Len(case.ev) + 1 THEN Say("OK", "") /\ at' = 0 /\ UNCHANGED <<srv, name>>
           ELSE \E e \in {case.ev[at]} : \E f \in {After(e)} : \E nm \in {Named(e)} : \E errs \in {Judge(e, f, nm)} :
                IF errs = <<>> THEN at' = at + 1 /\ srv' = f /\ name' = nm ELSE Say("REJ", errs[1] @@ [event |-> at, kind |-> e.e]) /\ at' = 0 /\ UNCHANGED <<srv, name>>
=============================================================================
