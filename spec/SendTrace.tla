------------------------------ MODULE SendTrace ------------------------------
(* Judges recorded sending: what each member was shown, what the return callbacks were shown. *)
EXTENDS Send, Json, IOUtils
VARIABLES case, at, alive
View == <<case.id, at, alive>>
Init == /\ \E cases \in {JsonDeserialize(IOEnv.CASES)} : \E k \in 1..Len(cases) : case = cases[k]
        /\ at = 1 /\ alive = {i \in 1..Len(case.m) : case.m[i].k # "dead"}
Say(v, why) == PrintT("@@" \o ToJson([id |-> case.id, v |-> v, why |-> why]))
Group == [i \in 1..Len(case.m) |-> i]
Mem == [i \in 1..Len(case.m) |-> IF i \in alive THEN case.m[i] ELSE [uuid |-> case.m[i].uuid, k |-> "dead"]]
SameWire(p, w) == /\ w.flag = p.flag /\ w.version = "1" /\ w.number = "0" /\ w.count = "1" /\ w.type = p.type /\ w.len = w.got
                  /\ IF "buf" \in DOMAIN p THEN "buf" \in DOMAIN w /\ w.buf = p.buf ELSE "json" \in DOMAIN w /\ w.json = p.json
\* two short lists match in some order
Bag(E, G, Same(_, _)) == Len(E) = Len(G) /\ \E p \in {q \in [1..Len(E) -> 1..Len(E)] : \A i, j \in 1..Len(E) : q[i] = q[j] => i = j} : \A k \in 1..Len(E) : Same(E[k], G[p[k]])
Meant(e, i) == LET g == SelectSeq(e.list, LAMBDA s : \E k \in {j \in 1..Len(Recipients(Mem, Group, s.msg)) : Recipients(Mem, Group, s.msg)[j] = i} : TRUE) IN [k \in 1..Len(g) |-> g[k].msg]
CallSame(m, o) == Shown(Canon(m), o)
WireSame(m, w) == SameWire(Package(m), w)
At(i, e) == IF i \notin alive THEN TRUE
            ELSE IF case.m[i].k = "st" THEN IF case.m[i].mode = "mute" THEN Len(e.seen[i]) = 0 ELSE Bag(Meant(e, i), e.seen[i], CallSame) ELSE Bag(Meant(e, i), e.seen[i], WireSame)
Back(e, k) == LET s == e.list[k]  w == Returns(Mem, Recipients(Mem, Group, s.msg), s.msg, s.file)  o == SelectSeq(e.rets, LAMBDA r : r.label = s.label)
              IN Len(w) = Len(o) /\ \A j \in 1..Len(w) : Shown(w[j], o[j].msg) /\ o[j].cb = (IF s.custom = "y" THEN "custom" ELSE "global") /\ o[j].sent = s.msg.t
Judge(e) == IF e.e = "stop" THEN <<>>
            ELSE (IF \E i \in 1..Len(case.m) : ~At(i, e) THEN LET i == CHOOSE i \in 1..Len(case.m) : ~At(i, e) IN <<[at |-> "member", number |-> i, kind |-> case.m[i].k, expected |-> Meant(e, i), observed |-> e.seen[i]]>> ELSE <<>>)
              \o (IF \E k \in 1..Len(e.list) : ~Back(e, k) THEN LET k == CHOOSE k \in 1..Len(e.list) : ~Back(e, k) IN <<[at |-> "answers", number |-> k, expected |-> Returns(Mem, Recipients(Mem, Group, e.list[k].msg), e.list[k].msg, e.list[k].file), observed |-> e.rets]>> ELSE <<>>)
              \o (IF \A r \in 1..Len(e.rets) : \E k \in 1..Len(e.list) : e.list[k].label = e.rets[r].label THEN <<>> ELSE <<[at |-> "answers to nothing", observed |-> e.rets]>>)
              \o (IF \A k \in 1..Len(e.rcs) : e.rcs[k] = "0" THEN <<>> ELSE <<[at |-> "result"]>>)
Next == /\ at > 0 /\ at <= Len(case.ev) + 1 /\ UNCHANGED case
        /\ IF at = Len(case.ev) + 1 THEN Say("OK", "") /\ at' = 0 /\ UNCHANGED alive
           ELSE \E e \in {case.ev[at]} : \E errs \in {Judge(e)} :
                IF errs = <<>> THEN at' = at + 1 /\ alive' = (IF e.e = "stop" /\ e.i <= Len(case.m) /\ case.m[e.i].k = "st" THEN alive \ {e.i} ELSE alive) ELSE Say("REJ", errs[1] @@ [event |-> at]) /\ at' = 0 /\ UNCHANGED alive
=============================================================================
