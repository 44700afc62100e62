------------------------------ MODULE SessTrace ------------------------------
(* A recorded run of a schedule is one of the behaviours of Sess: the client's events as recorded, the server's steps in between. *)
EXTENDS Sess, Json, IOUtils
VARIABLES case, at
View == <<case.id, at, pos, cl, sv, calls, up>>
Init == \E cases \in {JsonDeserialize(IOEnv.CASES)} : \E k \in 1..Len(cases) : case = cases[k] /\ at = 1 /\ SInit(cases[k].pk)
Ev == case.tr[at]
Nothing(w) == "short" \in DOMAIN w /\ w.short = "0"
SameWire(p, w) == /\ w.flag = p.flag /\ w.version = "1" /\ w.number = "0" /\ w.count = "1" /\ w.type = p.type /\ w.len = w.got
                  /\ IF "buf" \in DOMAIN p THEN "buf" \in DOMAIN w /\ w.buf = p.buf ELSE "json" \in DOMAIN w /\ w.json = p.json
\* what a client that waits is shown
Seen(c, e) == /\ cl[c] \in {"open", "shut"}
              /\ CASE sv[c] = "done" -> ~Nothing(e.wire) /\ SameWire(out[c], e.wire) /\ e.how \in {"eof", "reset"}
                   [] sv[c] = "drop" -> Nothing(e.wire) /\ e.how \in {"eof", "reset"}
                   [] OTHER -> Nothing(e.wire) /\ e.how = "timeout" /\ ~(sv[c] \in {"head", "body", "call"} /\ Delivered(c)) /\ ~(sv[c] = "head" /\ pos[c] >= 2 /\ pk[c].flag # Flag) /\ (cl[c] = "open" \/ up = "n")
SameCalls(l) == Len(l) = Len(calls) /\ \A k \in 1..Len(l) : Shown(Decode(pk[calls[k]]), l[k])
Move == /\ at <= Len(case.tr)
        /\ \E e \in {Ev} : CASE e.e = "dial" -> Dial(e.c)
                             [] e.e = "push" -> IF e.p = pos[e.c] THEN UNCHANGED svars ELSE Push(e.c, e.p)
                             [] e.e = "shut" -> Shut(e.c)
                             [] e.e = "hang" -> Hang(e.c, e.how)
                             [] e.e = "stop" -> Stop
                             [] e.e = "recv" -> Seen(e.c, e) /\ UNCHANGED svars
                             [] OTHER -> SameCalls(e.list) /\ UNCHANGED svars
        /\ at' = at + 1 /\ UNCHANGED case
        /\ IF at = Len(case.tr) THEN PrintT("@@" \o ToJson([id |-> case.id, v |-> "OK", why |-> ""])) ELSE PrintT("@@" \o ToJson([id |-> case.id, at |-> at]))
Next == Move \/ (at <= Len(case.tr) /\ Server /\ UNCHANGED <<case, at>>)
=============================================================================
