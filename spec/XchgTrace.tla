----------------------------- MODULE XchgTrace -----------------------------
(* Judges packages and messages recorded from the real code. *)
EXTENDS Xchg, Json, IOUtils
VARIABLES case, st
View == <<case.id, st>>
Init == /\ \E cases \in {JsonDeserialize(IOEnv.CASES)} : \E k \in 1..Len(cases) : case = cases[k]
        /\ st = "run"
Say(v, why) == PrintT("@@" \o ToJson([id |-> case.id, v |-> v, why |-> why]))
Wire(p, w) == IF w.flag # p.flag \/ w.version # "1" \/ w.number # "0" \/ w.count # "1" \/ w.type # p.type \/ w.len # w.got THEN <<[at |-> "header", expected |-> [flag |-> p.flag, type |-> p.type], observed |-> w]>>
              ELSE IF "buf" \in DOMAIN p THEN IF w.buf = p.buf THEN <<>> ELSE <<[at |-> "file", expected |-> p.buf, observed |-> w.buf]>>
              ELSE IF "json" \in DOMAIN w /\ w.json = p.json THEN <<>> ELSE <<[at |-> "body", expected |-> p.json, observed |-> w]>>
Msg(exp, obs) == IF Shown(exp, obs) THEN <<>> ELSE <<[at |-> "message", expected |-> exp, observed |-> obs]>>
Judge == CASE case.k = "enc" -> Wire(Package(case.msg), case.wire) \o Msg(Canon(case.msg), case.dec) \o (IF case.header = "true" THEN <<>> ELSE <<[at |-> "header refused"]>>)
           [] OTHER -> Msg(Decode(case.packet), case.dec) \o (IF (case.header = "true") = (case.packet.flag = Flag) THEN <<>> ELSE <<[at |-> "header", observed |-> case.header]>>)
Next == /\ st = "run" /\ st' = "done" /\ UNCHANGED case
        /\ \E errs \in {Judge} : IF errs = <<>> THEN Say("OK", "") ELSE Say("REJ", errs[1])
=============================================================================
