---------------------------- MODULE ContainTrace ----------------------------
(* Judges recorded reads: nothing outside of the working folders changed, and ordinary names are handed out. *)
EXTENDS Contain, Json, IOUtils
VARIABLES case, i, st
View == <<case.id, i, st>>
Init == /\ \E cases \in {JsonDeserialize(IOEnv.CASES)} : \E k \in 1..Len(cases) : case = cases[k]
        /\ i = 0 /\ st = "run"
Say(v, why) == PrintT("@@" \o ToJson([id |-> case.id, v |-> v, why |-> why]))
Is(what, exp, obs) == IF exp = obs THEN <<>> ELSE <<[at |-> what, number |-> i + 1, expected |-> exp, observed |-> obs]>>
\* <<file, sound>> of every member that has to come through
Due(r) == {k \in 1..Len(r.names) : r.names[k].lead = "" /\ r.names[k].sep = "/" /\ Ordinary(r.names[k].segs)}
Judge(r) == Is("changed outside", <<>>, r.strayed) \o Is("changed outside after the release", <<>>, r.strayedlater)
            \o FlattenSeq([k \in 1..Len(r.names) |-> IF k \in Due(r) THEN Is(r.names[k].segs[Len(r.names[k].segs)], TRUE, r.sound[k]) ELSE <<>>])
Next == /\ st = "run"
        /\ IF i = Len(case.reads) THEN Say("OK", "") /\ st' = "ok" /\ UNCHANGED <<case, i>>
           ELSE \E errs \in {Judge(case.reads[i + 1])} : IF errs = <<>> THEN i' = i + 1 /\ UNCHANGED <<case, st>> ELSE Say("REJ", errs[1]) /\ st' = "rej" /\ UNCHANGED <<case, i>>
=============================================================================
