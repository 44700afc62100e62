----------------------------- MODULE FilesTrace -----------------------------
(* Judges recorded runs: the calls' results, the members of the written archive, what readers of it hand out, and *)
(* what a rewritten fixture still holds.                                                                         *)
EXTENDS Files, Json, IOUtils
VARIABLES case, i, s, st
vars == <<case, i, s, st>>
View == <<case.id, i, st>>
Init == /\ \E cases \in {JsonDeserialize(IOEnv.CASES)} : \E k \in 1..Len(cases) : case = cases[k]
        /\ i = 0 /\ s = Start(case.kind) /\ st = "run"
Say(v, why) == PrintT("@@" \o ToJson([id |-> case.id, v |-> v, why |-> why]))
Step == /\ st = "run" /\ i < Len(case.ops)
        /\ \E r \in {Apply(s, case.ops[i + 1])} :
             IF r.rc = case.ops[i + 1].rc THEN i' = i + 1 /\ s' = r.s /\ UNCHANGED <<case, st>>
             ELSE Say("REJ", [at |-> "call", op |-> case.ops[i + 1], expected |-> r.rc]) /\ st' = "rej" /\ UNCHANGED <<case, i, s>>
Is(what, exp, obs) == IF exp = obs THEN <<>> ELSE <<[at |-> what, expected |-> exp, observed |-> obs]>>
Same(what, exp, obs) == IF SameFiles(exp, obs) THEN <<>> ELSE <<[at |-> what, expected |-> exp, observed |-> obs]>>
Judge(ms) ==
  Is("members", ms, case.members)
  \o FlattenSeq([r \in 1..Len(case.readers) |->
       LET rd == case.readers[r] fx == s.kind # "mvr" IN
       Is(rd.what \o ": result", "ok", rd.rc) \o Is(rd.what \o ": past the end", "", rd.past) \o Is(rd.what \o ": left behind", 0, rd.left)
       \o (IF rd.again THEN Same(rd.what \o ": files", Attached(s.kind, ms), rd.files) ELSE Is(rd.what \o ": files", Attached(s.kind, ms), rd.files))
       \o (IF fx THEN Is(rd.what \o ": views", Shown(ms), rd.views) ELSE <<>>)])
  \o (IF s.kind = "gdtf" THEN Is("buffer is the file", TRUE, case.bufsame) ELSE <<>>)
Final == /\ st = "run" /\ i = Len(case.ops)
         /\ \E errs \in {Judge(Packed(s))} : IF errs = <<>> THEN Say("OK", "") /\ st' = "ok" ELSE Say("REJ", errs[1]) /\ st' = "rej"
         /\ UNCHANGED <<case, i, s>>
Next == Step \/ Final
=============================================================================
