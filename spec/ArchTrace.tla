----------------------------- MODULE ArchTrace -----------------------------
(* Judges what the real readers handed out of each archive. *)
EXTENDS Arch, Json, IOUtils
VARIABLES case, i, st
View == <<case.id, i, st>>
Init == /\ \E cases \in {JsonDeserialize(IOEnv.CASES)} : \E k \in 1..Len(cases) : case = cases[k]
        /\ i = 0 /\ st = "run"
Say(v, why) == PrintT("@@" \o ToJson([id |-> case.id, v |-> v, why |-> why]))
\* a fixture unpacks every folder into one folder of its name without separators
Flat(n) == IF n[1] = "models/3ds/" THEN <<"models3ds/", n[2]>> ELSE IF n[1] = "models/gltf/" THEN <<"modelsgltf/", n[2]>> ELSE n
Files(kind, a) == LET s == Shown(kind, a) IN IF kind = "mvr" THEN s ELSE [k \in 1..Len(s) |-> [n |-> Flat(s[k].n), d |-> s[k].d]]
Is(what, exp, obs) == IF exp = obs THEN <<>> ELSE <<[at |-> what, number |-> i + 1, expected |-> exp, observed |-> obs]>>
Judge(r) ==
  Is("left behind", 0, r.left)
  \o (IF r.flips > 0 THEN <<>>
      ELSE Is("result", Accepts(r.kind, r.a), r.rc = "ok")
           \o (IF Accepts(r.kind, r.a) THEN Is("description", Title(r.kind, r.a), r.title) \o Is("files", Files(r.kind, r.a), r.files) ELSE <<>>))
Next == /\ st = "run"
        /\ IF i = Len(case.reads) THEN Say("OK", "") /\ st' = "ok" /\ UNCHANGED <<case, i>>
           ELSE \E errs \in {Judge(case.reads[i + 1])} : IF errs = <<>> THEN i' = i + 1 /\ UNCHANGED <<case, st>> ELSE Say("REJ", errs[1]) /\ st' = "rej" /\ UNCHANGED <<case, i>>
=============================================================================
