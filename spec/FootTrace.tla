------------------------------ MODULE FootTrace ------------------------------
(* Validates what the real library says about the breaks and footprints of the modes of a fixture, while it is  *)
(* written and after it was read, against the specification.                                                     *)
EXTENDS Gdtf, Json, IOUtils, TLC
VARIABLES case, i, nodes, st
View == <<case.id, i, st>>
Init == /\ \E cases \in {JsonDeserialize(IOEnv.CASES)} : \E k \in 1..Len(cases) : case = cases[k]
        /\ i = 0 /\ nodes = Init0(case.name, case.manu, case.uid) /\ st = "run"
Say(v, why) == PrintT("@@" \o ToJson([id |-> case.id, v |-> v, why |-> why]))
Step == /\ st = "run" /\ i < Len(case.ops) /\ i' = i + 1 /\ nodes' = Apply(nodes, case.ops[i + 1]).n /\ UNCHANGED <<case, st>>
\* said: for each mode [b: its breaks, fp: "break:footprint" each, none: footprints of breaks it does not have, past: the answer to the first number behind its breaks]
Judge(ns, said) ==
  LET ms == KidsC(ns, 1, "DMXMode")
      Bad(k) == \E s \in {ShownMode(ns, ms[k])} : \/ s.Breaks # said[k].b \/ ("Footprints" \in DOMAIN s /\ s.Footprints # said[k].fp)
                                                  \/ \E n \in 1..Len(said[k].none) : said[k].none[n] # "0"
                                                  \/ said[k].past = "0"
  IN  IF Len(ms) # Len(said) THEN <<[modes |-> Len(said), expected |-> Len(ms)]>>
      ELSE FlattenSeq([k \in 1..Len(ms) |-> IF Bad(k) THEN <<[mode |-> k, expected |-> ShownMode(ns, ms[k]), said |-> said[k]]>> ELSE <<>>])
Final == /\ st = "run" /\ i = Len(case.ops)
         /\ \E errs \in {Judge(nodes, case.pre) \o Judge(nodes, case.post)} :
              IF errs = <<>> THEN Say("OK", "") /\ st' = "ok" ELSE Say("REJ", errs[1]) /\ st' = "rej"
         /\ UNCHANGED <<case, i, nodes>>
Next == Step \/ Final
=============================================================================
