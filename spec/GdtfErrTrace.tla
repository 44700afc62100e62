---------------------------- MODULE GdtfErrTrace ----------------------------
(* Validates what the reader of a fixture reports about a document: exactly what is wrong with it, and where.    *)
EXTENDS GdtfErr, Json, IOUtils
VARIABLES case, st
View == <<case.id, st>>
Init == st = "run" /\ \E cases \in {JsonDeserialize(IOEnv.CASES)} : \E k \in 1..Len(cases) : case = cases[k]
Say(v, why) == PrintT("@@" \o ToJson([id |-> case.id, v |-> v, why |-> why]))
\* case.nums, case.res: what the DMX values and the offsets in the document stand for; case.at[k]: line of element k; case.said: the entries of the report
Shown(els, e) == IF e.i = 0 THEN [t |-> e.t, tag |-> "", name |-> "", m |-> "", at |-> 0]
                 ELSE [t |-> e.t, tag |-> els[e.i].t, name |-> Val(els[e.i], "Name"), m |-> e.m, at |-> case.at[e.i]]
\* that a function which refers to an unknown attribute has no attribute may be said as well
Extra(said, exp) == {s \in said \ exp : ~(s.t = 10 /\ [s EXCEPT !.t = 59] \in exp)}
Next ==  /\ st = "run"
         /\ \E els \in {Flat(case.xml)} : \E vt \in {ValT} :
            \E exp \in {{Shown(els, e) : e \in Report(els, case.nums, case.res, vt)}} :
            \E said \in {{case.said[k] : k \in 1..Len(case.said)}} :
              IF exp \ said = {} /\ Extra(said, exp) = {} THEN Say("OK", [n |-> Cardinality(exp), ts |-> {e.t : e \in exp}]) /\ st' = "ok"
              ELSE Say("REJ", [missing |-> exp \ said, unexpected |-> Extra(said, exp)]) /\ st' = "rej"
         /\ UNCHANGED case
=============================================================================
