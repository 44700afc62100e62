------------------------------ MODULE GdtfTrace ------------------------------
(* Validates traces recorded from the real library: the writer's view before saving and the reader's view    *)
(* after loading are those of the specification.                                                              *)
EXTENDS GdtfDoc, Json, IOUtils
VARIABLES case, i, nodes, st
View == <<case.id, i, st>>
Init == /\ \E cases \in {JsonDeserialize(IOEnv.CASES)} : \E k \in 1..Len(cases) : case = cases[k]
        /\ i = 0 /\ nodes = Init0(case.name, case.manu, case.uid) /\ st = "run"
HasF(f) == f \in DOMAIN case
Say(v, why) == PrintT("@@" \o ToJson([id |-> case.id, v |-> v, why |-> why]))
Step == /\ st = "run" /\ i < Len(case.ops)
        /\ \E r \in {Apply(nodes, case.ops[i + 1])} :
             IF ~HasF("rcs") \/ case.rcs[i + 1] = "ok" THEN i' = i + 1 /\ nodes' = r.n /\ UNCHANGED <<case, st>>
             ELSE /\ Say("REJ", [at |-> "call", i |-> i + 1, op |-> case.ops[i + 1], expected |-> "ok", observed |-> case.rcs[i + 1]])
                  /\ st' = "rej" /\ UNCHANGED <<case, i, nodes>>
FirstDiff(m, o) == LET bad == {k \in 1..Len(m) : k > Len(o) \/ ~Shows(m[k], o[k])}
                   IN  IF bad = {} THEN [model |-> "no more nodes", observed |-> IF Len(o) > Len(m) THEN o[Len(m) + 1].c ELSE ""]
                       ELSE LET k == CHOOSE k \in bad : \A j \in bad : k <= j
                            IN IF k > Len(o) THEN [model |-> m[k], observed |-> "no more nodes"]
                               ELSE IF o[k].c # m[k].c \/ o[k].p # m[k].p \/ o[k].k # m[k].k THEN [model |-> m[k], observed |-> o[k]]
                               ELSE LET fs == {fl \in DOMAIN m[k].f : fl \notin DOMAIN o[k].f \/ ~SameVal(m[k].f[fl], o[k].f[fl])}
                                    IN [node |-> k, cls |-> m[k].c, model |-> [fl \in fs |-> m[k].f[fl]], observed |-> [fl \in fs \cap DOMAIN o[k].f |-> o[k].f[fl]]]
Check(name, exp, obs) == IF DumpMatches(exp, obs) THEN <<>> ELSE <<[at |-> name, diff |-> FirstDiff(exp, obs)]>>
CheckXml == LET d == DocXml(nodes) IN IF XmlEq(XmlOrdered, d, case.xml) THEN <<>> ELSE <<[at |-> "xml", diff |-> XmlDiff(XmlOrdered, d, case.xml)]>>
Final == /\ st = "run" /\ i = Len(case.ops)
         /\ \E errs \in {(IF HasF("pre") THEN Check("writer", Dump(nodes, FALSE), case.pre) ELSE <<>>)
                        \o (IF HasF("xml") THEN CheckXml ELSE <<>>)
                        \o (IF HasF("post") THEN Check("reader", Dump(IF HasF("gone") THEN Reload(nodes, {case.gone[g] : g \in 1..Len(case.gone)}, case.fill) ELSE Restore(nodes), TRUE), case.post) ELSE <<>>)} :
            IF errs = <<>> THEN Say("OK", "") /\ st' = "ok" ELSE Say("REJ", errs[1]) /\ st' = "rej"
         /\ UNCHANGED <<case, i, nodes>>
Next == Step \/ Final
=============================================================================
