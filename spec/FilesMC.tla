------------------------------ MODULE FilesMC ------------------------------
(* Every short history over two folders, two names and two contents: what is packed is what was given, and readers see it. *)
EXTENDS Files
CONSTANTS MaxOps, Kinds
VARIABLES s, n, given
vars == <<s, n, given>>
\* given: what the user handed over, member by member, in the order of the calls (the judge's own account)
Dirs == {"in", "lib"}
Names == {"base.3ds", "slot1.png"}
Toks == {"text#1", "one#2", Empty}
Ty == {"Model3DS", "Model3DSLow", "ImageWheel", "RessoureFixture"}
O(m, d, nm, t, ty, as) == [m |-> m, dir |-> d, n |-> nm, d |-> t, t |-> ty, as |-> as, sep |-> "/"]
Ops == {O("Put", d, x, t, "RessoureFixture", "") : d \in Dirs, x \in Names, t \in Toks}
       \cup {O("Del", d, x, "", "RessoureFixture", "") : d \in Dirs, x \in Names}
       \cup {O("AddFile", d, x, "", ty, as) : d \in Dirs, x \in Names, ty \in Ty, as \in {"", "slot1.png"}}
       \cup {O("AddBuffer", d, x, t, ty, "") : d \in {"", "sub/"}, x \in Names \cup {""}, t \in Toks, ty \in Ty}
       \cup {O("AddFolder", d, "", "", "RessoureFixture", "") : d \in Dirs} \cup {O("Fixture", "", x, "", "RessoureFixture", "") : x \in Names \cup {""}}
Fits(kind, op) == IF kind = "mvr" THEN op.t = "RessoureFixture" /\ op.as = "" ELSE op.m \notin {"AddFolder", "Fixture"} /\ (op.m = "AddBuffer" => op.dir = "" /\ op.n # "")
Init == s \in {Start(k) : k \in Kinds} /\ n = 0 /\ given = {}
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E op \in Ops : Fits(s.kind, op) /\ s' = Apply(s, op).s
             /\ given' = IF Apply(s, op).rc # "ok" \/ op.m \notin {"AddFile", "AddBuffer"} THEN given
                         ELSE LET name == IF s.kind = "mvr" THEN (IF op.m = "AddFile" THEN <<"", op.n>> ELSE <<op.dir, op.n>>) ELSE <<Sub[op.t], IF op.as = "" THEN op.n ELSE op.as>>
                              IN  IF \E g \in given : g.n = name THEN given ELSE given \cup {[n |-> name, d |-> IF op.m = "AddBuffer" THEN op.d ELSE IF s.kind = "mvr" THEN "late" ELSE Content(s, op.dir, op.n)]}
P == Packed(s)
\* a member has one content
Unique == \A i, j \in 1..Len(P) : P[i].n = P[j].n => i = j
\* a description is always there, and everything given that still exists
Complete == /\ \E i \in 1..Len(P) : P[i].d = "*"
            /\ \A g \in given : (s.kind = "mvr" /\ g.d = "late") \/ \E i \in 1..Len(P) : P[i].n = g.n
\* nothing is there that nobody gave, and what was given first under a name is what is there (a scene's files come before its buffers)
Faithful == \A i \in 1..Len(P) : P[i].d = "*" \/ IF s.kind = "mvr" THEN \/ \E k \in 1..Len(s.bufs) : s.bufs[k] = P[i]
                                                                     \/ (P[i].n[1] = "" /\ \E k \in DOMAIN s.disk : s.disk[k].p[2] = P[i].n[2] /\ s.disk[k].d = P[i].d)
                                       ELSE [n |-> P[i].n, d |-> P[i].d] \in given
\* a fixture's objects are shown the file of their own folder and of no other
ShownRight == s.kind = "mvr" \/ \A v \in DOMAIN Views :
  LET at(nm) == {g.d : g \in {x \in given : x.n = nm}} own == at(Views[v]) root == IF v \in {"Buffer3DS", "BufferSVG", "BufferGLTF"} THEN at(<<"", Views[v][2]>>) ELSE {} IN
  Shown(P)[v] \in (IF own # {} THEN own ELSE IF root # {} THEN root ELSE {"-"})
=============================================================================
