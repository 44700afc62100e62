------------------------------- MODULE SendMC -------------------------------
(* The concurrent protocol of several senders; whatever the order in which packages and answers arrive, everybody is shown exactly what Send says. *)
EXTENDS Send
CONSTANT Small
VARIABLES M, group, msgs, st, got, rets, nx
vars == <<M, group, msgs, st, got, rets, nx>>
U == <<"00000001000000020000000300000004", "0123456789abcdef0123456789abcdef", "ffffffff0000000000000000ffffffff">>
Kinds1 == {[k |-> "st", mode |-> "buf"], [k |-> "dead"], [k |-> "fake", ans |-> [flag |-> "1", type |-> "0", json |-> S("x")]], [k |-> "fake", ans |-> [flag |-> Flag, type |-> "1", buf |-> "3:abc"]]}
Msgs == {[t |-> "LEAVE", st |-> U[1]], [t |-> "REQUEST", file |-> U[3], from |-> <<>>], [t |-> "REQUEST", file |-> U[2], from |-> <<U[2], U[3]>>], [t |-> "REQUEST", file |-> U[1], from |-> <<Zero>>]}
Init == /\ \E a \in Kinds1, b \in Kinds1, c \in IF Small THEN {[k |-> "st", mode |-> "buf"]} ELSE Kinds1 : M = <<a @@ [uuid |-> U[1]], b @@ [uuid |-> U[2]], c @@ [uuid |-> U[3]]>>
        /\ group \in IF Small THEN {<<3, 1, 2>>} ELSE {<<1, 2, 3>>, <<3, 1>>}
        /\ \E x \in Msgs, y \in IF Small THEN {[t |-> "LEAVE", st |-> U[1]]} ELSE Msgs : msgs = <<x, y>>
        /\ st = [s \in 1..2 |-> <<>>] /\ got = [i \in 1..3 |-> <<>>] /\ rets = [s \in 1..2 |-> <<>>] /\ nx = [s \in 1..2 |-> 0]
R(s) == Recipients(M, group, msgs[s])
Launch(s) == nx[s] = 0 /\ nx' = [nx EXCEPT ![s] = 1] /\ st' = [st EXCEPT ![s] = [k \in 1..Len(R(s)) |-> "sent"]] /\ UNCHANGED <<M, group, msgs, got, rets>>
Arrive(s, k) == k \in DOMAIN st[s] /\ st[s][k] = "sent" /\ M[R(s)[k]].k # "dead" /\ got' = [got EXCEPT ![R(s)[k]] = Append(@, s)] /\ st' = [st EXCEPT ![s][k] = "there"] /\ UNCHANGED <<M, group, msgs, rets, nx>>
Back(s, k) == k \in DOMAIN st[s] /\ (st[s][k] = "there" \/ (st[s][k] = "sent" /\ M[R(s)[k]].k = "dead")) /\ st' = [st EXCEPT ![s][k] = "back"] /\ UNCHANGED <<M, group, msgs, got, rets, nx>>
Collect(s) == nx[s] >= 1 /\ nx[s] <= Len(R(s)) /\ st[s][nx[s]] = "back" /\ nx' = [nx EXCEPT ![s] = @ + 1]
              /\ (LET a == AnswerOf(M[R(s)[nx[s]]], msgs[s], "7:f") IN rets' = IF a = NoAns THEN rets ELSE [rets EXCEPT ![s] = Append(@, Decode(a))])
              /\ UNCHANGED <<M, group, msgs, st, got>>
Done(s) == nx[s] = Len(R(s)) + 1
Next == \E s \in 1..2 : Launch(s) \/ Collect(s) \/ \E k \in 1..3 : Arrive(s, k) \/ Back(s, k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Shows == \A s \in 1..2 : Done(s) => rets[s] = Returns(M, R(s), msgs[s], "7:f")
Prefix == \A s \in 1..2 : LET w == Returns(M, R(s), msgs[s], "7:f") IN Len(rets[s]) <= Len(w) /\ rets[s] = SubSeq(w, 1, Len(rets[s]))
Once == \A i \in 1..3 : \A s \in 1..2 : LET c == Cardinality({k \in 1..Len(got[i]) : got[i][k] = s}) IN c <= 1 /\ (Done(s) => c = (IF M[i].k # "dead" /\ \E k \in 1..Len(R(s)) : R(s)[k] = i THEN 1 ELSE 0))
Finishes == \A s \in 1..2 : <>Done(s)
=============================================================================
