------------------------------- MODULE SendGen -------------------------------
(* Random groups and histories of sending: members of every kind, messages for all or some of them, several senders at once, stations that stop. *)
EXTENDS XchgGen
\* the stations of a group: their UUIDs differ in as little as one word of four
Join4(w) == w[1] \o w[2] \o w[3] \o w[4]
Word(k) == RandomElement({"00000000", "00000001", "ffffffff", "a0000000", "0000ff00", RHex(8), RHex(8)})
Base(k) == TLCEval(<<Word(1), Word(2), Word(3), RHex(8)>>)
Near(w, k) == TLCEval([w EXCEPT ![1 + Rnd(4)] = RHex(8)])
AnsPackage(k) == CASE Rnd(12) = 0 -> [flag |-> Flag, type |-> "0", bad |-> RandomElement(Texts1)]
                [] Rnd(4) = 0 -> [flag |-> Flag, type |-> RandomElement({"1", "1", "1", "2"}), buf |-> RandomElement(Bufs \cup {"3000000:x6"})]
                [] Rnd(8) = 0 -> [flag |-> RandomElement({"0", "778683", "4294967295"}), type |-> "0", json |-> Encode(Msg("LEAVE_RET"))]
                [] Rnd(3) = 0 -> [flag |-> Flag, type |-> "0", json |-> Spoil(Encode(Msg(RandomElement({"JOIN_RET", "LEAVE_RET", "COMMIT_RET", "REQUEST_RET"}))), Rnd(9))]
                [] OTHER -> [flag |-> Flag, type |-> "0", json |-> Encode(Msg(RandomElement({"JOIN_RET", "LEAVE_RET", "COMMIT_RET", "REQUEST_RET"})))]
Member(i, u) == CASE Rnd(2) = 0 -> [uuid |-> u, k |-> "st", mode |-> RandomElement({"buf", "buf", "path", "gone", "mute"})]
               [] Rnd(6) = 0 -> [uuid |-> u, k |-> "dead"]
               [] OTHER -> [uuid |-> u, k |-> "fake", ans |-> AnsPackage(i), cut |-> RandomElement({"no", "no", "no", "nothing", "head", "body", "more"}), end |-> RandomElement({"close", "close", "rst"}), delay |-> Rnd(3)]
For(k, ids) == CASE Rnd(3) = 0 -> <<>> [] OTHER -> [j \in 1..(1 + Rnd(3)) |-> IF Rnd(6) = 0 THEN RHex(32) ELSE IF Rnd(5) = 0 THEN Join4(Near(RandomElement({ids[i] : i \in 1..5}), j)) ELSE Join4(ids[1 + Rnd(5)])]
SMsg(k, ids) == LET t == RandomElement({"JOIN", "LEAVE", "COMMIT", "COMMIT", "REQUEST", "REQUEST", "REQUEST", "COMMIT_RET", "REQUEST_RET", "UNDEFINED"})
           IN CASE t = "COMMIT" -> [Msg(t) EXCEPT !.for = TLCEval(For(k, ids))]
                [] t = "REQUEST" -> [Msg(t) EXCEPT !.from = TLCEval(For(k, ids))]
                [] OTHER -> Msg(t)
Event(k, ids) == CASE Rnd(8) = 0 -> [e |-> "stop", i |-> 1 + Rnd(5)]
              [] OTHER -> [e |-> "send", list |-> TLCEval([j \in 1..RandomElement({1, 1, 1, 2, 3}) |-> [msg |-> SMsg(j, ids), custom |-> RandomElement({"y", "n"})]])]
Scenario(k, ids) == [m |-> TLCEval([i \in 1..Rnd(6) |-> Member(i, Join4(ids[i]))]), ev |-> TLCEval([j \in 1..(1 + Rnd(4)) |-> Event(j, ids)])]
SNext == n < Count /\ n' = n + 1 /\ (\E w \in {Base(n)} : \E ids \in {TLCEval([i \in 1..5 |-> IF i = 1 THEN w ELSE Near(w, i)])} : \E s \in {Scenario(n, ids)} : PrintT("@@" \o ToJson(s)))
=============================================================================
