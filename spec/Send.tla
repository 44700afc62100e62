-------------------------------- MODULE Send --------------------------------
(* Sending to the group: a message goes once to every member it is meant for, all at the same time; members answer at *)
(* their own pace or fail; the answers are handed to the return callback in the order of the group.                    *)
EXTENDS Xchg
\* members: [uuid, k] with k "st" (a station, mode "buf", "path", "gone" or "mute"), "fake" (answers with package ans, or with nothing that is understood: ans = none), "dead"
Recipients(M, group, m) == LET f == IF m.t = "COMMIT" THEN m.for ELSE IF m.t = "REQUEST" THEN m.from ELSE <<>>
                               Meant(i) == f = <<>> \/ \E k \in 1..Len(f) : f[k] = M[i].uuid
                           IN SelectSeq(group, Meant)
\* the answer of a member: a package, or none
NoAns == [none |-> "y"]
FileOf(x, file) == IF x.mode = "gone" THEN Empty ELSE file
AnswerOf(x, m, file) == CASE x.k = "st" -> Package(IF x.mode = "mute" THEN [t |-> "UNDEFINED", err |-> ""] ELSE Reply(Canon(m), FileOf(x, file)))
                          [] x.k = "fake" -> IF "none" \in DOMAIN x.ans \/ x.ans.flag # Flag THEN NoAns ELSE x.ans
                          [] OTHER -> NoAns
\* what the return callback is shown for one message
RECURSIVE Returns(_, _, _, _)
Returns(M, r, m, file) == IF r = <<>> THEN <<>> ELSE LET a == AnswerOf(M[r[1]], m, file) IN (IF a = NoAns THEN <<>> ELSE <<Decode(a)>>) \o Returns(M, Tail(r), m, file)
=============================================================================
