------------------------------- MODULE SessMC -------------------------------
EXTENDS Sess
CONSTANT NC
Leave(u) == Encode([t |-> "LEAVE", st |-> u])
P1 == [flag |-> Flag, type |-> "0", json |-> Leave(Zero), cb |-> "y"]
P2 == [flag |-> Flag, type |-> "0", json |-> Leave("0123456789abcdef0123456789abcdef"), cb |-> "y"]
P3 == [flag |-> "1", type |-> "0", json |-> Leave(Zero), cb |-> "y"]
P4 == [flag |-> Flag, type |-> "0", json |-> Leave(Zero), cb |-> "y", more |-> "y"]
Init == \E a \in {P1, P2, P3, P4}, b \in {P1, P2} : SInit(IF NC = 2 THEN <<a, b>> ELSE <<a, b, P1>>)
Next == Server \/ Stop \/ \E c \in Conns : Dial(c) \/ Shut(c) \/ Hang(c, "closed") \/ Hang(c, "reset") \/ \E p \in {1, 2, 3, 4} : Push(c, p)
Spec == Init /\ [][Next]_svars /\ \A c \in 1..NC : WF_svars(RdHead(c)) /\ WF_svars(RdBody(c)) /\ WF_svars(Send(c)) /\ WF_svars(Eof(c))
SafeSpec == Init /\ [][Next]_svars
Live1 == EveryoneServed(1..NC)
Live2 == Closed(1..NC)
Replies == \A c, d \in Conns : out[c] # None /\ out[d] # None /\ pk[c] # pk[d] => out[c] # out[d]
=============================================================================
