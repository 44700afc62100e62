------------------------------- MODULE XchgMC -------------------------------
(* Exhaustive over small messages: what is sent is what is read; whatever is missing or mistyped is refused, never misread. *)
EXTENDS Xchg
VARIABLE m
U == {Zero, "0123456789abcdeffedcba9876543210"}
T0 == {"", "x", Rep("y", 1024)}
N0 == {"0", "4294967295"}
For == {<<>>, <<"0123456789abcdeffedcba9876543210">>, <<Zero, "0123456789abcdeffedcba9876543210">>}
Commits0 == [fname : T0, comment : {"c"}, maj : N0, min : {"1"}, size : {"18446744073709551615"}, file : U, st : {"0123456789abcdeffedcba9876543210"}, for : For]
Messages == [t : {"JOIN", "JOIN_RET"}, ok : {"true", "false"}, err : {"", "e"}, prov : {"", Rep("y", 1024)}, name : {"n"}, st : U, maj : N0, min : {"6"}, commits : {<<>>} \cup {<<c>> : c \in Commits0}]
            \cup [t : {"LEAVE"}, st : U] \cup {c @@ [t |-> "COMMIT"] : c \in Commits0} \cup [t : {"REQUEST"}, file : U, from : For]
            \cup [t : {"REQUEST_RET"}, ok : {"true", "false"}, err : T0, buf : {Empty, "1:x"}] \cup [t : {"LEAVE_RET", "COMMIT_RET"}, ok : {"true", "false"}, err : T0]
Init == m \in Messages
Next == UNCHANGED m
RoundTrip == Decode(Package(m)) = Canon(m)
Json == IF IsFile(m) THEN O([Type |-> S("x")]) ELSE Encode(m)
Drop(o, k) == [x \in DOMAIN o \ {k} |-> o[x]]
\* a message that lacks a key is refused (a LEAVE without an identifier is one from nobody)
Refuses == m.t # "LEAVE" => \A k \in DOMAIN Json.o : Decode([flag |-> Flag, type |-> "0", json |-> O(Drop(Json.o, k))]).ok = "false"
Ids0 == UuidBack(UuidText("0123456789abcdeffedcba9876543210")) = "0123456789abcdeffedcba9876543210" /\ UuidText("00000001000000020000000300000004") = "01000000-0200-0000-0300-000004000000"
\* distinct messages are distinct on the wire
=============================================================================
