------------------------------- MODULE SessGen -------------------------------
(* Random schedules of clients: who dials when, delivers how much, half-closes, hangs up or resets; one schedule per behaviour. *)
EXTENDS XchgGen, Sess
CONSTANT Steps, WithStop
VARIABLES hist, seen
vars == <<n, pk, pos, cl, sv, calls, out, up, hist, seen>>
RawPackage == CASE Rnd(12) = 0 -> [flag |-> Flag, type |-> "0", bad |-> RandomElement(Texts1)]
                [] Rnd(12) = 0 -> [flag |-> Flag, type |-> RandomElement({"1", "1", "2", "4294967295"}), buf |-> RandomElement(Bufs \cup {"3000000:x6"})]
                [] Rnd(8) = 0 -> [flag |-> RandomElement({"0", "778683", "3921087232", "4294967295"}), type |-> "0", json |-> Encode(Msg("LEAVE"))]
                [] Rnd(3) = 0 -> [flag |-> Flag, type |-> "0", json |-> Spoil(Encode(Msg(RandomElement(Kinds))), Rnd(9))]
                [] OTHER -> [flag |-> Flag, type |-> "0", json |-> Encode(Msg(RandomElement({"LEAVE", "COMMIT", "REQUEST", "REQUEST", "JOIN"})))]
Pack(cb, k) == LET r == RawPackage IN IF "json" \in DOMAIN r /\ Rnd(8) = 0 THEN r @@ [cb |-> cb, more |-> RandomElement({"1", "100", "1099511627776", "big"})] ELSE r @@ [cb |-> cb]
RInit == n = 0 /\ pk = <<>> /\ SInit(<<>>) /\ hist = <<>> /\ seen = {}
Begin == pk = <<>> /\ hist = <<>> /\ n' = n
         /\ \E cb \in {IF Rnd(8) = 0 THEN "n" ELSE "y"} : \E P \in {TLCEval([c \in 1..(1 + Rnd(5)) |-> Pack(cb, c)])} :
            pk' = P /\ pos' = [c \in DOMAIN P |-> 0] /\ cl' = [c \in DOMAIN P |-> "none"] /\ sv' = [c \in DOMAIN P |-> "none"] /\ out' = [c \in DOMAIN P |-> None]
         /\ UNCHANGED <<calls, up, hist, seen>>
Log(r) == hist' = Append(hist, r) /\ UNCHANGED <<n, seen>>
Acts(c) == \/ Dial(c) /\ Log([e |-> "dial", c |-> c])
           \/ \E p \in 1..4 : Push(c, p) /\ Log([e |-> "push", c |-> c, p |-> p])
           \/ pos[c] \notin {0, 4} /\ Stay(c) /\ Log([e |-> "push", c |-> c, p |-> pos[c]])
           \/ pos[c] = 4 /\ Shut(c) /\ Log([e |-> "shut", c |-> c])
           \/ pos[c] < 4 /\ Rnd(3) = 0 /\ Shut(c) /\ Log([e |-> "shut", c |-> c])
           \/ Rnd(4) = 0 /\ c \notin seen /\ Hang(c, "closed") /\ Log([e |-> "hang", c |-> c, how |-> "closed"])
           \/ Rnd(4) = 0 /\ c \notin seen /\ Hang(c, "reset") /\ Log([e |-> "hang", c |-> c, how |-> "reset"])
           \/ c \notin seen /\ cl[c] \in {"open", "shut"} /\ (pos[c] = 4 \/ cl[c] = "shut" \/ Rnd(5) = 0)
              /\ UNCHANGED svars /\ hist' = Append(hist, [e |-> "recv", c |-> c]) /\ n' = n /\ seen' = seen \cup (IF Delivered(c) \/ cl[c] = "shut" THEN {c} ELSE {})
Busy == {c \in Conns : cl[c] \in {"none", "open", "shut"} /\ c \notin seen}
Go == pk # <<>> /\ Len(hist) < Steps /\ Busy # {} /\ n = 0 /\ \E c \in Busy : Acts(c)
StopNow == pk # <<>> /\ n = 0 /\ WithStop /\ Len(hist) > 4 /\ Rnd(10) = 0 /\ Stop /\ Log([e |-> "stop"])
\* every connection still open is looked at once more; then the calls
Finish == pk # <<>> /\ n = 0 /\ (Len(hist) >= Steps \/ Busy = {}) /\ n' = 1 /\ UNCHANGED <<pk, pos, cl, sv, calls, out, up, hist, seen>>
          /\ PrintT("@@" \o ToJson([pk |-> pk, ops |-> hist \o SetToSeq({[e |-> "recv", c |-> c] : c \in {d \in Conns : cl[d] \in {"open", "shut"} /\ d \notin seen}}),
                                    sure |-> Cardinality({c \in Conns : Delivered(c) /\ cl[c] # "reset" /\ pk[c].cb = "y"})]))
RNext == Begin \/ Go \/ StopNow \/ Finish
=============================================================================
