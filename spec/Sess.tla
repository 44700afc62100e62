-------------------------------- MODULE Sess --------------------------------
(* A station's server and the connections made to it. A client delivers its package in any pieces; positions in the    *)
(* stream: 0 nothing, 1 part of the header, 2 the header, 3 part of the body, 4 everything. The server works on all    *)
(* connections at its own pace. Each package that arrives whole is shown to the callback once and answered once, on    *)
(* its own connection; everything else is dropped without a call and without an answer.                                *)
EXTENDS Xchg
VARIABLES pk, pos, cl, sv, calls, out, up
svars == <<pk, pos, cl, sv, calls, out, up>>
Conns == DOMAIN pk
\* pk[c]: a package as in Xchg; more = "y" when its header announces more than is ever delivered; cb = "n" for a station without callback
Long(p) == "more" \in DOMAIN p
Answered(p) == Package(IF p.cb = "n" THEN [t |-> "UNDEFINED", err |-> ""] ELSE Reply(Decode(p), p.file))
None == [none |-> "y"]
SInit(P) == pk = P /\ pos = [c \in DOMAIN P |-> 0] /\ cl = [c \in DOMAIN P |-> "none"] /\ sv = [c \in DOMAIN P |-> "none"] /\ calls = <<>> /\ out = [c \in DOMAIN P |-> None] /\ up = "y"
\* ---- the clients
Dial(c) == cl[c] = "none" /\ up = "y" /\ cl' = [cl EXCEPT ![c] = "open"] /\ sv' = [sv EXCEPT ![c] = "head"] /\ UNCHANGED <<pk, pos, calls, out, up>>
Push(c, p) == cl[c] = "open" /\ p > pos[c] /\ pos' = [pos EXCEPT ![c] = p] /\ UNCHANGED <<pk, cl, sv, calls, out, up>>
Stay(c) == cl[c] = "open" /\ UNCHANGED svars
Shut(c) == cl[c] = "open" /\ cl' = [cl EXCEPT ![c] = "shut"] /\ UNCHANGED <<pk, pos, sv, calls, out, up>>
Hang(c, how) == cl[c] \in {"open", "shut"} /\ how \in {"closed", "reset"} /\ cl' = [cl EXCEPT ![c] = how] /\ UNCHANGED <<pk, pos, sv, calls, out, up>>
\* ---- the server
RdHead(c) == up = "y" /\ sv[c] = "head" /\ pos[c] >= 2 /\ sv' = [sv EXCEPT ![c] = IF pk[c].flag = Flag THEN "body" ELSE "drop"] /\ UNCHANGED <<pk, pos, cl, calls, out, up>>
Refuse(c) == up = "y" /\ sv[c] = "head" /\ pos[c] >= 2 /\ Long(pk[c]) /\ sv' = [sv EXCEPT ![c] = "drop"] /\ UNCHANGED <<pk, pos, cl, calls, out, up>>      \* an announced length there is no room for
RdBody(c) == up = "y" /\ sv[c] = "body" /\ pos[c] = 4 /\ ~Long(pk[c]) /\ sv' = [sv EXCEPT ![c] = "call"] /\ calls' = (IF pk[c].cb = "n" THEN calls ELSE Append(calls, c)) /\ UNCHANGED <<pk, pos, cl, out, up>>
Send(c) == up = "y" /\ sv[c] = "call" /\ sv' = [sv EXCEPT ![c] = "done"] /\ out' = [out EXCEPT ![c] = Answered(pk[c])] /\ UNCHANGED <<pk, pos, cl, calls, up>>
Eof(c) == up = "y" /\ sv[c] \in {"head", "body"} /\ cl[c] # "open" /\ (cl[c] = "reset" \/ (sv[c] = "head" /\ pos[c] < 2) \/ (sv[c] = "body" /\ (pos[c] < 4 \/ Long(pk[c])))) /\ sv' = [sv EXCEPT ![c] = "drop"] /\ UNCHANGED <<pk, pos, cl, calls, out, up>>
Server == \E c \in Conns : RdHead(c) \/ Refuse(c) \/ RdBody(c) \/ Send(c) \/ Eof(c)
Stop == up = "y" /\ up' = "n" /\ sv' = [c \in Conns |-> IF sv[c] \in {"head", "body", "call"} THEN "drop" ELSE sv[c]] /\ UNCHANGED <<pk, pos, cl, calls, out>>
\* ---- what always holds
Delivered(c) == pos[c] = 4 /\ ~Long(pk[c]) /\ pk[c].flag = Flag
CallsAreDelivered == \A k \in 1..Len(calls) : Delivered(calls[k]) /\ \A j \in 1..Len(calls) : calls[k] = calls[j] => k = j
AnswersAreOwn == \A c \in Conns : out[c] # None => Delivered(c) /\ out[c] = Answered(pk[c]) /\ (pk[c].cb # "n" => \E k \in 1..Len(calls) : calls[k] = c)
\* a connection that stalls keeps no other waiting
EveryoneServed(C) == \A c \in C : (Delivered(c) /\ cl[c] \in {"open", "shut"}) ~> (sv[c] = "done" \/ cl[c] = "reset" \/ up = "n")
Closed(C) == \A c \in C : (cl[c] \in {"shut", "closed"} /\ ~Delivered(c)) ~> (sv[c] = "drop" \/ up = "n")
=============================================================================
