-------------------------------- MODULE Group --------------------------------
(* Membership of local sessions: stations announce themselves, discover who is there, join and leave. The steps of a   *)
(* connect (announce, discover, join one member after the other) may interleave with those of other stations.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Stations, Services, Keep
VARIABLES srv,      \* the session a station is in, or "none"
          ann,      \* the session it announces, or "none"
          grp,      \* whom it sends to
          todo,     \* whom its connect or leave still has to tell
          doing     \* "idle", "discover", "merge", "join", "leave"
gvars == <<srv, ann, grp, todo, doing>>
GroupInit == srv = [s \in Stations |-> "none"] /\ ann = srv /\ grp = [s \in Stations |-> {}] /\ todo = grp /\ doing = [s \in Stations |-> "idle"]
Others(s, v) == {t \in Stations \ {s} : ann[t] = v}
Announce(s, v) == doing[s] = "idle" /\ srv[s] = "none" /\ srv' = [srv EXCEPT ![s] = v] /\ ann' = [ann EXCEPT ![s] = v] /\ doing' = [doing EXCEPT ![s] = "discover"] /\ UNCHANGED <<grp, todo>>
Query(s) == doing[s] = "discover" /\ todo' = [todo EXCEPT ![s] = Others(s, srv[s])] /\ doing' = [doing EXCEPT ![s] = "merge"] /\ UNCHANGED <<srv, ann, grp>>
\* whoever joined since the query was made is kept
Merge(s) == doing[s] = "merge" /\ grp' = [grp EXCEPT ![s] = (IF Keep THEN @ ELSE {}) \cup todo[s]] /\ doing' = [doing EXCEPT ![s] = "join"] /\ UNCHANGED <<srv, ann, todo>>
TellJoin(s, t) == doing[s] = "join" /\ t \in todo[s] /\ todo' = [todo EXCEPT ![s] = @ \ {t}] /\ (IF srv[t] = srv[s] THEN grp' = [grp EXCEPT ![t] = @ \cup {s}] ELSE UNCHANGED grp) /\ UNCHANGED <<srv, ann, doing>>
Joined(s) == doing[s] = "join" /\ todo[s] = {} /\ doing' = [doing EXCEPT ![s] = "idle"] /\ UNCHANGED <<srv, ann, grp, todo>>
StartLeave(s) == doing[s] = "idle" /\ srv[s] # "none" /\ srv' = [srv EXCEPT ![s] = "none"] /\ todo' = [todo EXCEPT ![s] = grp[s]] /\ doing' = [doing EXCEPT ![s] = "leave"] /\ UNCHANGED <<ann, grp>>
TellLeave(s, t) == doing[s] = "leave" /\ t \in todo[s] /\ todo' = [todo EXCEPT ![s] = @ \ {t}] /\ grp' = [grp EXCEPT ![t] = @ \ {s}] /\ UNCHANGED <<srv, ann, doing>>
Left(s) == doing[s] = "leave" /\ todo[s] = {} /\ ann' = [ann EXCEPT ![s] = "none"] /\ grp' = [grp EXCEPT ![s] = {}] /\ doing' = [doing EXCEPT ![s] = "idle"] /\ UNCHANGED <<srv, todo>>
Quiet == \A s \in Stations : doing[s] = "idle"
\* everybody in a session knows everybody else in it, and nobody else
Together == Quiet => \A s \in Stations : grp[s] = IF srv[s] = "none" THEN {} ELSE {t \in Stations \ {s} : srv[t] = srv[s]}
NoStrangers == \A s \in Stations : s \notin grp[s] /\ \A t \in grp[s] : srv[t] = srv[s] \/ doing[t] # "idle" \/ doing[s] # "idle"
=============================================================================
