------------------------------- MODULE GroupMC -------------------------------
(* Mode "any": connects may overlap connects and leaves overlap leaves; "mixed": everything overlaps (used to show why not). *)
EXTENDS Group
CONSTANT Mode
Leaving == \E s \in Stations : doing[s] = "leave"
Joining == \E s \in Stations : doing[s] \in {"discover", "merge", "join"}
Next == \E s \in Stations : \/ (\E v \in Services : (Mode = "mixed" \/ ~Leaving) /\ Announce(s, v))
                            \/ Query(s) \/ Merge(s) \/ Joined(s) \/ Left(s) \/ ((Mode = "mixed" \/ ~Joining) /\ StartLeave(s))
                            \/ \E t \in Stations : TellJoin(s, t) \/ TellLeave(s, t)
Spec == GroupInit /\ [][Next]_gvars
=============================================================================
