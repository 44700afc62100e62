----------------------------- MODULE ContainMC -----------------------------
EXTENDS Contain
CONSTANTS MaxLen
VARIABLES segs, work
Segs == {Up, ".", "", "a", "f"}
Init == /\ \E k \in 0..MaxLen : segs \in [1..k -> Segs]
        /\ work \in {<<"w">>, <<"a", "w">>, <<"a", "f", "w">>}
Next == UNCHANGED <<segs, work>>
\* what the rule lets pass stays inside of the working folder, file and every folder on the way
Contained == Safe(segs) => \A k \in 1..Len(segs) : Resolve(work, SubSeq(segs, 1, k)) = work \/ Under(Resolve(work, SubSeq(segs, 1, k)), work)
FileContained == Safe(segs) => Under(Resolve(work, segs), work)
FlatContained == (segs # <<>> /\ FlatSafe(segs)) => Under(Resolve(work, Flat(segs)), work)
\* the second condition is needed: two segments that lead nowhere make one that leads up
ASSUME Flat(<<".", ".", "f">>) = <<"..", "f">> /\ Safe(<<".", ".", "f">>) /\ ~FlatSafe(<<".", ".", "f">>)
\* and the rule refuses nothing that is ordinary
OrdinaryPasses == (segs # <<>> /\ Ordinary(segs)) => FlatSafe(segs)
=============================================================================
