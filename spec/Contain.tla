------------------------------ MODULE Contain ------------------------------
(* Where the name of an archive's member leads. A name is a sequence of segments; a folder is a path below the root. *)
EXTENDS Sequences, Naturals, FiniteSets, TLC, SequencesExt
Up == ".."
Here == {".", ""}
RECURSIVE Resolve(_, _)
\* <<>> is the root of everything; one cannot go above it
Resolve(folder, segs) == IF segs = <<>> THEN folder
  ELSE Resolve(IF Head(segs) = Up THEN (IF folder = <<>> THEN <<>> ELSE Front(folder)) ELSE IF Head(segs) \in Here THEN folder ELSE Append(folder, Head(segs)), Tail(segs))
Under(path, folder) == Len(path) > Len(folder) /\ SubSeq(path, 1, Len(folder)) = folder
\* the rule the readers go by: no segment leads up, and the last one names something
Safe(segs) == segs # <<>> /\ (\A k \in 1..Len(segs) : segs[k] # Up) /\ segs[Len(segs)] \notin Here
\* a fixture puts a file into the one folder that the segments before the last make when they are written without separators
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
Flat(segs) == <<Join(Front(segs)), segs[Len(segs)]>>
FlatSafe(segs) == Safe(segs) /\ Join(Front(segs)) # Up
\* ordinary names: these every reader hands out
Ordinary(segs) == Safe(segs) /\ \A k \in 1..Len(segs) : segs[k] \notin Here
=============================================================================
