------------------------------- MODULE ArchMC -------------------------------
(* Every small archive: what the walk over its bytes brings is what it means. *)
EXTENDS Arch
CONSTANTS MaxMs, Faults, Hows, Lens
VARIABLES a
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
Name == {<<"", "x">>, <<"", "">>, <<"d/", "">>, <<"", "y">>}
Member == [n : Name, d : {"t", "empty"}, how : Hows, fault : Faults, gap : Lens, lx : Lens, cx : Lens, cc : Lens]
Init == \E k \in 0..MaxMs : \E p \in Perms(k), ms \in [1..k -> Member], e \in {"ok", "cut", "tailcut", "wrong", "none", "empty"}, t \in 0..1 : a = [ms |-> ms, place |-> p, tail |-> t, end |-> e]
Next == UNCHANGED a
WalkIsMeaning == Reader(Bytes(a)) = Meant(a)
Subset == \A k \in 1..Len(Usable(a)) : \E i \in 1..Len(a.ms) : a.ms[i] = Usable(a)[k]
NoDoubles == \A i, j \in 1..Len(Usable(a)) : Usable(a)[i].n = Usable(a)[j].n => i = j
\* neither the order of the bytes nor anything between them changes what is handed out
LayoutFree == LET plain == [a EXCEPT !.ms = [i \in 1..Len(a.ms) |-> [a.ms[i] EXCEPT !.gap = 0, !.lx = 0, !.cx = 0, !.cc = 0]], !.place = [i \in 1..Len(a.ms) |-> i], !.tail = 0] IN
              Shown("mvr", plain) = Shown("mvr", a) /\ Accepts("mvr", plain) = Accepts("mvr", a)
=============================================================================
