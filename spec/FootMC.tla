------------------------------- MODULE FootMC -------------------------------
(* Exhaustive check of the breaks and footprints of a mode: every sequence of up to MaxOps calls on a fixture   *)
(* with a mode on one geometry, a reference in it to another geometry with a child, and channels on these.       *)
EXTENDS GdtfXml
CONSTANTS MaxOps, Small
VARIABLES nodes, steps
Do(ns, m, on, a, q, c) == Apply(ns, [m |-> m, on |-> on, a |-> a, q |-> q, c |-> c]).n
Geo(ns, on, t, nm) == Do(ns, "C", on, <<t, nm, "", IdMat>>, <<0, 0, 0, 0>>, IF t = "17" THEN "GeometryReference" ELSE "Geometry")
G1 == Geo(Init0("F", "M", "00000000000000000000000000000001"), 1, "9", "A")      \* 3: referenced
G2 == Geo(G1, 3, "9", "B")                                                         \* 4: its child
G3 == Geo(Geo(G2, 1, "9", "C"), 5, "17", "R")                                       \* 5: root of the mode, 6: reference
Base == Do(Do(Do(G3, "SetGeometryReference", 6, <<"">>, <<3>>, ""), "C", 1, <<"M1">>, <<0>>, "DMXMode"), "SetGeometry", 7, <<"">>, <<5>>, "")
Ch(ns) == OfClass(ns, "DMXChannel")
Ops(ns) ==
  {<<"C", 7, <<"">>, <<g>>, "DMXChannel">> : g \in IF Small THEN {4, 5} ELSE {3, 4, 5}}
  \cup {<<"SetCoarse", c, <<"">>, <<v>>, "">> : c \in Ch(ns), v \in {1, 5}}
  \cup {<<"SetFine", c, <<"">>, <<v>>, "">> : c \in Ch(ns), v \in IF Small THEN {6} ELSE {2, 6}}
  \cup {<<"SetDmxBreak", c, <<v>>, <<0>>, "">> : c \in Ch(ns), v \in IF Small THEN {"0"} ELSE {"0", "2"}}
  \cup {<<"C", 6, <<b, a>>, <<0, 0>>, "Break">> : b \in {"1", "2"}, a \in IF Small THEN {"3"} ELSE {"1", "3"}}
  \cup (IF Small THEN {} ELSE {<<"C", 5, <<"17", "S", "", IdMat>>, <<0, 0, 0, 0>>, "GeometryReference">>} \cup {<<"SetGeometryReference", r, <<"">>, <<3>>, "">> : r \in OfClass(ns, "GeometryReference")})
Init == nodes = Base /\ steps = 0
Next == steps < MaxOps /\ steps' = steps + 1 /\ \E o \in Ops(nodes) : \E n \in {Do(nodes, o[1], o[2], o[3], o[4], o[5])} : Regular(n) /\ nodes' = n
Brks == {1, 2, 7, 640}
\* whatever takes up an address does so in a break of the mode
Complete == \A b \in Brks : ModeAddresses(nodes, 7, b) # {} => b \in ModeBreaks(nodes, 7)
\* no two addresses of a break fall outside of its footprint, and a channel with its own break in the tree of the mode is inside
Bounded == \A b \in Brks : LET A == ModeAddresses(nodes, 7, b) IN
             /\ Cardinality(A) <= Span(A)
             /\ \A c \in Ch(nodes) : nodes[c].r.Geometry = 5 /\ nodes[c].f.DmxBreak = ToString(b) => AddressesOf(nodes, c, 0) \subseteq A
\* saving changes nothing
Saved == \A s \in {Restore(nodes)} : ShownMode(s, CHOOSE m \in OfClass(s, "DMXMode") : TRUE) = ShownMode(nodes, 7)
=============================================================================
