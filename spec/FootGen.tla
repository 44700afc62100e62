------------------------------- MODULE FootGen -------------------------------
(* Random fixtures for the addresses a mode takes up: geometry trees, references with breaks to them, and modes  *)
(* whose channels lie on all of these, with any break, at any addresses; also virtual channels.                   *)
EXTENDS GdtfGen
Geos(ns) == TargetsOf(ns, GeoClasses)
Tops(ns) == {i \in Geos(ns) : ns[i].p = 1 /\ ns[i].c = "Geometry"}
Nm(ns) == "G" \o ToString(Len(ns))
NewGeo(ns, on, ref) == Op("CreateGeometry", on, <<IF ref THEN "17" ELSE "9", Nm(ns), "@none", IdMat>>, <<0, 0, 0, 0>>, IF ref THEN "GeometryReference" ELSE "Geometry")
Place(ns, on, i) == Op("SetGeometryReference", on, <<RefArg(i)>>, <<i>>, "")
Offs == {1, 2, 3, 4, 7, 100, 511}
FOp(ns, h) ==
  LET geos == {i \in Geos(ns) : ns[i].c = "Geometry"}
      refs == OfClass(ns, "GeometryReference")  modes == OfClass(ns, "DMXMode")  chans == OfClass(ns, "DMXChannel")
      w == Pick(1..30)
  IN CASE h = 1 -> NewGeo(ns, 1, FALSE)
       [] h = 2 -> Op("CreateDmxMode", 1, <<"M1">>, <<0>>, "DMXMode")
       [] w \in 1..2 -> NewGeo(ns, 1, FALSE)
       [] w \in 3..4 /\ geos # {} -> NewGeo(ns, Pick(geos), FALSE)
       [] w \in 5..7 /\ geos # {} -> NewGeo(ns, Pick(geos), TRUE)
       [] w \in 8..10 /\ refs # {} /\ Tops(ns) # {} -> Place(ns, Pick(refs), Pick(Tops(ns)))
       [] w \in 11..13 /\ refs # {} -> LET b == Pick({"1", "2", "7", "640"}) IN Op("CreateBreak", Pick(refs), <<b, Pick(G(AddrDom))>>, <<0, 0>>, "Break")
       [] w \in 14..15 /\ Tops(ns) # {} -> LET g == Pick(Tops(ns)) IN Op("SetGeometry", Pick(modes), <<RefArg(g)>>, <<g>>, "")
       [] w = 16 -> Op("CreateDmxMode", 1, <<"M" \o ToString(h)>>, <<0>>, "DMXMode")
       [] w \in 17..21 /\ modes # {} /\ geos # {} -> LET g == Pick(Geos(ns)) IN Op("CreateDmxChannel", Pick(modes), <<RefArg(g)>>, <<g>>, "DMXChannel")
       [] w \in 22..25 /\ chans # {} -> LET o == Pick(Offs) IN Op(Pick({"SetCoarse", "SetCoarse", "SetFine", "SetFine", "SetUltra", "SetUber"}), Pick(chans), <<ToString(o)>>, <<o>>, "")
       [] w \in 26..28 /\ chans # {} -> Op("SetDmxBreak", Pick(chans), <<Pick({"0", "0", "0", "1", "2", "7"})>>, <<0>>, "")
       [] w = 29 /\ chans # {} -> LET g == Pick(Geos(ns)) IN Op("SetGeometry", Pick(chans), <<RefArg(g)>>, <<g>>, "")
       [] OTHER -> NoOp
FNext == /\ tries < MaxOps
         /\ tries' = tries + 1
         /\ \E op \in {FOp(nodes, tries + 1)} :
              IF op.m = "" THEN UNCHANGED <<nodes, hist>>
              ELSE \E r \in {Apply(nodes, op)} :
                     IF ~Regular(r.n) THEN UNCHANGED <<nodes, hist>>
                     ELSE nodes' = r.n /\ hist' = Append(hist, op @@ [ret |-> r.ret])
         /\ (tries' = MaxOps => PrintT("@@" \o ToJson(hist')))
=============================================================================
