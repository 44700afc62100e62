------------------------------- MODULE GdtfBig -------------------------------
(* Big fixtures: a random history of calls (GdtfGen) mixed with calls that build so many definitions of every kind, *)
(* and so many channels in the modes, that the library looks references up in other ways than in small fixtures.     *)
(* Nothing the history refers to may be found differently for that.                                                  *)
EXTENDS GdtfGen
Filler(m, on, a, q, c, ret) == [m |-> m, on |-> on, a |-> a, q |-> q, c |-> c, ret |-> ret]
\* one definition named t, created as node id
PadDef(id, t) ==
  LET K(c) == KidOf("Fixture", c).m
      Plain(c, a) == Filler(K(c), 1, a, [j \in 1..Len(a) |-> 0], c, id)
  IN  CASE id % 6 \in {0, 1} -> Plain("Attribute", <<t, t>>)
        [] id % 6 = 2 -> Plain("Wheel", <<t>>)
        [] id % 6 = 3 -> Plain("Model", <<t>>)
        [] id % 6 = 4 -> Plain("Emitter", <<t, "0.3127,0.329,100">>)
        [] OTHER -> Plain("Filter", <<t, "0.3127,0.329,100">>)
\* st: [ops, map: old node -> new node, next: the next new node]
Emit(st, ops, made) == [st EXCEPT !.ops = @ \o ops, !.next = @ + made]
Moved(st, op) ==
  LET Mv(x) == IF x \in DOMAIN st.map THEN st.map[x] ELSE x
      IsRef(j) == op.q[j] # 0 /\ Len(op.a[j]) > 2 /\ SubSeq(op.a[j], 1, 2) = "@n"
      q == [j \in 1..Len(op.q) |-> IF IsRef(j) THEN Mv(op.q[j]) ELSE op.q[j]]
      made == op.ret # 0
      o == [op EXCEPT !.on = Mv(@), !.a = [j \in 1..Len(op.a) |-> IF IsRef(j) THEN RefArg(q[j]) ELSE op.a[j]], !.q = q, !.ret = IF made THEN st.next ELSE 0]
  IN  [ops |-> Append(st.ops, o), map |-> IF made THEN st.map @@ (op.ret :> st.next) ELSE st.map, next |-> IF made THEN st.next + 1 ELSE st.next]
Defs(st, k, tag) == IF k = 0 THEN st ELSE Emit(st, [j \in 1..k |-> PadDef(st.next + j - 1, tag \o ToString(j))], k)
\* k channels (channel, logical channel, function) for mode m, each with an attribute of its own
Chans(st, m, k) ==
  IF k = 0 THEN st
  ELSE LET geo == st.next
           Attr(j) == Filler("CreateAttribute", 1, <<"A" \o ToString(geo) \o "x" \o ToString(j), "">>, <<0, 0>>, "Attribute", geo + 4 * j - 3)
           Chan(j) == LET id == geo + 4 * j - 2 IN
             <<Attr(j), Filler("CreateDmxChannel", m, <<RefArg(geo)>>, <<geo>>, "DMXChannel", id),
               Filler("CreateLogicalChannel", id, <<RefArg(id - 1)>>, <<id - 1>>, "LogicalChannel", id + 1),
               Filler("CreateDmxFunction", id + 1, <<"P" \o ToString(id)>>, <<0>>, "ChannelFunction", id + 2)>>
           ops == <<Filler("CreateGeometry", 1, <<"9", "G" \o ToString(geo), "@none", IdMat>>, <<0, 0, 0, 0>>, "Geometry", geo)>> \o FlattenSeq([j \in 1..k |-> Chan(j)])
       IN  Emit(st, ops, 1 + 4 * k)
\* plan: how many definitions come first and last, how many channels the k-th mode gets when it is made and at the end
Mix(start, h, plan) ==
  FoldLeft(LAMBDA m, op:
    LET s1 == Moved(m.s, op)
    IN  TLCEval(IF op.c = "DMXMode" THEN [s |-> Chans(s1, m.s.next, IF m.modes = <<>> THEN plan.early ELSE plan.other), modes |-> Append(m.modes, m.s.next)] ELSE [s |-> s1, modes |-> m.modes]),
    [s |-> start, modes |-> <<>>], h)
Blow(h, plan) ==
  LET m == Mix(Defs([ops |-> <<>>, map |-> <<>>, next |-> 3], plan.first, "F"), h, plan)
      s == Defs(m.s, plan.last, "L")
  IN  (IF m.modes = <<>> THEN s ELSE Chans(s, m.modes[1], plan.late)).ops
Plan(h, want) ==
  LET n == Pick({100, 124, 126, 127, 128, 129, 131, 150, 200})  a == Pick({0, 1, 40, n})  c == Pick({58, 61, 62, 63, 64, 65, 66, 90})  e == Pick({0, 1, 30, c}) IN
  [first |-> IF want = "chans" THEN Pick({0, 3, 50}) ELSE IF a > n THEN n ELSE a, last |-> IF want = "chans" THEN 0 ELSE IF a > n THEN 0 ELSE n - a,
   early |-> IF want = "defs" THEN Pick({0, 2}) ELSE e, late |-> IF want = "defs" THEN 0 ELSE c - e, other |-> Pick({0, 0, 5})]
BNext == /\ tries < MaxOps
         /\ tries' = tries + 1
         /\ \E op \in {RandOp(nodes, tries + 1)} :
              IF op.m = "" THEN UNCHANGED <<nodes, hist>>
              ELSE \E r \in {Apply(nodes, op)} :
                     IF ~Regular(r.n) THEN UNCHANGED <<nodes, hist>>
                     ELSE nodes' = r.n /\ hist' = Append(hist, op @@ [ret |-> r.ret])
         /\ (tries' = MaxOps => \E plan \in {Plan(hist', Pick({"defs", "chans", "both"}))} : PrintT("@@" \o ToJson(Blow(hist', plan))))
=============================================================================
