------------------------------ MODULE DocTree ------------------------------
(* A document is a sequence of nodes.  Node i = [c: class, k: collection of the parent it belongs to, *)
(* p: parent index (0 for the root), ...].  The order of nodes with one parent and one collection is  *)
(* the order in which they were created.  This module gives the preorder walk that the public         *)
(* traversal interface must produce.                                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

KidsOf(nodes, i, k) == SelectSeq([j \in 1..Len(nodes) |-> j], LAMBDA j: nodes[j].p = i /\ nodes[j].k = k)

\* the children of every node, in the order in which they were created
ChildTab(nodes) == FoldLeft(LAMBDA t, j: IF nodes[j].p = 0 THEN t ELSE [t EXCEPT ![nodes[j].p] = Append(@, j)], [j \in 1..Len(nodes) |-> <<>>], [j \in 1..Len(nodes) |-> j])
\* ColOrder(c): the sequence of collections of class c in the order of the walk
RECURSIVE PreorderFrom(_, _, _, _)
PreorderFrom(nodes, tab, ColOrder(_), i) ==
  IF tab[i] = <<>> THEN <<i>>
  ELSE LET cols == ColOrder(nodes[i].c)
           kids == FlattenSeq([k \in 1..Len(cols) |-> SelectSeq(tab[i], LAMBDA j: nodes[j].k = cols[k])])
       IN  <<i>> \o FlattenSeq([k \in 1..Len(kids) |-> PreorderFrom(nodes, tab, ColOrder, kids[k])])

Preorder(nodes, ColOrder(_)) == IF nodes = <<>> THEN <<>> ELSE PreorderFrom(nodes, ChildTab(nodes), ColOrder, 1)
\* where each of the numbers 1..n stands in the permutation seq
Places(seq) == FoldLeft(LAMBDA t, j: [t EXCEPT ![seq[j]] = j], [j \in 1..Len(seq) |-> 0], [j \in 1..Len(seq) |-> j])

PosIn(seq, x) == IF x = 0 THEN 0 ELSE CHOOSE n \in 1..Len(seq) : seq[n] = x

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

RECURSIVE AncestorOrSelf(_, _, _)
AncestorOrSelf(nodes, a, i) == IF i = 0 THEN FALSE ELSE IF i = a THEN TRUE ELSE AncestorOrSelf(nodes, a, nodes[i].p)

\* ---- generic XML trees: [t: tag, a: attributes, x: text, k: children] ----
Xml(t, a, x, k) == [t |-> t, a |-> a, x |-> x, k |-> k]
RECURSIVE XmlEq(_, _, _)
XmlEq(Ordered, a, b) ==
  /\ a.t = b.t /\ a.x = b.x /\ a.a = b.a /\ Len(a.k) = Len(b.k)
  /\ LET SameSeq(s, u) == Len(s) = Len(u) /\ \A n \in 1..Len(s) : XmlEq(Ordered, s[n], u[n])
         tags == {a.k[n].t : n \in 1..Len(a.k)}
     IN  IF a.t \in Ordered THEN SameSeq(a.k, b.k)
         ELSE \A t \in tags : SameSeq(SelectSeq(a.k, LAMBDA e: e.t = t), SelectSeq(b.k, LAMBDA e: e.t = t))
\* where two trees that are not equal differ first (for reports)
RECURSIVE XmlDiff(_, _, _)
XmlDiff(Ordered, a, b) ==
  IF a.t # b.t \/ a.x # b.x \/ a.a # b.a THEN [model |-> [t |-> a.t, x |-> a.x, a |-> a.a], observed |-> [t |-> b.t, x |-> b.x, a |-> b.a]]
  ELSE LET Sorted(s) == IF a.t \in Ordered THEN s ELSE LET ts == SetToSeq({a.k[n].t : n \in 1..Len(a.k)} \cup {b.k[n].t : n \in 1..Len(b.k)})
                                                       IN FlattenSeq([n \in 1..Len(ts) |-> SelectSeq(s, LAMBDA e: e.t = ts[n])])
           x == Sorted(a.k)  y == Sorted(b.k)
       IN IF [n \in 1..Len(x) |-> x[n].t] # [n \in 1..Len(y) |-> y[n].t]
          THEN [in |-> a.t, model |-> [n \in 1..Len(x) |-> x[n].t], observed |-> [n \in 1..Len(y) |-> y[n].t]]
          ELSE LET bad == {n \in 1..Len(x) : ~XmlEq(Ordered, x[n], y[n])} IN
               IF bad = {} THEN [equal |-> TRUE] ELSE [in |-> a.t, diff |-> XmlDiff(Ordered, x[CHOOSE n \in bad : TRUE], y[CHOOSE n \in bad : TRUE])]
=============================================================================
