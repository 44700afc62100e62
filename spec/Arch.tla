-------------------------------- MODULE Arch --------------------------------
(* An archive as any program may have laid it out, or as damage has left it, and what a reader of it must hand out. *)
(* Upper half: what the archive means. Lower half: the archive as a row of bytes and the reader's walk over it.     *)
EXTENDS Sequences, Naturals, FiniteSets, TLC, SequencesExt

(* member: n name <<folder, file>>, d content token, how it is packed, fault what is wrong with it,                  *)
(*         gap bytes before its local header, lx/cx extra fields, cc comment; members are listed in directory order *)
Plain == {"stored", "deflated", "streamed"}                    \* streamed: sizes follow the data, as programs do that write to a pipe
Alien == {"bzip2", "lzma", "method99", "encrypted"}
Own == {"none", "local", "beyond", "long", "garbage", "short"} \* faults that concern the member alone
Ends == {"nosig", "longname"}                                  \* faults after which nothing of the directory can be found
(* archive: ms members, place local order (a permutation of the indexes), tail comment length,                       *)
(*          end "ok" | "cut" (bytes of the end record are missing) | "tailcut" (only of the comment) | "wrong" (the directory is not where it says) | "none" | "empty" *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Found(a) == a.end \in {"ok", "tailcut"}
Seen(a) == IF ~Found(a) THEN <<>> ELSE LET K == {k \in 1..Len(a.ms) : a.ms[k].fault \in Ends} IN IF K = {} THEN a.ms ELSE SubSeq(a.ms, 1, Least(K) - 1)
File(m) == m.n[2] # ""                                         \* folders and members without name are nothing to hand out
Readable(m) == m.how \in Plain /\ m.fault = "none"
FirstOf(s) == LET F == {k \in 1..Len(s) : ~\E j \in 1..(k - 1) : s[j].n = s[k].n} IN [k \in 1..Len(s) |-> IF k \in F THEN <<s[k]>> ELSE <<>>]
Usable(a) == SelectSeq(FlattenSeq(FirstOf(Seen(a))), LAMBDA m: File(m) /\ Readable(m))
Desc(kind) == IF kind = "mvr" THEN <<"", "GeneralSceneDescription.xml">> ELSE <<"", "description.xml">>
\* a damaged byte may mean anything, short of ending the program
Accepts(kind, a) == \E k \in 1..Len(Usable(a)) : Usable(a)[k].n = Desc(kind)
Title(kind, a) == LET K == {k \in 1..Len(Usable(a)) : Usable(a)[k].n = Desc(kind)} IN IF K = {} THEN "-" ELSE Usable(a)[Least(K)].d
Shown(kind, a) == LET u == SelectSeq(Usable(a), LAMBDA m: m.n # Desc(kind)) IN [k \in 1..Len(u) |-> [n |-> u[k].n, d |-> u[k].d]]

\* ---- bytes --------------------------------------------------------------------------------------------
(* A chunk starts with its signature. Sizes are small numbers; the reader knows nothing but positions and bytes.     *)
LocSize == 3 CenSize == 4 EndSize == 3
NameLen(m) == IF m.n[2] = "" /\ m.n[1] = "" THEN 0 ELSE 1
DataLen(m) == IF m.d = "empty" THEN 0 ELSE 2
Local(a, i) == LET m == a.ms[i] IN [j \in 1..m.gap |-> [k |-> "gap"]] \o <<[k |-> IF m.fault = "local" THEN "junk" ELSE "loc", i |-> i]>> \o [j \in 1..(LocSize - 1 + NameLen(m) + m.lx) |-> [k |-> "body"]]
               \o [j \in 1..DataLen(m) |-> [k |-> "data", i |-> i, j |-> j]]
Locals(a) == FlattenSeq([p \in 1..Len(a.ms) |-> Local(a, a.place[p])])
OffsetOf(a, i) == LET p == CHOOSE p \in 1..Len(a.ms) : a.place[p] = i IN Len(FlattenSeq([q \in 1..(p - 1) |-> Local(a, a.place[q])])) + a.ms[i].gap + 1
Central(a, i) == LET m == a.ms[i] IN
  <<[k |-> IF m.fault = "nosig" THEN "junk" ELSE "cen", n |-> m.n, nl |-> IF m.fault = "longname" THEN 99 ELSE NameLen(m), xl |-> m.cx, cl |-> m.cc, off |-> IF m.fault = "beyond" THEN 999 ELSE OffsetOf(a, i),
     len |-> IF m.fault = "long" THEN 99 ELSE DataLen(m), how |-> m.how, lnl |-> NameLen(m), lxl |-> m.lx, ok |-> m.fault \notin {"garbage", "short"}]>>
  \o [j \in 1..(CenSize - 1 + NameLen(m) + m.cx + m.cc) |-> [k |-> "body"]]
Bytes(a) ==
  LET l == Locals(a) c == FlattenSeq([i \in 1..Len(a.ms) |-> Central(a, i)])
      e == <<[k |-> "end", dir |-> IF a.end = "wrong" THEN Len(l) + 2 ELSE Len(l) + 1]>> \o [j \in 1..(EndSize - 1 + a.tail) |-> [k |-> "body"]]
  IN  CASE a.end = "none" -> l \o c [] a.end = "empty" -> <<>> [] a.end = "cut" -> l \o c [] a.end = "tailcut" -> SubSeq(l \o c \o e, 1, Len(l \o c) + EndSize) [] OTHER -> l \o c \o e

(* the reader: find the end record from behind, walk the directory, take each name's first entry, fetch its bytes   *)
Latest(S) == CHOOSE x \in S : \A y \in S : x >= y
DirAt(b) == LET E == {p \in 1..Len(b) : b[p].k = "end"} IN IF E = {} THEN 0 ELSE b[Latest(E)].dir
RECURSIVE Walk(_, _)
Walk(b, p) == IF p = 0 \/ p > Len(b) THEN <<>> ELSE IF b[p].k # "cen" \/ p + CenSize + b[p].nl - 1 > Len(b) THEN <<>>
              ELSE <<p>> \o Walk(b, p + CenSize + b[p].nl + b[p].xl + b[p].cl)
Fetch(b, c) == LET s == c.off + LocSize + c.lnl + c.lxl IN
  IF c.off > Len(b) THEN <<"bad">> ELSE IF b[c.off].k # "loc" \/ s + c.len - 1 > Len(b) \/ c.how \notin Plain \/ ~c.ok THEN <<"bad">> ELSE [j \in 1..c.len |-> b[s + j - 1]]
Reader(b) == LET w == Walk(b, DirAt(b))
                 good == {k \in 1..Len(w) : b[w[k]].n[2] # "" /\ (\A j \in 1..(k - 1) : b[w[j]].n # b[w[k]].n) /\ Fetch(b, b[w[k]]) # <<"bad">>}
             IN  FlattenSeq([k \in 1..Len(w) |-> IF k \in good THEN <<[n |-> b[w[k]].n, data |-> Fetch(b, b[w[k]])]>> ELSE <<>>])
\* what the walk over the bytes brings is what the archive means
Meant(a) == LET u == Usable(a) IN [k \in 1..Len(u) |-> LET i == CHOOSE i \in 1..Len(a.ms) : a.ms[i] = u[k] /\ \A j \in 1..(i - 1) : a.ms[j].n # u[k].n
                                                   IN [n |-> u[k].n, data |-> [j \in 1..DataLen(u[k]) |-> [k |-> "data", i |-> i, j |-> j]]]]
=============================================================================
