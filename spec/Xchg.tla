-------------------------------- MODULE Xchg --------------------------------
(* MVR-xchange messages: what a message looks like on the wire and what a received package means.        *)
(* Every scalar is a string. A JSON value is [s |-> text], [n |-> number], [b |-> "true"/"false"],        *)
(* [a |-> sequence] or [o |-> record].                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Kinds == {"JOIN", "JOIN_RET", "LEAVE", "LEAVE_RET", "COMMIT", "COMMIT_RET", "REQUEST", "REQUEST_RET"}
Answer == [JOIN |-> "JOIN_RET", LEAVE |-> "LEAVE_RET", COMMIT |-> "COMMIT_RET", REQUEST |-> "REQUEST_RET"]
Zero == "00000000000000000000000000000000"
Flag == "778682"
Limit == 1023                                            \* texts are held in 1024 bytes, the last one is NUL
Clip(s) == IF Len(s) > Limit THEN SubSeq(s, 1, Limit) ELSE s
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN s \o Rep(s, n - 1) ELSE LET h == Rep(s, n \div 2) IN h \o h

\* ---- UUIDs: four words of eight digits; the text has the bytes of every word in reverse order
W(u, k) == SubSeq(u, 8 * k + 1, 8 * k + 8)
Upper == [c \in {"a", "b", "c", "d", "e", "f"} |-> CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] OTHER -> "F"]
RECURSIVE Map1(_, _)
Map1(f, s) == IF s = "" THEN "" ELSE LET c == SubSeq(s, 1, 1) IN (IF c \in DOMAIN f THEN f[c] ELSE c) \o Map1(f, SubSeq(s, 2, Len(s)))
UuidRaw(u) == LET a == W(u, 0)  b == W(u, 1)  c == W(u, 2)  d == W(u, 3)  P(w, k) == SubSeq(w, 2 * k + 1, 2 * k + 2)
              IN P(a, 3) \o P(a, 2) \o P(a, 1) \o P(a, 0) \o "-" \o P(b, 3) \o P(b, 2) \o "-" \o P(b, 1) \o P(b, 0) \o "-" \o P(c, 3) \o P(c, 2) \o "-" \o P(c, 1) \o P(c, 0) \o P(d, 3) \o P(d, 2) \o P(d, 1) \o P(d, 0)
UuidText(u) == Map1(Upper, UuidRaw(u))
\* what a text means, for the texts that occur: the canonical ones in either case; anything else is no UUID
Lower == [c \in {"A", "B", "C", "D", "E", "F"} |-> CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] OTHER -> "f"]
UuidBack(t) == LET s == Map1(Lower, t)  h == SubSeq(s, 1, 8) \o SubSeq(s, 10, 13) \o SubSeq(s, 15, 18) \o SubSeq(s, 20, 23) \o SubSeq(s, 25, 36)
                   P(k) == SubSeq(h, 2 * k + 1, 2 * k + 2)
               IN P(3) \o P(2) \o P(1) \o P(0) \o P(7) \o P(6) \o P(5) \o P(4) \o P(11) \o P(10) \o P(9) \o P(8) \o P(15) \o P(14) \o P(13) \o P(12)
IsUuid(t) == Len(t) = 36 /\ SubSeq(t, 9, 9) = "-" /\ SubSeq(t, 14, 14) = "-" /\ SubSeq(t, 19, 19) = "-" /\ SubSeq(t, 24, 24) = "-"

\* ---- messages
S(v) == [s |-> v]
N(v) == [n |-> v]
B(v) == [b |-> v]
A(v) == [a |-> v]
O(v) == [o |-> v]
ClipCommit(c) == [c EXCEPT !.fname = Clip(@), !.comment = Clip(@)]
CommitJson(c) == O([Type |-> S("MVR_COMMIT"), FileName |-> S(Clip(c.fname)), Comment |-> S(Clip(c.comment)), FileSize |-> N(c.size), FileUUID |-> S(UuidText(c.file)), StationUUID |-> S(UuidText(c.st)),
                    verMajor |-> N(c.maj), verMinor |-> N(c.min), ForStationsUUID |-> A([k \in 1..Len(c.for) |-> S(UuidText(c.for[k]))])])
JoinJson(m) == [Type |-> S("MVR_" \o m.t), Provider |-> S(Clip(m.prov)), StationName |-> S(Clip(m.name)), StationUUID |-> S(UuidText(m.st)), verMajor |-> N(m.maj), verMinor |-> N(m.min),
                Commits |-> A([k \in 1..Len(m.commits) |-> CommitJson(m.commits[k])])]
Ret(m) == [Type |-> S("MVR_" \o m.t), OK |-> B(m.ok), Message |-> S(Clip(m.err))]
IsFile(m) == m.t = "REQUEST_RET" /\ m.ok = "true"
Encode(m) == CASE m.t = "JOIN" -> O(JoinJson(m))
               [] m.t = "JOIN_RET" -> O(JoinJson(m) @@ [OK |-> B(m.ok), Message |-> S(Clip(m.err))])
               [] m.t \in {"LEAVE_RET", "COMMIT_RET", "REQUEST_RET"} -> O(Ret(m))
               [] m.t = "LEAVE" -> O([Type |-> S("MVR_LEAVE"), FromStationUUID |-> S(UuidText(m.st))])
               [] m.t = "COMMIT" -> CommitJson(m)
               [] m.t = "REQUEST" -> O([Type |-> S("MVR_REQUEST"), FileUUID |-> S(UuidText(m.file)), FromStationUUID |-> A([k \in 1..Len(m.from) |-> S(UuidText(m.from[k]))])])
               [] OTHER -> O([Type |-> S("MVR_UNDEFINED"), OK |-> B("false"), Message |-> S(Clip(m.err))])

\* ---- reading: [t, ok] and, when it is understood, the fields of its kind
Bad(t) == [t |-> t, ok |-> "false"]
Is(o, k, kind) == k \in DOMAIN o /\ kind \in DOMAIN o[k]
IsText(o, k) == Is(o, k, "s")
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsDigits(s) == s # "" /\ \A k \in 1..Len(s) : SubSeq(s, k, k) \in Digits
IsNum(o, k) == Is(o, k, "n")
IsLaxNum(o, k) == IsNum(o, k) \/ (IsText(o, k) /\ IsDigits(o[k].s))
LaxNum(o, k) == IF "n" \in DOMAIN o[k] THEN o[k].n ELSE o[k].s
IsLaxBool(o, k) == Is(o, k, "b") \/ IsText(o, k)
LaxBool(o, k) == IF "b" \in DOMAIN o[k] THEN o[k].b ELSE IF o[k].s = "true" THEN "true" ELSE "false"
IsId(o, k) == IsText(o, k) /\ IsUuid(o[k].s)
Id(o, k) == IF IsUuid(o[k].s) THEN UuidBack(o[k].s) ELSE Zero
Texts(o, k) == Is(o, k, "a") /\ \A j \in 1..Len(o[k].a) : "s" \in DOMAIN o[k].a[j]
Ids(o, k) == LET g == SelectSeq(o[k].a, LAMBDA v : IsUuid(v.s)) IN [j \in 1..Len(g) |-> UuidBack(g[j].s)]
CommitOk(v) == "o" \in DOMAIN v /\ LET o == v.o IN IsText(o, "Comment") /\ IsText(o, "FileName") /\ IsNum(o, "verMajor") /\ IsNum(o, "verMinor") /\ IsNum(o, "FileSize") /\ IsText(o, "FileUUID") /\ IsText(o, "StationUUID") /\ Texts(o, "ForStationsUUID")
CommitRead(v) == LET o == v.o IN [fname |-> Clip(o.FileName.s), comment |-> Clip(o.Comment.s), maj |-> o.verMajor.n, min |-> o.verMinor.n, size |-> o.FileSize.n, file |-> Id(o, "FileUUID"), st |-> Id(o, "StationUUID"), for |-> Ids(o, "ForStationsUUID")]
JoinOk(o) == IsLaxNum(o, "verMajor") /\ IsLaxNum(o, "verMinor") /\ IsText(o, "Provider") /\ IsText(o, "StationName") /\ IsId(o, "StationUUID") /\ Is(o, "Commits", "a") /\ \A k \in 1..Len(o.Commits.a) : CommitOk(o.Commits.a[k])
JoinRead(o, t, ok, err) == [t |-> t, ok |-> ok, err |-> err, prov |-> Clip(o.Provider.s), name |-> Clip(o.StationName.s), st |-> Id(o, "StationUUID"), maj |-> LaxNum(o, "verMajor"), min |-> LaxNum(o, "verMinor"),
                            commits |-> [k \in 1..Len(o.Commits.a) |-> CommitRead(o.Commits.a[k])]]
RetOk(o) == IsLaxBool(o, "OK") /\ IsText(o, "Message")
LeaveKey(o) == IF "FromStationUUID" \in DOMAIN o THEN "FromStationUUID" ELSE "StationUUID"
Names == {"MVR_" \o k : k \in Kinds}
KindOf(s) == CHOOSE k \in Kinds : "MVR_" \o k = s
DecodeJson(v) ==
  IF "o" \notin DOMAIN v \/ ~IsText(v.o, "Type") \/ v.o.Type.s \notin Names THEN Bad("UNDEFINED")
  ELSE LET o == v.o  t == KindOf(o.Type.s) IN
  CASE t = "JOIN" -> IF JoinOk(o) THEN JoinRead(o, t, "true", "") ELSE Bad(t)
    [] t = "JOIN_RET" -> IF JoinOk(o) /\ RetOk(o) THEN JoinRead(o, t, LaxBool(o, "OK"), Clip(o.Message.s)) ELSE Bad(t)
    [] t \in {"LEAVE_RET", "COMMIT_RET"} -> IF RetOk(o) THEN [t |-> t, ok |-> LaxBool(o, "OK"), err |-> Clip(o.Message.s)] ELSE Bad(t)
    [] t = "REQUEST_RET" -> IF RetOk(o) THEN [t |-> t, ok |-> LaxBool(o, "OK"), err |-> Clip(o.Message.s), buf |-> "none"] ELSE Bad(t)
    [] t = "LEAVE" -> IF LeaveKey(o) \notin DOMAIN o THEN [t |-> t, ok |-> "true", err |-> "", st |-> Zero] ELSE IF IsId(o, LeaveKey(o)) THEN [t |-> t, ok |-> "true", err |-> "", st |-> Id(o, LeaveKey(o))] ELSE Bad(t)
    [] t = "COMMIT" -> IF CommitOk(v) THEN CommitRead(v) @@ [t |-> t, ok |-> "true", err |-> ""] ELSE Bad(t)
    [] OTHER -> IF IsId(o, "FileUUID") /\ Texts(o, "FromStationUUID") THEN [t |-> t, ok |-> "true", err |-> "", file |-> Id(o, "FileUUID"), from |-> Ids(o, "FromStationUUID")] ELSE Bad(t)
\* a package: header fields, and a JSON value or an opaque buffer (its token "LEN:CRC"); text that is no JSON is [bad |-> "..."]
Empty == "0:00000000"
Decode(p) == IF p.flag # Flag THEN Bad("UNDEFINED")
             ELSE CASE p.type = "0" -> IF "json" \in DOMAIN p THEN DecodeJson(p.json) ELSE Bad("UNDEFINED")
                    [] p.type = "1" -> IF p.buf = Empty THEN Bad("UNDEFINED") ELSE [t |-> "REQUEST_RET", ok |-> "true", err |-> "", buf |-> p.buf]
                    [] OTHER -> Bad("UNDEFINED")
\* the package a message is sent as; buf is the token of the file it carries
Package(m) == IF IsFile(m) THEN [flag |-> Flag, type |-> "1", buf |-> m.buf] ELSE [flag |-> Flag, type |-> "0", json |-> Encode(m)]
\* what the receiver of a sent message is shown
Canon(m) == CASE m.t = "JOIN" -> [t |-> m.t, ok |-> "true", err |-> "", prov |-> Clip(m.prov), name |-> Clip(m.name), st |-> m.st, maj |-> m.maj, min |-> m.min, commits |-> [k \in 1..Len(m.commits) |-> ClipCommit(m.commits[k])]]
              [] m.t = "JOIN_RET" -> [t |-> m.t, ok |-> m.ok, err |-> Clip(m.err), prov |-> Clip(m.prov), name |-> Clip(m.name), st |-> m.st, maj |-> m.maj, min |-> m.min, commits |-> [k \in 1..Len(m.commits) |-> ClipCommit(m.commits[k])]]
              [] m.t \in {"LEAVE_RET", "COMMIT_RET"} -> [t |-> m.t, ok |-> m.ok, err |-> Clip(m.err)]
              [] m.t = "REQUEST_RET" -> IF m.ok = "true" THEN IF m.buf = Empty THEN Bad("UNDEFINED") ELSE [t |-> m.t, ok |-> "true", err |-> "", buf |-> m.buf] ELSE [t |-> m.t, ok |-> "false", err |-> Clip(m.err), buf |-> "none"]
              [] m.t = "LEAVE" -> [t |-> m.t, ok |-> "true", err |-> "", st |-> m.st]
              [] m.t = "COMMIT" -> [t |-> m.t, ok |-> "true", err |-> "", fname |-> Clip(m.fname), comment |-> Clip(m.comment), maj |-> m.maj, min |-> m.min, size |-> m.size, file |-> m.file, st |-> m.st, for |-> m.for]
              [] m.t = "REQUEST" -> [t |-> m.t, ok |-> "true", err |-> "", file |-> m.file, from |-> m.from]
              [] OTHER -> Bad("UNDEFINED")
\* an observed message shows an expected one: all its fields, or only kind and failure when it was not understood
Shown(exp, obs) == IF DOMAIN exp = {"t", "ok"} THEN obs.t = exp.t /\ obs.ok = "false" /\ obs.err # "" ELSE \A f \in DOMAIN exp : f \in DOMAIN obs /\ obs[f] = exp[f]
\* the answer of the harness's callback: it says which message it answers; file is the token of the file of that identifier
Reply(m, file) == CASE m.t = "LEAVE" -> [t |-> "LEAVE_RET", ok |-> "true", err |-> IF m.ok = "true" THEN m.st ELSE "bad"]
              [] m.t = "COMMIT" -> [t |-> "COMMIT_RET", ok |-> "false", err |-> IF m.ok = "true" THEN m.file ELSE "bad"]
              [] m.t = "REQUEST" -> IF m.ok = "true" THEN [t |-> "REQUEST_RET", ok |-> "true", err |-> "", buf |-> file] ELSE [t |-> "REQUEST_RET", ok |-> "false", err |-> "bad"]
              [] OTHER -> [t |-> "UNDEFINED", err |-> ""]
=============================================================================
