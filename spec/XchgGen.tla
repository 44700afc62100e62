------------------------------ MODULE XchgGen ------------------------------
(* Random messages, and packages derived from them by everything another program may do differently or wrong. *)
EXTENDS Xchg, Json, SequencesExt
CONSTANT Count
VARIABLE n
Rnd(k) == RandomElement(0..(k - 1))
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE RHex(_)
RHex(k) == IF k = 0 THEN "" ELSE RandomElement({Hex[j] : j \in 1..16}) \o RHex(k - 1)
Uuids == {"00000001000000020000000300000004", "ffffffff0000000000000000ffffffff", "0123456789abcdef0123456789abcdef", Zero}
Uuid(k) == IF k = 0 THEN RandomElement(Uuids) ELSE RHex(32)
Texts0 == {"", "a", "Station 1", "quote\"back\\slash", "{\"Type\":1}", "a,b;c", "~", "line", " lead", Rep("x", 1022), Rep("y", 1023), Rep("z", 1024), Rep("w", 1500)}
Txt(k) == RandomElement(Texts0)
Nums == {"0", "1", "5", "255", "65536", "2147483648", "4294967295"}
Sizes == Nums \cup {"4294967296", "12312313556", "9007199254740993", "18446744073709551615"}
Num(k) == RandomElement(Nums)
UuidSeq(m) == [k \in 1..m |-> Uuid(Rnd(2))]
Commit(k) == [fname |-> Txt(0), comment |-> Txt(0), maj |-> Num(0), min |-> Num(0), size |-> RandomElement(Sizes), file |-> Uuid(Rnd(2)), st |-> Uuid(Rnd(2)), for |-> TLCEval(UuidSeq(Rnd(4)))]
Bufs == {Empty, "1:x1", "28:x2", "100:x3", "5120:x4", "65537:x5"}                 \* the harness fills in contents and tokens
Msg(t) == CASE t \in {"JOIN", "JOIN_RET"} -> [t |-> t, ok |-> RandomElement({"true", "false"}), err |-> Txt(0), prov |-> Txt(0), name |-> Txt(0), st |-> Uuid(Rnd(2)), maj |-> Num(0), min |-> Num(0), commits |-> TLCEval([k \in 1..Rnd(4) |-> Commit(k)])]
            [] t = "LEAVE" -> [t |-> t, st |-> Uuid(Rnd(2))]
            [] t = "COMMIT" -> Commit(0) @@ [t |-> t]
            [] t = "REQUEST" -> [t |-> t, file |-> Uuid(Rnd(2)), from |-> TLCEval(UuidSeq(Rnd(4)))]
            [] t = "REQUEST_RET" -> [t |-> t, ok |-> RandomElement({"true", "false"}), err |-> Txt(0), buf |-> RandomElement(Bufs)]
            [] t \in {"LEAVE_RET", "COMMIT_RET"} -> [t |-> t, ok |-> RandomElement({"true", "false"}), err |-> Txt(0)]
            [] OTHER -> [t |-> t, err |-> Txt(0)]
RandMsg == CHOOSE m \in {Msg(RandomElement(Kinds \cup {"UNDEFINED", "NEW_SESSION_HOST"}))} : n = n
\* ---- mutations of an object
Drop(o, k) == [x \in DOMAIN o \ {k} |-> o[x]]
Put(o, k, v) == [x \in DOMAIN o \cup {k} |-> IF x = k THEN v ELSE o[x]]
BadIds == {"", "none", "0000000-0000-0000-0000-000000000000", "000000000-0000-0000-0000-000000000000", "{}"}
Other(v) == CASE "n" \in DOMAIN v -> RandomElement({S(v.n), S("x1"), [z |-> "null"], A(<<>>)})
              [] "b" \in DOMAIN v -> RandomElement({S("true"), S("false"), S("yes"), N("1"), [z |-> "null"]})
              [] "a" \in DOMAIN v -> RandomElement({N("7"), A(<<N("1")>>), A(<<S("not an id")>>), A(v.a \o <<S("short")>>), A(<<O([Type |-> S("MVR_COMMIT")])>> \o v.a)})
              [] "s" \in DOMAIN v -> IF IsUuid(v.s) THEN RandomElement({S(Map1(Lower, v.s)), S(Map1(Lower, v.s)), N("5"), [z |-> "null"]} \cup {S(x) : x \in BadIds})
                                     ELSE RandomElement({N("5"), [z |-> "null"], A(<<>>), B("true"), S(Rep("q", 1500)), S("other")})
              [] OTHER -> v
\* a commit's own identifiers stay readable: what an unreadable one means there is not defined
Mutable(o) == {k \in DOMAIN o : ~("Comment" \in DOMAIN o /\ k \in {"FileUUID", "StationUUID"})}
\* a text in the place of a list, or a truth value in the place of a number: how these are read is not defined
Lists == {"Commits", "ForStationsUUID", "FromStationUUID"}
Numbers == {"verMajor", "verMinor", "FileSize"}
Mutate1(o) == IF Mutable(o) = {} THEN o
              ELSE LET k == RandomElement(Mutable(o)) IN
                   CASE Rnd(4) = 0 -> Drop(o, k)
                     [] Rnd(4) = 0 -> Put(o, "Extra" \o ToString(Rnd(9)), RandomElement({N("1"), S("x"), A(<<>>), O([a |-> N("1")])}))
                     [] Rnd(6) = 0 /\ "FromStationUUID" \in DOMAIN o /\ "s" \in DOMAIN o.FromStationUUID -> Put(Drop(o, "FromStationUUID"), "StationUUID", o.FromStationUUID)
                     [] Rnd(6) = 0 -> Put(o, "Type", RandomElement({S("MVR_NOTHING"), S(""), N("3"), S("MVR_UNDEFINED"), S("mvr_join"), [z |-> "null"]} \cup {S(x) : x \in Names}))
                     [] OTHER -> IF (k \in Lists /\ "a" \notin DOMAIN o[k] /\ "FileUUID" \in DOMAIN o) \/ (k \in Numbers /\ "n" \notin DOMAIN o[k]) THEN o ELSE Put(o, k, Other(o[k]))
Mutate(v) == IF "Commits" \in DOMAIN v.o /\ "a" \in DOMAIN v.o.Commits /\ v.o.Commits.a # <<>> /\ Rnd(2) = 0
             THEN LET k == RandomElement(1..Len(v.o.Commits.a)) IN O(Put(v.o, "Commits", A([v.o.Commits.a EXCEPT ![k] = IF "o" \in DOMAIN @ THEN O(Mutate1(@.o)) ELSE @])))
             ELSE O(Mutate1(v.o))
Texts1 == {"", "{", "nothing", "[1,2]", "null", "5", "\"text\"", "{} x", "{\"Type\":}", "#bytes"}
\* (operators that draw at random depend on the state: TLC evaluates constant definitions only once)
Twice(e) == Mutate(e)
Spoil1(d) == CASE Rnd(4) = 0 -> d [] Rnd(4) # 0 -> Mutate(d) [] OTHER -> Twice(Mutate(d))
Spoil(d, k) == CHOOSE x \in {Spoil1(v) : v \in {d}} : k = k
RandPackage == CASE Rnd(10) = 0 -> [flag |-> Flag, type |-> "0", bad |-> RandomElement(Texts1)]
                 [] Rnd(12) = 0 -> [flag |-> Flag, type |-> RandomElement({"1", "1", "2", "4294967295"}), buf |-> RandomElement(Bufs)]
                 [] Rnd(12) = 0 -> [flag |-> RandomElement({"0", "778683", "3921087232", "4294967295"}), type |-> "0", json |-> Encode(Msg("LEAVE"))]
                 [] OTHER -> [flag |-> Flag, type |-> "0", json |-> Spoil(Encode(Msg(RandomElement(Kinds))), n)]
GInit == n = 0
GNext == n < Count /\ n' = n + 1 /\ (\E m \in {RandMsg} : PrintT("@@" \o ToJson([k |-> "enc", msg |-> m]))) /\ (\E p \in {RandPackage} : PrintT("@@" \o ToJson([k |-> "dec", packet |-> p])))
=============================================================================
