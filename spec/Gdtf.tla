-------------------------------- MODULE Gdtf --------------------------------
(* State and transitions of the GDTF fixture API (IGdtfFixture and the interfaces it hands out) over the   *)
(* schema of GdtfSchema: what an application has described, what the reader of the saved fixture is shown. *)
EXTENDS GdtfSchema, Integers

\* ---------------------------------------------------------------- the schema as tables
Classes == GeoClasses \cup {"Fixture", "ActivationGroup", "FeatureGroup", "Feature", "Attribute", "SubPhysicalUnit", "Wheel", "WheelSlot", "PrismFacet", "AnimationSystem", "Model", "Break",
  "Protocol", "PinPatch", "DMXMode", "DMXChannel", "LogicalChannel", "ChannelFunction", "ChannelSet", "SubChannelSet", "Relation", "FTMacro", "MacroDMX", "MacroDMXStep", "MacroDMXValue",
  "MacroVisual", "MacroVisualStep", "MacroVisualValue", "Revision", "Emitter", "Filter", "Measurement", "FilterMeasurement", "MeasurementPoint", "ColorSpace", "AdditionalColorSpace", "Gamut",
  "DMXProfile", "Point", "CRIGroup", "CRI", "Connector", "FTRDM", "SoftwareVersionID", "DMXPersonality", "Art-Net", "sACN", "Map"}
RowT == [c \in Classes |-> Rows(c)]
RefT == [c \in Classes |-> Refs(c)]
NumT == [c \in Classes |-> Nums(c)]
KidT == [c \in Classes |-> Kids(c)]
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE IF \E i \in 1..(Len(s) - 1) : s[i] = s[Len(s)] THEN Dedup(SubSeq(s, 1, Len(s) - 1)) ELSE Append(Dedup(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
ColT == [c \in Classes |-> Dedup([i \in 1..Len(KidT[c]) |-> KidT[c][i].k])]
ColOrder(c) == ColT[c]
KidOf(c, kc) == KidT[c][CHOOSE i \in 1..Len(KidT[c]) : KidT[c][i].c = kc]

\* ---------------------------------------------------------------- nodes
None == "!"
White == "0.31273,0.32902,100"      \* the colour of a colour space that has not been given one
UnitOf(type) == CASE type = "0" -> "7" [] type = "4" -> "4" [] OTHER -> "1"
InitF(c, a) == LET rows == RowT[c] IN
  [g \in {rows[i].g : i \in 1..Len(rows)} |->
     LET w == rows[CHOOSE i \in 1..Len(rows) : rows[i].g = g] IN
     CASE w.i = "$1" -> a[1] [] w.i = "$2" -> a[2] [] w.i = "$3" -> a[3] [] w.i = "$4" -> a[4] [] w.i = "$5" -> a[5] [] w.i = "$6" -> a[6] [] w.i = "$7" -> a[7]
       [] w.i = "*" -> IF c = "SubPhysicalUnit" THEN UnitOf(a[1]) ELSE White
       [] OTHER -> w.i]
InitR(c, q) == [g \in {RefT[c][i].g : i \in 1..Len(RefT[c])} |-> LET w == RefT[c][CHOOSE i \in 1..Len(RefT[c]) : RefT[c][i].g = g] IN IF w.k = 0 THEN 0 ELSE q[w.k]]
               @@ (IF c = "ChannelFunction" THEN [ModeMaster |-> 0] ELSE <<>>)
InitD(c, q) == [g \in {NumT[c][i].g : i \in 1..Len(NumT[c])} |-> LET w == NumT[c][CHOOSE i \in 1..Len(NumT[c]) : NumT[c][i].g = g] IN IF w.k = 0 THEN w.i ELSE q[w.k]]
               @@ (IF c = "ChannelFunction" THEN [ModeFrom |-> 0, ModeTo |-> 0] ELSE <<>>)
\* x: points of a gamut, or the marks of a node
Mk(c, k, p, a, q) == [c |-> c, k |-> k, p |-> p, f |-> InitF(c, a), r |-> InitR(c, q), d |-> InitD(c, q), x |-> IF c = "Gamut" THEN <<a[2]>> ELSE <<>>]
Init0(name, manu, uid) == <<[Mk("Fixture", "root", 0, <<>>, <<>>) EXCEPT !.f = [@ EXCEPT !.Name = name, !.Manufacturer = manu, !.FixtureGUID = uid]]>>
                         \o <<Mk("ColorSpace", "ColorSpace", 1, <<>>, <<>>)>>

Idx(ns) == 1..Len(ns)
OfClass(ns, c) == {i \in Idx(ns) : ns[i].c = c}
KidsC(ns, i, c) == SelectSeq([j \in Idx(ns) |-> j], LAMBDA j: ns[j].p = i /\ ns[j].c = c)
RECURSIVE Up(_, _, _)
Up(ns, i, c) == IF i = 0 \/ ns[i].c = c THEN i ELSE Up(ns, ns[i].p, c)     \* nearest ancestor (or self) of class c, 0 if none

\* ---------------------------------------------------------------- DMX numbers: 2147483647 stands for 4294967295
Top == 2147483647
NumText(n) == IF n = Top THEN "4294967295" ELSE ToString(n)
ChanBytes(n) == CASE n.d.Coarse = 0 -> 2 [] n.d.Fine = 0 -> 1 [] n.d.Ultra = 0 -> 2 [] n.d.Uber = 0 -> 3 [] OTHER -> 4
MaxOf(b) == CASE b = 1 -> 255 [] b = 2 -> 65535 [] b = 3 -> 16777215 [] OTHER -> Top
BytesAt(ns, i) == ChanBytes(ns[Up(ns, i, "DMXChannel")])
MaxAt(ns, i) == MaxOf(BytesAt(ns, i))
\* the next function in the chain: within its logical channel for a writer; for a reader the chain goes on with the next logical channel of the channel
NextFunc(ns, i, read) ==
  LET l == ns[i].p  fs == KidsC(ns, l, "ChannelFunction")  k == PosIn(fs, i) IN
  IF k < Len(fs) THEN fs[k + 1]
  ELSE IF ~read THEN 0
  ELSE LET ls == KidsC(ns, ns[l].p, "LogicalChannel")  n == PosIn(ls, l) IN
       IF n = Len(ls) THEN 0 ELSE LET gs == KidsC(ns, ls[n + 1], "ChannelFunction") IN IF gs = <<>> THEN 0 ELSE gs[1]
FuncEnd(ns, i, read) == LET n == NextFunc(ns, i, read) IN
  IF n # 0 /\ ns[n].d.StartAddress > ns[i].d.StartAddress THEN ns[n].d.StartAddress - 1 ELSE MaxAt(ns, i)

\* ---------------------------------------------------------------- the API transitions
\* op = [m: method, on: node, a: arguments as texts, q: referenced nodes and DMX numbers (0 elsewhere), c: class that is created ("" none)]
Has(T, c, m) == \E i \in 1..Len(T[c]) : T[c][i].s = m
RowBy(T, c, m) == T[c][CHOOSE i \in 1..Len(T[c]) : T[c][i].s = m]
Res(ns, ret) == [n |-> ns, ret |-> ret]
SetF(ns, i, g, v) == [ns EXCEPT ![i].f = [@ EXCEPT ![g] = v]]
SetR(ns, i, g, v) == [ns EXCEPT ![i].r = [@ EXCEPT ![g] = v]]
SetD(ns, i, g, v) == [ns EXCEPT ![i].d = [@ EXCEPT ![g] = v]]
Mark(ns, i, x) == IF x \in {ns[i].x[j] : j \in 1..Len(ns[i].x)} THEN ns ELSE [ns EXCEPT ![i].x = Append(@, x)]
Apply(ns, op) ==
  LET n == ns[op.on] IN
  CASE op.c = "SubChannelSet" -> LET unit == ns[op.q[2]].f IN      \* takes over the range of the unit
         Res(Append(ns, [Mk(op.c, "DmxSubChannelSet", op.on, op.a, op.q) EXCEPT !.f = [@ EXCEPT !.PhysicalFrom = unit.PhysicalFrom, !.PhysicalTo = unit.PhysicalTo]]), Len(ns) + 1)
    [] op.c # "" -> Res(Append(ns, Mk(op.c, KidOf(n.c, op.c).k, op.on, op.a, op.q)), Len(ns) + 1)
    [] op.m = "CreatePoint" /\ n.c = "Gamut" -> Res([ns EXCEPT ![op.on].x = Append(@, op.a[1])], 0)
    [] op.m \in {"SetModeMasterChannel", "SetModeMasterFunction"} ->
         Res([ns EXCEPT ![op.on].r = [@ EXCEPT !.ModeMaster = op.q[1]], ![op.on].d = [@ EXCEPT !.ModeFrom = op.q[2], !.ModeTo = op.q[3]]], 0)
    [] op.m \in {"SetPhysicalStart", "SetPhysicalEnd"} /\ n.c = "ChannelSet" -> Res(Mark(SetF(ns, op.on, RowBy(RowT, n.c, op.m).g, op.a[1]), op.on, "phys"), 0)
    [] n.c = "SubPhysicalUnit" /\ op.m = "SetType" -> Res(SetF(SetF(ns, op.on, "Type", op.a[1]), op.on, "PhysicalUnit", UnitOf(op.a[1])), 0)
    [] Has(RowT, n.c, op.m) -> Res(SetF(ns, op.on, RowBy(RowT, n.c, op.m).g, op.a[1]), 0)
    [] Has(RefT, n.c, op.m) -> Res(SetR(ns, op.on, RowBy(RefT, n.c, op.m).g, op.q[1]), 0)
    [] Has(NumT, n.c, op.m) -> Res(SetD(ns, op.on, RowBy(NumT, n.c, op.m).g, op.q[1]), 0)

\* ---------------------------------------------------------------- names and references
AttrName(ns, i) == IF ns[i].r.Attribute = 0 THEN "" ELSE ns[ns[i].r.Attribute].f.Name
LogName(ns, i) == AttrName(ns, i)
ChanName(ns, i) == LET ls == KidsC(ns, i, "LogicalChannel") IN
  (IF ns[i].r.Geometry = 0 THEN "" ELSE ns[ns[i].r.Geometry].f.Name) \o "_" \o (IF ls = <<>> THEN "" ELSE AttrName(ns, ls[1]))
\* a function without a name is known by its attribute and its place
FuncName(ns, i) == IF ns[i].f.Name # "" THEN ns[i].f.Name
                   ELSE (IF ns[i].r.Attribute = 0 THEN "NoFeature" ELSE AttrName(ns, i)) \o " " \o ToString(PosIn(KidsC(ns, ns[i].p, "ChannelFunction"), i))
RefText(ns, i) ==
  CASE ns[i].c = "DMXChannel" -> ChanName(ns, i)
    [] ns[i].c = "LogicalChannel" -> ChanName(ns, ns[i].p) \o "." \o LogName(ns, i)
    [] ns[i].c = "ChannelFunction" -> ChanName(ns, ns[ns[i].p].p) \o "." \o LogName(ns, ns[i].p) \o "." \o FuncName(ns, i)
    [] ns[i].c = "Feature" -> ns[ns[i].p].f.Name \o "." \o ns[i].f.Name
    [] ns[i].c = "SubPhysicalUnit" -> Enums["SubPhysicalUnit"][CHOOSE k \in 1..Len(Enums["SubPhysicalUnit"]) : ToString(k - 1) = ns[i].f.Type]
    [] OTHER -> ns[i].f.Name

\* ---------------------------------------------------------------- well-formed fixtures: those the format can express
NamesOf(ns, S) == {ns[i].f.Name : i \in S}
TopGeo(ns, i) == ns[i].c \in GeoClasses /\ ns[i].p = 1
RECURSIVE Top1(_, _)
Top1(ns, i) == IF ns[i].p <= 1 THEN i ELSE Top1(ns, ns[i].p)           \* the child of the fixture that contains i
SetsOf(ns, i) == KidsC(ns, i, "ChannelSet")
NamedProfile(ns, i) == ns[i].r.DMXProfile # 0 => ns[ns[i].r.DMXProfile].f.Name # ""
Regular(ns) ==
  \A i \in Idx(ns) :
    CASE ns[i].c = "DMXChannel" ->
           /\ (ns[i].d.Fine > 0 => ns[i].d.Coarse > 0) /\ (ns[i].d.Ultra > 0 => ns[i].d.Fine > 0) /\ (ns[i].d.Uber > 0 => ns[i].d.Ultra > 0)
           /\ ns[i].r.Geometry # 0 /\ ns[i].d.Highlight <= MaxOf(ChanBytes(ns[i]))
           /\ ns[i].r.InitialFunction # 0 => Up(ns, ns[i].r.InitialFunction, "DMXChannel") = i
      [] ns[i].c = "LogicalChannel" ->
           /\ ns[i].r.Attribute # 0
           \* a geometry has one logical channel per attribute in a mode
           /\ \A j \in OfClass(ns, "LogicalChannel") : j < i /\ ns[ns[j].p].p = ns[ns[i].p].p /\ ns[j].r.Attribute = ns[i].r.Attribute
                => ns[ns[j].p].r.Geometry # ns[ns[i].p].r.Geometry
           /\ LET fs == KidsC(ns, i, "ChannelFunction") IN
              /\ fs # <<>> => ns[fs[1]].d.StartAddress = 0
              /\ \A a, b \in 1..Len(fs) : a < b => FuncName(ns, fs[a]) # FuncName(ns, fs[b])
      [] ns[i].c = "ChannelFunction" ->
           /\ NamedProfile(ns, i)
           /\ ns[i].d.StartAddress <= MaxAt(ns, i) /\ ns[i].d.DefaultValue <= MaxAt(ns, i)
           /\ ns[i].r.ModeMaster # 0 => /\ ns[i].d.ModeFrom <= MaxAt(ns, ns[i].r.ModeMaster) /\ ns[i].d.ModeTo <= MaxAt(ns, ns[i].r.ModeMaster)
                                        /\ Up(ns, i, "DMXMode") = Up(ns, ns[i].r.ModeMaster, "DMXMode")
                                        /\ ns[ns[i].r.ModeMaster].c = "DMXChannel" => KidsC(ns, ns[i].r.ModeMaster, "LogicalChannel") # <<>>
           /\ LET ss == SetsOf(ns, i) IN
              \A a \in 1..Len(ss) : /\ ns[ss[a]].d.DmxStartAddress >= ns[i].d.StartAddress /\ ns[ss[a]].d.DmxStartAddress <= ns[ss[a]].d.DmxEndAddress
                                    /\ ns[ss[a]].d.DmxEndAddress <= FuncEnd(ns, i, FALSE) /\ ns[ss[a]].d.DmxEndAddress <= FuncEnd(ns, i, TRUE)
                                    /\ \A b \in 1..Len(ss) : a # b => \/ ns[ss[a]].d.DmxEndAddress < ns[ss[b]].d.DmxStartAddress
                                                                      \/ ns[ss[b]].d.DmxEndAddress < ns[ss[a]].d.DmxStartAddress
      [] ns[i].c = "SubChannelSet" -> NamedProfile(ns, i) /\ LET u == ns[i].r.SubPhysicalUnit IN u # 0 => ns[u].p = ns[ns[i].p].r.Attribute
      [] ns[i].c = "SubPhysicalUnit" -> \A j \in OfClass(ns, "SubPhysicalUnit") : j < i /\ ns[j].p = ns[i].p => ns[j].f.Type # ns[i].f.Type
      [] ns[i].c = "DMXMode" -> ns[i].r.Geometry # 0 => TopGeo(ns, ns[i].r.Geometry)
      \* references lead to other top-level geometries, and never in a circle
      [] ns[i].c = "GeometryReference" -> ns[i].r.GeometryReference # 0 => TopGeo(ns, ns[i].r.GeometryReference) /\ ns[i].r.GeometryReference < Top1(ns, i)
      [] ns[i].c = "Relation" -> /\ Up(ns, ns[i].r.MasterChannel, "DMXMode") = ns[i].p /\ Up(ns, ns[i].r.SlaveChannel, "DMXMode") = ns[i].p
                                 /\ ns[i].r.MasterChannel # 0 /\ ns[i].r.SlaveChannel # 0 /\ KidsC(ns, ns[i].r.MasterChannel, "LogicalChannel") # <<>>
      [] ns[i].c = "FTMacro" -> ns[i].r.ChannelFunction # 0 => Up(ns, ns[i].r.ChannelFunction, "DMXMode") = ns[i].p
      [] ns[i].c = "MacroDMXValue" -> LET t == ns[i].r.DmxChannel IN /\ t # 0 => /\ Up(ns, t, "DMXMode") = Up(ns, i, "DMXMode") /\ KidsC(ns, t, "LogicalChannel") # <<>>
                                                                                 /\ ns[i].d.DmxValue <= MaxAt(ns, t)
                                                                     /\ t = 0 => ns[i].d.DmxValue = 0
      [] ns[i].c = "MacroVisualValue" -> LET t == ns[i].r.DmxChannel IN /\ t # 0 /\ Up(ns, t, "DMXMode") = Up(ns, i, "DMXMode") /\ ns[i].d.DmxValue <= MaxAt(ns, t)
      [] ns[i].c = "DMXPersonality" -> ns[i].r.DmxMode # 0
      [] ns[i].c = "PinPatch" -> ns[i].r.LinkedWiringObject # 0
      [] OTHER -> TRUE

\* ---------------------------------------------------------------- what saving and loading make of a fixture
\* insert node nd so that it becomes number k + 1: everything behind moves up
Shift(k, x) == IF x > k THEN x + 1 ELSE x
Insert(ns, k, nd) ==
  LET F(n) == [n EXCEPT !.p = Shift(k, @), !.r = [g \in DOMAIN @ |-> Shift(k, @[g])]]
  IN  [i \in 1..(Len(ns) + 1) |-> IF i <= k THEN F(ns[i]) ELSE IF i = k + 1 THEN nd ELSE F(ns[i - 1])]
\* the ranges of a function that no channel set covers are filled with nameless sets
Filled(ns, i) ==
  LET ss == SortSeq(SetsOf(ns, i), LAMBDA a, b: ns[a].d.DmxStartAddress < ns[b].d.DmxStartAddress)
      Fill(from, to) == Mk("ChannelSet", "DmxChannelSet", i, <<"", "", "">>, <<0, from, to>>)
      Part(k) == (IF k = 1 THEN (IF ns[ss[1]].d.DmxStartAddress > ns[i].d.StartAddress THEN <<Fill(ns[i].d.StartAddress, ns[ss[1]].d.DmxStartAddress - 1)>> ELSE <<>>)
                  ELSE IF ns[ss[k]].d.DmxStartAddress - ns[ss[k - 1]].d.DmxEndAddress > 1 THEN <<Fill(ns[ss[k - 1]].d.DmxEndAddress + 1, ns[ss[k]].d.DmxStartAddress - 1)>> ELSE <<>>)
                 \o <<ns[ss[k]]>>
      last == IF ss # <<>> /\ ns[ss[Len(ss)]].d.DmxEndAddress < FuncEnd(ns, i, FALSE) THEN <<Fill(ns[ss[Len(ss)]].d.DmxEndAddress + 1, FuncEnd(ns, i, FALSE))>> ELSE <<>>
  IN  FlattenSeq([k \in 1..Len(ss) |-> Part(k)]) \o last
\* nothing refers to channel sets, so they can be taken out and put back at the end of the sequence
WithoutSets(ns) ==
  LET keep == SelectSeq([j \in Idx(ns) |-> j], LAMBDA j: ns[j].c # "ChannelSet")
      R(x) == IF x = 0 THEN 0 ELSE PosIn(keep, x)
  IN  [n |-> [k \in 1..Len(keep) |-> [ns[keep[k]] EXCEPT !.p = R(@), !.r = [g \in DOMAIN @ |-> R(@[g])]]], at |-> keep]
FillSets(ns) ==
  LET w == WithoutSets(ns)
      sets == FlattenSeq([k \in 1..Len(w.n) |-> IF w.n[k].c = "ChannelFunction" THEN LET fl == Filled(ns, w.at[k]) IN [s \in 1..Len(fl) |-> [fl[s] EXCEPT !.p = k]] ELSE <<>>])
  IN  w.n \o sets
\* a function without attribute gets the attribute NoFeature of the feature Control.Control
NeedNoFeature(ns) == \E i \in Idx(ns) : ns[i].c = "ChannelFunction" /\ ns[i].r.Attribute = 0
AddNoFeature(ns) ==
  IF ~NeedNoFeature(ns) THEN ns
  ELSE LET g == Len(ns) + 1
           more == ns \o <<Mk("FeatureGroup", "FeatureGroup", 1, <<"Control", "Control">>, <<>>), Mk("Feature", "Feature", g, <<"Control">>, <<>>),
                           [Mk("Attribute", "Attribute", 1, <<"NoFeature", "NoFeature">>, <<>>) EXCEPT !.r = [@ EXCEPT !.Feature = g + 1]]>>
       IN  [i \in 1..Len(more) |-> IF more[i].c = "ChannelFunction" /\ more[i].r.Attribute = 0 THEN [more[i] EXCEPT !.r = [@ EXCEPT !.Attribute = g + 2]] ELSE more[i]]
Settle(ns) ==
  [i \in 1..Len(ns) |->
    CASE ns[i].c = "ChannelFunction" -> [ns[i] EXCEPT !.f = [@ EXCEPT !.Name = FuncName(ns, i)]]
      [] ns[i].c = "DMXChannel" /\ ns[i].r.InitialFunction = 0 ->
           LET ls == KidsC(ns, i, "LogicalChannel")  fs == IF ls = <<>> THEN <<>> ELSE KidsC(ns, ls[1], "ChannelFunction")
           IN  IF fs = <<>> THEN ns[i] ELSE [ns[i] EXCEPT !.r = [@ EXCEPT !.InitialFunction = fs[1]]]
      [] ns[i].c \in {"ColorSpace", "AdditionalColorSpace"} /\ ns[i].f.ColorSpace # "1" -> [ns[i] EXCEPT !.f = [@ EXCEPT !.Red = White, !.Green = White, !.Blue = White, !.White = White]]
      [] OTHER -> ns[i]]
\* the end of a range is not written: it is where the next range of the function starts
SetEnds(ns) ==
  [i \in 1..Len(ns) |-> IF ns[i].c # "ChannelSet" THEN ns[i]
     ELSE LET ss == SetsOf(ns, ns[i].p)  k == PosIn(ss, i)
          IN  [ns[i] EXCEPT !.d = [@ EXCEPT !.DmxEndAddress = IF k < Len(ss) THEN ns[ss[k + 1]].d.DmxStartAddress - 1 ELSE FuncEnd(ns, ns[i].p, TRUE)]]]
Restore(ns) == SetEnds(Settle(AddNoFeature(FillSets(ns))))

\* ---------------------------------------------------------------- the addresses a mode takes up
BrkNum == [t \in {"1", "2", "7", "640"} |-> CASE t = "1" -> 1 [] t = "2" -> 2 [] t = "7" -> 7 [] OTHER -> 640]
AddrNum == [t \in {"1", "2", "3", "512", "513", "4711"} |-> CASE t = "1" -> 1 [] t = "2" -> 2 [] t = "3" -> 3 [] t = "512" -> 512 [] t = "513" -> 513 [] OTHER -> 4711]
Overwrite == "0"
TreeOf(ns, g) == IF g = 0 THEN {} ELSE {j \in g..Len(ns) : ns[j].c \in GeoClasses /\ AncestorOrSelf(ns, g, j)}
RefsIn(ns, g) == {j \in TreeOf(ns, g) : ns[j].c = "GeometryReference"}
Link(ns, r) == ns[r].r.GeometryReference
BreaksOf(ns, r) == KidsC(ns, r, "Break")
RECURSIVE Reached(_, _)
Reached(ns, g) == LET rs == RefsIn(ns, g) IN rs \cup UNION {Reached(ns, Link(ns, r)) : r \in rs}
ChansOn(ns, m, tree) == {c \in OfClass(ns, "DMXChannel") : ns[c].p = m /\ ns[c].r.Geometry \in tree}
LastBreak(ns, r) == LET bs == BreaksOf(ns, r) IN ns[bs[Len(bs)]].f
\* channels that are overwritten take the last break of each reference that leads to their geometry
ModeBreaks(ns, m) ==
  {BrkNum[ns[c].f.DmxBreak] : c \in {c \in OfClass(ns, "DMXChannel") : ns[c].p = m /\ ns[c].f.DmxBreak # Overwrite}}
  \cup {BrkNum[LastBreak(ns, r).DmxBreak] : r \in {r \in Reached(ns, ns[m].r.Geometry) :
           BreaksOf(ns, r) # <<>> /\ \E c \in ChansOn(ns, m, TreeOf(ns, Link(ns, r))) : ns[c].f.DmxBreak = Overwrite}}
AddressesOf(ns, c, offset) == {n + offset : n \in {ns[c].d.Coarse, ns[c].d.Fine, ns[c].d.Ultra, ns[c].d.Uber} \ {0}}
\* the addresses of break b that the instance of a geometry placed by reference r takes up: the k-th break of the reference moves the k-th break the geometry uses
RefAddresses(ns, m, r, b) ==
  LET cs == ChansOn(ns, m, TreeOf(ns, Link(ns, r)))
      used == {BrkNum[ns[c].f.DmxBreak] : c \in {c \in cs : ns[c].f.DmxBreak # Overwrite}}
      k == Cardinality({u \in used : u <= b})
      bs == BreaksOf(ns, r)
      Own == IF b \in used /\ k <= Len(bs) THEN UNION {AddressesOf(ns, c, AddrNum[ns[bs[k]].f.DmxAddress] - 1) : c \in {c \in cs : ns[c].f.DmxBreak = ToString(b)}} ELSE {}
      Moved == IF bs # <<>> /\ LastBreak(ns, r).DmxBreak = ToString(b) THEN UNION {AddressesOf(ns, c, AddrNum[LastBreak(ns, r).DmxAddress] - 1) : c \in {c \in cs : ns[c].f.DmxBreak = Overwrite}} ELSE {}
  IN  Own \cup Moved
ModeAddresses(ns, m, b) ==
  LET g == ns[m].r.Geometry IN
  UNION {AddressesOf(ns, c, 0) : c \in {c \in ChansOn(ns, m, TreeOf(ns, g)) : ns[c].f.DmxBreak = ToString(b)}}
  \cup UNION {RefAddresses(ns, m, r, b) : r \in RefsIn(ns, g)}
Span(S) == IF S = {} THEN 0 ELSE (CHOOSE x \in S : \A y \in S : y <= x) - (CHOOSE x \in S : \A y \in S : x <= y) + 1
\* not said: where the addresses of references inside of referenced geometries are
Nested(ns, m) == \E r \in RefsIn(ns, ns[m].r.Geometry) : RefsIn(ns, Link(ns, r)) # {}
ShownMode(ns, m) ==
  LET bs == SetToSortSeq(ModeBreaks(ns, m), <) IN
  [Breaks |-> Join([k \in 1..Len(bs) |-> ToString(bs[k])], " ")]
  @@ (IF Nested(ns, m) THEN <<>> ELSE [Footprints |-> Join([k \in 1..Len(bs) |-> ToString(bs[k]) \o ":" \o ToString(Span(ModeAddresses(ns, m, bs[k])))], " ")])

\* ---------------------------------------------------------------- what the interface shows
Std == [m \in {"0", "2", "3"} |->
  CASE m = "0" -> <<"0.64,0.33,21.26", "0.3,0.6,71.52", "0.15,0.06,7.22", "0.3127,0.329,100">>
    [] m = "2" -> <<"0.7347,0.2653,100", "0.1596,0.8404,100", "0.0366,0.0001,100", "0.3457,0.3585,100">>
    [] OTHER -> <<"0.7347,0.2653,100", "0.1596,0.8404,100", "0.0366,0.001,100", "0.4254,0.4044,100">>]
ShownF(ns, i, read) ==
  LET n == ns[i] IN
  CASE n.c \in {"ColorSpace", "AdditionalColorSpace"} /\ n.f.ColorSpace # "1" -> LET s == Std[n.f.ColorSpace] IN [n.f EXCEPT !.Red = s[1], !.Green = s[2], !.Blue = s[3], !.White = s[4]]
    [] n.c = "DMXChannel" -> n.f @@ [Name |-> ChanName(ns, i), Resolution |-> ToString(ChanBytes(n)), HasHighlight |-> IF n.d.Highlight >= 0 THEN "true" ELSE "false"]
    [] n.c = "LogicalChannel" -> n.f @@ [Name |-> LogName(ns, i)]
    [] n.c = "ChannelFunction" -> n.f @@ [EndAddress |-> NumText(FuncEnd(ns, i, read)), Resolution |-> ToString(BytesAt(ns, i))]
    [] n.c = "ChannelSet" -> n.f @@ [UsePhysicalFromParent |-> IF n.x = <<>> THEN "true" ELSE "false"]
    [] n.c = "CRI" -> [ColorRenderingIndex |-> n.f.ColorRenderingIndex]      \* which colour sample: the interface hands the answer to a copy
    [] n.c = "DMXMode" -> n.f @@ ShownMode(ns, i)
    [] n.c = "Gamut" -> n.f @@ [Points |-> Join(n.x, " ")]
    [] n.c = "Fixture" -> n.f @@ [HasLinkedFixtureGUID |-> IF n.f.LinkedFixtureGUID = None THEN "false" ELSE "true"]
    [] OTHER -> n.f
\* At(j): where node j is in the walk
ShownR(ns, i, At(_)) ==
  LET n == ns[i]  T(j) == IF j = 0 THEN "-" ELSE "@" \o ToString(At(j)) IN
  [g \in (DOMAIN n.r) \ {"ModeMaster"} |-> T(n.r[g])]
  @@ (IF n.c # "ChannelFunction" THEN <<>>
      ELSE LET m == n.r.ModeMaster
               t == IF m = 0 THEN None ELSE T(m) \o "," \o NumText(n.d.ModeFrom) \o "," \o NumText(n.d.ModeTo)
           IN  [ParentLogicalChannel |-> T(n.p), ModeMasterChannel |-> IF m # 0 /\ ns[m].c = "DMXChannel" THEN t ELSE None,
                ModeMasterFunction |-> IF m # 0 /\ ns[m].c = "ChannelFunction" THEN t ELSE None])
  @@ (IF n.c \notin {"ActivationGroup", "Feature"} THEN <<>>
      ELSE LET as == SelectSeq([j \in Idx(ns) |-> j], LAMBDA j: ns[j].c = "Attribute" /\ ns[j].r[n.c] = i) IN [Attributes |-> Join([k \in 1..Len(as) |-> T(as[k])], " ")])
  @@ (IF n.c = "LogicalChannel" THEN [ParentDmxChannel |-> T(n.p)] ELSE <<>>)
  @@ (IF n.c \in GeoClasses THEN [Parent |-> IF ns[n.p].c \in GeoClasses THEN T(n.p) ELSE "-"] ELSE <<>>)
ShownD(ns, i) == LET n == ns[i] IN [g \in (DOMAIN n.d) \ {"ModeFrom", "ModeTo"} |-> IF g = "Highlight" /\ n.d[g] < 0 THEN "0" ELSE NumText(n.d[g])]

\* the protocols of a fixture are shown even if it has none
WithProtocols(ns) == LET Need(c, k, s) == IF OfClass(s, c) = {} THEN Append(s, [Mk(c, k, 1, <<>>, <<>>) EXCEPT !.f = [g \in DOMAIN @ |-> None]]) ELSE s IN Need("sACN", "SACN", Need("FTRDM", "RDM", Need("Art-Net", "ArtNet", ns)))
Dump(bare, read) ==
  LET ns == WithProtocols(bare)
      ord == Preorder(ns, ColOrder)
      at == Places(ord)
  IN  [k \in 1..Len(ord) |-> [c |-> ClassOf(ns[ord[k]].c), p |-> IF k = 1 THEN 0 ELSE at[ns[ord[k]].p], k |-> ns[ord[k]].k,
                              f |-> ShownF(ns, ord[k], read) @@ ShownR(ns, ord[k], LAMBDA j: at[j]) @@ ShownD(ns, ord[k])]]
SameVal(m, o) == m = o \/ (m = "-" /\ o \in {None, "@0"})         \* no reference: "not set", no object or an empty one
Shows(m, o) == /\ o.c = m.c /\ o.p = m.p /\ o.k = m.k
               /\ \A fl \in DOMAIN m.f : fl \in DOMAIN o.f /\ SameVal(m.f[fl], o.f[fl])
DumpMatches(model, obs) == Len(model) = Len(obs) /\ \A i \in 1..Len(model) : Shows(model[i], obs[i])
=============================================================================
