------------------------------- MODULE Files -------------------------------
(* The files that travel inside an MVR or GDTF archive: what a writer collects, what it packs, what a reader of the *)
(* archive hands out, and what rewriting a fixture to a buffer keeps. A file name is <<folder, name>>.              *)
EXTENDS Sequences, Naturals, FiniteSets, TLC, SequencesExt

Empty == "empty"                                   \* contents are tokens; this one stands for no bytes at all
Sub == [ModelSVG |-> "models/svg/", Model3DS |-> "models/3ds/", ImageWheel |-> "wheels/", RessoureFixture |-> "", ModelGLTF |-> "models/gltf/",
        Model3DSLow |-> "models/3ds_low/", Model3DSHigh |-> "models/3ds_high/", ModelGLTFLow |-> "models/gltf_low/", ModelGLTFHigh |-> "models/gltf_high/",
        ModelSVGSide |-> "models/svg_side/", ModelSVGFront |-> "models/svg_front/"]
Types == DOMAIN Sub
\* a reader of a fixture unpacks every folder of the archive into one folder of that name without separators
Flat == [f \in {Sub[t] : t \in Types} |-> CASE f = "" -> "" [] f = "wheels/" -> "wheels/" [] f = "models/svg/" -> "modelssvg/" [] f = "models/3ds/" -> "models3ds/"
           [] f = "models/gltf/" -> "modelsgltf/" [] f = "models/3ds_low/" -> "models3ds_low/" [] f = "models/3ds_high/" -> "models3ds_high/" [] f = "models/gltf_low/" -> "modelsgltf_low/"
           [] f = "models/gltf_high/" -> "modelsgltf_high/" [] f = "models/svg_side/" -> "modelssvg_side/" [] OTHER -> "modelssvg_front/"]
Scene == <<"", "GeneralSceneDescription.xml">>
Descr == <<"", "description.xml">>
Mem(n, d) == [n |-> n, d |-> d]

\* the first member of a name is kept, a later one of the same name is refused
RECURSIVE FirstWins(_)
FirstWins(s) == IF s = <<>> THEN <<>> ELSE LET i == FirstWins(Front(s)) IN IF \E k \in 1..Len(i) : i[k].n = Last(s).n THEN i ELSE Append(i, Last(s))
Lookup(s, n) == LET K == {k \in 1..Len(s) : s[k].n = n} IN IF K = {} THEN "-" ELSE s[CHOOSE k \in K : \A j \in K : k <= j].d

\* ---- the writer ------------------------------------------------------------------------------------
(* kind: "mvr" a scene, "gdtf" a fixture written to a file, "mem" a fixture written to memory.           *)
Start(kind) == [kind |-> kind, disk |-> <<>>, files |-> <<>>, bufs |-> <<>>, dirs |-> <<>>, need |-> <<>>]
OnDisk(s, dir, name) == \E k \in DOMAIN s.disk : s.disk[k].p = <<dir, name>>
Content(s, dir, name) == s.disk[CHOOSE k \in DOMAIN s.disk : s.disk[k].p = <<dir, name>>].d
Without(s, dir, name) == SelectSeq(s.disk, LAMBDA x: x.p # <<dir, name>>)
R(s, rc) == [s |-> s, rc |-> rc]
Apply(s, op) ==
  CASE op.m = "Put" -> R([s EXCEPT !.disk = Append(Without(s, op.dir, op.n), [p |-> <<op.dir, op.n>>, d |-> op.d])], "-")
    [] op.m = "Del" -> R([s EXCEPT !.disk = Without(s, op.dir, op.n)], "-")
    \* a scene remembers the file and packs what is there when it is closed; a fixture takes it at once
    [] op.m = "AddFile" /\ s.kind = "mvr" -> IF OnDisk(s, op.dir, op.n) THEN R([s EXCEPT !.files = Append(@, <<op.dir, op.n>>)], "ok") ELSE R(s, "err")
    [] op.m = "AddFile" -> IF OnDisk(s, op.dir, op.n)
                           THEN R([s EXCEPT !.bufs = Append(@, Mem(<<Sub[op.t], IF op.as = "" THEN op.n ELSE op.as>>, Content(s, op.dir, op.n)))], "ok") ELSE R(s, "err")
    [] op.m = "AddBuffer" /\ s.kind = "mvr" -> IF op.n = "" \/ op.d = Empty THEN R(s, "err") ELSE R([s EXCEPT !.bufs = Append(@, Mem(<<op.dir, op.n>>, op.d))], "ok")
    [] op.m = "AddBuffer" -> R([s EXCEPT !.bufs = Append(@, Mem(<<Sub[op.t], op.n>>, op.d))], "ok")
    [] op.m = "AddFolder" -> R([s EXCEPT !.dirs = Append(@, op.dir)], "ok")
    [] op.m = "Fixture" -> R([s EXCEPT !.need = IF op.n = "" \/ op.n \in ToSet(@) THEN @ ELSE Append(@, op.n)], "ok")
    [] OTHER -> R(s, "-")

\* the needed fixture files come from the first of the given folders that has them
Provided(s, n) == LET K == {k \in 1..Len(s.dirs) : OnDisk(s, s.dirs[k], n)} IN IF K = {} THEN <<>> ELSE <<Mem(<<"", n>>, Content(s, s.dirs[CHOOSE k \in K : \A j \in K : k <= j], n))>>
Packed(s) ==
  IF s.kind = "mvr"
  THEN FirstWins(<<Mem(Scene, "*")>> \o FlattenSeq([i \in 1..Len(s.files) |-> IF OnDisk(s, s.files[i][1], s.files[i][2]) THEN <<Mem(<<"", s.files[i][2]>>, Content(s, s.files[i][1], s.files[i][2]))>> ELSE <<>>])
                 \o s.bufs \o FlattenSeq([i \in 1..Len(s.need) |-> Provided(s, s.need[i])]))
  ELSE FirstWins(s.bufs \o <<Mem(Descr, "*")>>)

\* ---- the reader ------------------------------------------------------------------------------------
Body(ms) == SelectSeq(ms, LAMBDA x: x.n \notin {Scene, Descr})
Attached(kind, ms) == [i \in 1..Len(Body(ms)) |-> IF kind = "mvr" THEN Body(ms)[i] ELSE Mem(<<Flat[Body(ms)[i].n[1]], Body(ms)[i].n[2]>>, Body(ms)[i].d)]
\* what a fixture's own objects show: a model called "base", a gobo called "slot1" and a thumbnail called "thumb"
Views == [GeometryFile_3DS_FullPath |-> <<"models/3ds/", "base.3ds">>, GeometryFile_3DSLow_FullPath |-> <<"models/3ds_low/", "base.3ds">>, GeometryFile_3DSHigh_FullPath |-> <<"models/3ds_high/", "base.3ds">>,
          GeometryFile_SVG_FullPath |-> <<"models/svg/", "base.svg">>, GeometryFile_SVGSide_FullPath |-> <<"models/svg_side/", "base.svg">>, GeometryFile_SVGFront_FullPath |-> <<"models/svg_front/", "base.svg">>,
          GeometryFile_GLTF_FullPath |-> <<"models/gltf/", "base.glb">>, GeometryFile_GLTFLow_FullPath |-> <<"models/gltf_low/", "base.glb">>, GeometryFile_GLTFHigh_FullPath |-> <<"models/gltf_high/", "base.glb">>,
          Buffer3DS |-> <<"models/3ds/", "base.3ds">>, BufferSVG |-> <<"models/svg/", "base.svg">>, BufferGLTF |-> <<"models/gltf/", "base.glb">>,
          GoboFileFullPath |-> <<"wheels/", "slot1.png">>, FixtureThumbnail_PNG_FullPath |-> <<"", "thumb.png">>, FixtureThumbnail_SVG_FullPath |-> <<"", "thumb.svg">>]
Shown(ms) == [v \in DOMAIN Views |-> LET own == Lookup(ms, Views[v]) IN IF own = "-" /\ v \in {"Buffer3DS", "BufferSVG", "BufferGLTF"} THEN Lookup(ms, <<"", Views[v][2]>>) ELSE own]
\* rewriting a fixture keeps every file and writes the description anew
SameFiles(a, b) == ToSet(a) = ToSet(b) /\ Len(a) = Len(b)
============================================================================
