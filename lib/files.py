"""Glue between spec/Files*.tla and the real archives: tokens <-> bytes, histories -> driver calls."""
import io, random, zipfile, zlib
from mvr import enc, dec, archive

KINDS = ("one", "text", "zeros", "noise", "zip", "eocd", "crlf")
_cache = {"empty": b""}
def data(tok):
    if tok not in _cache:
        kind, n = tok.split("#"); r = random.Random(tok)
        if kind == "one": b = bytes([r.randrange(256)])
        elif kind == "text": b = ("Größe %s\n" % tok * r.randrange(1, 40)).encode()
        elif kind == "zeros": b = bytes(65500 + r.randrange(200)) + tok.encode()
        elif kind == "noise": b = r.randbytes(65000 + r.randrange(9000))
        elif kind == "zip": b = bytes.fromhex(archive([("description.xml", b"<x/>" + tok.encode()), ("a/b", b"1")], zipfile.ZIP_STORED))
        elif kind == "eocd": b = b"PK\5\6" + bytes(18) + b"PK\1\2PK\3\4" + tok.encode() + b"PK\5\6"
        else: b = b"a\r\nb\n\0c\x1a\r" + tok.encode()
        # one byte alone cannot tell tokens apart: it carries a short tail
        if kind == "one": b = b[:0] + bytes([int(n) % 256])
        _cache[tok] = b
    return _cache[tok]
class Names:
    """the tokens of one case, by content"""
    def __init__(self, toks): self.inv = {sig(data(t)): t for t in list(toks) + ["empty"]}
    def tok(self, s): return self.inv.get(s, "?" + s)
    def file(self, f): return self.tok(f["sig"]) if f["ok"] else "-"
def sig(b): return "%d:%08x" % (len(b), zlib.crc32(b))

TYPES = dict(ModelSVG=0, Model3DS=1, ImageWheel=2, RessoureFixture=3, ModelGLTF=4, Model3DSLow=5, Model3DSHigh=6, ModelGLTFLow=7, ModelGLTFHigh=8, ModelSVGSide=9, ModelSVGFront=10)
MODEL = ["GeometryFile_%s_FullPath" % x for x in "3DS 3DSLow 3DSHigh SVG SVGSide SVGFront GLTF GLTFLow GLTFHigh".split()]

def latin(b): return "".join(chr(x) for x in b)
def c(on, m, a, ev=None, **kw): return dict({"op": "call", "on": "@" + on, "m": m, "a": a}, **({"ev": ev} if ev else {"quiet": True}), **kw)
def put(path, b): return {"op": "put", "path": path, "hex": b.hex()}

def ops_of(g, path):
    out, fx, k = [], g["kind"] != "mvr", 0
    for o in g["ops"]:
        p = "$HOME/%s/%s" % (o["dir"], enc(o["n"]))
        if o["m"] == "Put": out += [put(p, data(o["d"]))]
        elif o["m"] == "Del": out += [{"op": "rm", "path": p}]
        elif o["m"] == "AddFile": out += [c("w", "AddFileToGdtfFile", [p, str(TYPES[o["t"]]), enc(o["as"])], "op") if fx else c("w", "AddFileToMvrFile", [p], "op")]
        elif o["m"] == "AddBuffer": out += [{"op": "addbuf", "on": "@w", "name": enc(o["n"]) if fx else (o["dir"] + enc(o["n"])).replace("/", o["sep"]), "hex": data(o["d"]).hex(), "type": TYPES[o["t"]], "ev": "op"}]
        elif o["m"] == "AddFolder": out += [{"op": "mkdir", "path": "$HOME/" + o["dir"]}, c("w", "AddGdtfFolderLocation", ["$HOME/" + o["dir"]], "op")]
        elif o["m"] == "Fixture":
            k += 1; out += [c("w", "CreateFixture", ["%032x" % (0xf000 + k), "1,0,0,0,1,0,0,0,1,0,0,0", "fx%d" % k, "@lay"], as_="fx%d" % k)]
            out[-1]["as"] = out[-1].pop("as_"); out += [c("fx%d" % k, "SetGdtfName", [enc(o["n"])], "op")]
    return out

def fixture_reader(what, how, name, again_from=None):
    """reads a fixture, records everything it hands out and what is left when it is gone"""
    ops = [{"op": "new", "iface": "GDTF", "as": name}] + how(name)
    ops += [{"op": "attached", "on": "@" + name, "ev": "attached"}, c(name, "GetModelAt", ["0"], as_="m"), c(name, "GetWheelAt", ["0"], as_="wh")]
    for o in ops:
        if "as_" in o: o["as"] = name + o.pop("as_")
    ops += [dict(c(name + "wh", "GetWheelSlotAt", ["0"]), **{"as": name + "sl"})]
    ops += [{"op": "view", "on": "@%sm" % name, "m": "Get" + m, "ev": "view"} for m in MODEL] + [{"op": "modelbufs", "on": "@%sm" % name, "ev": "view"}]
    ops += [{"op": "view", "on": "@%ssl" % name, "m": "GetGoboFileFullPath", "ev": "view"}] + [{"op": "view", "on": "@" + name, "m": "GetFixtureThumbnail_%s_FullPath" % x, "ev": "view"} for x in ("PNG", "SVG")]
    return [{"op": "mark", "what": what, "ev": "reader"}] + ops

def case(cid, g):
    k = g["kind"]; path = "$HOME/out/a." + ("mvr" if k == "mvr" else "gdtf"); O = [{"op": "mkdir", "path": "$HOME/out"}]
    if k == "mvr":
        O += [{"op": "new", "iface": "MVR", "as": "w"}, c("w", "OpenForWrite", [path]), dict(c("w", "CreateLayerObject", ["%032x" % 0xa1, "lay"]), **{"as": "lay"})]
        O += ops_of(g, path) + [c("w", "Close", [], "close"), {"op": "slurp", "path": path, "ev": "file"}, {"op": "release", "on": "@w"}]
        O += [{"op": "mark", "what": "file", "ev": "reader"}, {"op": "new", "iface": "MVR", "as": "r1"}, c("r1", "OpenForRead", [path], "openr"), {"op": "attached", "on": "@r1", "ev": "attached"},
              {"op": "release", "on": "@r1", "tree": True}, {"op": "ls", "path": "$HOME/MVR_Export", "ev": "left"}]
        return {"case": cid, "ops": O}
    opn = [path] if k == "gdtf" else []
    O += [{"op": "new", "iface": "GDTF", "as": "w"}, c("w", "OpenForWrite" if k == "gdtf" else "OpenForWrite/3", opn + ["Spot", "Maker", "%032x" % 0xbeef]),
          dict(c("w", "CreateModel", ["M"]), **{"as": "mo"}), c("mo", "SetGeometryFile", ["base"]), dict(c("w", "CreateWheel", ["Wh"]), **{"as": "wh"}),
          dict(c("wh", "CreateWheelSlot", ["S"]), **{"as": "sl"}), c("sl", "SetGobo", ["slot1"]), c("w", "SetFixtureThumbnail", ["thumb"])]
    O += ops_of(g, path) + [c("w", "Close", [], "close"), {"op": "slurp", "path": path, "ev": "file"}, {"op": "tobuf", "on": "@w", "as": "b1", "ev": "buf"}]
    left = lambda n: [{"op": "release", "on": "@" + n}, {"op": "ls", "path": "$HOME/GDTFs", "ev": "left"}]
    O += fixture_reader("buffer", lambda n: [{"op": "frombuf", "on": "@" + n, "from": "b1", "ev": "openr"}], "r1") + left("r1")
    if k == "gdtf": O += fixture_reader("file", lambda n: [c(n, "ReadFromFile", [path], "openr")], "r2")
    else: O += fixture_reader("buffer read again", lambda n: [{"op": "frombuf", "on": "@" + n, "from": "b1", "ev": "openr"}], "r2")
    # a reader rewrites what it read, and so does the writer
    O += [c("r2", "RefreshBuffer", [], "refresh"), {"op": "tobuf", "on": "@r2", "as": "b2", "ev": "rebuf"}] + left("r2")
    O += fixture_reader("reader refreshed", lambda n: [{"op": "frombuf", "on": "@" + n, "from": "b2", "ev": "openr"}], "r3") + left("r3")
    O += [c("w", "RefreshBuffer", [], "refresh"), {"op": "tobuf", "on": "@w", "as": "b3", "ev": "rebuf"}, {"op": "release", "on": "@w"}]
    O += fixture_reader("writer refreshed", lambda n: [{"op": "frombuf", "on": "@" + n, "from": "b3", "ev": "openr"}], "r4") + left("r4")
    return {"case": cid, "ops": O}

def split(p): d, _, b = dec(p).rpartition("/"); return [d + "/" if d else "", b]
def members(hexs, names):
    z = zipfile.ZipFile(io.BytesIO(bytes.fromhex(hexs))); out = []
    for i in z.infolist():
        n = split(i.filename if i.flag_bits & 0x800 else i.filename.encode("cp437").decode("utf8"))          # names are UTF-8, flagged so or not
        out.append({"n": n, "d": "*" if n in (["", "GeneralSceneDescription.xml"], ["", "description.xml"]) else names.tok(sig(z.read(i)))})
    return out

def observe(cid, g, evs):
    N = Names({o["d"] for o in g["ops"] if o["d"]}); fx = g["kind"] != "mvr"; root = "$HOME/GDTFs/GdtfGroup/" if fx else "$HOME/MVR_Export/"
    rcs = [e for e in evs if e["ev"] == "op"]; k = 0; ops = []
    for o in g["ops"]:
        r = "-"
        if o["m"] in ("AddFile", "AddBuffer", "AddFolder", "Fixture"): r = "ok" if rcs[k]["rc"] == 0 else "err"; k += 1
        ops.append(dict(o, rc=r))
    T = {"id": cid, "kind": g["kind"], "ops": ops, "members": [], "readers": [], "bufsame": True}; R = None; f = b = None
    for e in evs:
        if e["ev"] == "file": f = e["hex"]
        if e["ev"] == "buf": b = e["hex"]
        if e["ev"] == "reader": R = {"what": e["what"], "rc": "err", "past": "?", "left": 0, "again": "refresh" in e["what"], "files": [], "views": {}}; T["readers"].append(R)
        if e["ev"] == "openr": R["rc"] = "ok" if e["rc"] == 0 else "err%d" % e["rc"]
        if e["ev"] == "attached":
            R["past"] = e["past"]
            for x in e["files"]:
                p = x["path"]; R["files"].append({"n": split(p[len(root):]) if p.startswith(root) else ["?", p], "d": N.file(x)})
        if e["ev"] == "view": R["views"][e["m"][3:] if e["m"].startswith("Get") else e["m"]] = N.file(e["file"])
        if e["ev"] == "left": R["left"] = sum(1 for x in e["files"] if not x.endswith("/"))
    T["members"] = members(f if g["kind"] != "mem" else b, N)
    if g["kind"] == "gdtf": T["bufsame"] = f == b
    return T
