"""Turns the archives of spec/ArchGen.tla into bytes, has the real readers read them, records what they hand out."""
import io, random, struct, zipfile, zlib, bz2, lzma
from mvr import enc
import files
from files import data, sig, split, Names, c

LONG = "/".join(["d" * 200] * 6) + "/"
def name(n): return (LONG if n[0] == "~long~" else n[0]) + enc(n[1])
def content(kind, m):
    if not m["d"].startswith("title#"): return data(m["d"])
    if kind == "mvr": return ('<?xml version="1.0" encoding="UTF-8"?><GeneralSceneDescription verMajor="1" verMinor="6"><Scene><Layers><Layer name="%s" uuid="00000000-0000-0000-0000-0000000000a1"><ChildList/></Layer></Layers></Scene></GeneralSceneDescription>' % m["d"]).encode()
    return ('<?xml version="1.0" encoding="UTF-8"?><GDTF DataVersion="1.2"><FixtureType Name="%s" ShortName="s" LongName="l" Manufacturer="m" Description="" FixtureTypeID="00000000-0000-0000-0000-0000000000b1" Thumbnail="" RefFT="" CanHaveChildren="Yes"><AttributeDefinitions/><Wheels/><PhysicalDescriptions/><Models/><Geometries/><DMXModes/></FixtureType></GDTF>' % m["d"]).encode()
def deflate(b):
    z = zlib.compressobj(9 if len(b) % 2 else 1, zlib.DEFLATED, -15); return z.compress(b) + z.flush()

def build(kind, r):
    """the bytes of one archive"""
    a, rnd = r["a"], random.Random(r["seed"]); ms = a["ms"]; out = bytearray(); recs = {}
    if a["end"] == "empty": return b""
    if any(m["fault"] != "none" for m in ms): # a length that leads beyond the end must do so
        cut = lambda v: min(v, 300); a = dict(a, tail=min(a["tail"], 2000)); ms = [dict(m, lx=cut(m["lx"]), cx=cut(m["cx"]), cc=cut(m["cc"])) for m in ms]
    for i in a["place"]:
        m = ms[i - 1]; b = content(kind, m); nm = name(m["n"]).encode(); how, flags, meth = m["how"], 0x800, 0
        if how == "stored": raw = b
        elif how in ("deflated", "streamed", "encrypted"): raw, meth = deflate(b), 8
        elif how == "bzip2": raw, meth = bz2.compress(b), 12
        elif how == "lzma": raw, meth = lzma.compress(b), 14
        else: raw, meth = b, 99
        if how == "encrypted": flags |= 1; raw = bytes(12) + bytes(x ^ 0x5a for x in raw)
        if how == "streamed": flags |= 8
        if m["fault"] == "garbage": raw = b"\x07" + raw[1:]
        if m["fault"] == "short": raw = raw[:len(raw) // 2]
        out += rnd.randbytes(m["gap"]).replace(b"PK", b"QK"); off = len(out); crc = zlib.crc32(b); st = how == "streamed"
        out += struct.pack("<IHHHHHIIIHH", 0x4034b51 if m["fault"] == "local" else 0x4034b50, 20, flags, meth, 0x6000, 0x5021, 0 if st else crc, 0 if st else len(raw), 0 if st else len(b), len(nm), m["lx"])
        out += nm + (struct.pack("<HH", 0x5455, m["lx"] - 4) + bytes(m["lx"] - 4) if m["lx"] else b"") + raw
        if st: out += (b"PK\x07\x08" if rnd.random() < .5 else b"") + struct.pack("<III", crc, len(raw), len(b))
        recs[i] = (off, raw, b, nm, crc, flags, meth)
    cd = len(out)
    for i, m in enumerate(ms, 1):
        off, raw, b, nm, crc, flags, meth = recs[i]
        if m["fault"] == "beyond": off = rnd.choice([len(out) + 100000, 0xffffffff, 0xfffffff0])
        ln = rnd.choice([len(out) + 100000, 0xffffffff, 0x7fffffff]) if m["fault"] == "long" else len(raw)
        out += struct.pack("<IHHHHHHIIIHHHHHII", 0x2014b51 if m["fault"] == "nosig" else 0x2014b50, 0x31e, 20, flags, meth, 0x6000, 0x5021, crc, ln, len(b), 0xffff if m["fault"] == "longname" else len(nm), m["cx"], m["cc"], 0, 0, 0x81a40000, off)
        out += nm + (struct.pack("<HH", 0x5455, m["cx"] - 4) + bytes(m["cx"] - 4) if m["cx"] else b"") + b"c" * m["cc"]
    end = len(out)
    if a["end"] != "none":
        at = rnd.choice([cd + 1, end + 5000, 0xffffffff, 0]) if a["end"] == "wrong" else cd
        out += struct.pack("<IHHHHIIH", 0x6054b50, 0, 0, len(ms), len(ms), end - cd, at, a["tail"]) + b"t" * a["tail"]
    if a["end"] == "cut": out = out[:rnd.choice([end, end + 3, end + 10, end // 2, 1, rnd.randrange(end + 1)])]
    if a["end"] == "tailcut": out = out[:end + 22 + a["tail"] // 2]
    if r["flips"]:
        marks = [k for k in range(len(out) - 3) if out[k:k + 2] == b"PK"] or [0]
        for _ in range(r["flips"]):
            if not out: break
            k = rnd.choice([rnd.randrange(len(out)), rnd.choice(marks) + rnd.randrange(46)]) % len(out)
            out[k] = rnd.choice([0, 1, 0x7f, 0x80, 0xff, rnd.randrange(256)])
        if rnd.random() < .3: out = out[:rnd.randrange(len(out) + 1)]
    return bytes(out)

def sane(r): return r["flips"] == 0 and r["a"]["end"] == "ok" and all(m["fault"] == "none" and m["how"] in ("stored", "deflated", "streamed") for m in r["a"]["ms"])
def crosscheck(r, b):
    """Python's own reader must see in a sound archive what the specification says it holds"""
    with zipfile.ZipFile(io.BytesIO(b)) as z:
        got = [(i.filename, z.open(i).read()) for i in z.infolist()]
    want = [(name(m["n"]), content(r["kind"], m)) for m in r["a"]["ms"]]
    if got != want: raise RuntimeError("the archive was built wrong: %s" % [g[0] for g in got])

def case(cid, g, limit=True):
    O = []
    for k, r in enumerate(g["reads"]):
        b = build(r["kind"], r)
        if sane(r): crosscheck(r, b)
        n, p = "r%d" % k, "$HOME/a%d.%s" % (k, "mvr" if r["kind"] == "mvr" else "gdtf")
        O += [{"op": "put", "path": p, "hex": b.hex()}, {"op": "mark", "ev": "read", "k": k}]
        if r["kind"] == "mvr":
            O += [{"op": "new", "iface": "MVR", "as": n}, c(n, "OpenForRead", [p], "openr"), {"op": "attached", "on": "@" + n, "ev": "attached"}, dict(c(n, "GetFirstLayer", []), **{"as": n + "l"}), c(n + "l", "GetName", [], "title"),
                  {"op": "release", "on": "@" + n, "tree": True}, {"op": "ls", "path": "$HOME/MVR_Export", "ev": "left"}]
        else:
            O += [{"op": "new", "iface": "GDTF", "as": n}, {"op": "frombuf", "on": "@" + n, "hex": b.hex(), "ev": "openr"} if r["kind"] == "mem" else c(n, "ReadFromFile", [p], "openr"),
                  {"op": "attached", "on": "@" + n, "ev": "attached"}, c(n, "GetName", [], "title"), {"op": "release", "on": "@" + n, "tree": True}, {"op": "ls", "path": "$HOME/GDTFs", "ev": "left"}]
        O += [{"op": "rm", "path": p}]
    return {"case": cid, "ops": O}

def observe(cid, g, evs):
    N = Names({m["d"] for r in g["reads"] for m in r["a"]["ms"] if not m["d"].startswith("title#")}); T = {"id": cid, "reads": []}; R = None
    for e in evs:
        if e["ev"] == "read": r = g["reads"][e["k"]]; R = {"kind": r["kind"], "a": r["a"], "flips": r["flips"], "rc": "?", "title": "-", "files": [], "left": -1}; T["reads"].append(R)
        if e["ev"] == "openr": R["rc"] = "ok" if e["rc"] == 0 else "err%d" % e["rc"]
        if e["ev"] == "title" and e.get("rc", 1) == 0: R["title"] = e.get("s", e.get("o", ["-"])[0] if e.get("o") else "-")
        if e["ev"] == "left": R["left"] = sum(1 for x in e["files"] if not x.endswith("/"))
        if e["ev"] == "attached":
            root = "$HOME/MVR_Export/" if R["kind"] == "mvr" else "$HOME/GDTFs/GdtfGroup/"
            for x in e["files"]:
                p = x["path"]; p = p[len(root):].replace(LONG, "~long~") if p.startswith(root) else "?" + p
                n = split(p) if not p.startswith("~long~") else ["~long~", p[6:]]
                R["files"].append({"n": n, "d": N.file(x)})
    return T
