"""Turns the names of spec/ContainGen.tla into archives, has the real readers read them in a sealed scratch folder, records every file that changed outside of the working folders."""
import struct, zipfile, zlib
from mvr import enc
import arch
from files import c, sig

def text(nm): return nm["lead"] + nm["sep"].join(nm["segs"])
def raw_zip(members):
    """Python's own writer would clean the names"""
    out, cd = bytearray(), bytearray()
    for n, b in members:
        n = n.encode(); h = struct.pack("<HHHHHIIIHH", 20, 0x800, 0, 0x6000, 0x5021, zlib.crc32(b), len(b), len(b), len(n), 0)
        cd += b"PK\1\2" + b"\x1e\3" + h + struct.pack("<HHHII", 0, 0, 0, 0x81a40000, len(out)) + n; out += b"PK\3\4" + h + n + b
    return bytes(out + cd + struct.pack("<IHHHHIIH", 0x6054b50, 0, 0, len(members), len(members), len(cd), len(out), 0))
def body(k, i): return ("read %d file %d\n" % (k, i)).encode()
GD = arch.content("gdtf", {"d": "title#1"})
GDTF = raw_zip([("description.xml", GD), ("wheels/g.png", b"gobo"), ("note.txt", b"n")])
def scene(specs):
    fx = "".join('<Fixture name="f%d" uuid="00000000-0000-0000-0000-%012X"><GDTFSpec>%s</GDTFSpec><GDTFMode>m</GDTFMode><FixtureID>%d</FixtureID></Fixture>' % (i, 0xf0 + i, s, i) for i, s in enumerate(specs))
    return ('<?xml version="1.0" encoding="UTF-8"?><GeneralSceneDescription verMajor="1" verMinor="6"><Scene><Layers><Layer name="L" uuid="00000000-0000-0000-0000-0000000000a1"><ChildList>%s</ChildList></Layer></Layers></Scene></GeneralSceneDescription>' % fx).encode()
UPS = ["$HOME", "$HOME/..", "$HOME/../..", "$HOME/../../..", "$HOME/../../../..", "$HOME/GDTFs", "$HOME/GDTFs/keep"]

def case(cid, g):
    O = []
    for d in UPS:
        O += [{"op": "put", "path": "%s/f%d" % (d, i), "hex": b"canary".hex()} for i in range(1, 7)] + [{"op": "put", "path": d + "/a/f1", "hex": b"canary".hex()}, {"op": "put", "path": d + "/x.gdtf", "hex": GDTF.hex()}]
    for k, r in enumerate(g["reads"]):
        ms = [(text(n), body(k, i)) for i, n in enumerate(r["names"])]; n = "r%d" % k
        ms = [(m, b) for m, b in ms if m not in ("description.xml",)]
        snap = lambda ev: [{"op": "snap", "path": "$HOME/../../../..", "ev": ev}]
        if r["kind"] == "mvr": b = raw_zip([("GeneralSceneDescription.xml", scene(r["specs"]))] + ms + [(f, GDTF) for f in r["fixtures"]])
        else: b = raw_zip([("description.xml", GD)] + ms)
        p = "$HOME/in%d" % k
        O += [{"op": "mark", "ev": "read", "k": k}, {"op": "put", "path": p, "hex": b.hex()}] + snap("before")
        if r["kind"] == "mvr":
            O += [{"op": "new", "iface": "MVR", "as": n}, c(n, "OpenForRead", [p], "openr"), dict(c(n, "GetFirstLayer", []), **{"as": n + "l"}), dict(c(n, "GetFirstChild", ["@%sl" % n]), **{"as": n + "f0"})]
            for i in range(len(r["specs"])):
                O += [dict(c("%sf%d" % (n, i), "GetGdtfFixture", []), **{"as": "%sg%d" % (n, i)})]
                if i + 1 < len(r["specs"]): O += [dict(c(n, "GetNextObject", ["@%sf%d" % (n, i)]), **{"as": "%sf%d" % (n, i + 1)})]
        else: O += [{"op": "new", "iface": "GDTF", "as": n}, {"op": "frombuf", "on": "@" + n, "hex": b.hex(), "ev": "openr"} if r["kind"] == "mem" else c(n, "ReadFromFile", [p], "openr")]
        O += [{"op": "attached", "on": "@" + n, "ev": "attached"}] + snap("after") + [{"op": "release", "on": "@" + n, "tree": True}] + snap("later")
    return {"case": cid, "ops": O, "sealed": True}

def allowed(r):
    w = ["l1/l2/l3/home/MVR_Export/"] if r["kind"] == "mvr" else ["l1/l2/l3/home/GDTFs/GdtfGroup/"]
    if r["kind"] == "mvr":                                  # a fixture type of a scene unpacks into a folder of its own name
        stems = {f[:-5] for f in list(r["fixtures"]) + ["ok@x.gdtf", "x.gdtf", "b.gdtf"]} - {"", ".", ".."}
        w += ["l1/l2/l3/home/GDTFs/%s/" % s for s in stems | {"GdtfGroup"}]
    return tuple(w)
def changed(a, b, r):
    w = allowed(r); ks = {k for k in set(a) | set(b) if a.get(k) != b.get(k)}
    return sorted(k for k in ks if not k.startswith(w) and not any(x.startswith(k) for x in w))

def observe(cid, g, evs):
    T = {"id": cid, "reads": []}; R = None
    for e in evs:
        if e["ev"] == "read": r = g["reads"][e["k"]]; k = e["k"]; R = {"kind": r["kind"], "names": r["names"], "sound": [False] * len(r["names"]), "strayed": ["?"], "strayedlater": ["?"], "rc": "?"}; T["reads"].append(R)
        if e["ev"] == "openr": R["rc"] = "ok" if e["rc"] == 0 else "err"
        if e["ev"] == "attached":
            got = {(x["path"].rpartition("/")[2], x["sig"]) for x in e["files"] if x["ok"]}
            R["sound"] = [(n["segs"][-1], sig(body(k, i))) in got for i, n in enumerate(r["names"])]
        if e["ev"] == "before": before = e["files"]
        if e["ev"] == "after": R["strayed"] = changed(before, e["files"], r)
        if e["ev"] == "later": R["strayedlater"] = changed(before, e["files"], r)
    return T
