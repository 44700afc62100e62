"""Glue between spec/Gdtf*.tla and the real GDTF interface."""
from mvr import enc, dec, read_xml, xml_text, archive, num
NAME, MANU, UID = "Spot 1", "ACME & Söhne", "5eed0000000000000000000000100000"
SPLIT = {"SetRopeOffset"}

def driver_ops(hist):
    ops = []
    for op in hist:
        a = [enc(x) for x in op["a"]]
        if op["m"] in SPLIT: a = a[0].split(",")
        c = {"op": "call", "on": "@n%d" % op["on"], "m": op["m"], "a": a, "ev": "op"}
        if op["ret"]: c["as"] = "n%d" % op["ret"]
        ops.append(c)
    return ops

def writer(path="$HOME/a.gdtf"):
    return [{"op": "new", "iface": "GDTF", "as": "n1"}, {"op": "call", "on": "@n1", "m": "OpenForWrite", "a": [path, NAME, MANU, UID], "ev": "open"},
            {"op": "call", "on": "@n1", "m": "GetColorSpace", "a": [], "as": "n2", "quiet": True}]

def reader(path="$HOME/a.gdtf", ev="post", name="rd"):
    return [{"op": "new", "iface": "GDTF", "as": name}, {"op": "call", "on": "@" + name, "m": "ReadFromFile", "a": [path], "ev": "openr"}, {"op": "dump", "on": "@" + name, "ev": ev}]

def case(cid, hist, path="$HOME/a.gdtf"):
    return {"case": cid, "ops": writer(path) + driver_ops(hist) + [{"op": "dump", "on": "@n1", "ev": "pre"}, {"op": "call", "on": "@n1", "m": "Close", "a": [], "ev": "close"},
            {"op": "slurp", "path": path, "ev": "file"}] + reader(path)}

def nodes(dump):
    """dumped nodes without the parsing errors, which are listed apart"""
    keep = [i for i, n in enumerate(dump) if n["k"] != "ParsingError"]
    new = {i + 1: k + 1 for k, i in enumerate(keep)}
    def ref(v): 
        if not v.startswith("@"): return v
        h, _, t = v[1:].partition(",")
        return "@%d" % new.get(int(h), 0) + ("," + t if t else "")
    out = []
    for i in keep:
        n = dump[i]; f = {}
        for k, v in n["f"].items():
            v = dec(v)
            if v.startswith("!"): v = "!"
            f[k] = " ".join(ref(x) for x in v.split(" ")) if v.startswith("@") else v
            if k == "Attributes": f[k] = " ".join(sorted(f[k].split(" "), key=lambda x: (len(x), x)))      # a set
        out.append({"c": n["c"], "p": new.get(n["p"], 0), "k": n["k"], "f": f})
    return out
def dec_all(f): return {k: dec(v) for k, v in f.items()}
def errors(dump): return [n["f"] for n in dump if n["k"] == "ParsingError"]

def ops_of(hist): return [{k: o[k] for k in ("m", "on", "a", "q", "c")} for o in hist]
def observe(cid, hist, evs):
    c = {"id": cid, "name": NAME, "manu": MANU, "uid": UID, "ops": ops_of(hist), "rcs": ["ok" if e["rc"] == 0 else "err%d" % e["rc"] for e in evs if e["ev"] == "op"]}
    for e in evs:
        if e["ev"] in ("pre", "post"): c[e["ev"]] = nodes(e["nodes"])
        if e["ev"] == "file" and e["ok"]: c["xml"] = read_xml(e["hex"], "description.xml")
        if e["ev"] == "post": c["errs"] = errors(e["nodes"])
    return c

REFS = {"Model", "Emitter", "EmitterSpectrum", "LinkedGeometry", "Geometry", "ActivationGroup", "Feature", "MainAttribute", "Filter", "ToWiringObject", "InitialFunction", "Attribute", "Wheel", "ColorSpace", "Gamut",
        "DMXProfile", "ModeMaster", "Master", "Follower", "ChannelFunction", "DMXChannel", "DMXMode"}
def recase(e):
    """the same document, with references that do not keep the case of the name they refer to (names are told apart without case)"""
    return dict(e, a={k: (v.upper() if len(v) % 2 else v.lower()) if k in REFS and v.isascii() else v for k, v in (e["a"] or {}).items()}, k=[recase(c) for c in e["k"]])
def doc_case(cid, g, style, pretty, method, path="$HOME/d.gdtf", case=True):
    if not case: g = dict(g, xml=recase(g["xml"]))
    x = '<?xml version="1.0" encoding="UTF-8"?>' + xml_text(g["xml"], style, 0, pretty)
    return {"case": cid, "ops": [{"op": "put", "path": path, "hex": archive([("description.xml", x.encode())], method)}] + reader(path)}
def doc_observe(cid, g, evs):
    post = [e["nodes"] for e in evs if e["ev"] == "post"][0]
    return {"id": cid, "name": NAME, "manu": MANU, "uid": UID, "ops": ops_of(g["ops"]), "gone": g["gone"], "fill": g["fill"], "post": nodes(post), "errs": errors(post)}
