"""Glue between spec/Mvr*.tla and the real MVR interface: histories -> driver calls, observations -> spec form."""
import io, re, zipfile
import xml.etree.ElementTree as ET

TOK = {"~uni~": "Größe-漢字-é😀", "~long~": "x" * 3000}
INV = {v: k for k, v in TOK.items()}
def enc(s):
    for k, v in TOK.items(): s = s.replace(k, v)
    return s
def dec(s):
    for v, k in INV.items(): s = s.replace(v, k)
    return s

def driver_ops(hist, path="$HOME/a.mvr", w="n1"):
    """the API calls that one history stands for (writer already open as @n1)"""
    ops, maps = [], {}
    for op in hist:
        on, m, a, r, ret = "@n%d" % op["on"], op["m"], [enc(x) for x in op["a"]], "@n%d" % op["r"], op["ret"]
        c = {"op": "call", "on": on, "m": m, "a": a, "ev": "op"}
        if ret: c["as"] = "n%d" % ret
        post = None
        if m == "CreateGroupObject3": c["m"] = "CreateGroupObject"; c["a"] = a + [r]
        elif m == "CreateGroupObject": c["m"] = "CreateGroupObject/4"; c["a"] = a + [r]
        elif m.startswith("Create") and op["r"]: c["a"] = a + [r]
        elif m in ("SetClass", "SetPosition", "SetFocusPoint", "SetMultipatchParent"): c["a"] = [r]
        elif m == "AddSymbol": c["a"] = a + [r]
        elif m == "AddProtocol": c["a"] = ["|".join(a)]
        elif m in ("SetUpVector", "SetDirection"): c["a"] = a[0].split(",")
        elif m == "AddMapping" and ret:
            del c["as"]; k = maps.get(on, 0); maps[on] = k + 1
            post = {"op": "call", "on": on, "m": "GetMappingAt", "a": [str(k)], "as": "n%d" % ret, "quiet": True}
        elif m in ("SetSource", "SetVideoScreenSource", "SetProjectorSource"):
            del c["as"]
            post = {"op": "call", "on": on, "m": "G" + m[1:], "a": [], "as": "n%d" % ret, "quiet": True}
        ops.append(c)
        if post: ops.append(post)
    return ops

def case(cid, hist, path="$HOME/a.mvr", dump_pre=True):
    ops = [{"op": "new", "iface": "MVR", "as": "n1"}, {"op": "call", "on": "@n1", "m": "OpenForWrite", "a": [path], "ev": "open"}]
    ops += driver_ops(hist)
    if dump_pre: ops.append({"op": "dump", "on": "@n1", "ev": "pre"})
    ops += [{"op": "call", "on": "@n1", "m": "Close", "a": [], "ev": "close"}, {"op": "slurp", "path": path, "ev": "file"},
            {"op": "new", "iface": "MVR", "as": "rd"}, {"op": "call", "on": "@rd", "m": "OpenForRead", "a": [path], "ev": "openr"},
            {"op": "dump", "on": "@rd", "ev": "post"}]
    return {"case": cid, "ops": ops}

NUMTXT = re.compile(r"-?\d+\.\d+")
def num(s):
    try: v = float(s)
    except ValueError: return s
    return "%.10g" % (0 if v == 0 else v)
UU = re.compile(r"\{?[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}\}?$")
def uuid_api(s):
    """text form -> the form the API shows: four 32 bit words, each stored little-endian"""
    h = s.strip("{}").replace("-", "").lower()
    return "".join(h[i + 6:i + 8] + h[i + 4:i + 6] + h[i + 2:i + 4] + h[i:i + 2] for i in range(0, 32, 8))
def norm(s):
    s = dec(s or "")
    if UU.match(s): return uuid_api(s)
    if re.match(r"^-?\d+\.\d+(,-?\d+\.\d+)*$", s): return ",".join(num(x) for x in s.split(","))
    if s.startswith("{") and re.match(r"^(\{[-\d.,e+]*\})+$", s): return "".join("{" + ",".join(num(x) for x in p.split(",")) + "}" for p in re.findall(r"\{([^}]*)\}", s))
    return s

def xml_tree(el):
    t = "".join(el.itertext()) if len(el) == 0 else (el.text or "").strip()
    if el.tag == "CustomCommand": t = re.sub(r"(.*,f )(-?[\d.]+)$", lambda m: m.group(1) + num(m.group(2)), dec(t))
    return {"t": el.tag, "a": {k: norm(v) for k, v in el.attrib.items()}, "x": norm(t) if el.tag != "CustomCommand" else t, "k": [xml_tree(c) for c in el]}

def read_xml(hexs, name="GeneralSceneDescription.xml"):
    z = zipfile.ZipFile(io.BytesIO(bytes.fromhex(hexs)))
    return xml_tree(ET.fromstring(z.read(name)))

def nodes(dump):
    out = []
    for n in dump:
        f = {}
        for k, v in n["f"].items():
            v = dec(v)
            if v.startswith("!"): v = "!"
            if k == "FileForGeometry": v = v.rsplit("/", 1)[-1]
            f[k] = v
        out.append({"c": n["c"], "p": n["p"], "k": n["k"], "f": f})
    return out

def observe(cid, hist, evs):
    """the recorded case in the form MvrTrace reads"""
    c = {"id": cid, "ops": [{"m": o["m"], "on": o["on"], "a": o["a"], "r": o["r"]} for o in hist],
         "rcs": ["ok" if e["rc"] == 0 else "err" for e in evs if e["ev"] == "op"]}
    for e in evs:
        if e["ev"] == "pre": c["pre"] = nodes(e["nodes"])
        if e["ev"] == "post": c["post"] = nodes(e["nodes"])
        if e["ev"] == "file" and e["ok"]: c["xml"] = read_xml(e["hex"])
    return c

# ---- documents: the specification's XML tree -> text -> archive ----
from xml.sax.saxutils import escape, quoteattr
def uuid_text(h, style):
    w = [h[i + 6:i + 8] + h[i + 4:i + 6] + h[i + 2:i + 4] + h[i:i + 2] for i in range(0, 32, 8)]
    s = "".join(w); s = "-".join((s[:8], s[8:12], s[12:16], s[16:20], s[20:]))
    return s.lower() if style == "lower" else s.upper()
HEX = re.compile(r"^[0-9a-f]{32}$")
def val(s, style): return uuid_text(s, style) if HEX.match(s) else enc(s)
def xml_text(e, style, ind=0, pretty=True):
    nl = "\n" + " " * ind if pretty else ""
    o = nl + "<" + e["t"] + "".join(" %s=%s" % (k, quoteattr(val(v, style))) for k, v in (e["a"] or {}).items())
    if not e["k"] and not e["x"]: return o + "/>"
    return o + ">" + escape(val(e["x"], style)) + "".join(xml_text(c, style, ind + 1, pretty) for c in e["k"]) + ((nl if pretty else "") if e["k"] else "") + "</" + e["t"] + ">"
def archive(files, method=zipfile.ZIP_DEFLATED):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", method) as z:
        for n, d in files: z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), d, method)
    return b.getvalue().hex()
def doc_case(cid, g, style, pretty, method):
    x = '<?xml version="1.0" encoding="UTF-8"?>' + xml_text(g["xml"], style, 0, pretty)
    return {"case": cid, "ops": [{"op": "put", "path": "$HOME/d.mvr", "hex": archive([("GeneralSceneDescription.xml", x.encode())], method)},
            {"op": "new", "iface": "MVR", "as": "rd"}, {"op": "call", "on": "@rd", "m": "OpenForRead", "a": ["$HOME/d.mvr"], "ev": "openr"}, {"op": "dump", "on": "@rd", "ev": "post"}]}
def doc_observe(cid, g, evs):
    return {"id": cid, "ops": [{"m": o["m"], "on": o["on"], "a": o["a"], "r": o["r"]} for o in g["ops"]], "rcs": [], "gone": g["gone"],
            "post": [nodes(e["nodes"]) for e in evs if e["ev"] == "post"][0]}
