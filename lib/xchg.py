"""MVR-xchange: turns generated messages and packages into driver cases, and what the driver saw into traces."""
import json, zlib, random, os
import build

def exe(): return build.build("xchg", [os.path.join(build.VERIF, "harness/xchg.cpp")])

def gen_bytes(n, seed): return bytes((i * 31 + (i >> 8) * 17 + seed) & 255 for i in range(n))
_tok = {}
def buf(name):
    """"LEN:xSEED" -> (what the driver is told, the token)"""
    if name == "none" or ":x" not in name: return ("", name)
    if name not in _tok:
        n, s = name.split(":x"); n, s = int(n), int(s)
        _tok[name] = ("gen:%d:%d" % (n, s), "%d:%08x" % (n, zlib.crc32(gen_bytes(n, s))))
    return _tok[name]
BYTES = b'{"Type":"MVR_LEAVE_RET","OK":true,"Message":"\xff\xfe"}'
def outs(s): return s.replace("~", "\u00e9")
def ins(s): return s.replace("\u00e9", "~")

def render(v, rnd):
    if "s" in v: return json.dumps(outs(v["s"]), ensure_ascii=rnd.random() < 0.5)
    if "n" in v: return v["n"]
    if "b" in v: return v["b"]
    if "z" in v: return "null"
    sp = rnd.choice(["", "", " ", "\n"])
    if "a" in v: return "[" + ("," + sp).join(render(x, rnd) for x in v["a"]) + "]"
    ks = list((v["o"] or {}).items()); rnd.shuffle(ks)
    return "{" + ("," + sp).join(json.dumps(k) + ":" + sp + render(x, rnd) for k, x in ks) + "}"

class Num(str): pass
def tag(x):
    if x is None: return {"z": "null"}
    if isinstance(x, bool): return {"b": "true" if x else "false"}
    if isinstance(x, Num): return {"n": str(x)}
    if isinstance(x, str): return {"s": ins(x)}
    if isinstance(x, list): return {"a": [tag(e) for e in x]}
    return {"o": {k: tag(e) for k, e in x.items()}}
def parse(text):
    try: return tag(json.loads(text, parse_int=Num, parse_float=Num))
    except ValueError: return None

def deep(x, f):
    if isinstance(x, str): return f(x)
    if isinstance(x, list): return [deep(e, f) for e in x]
    if isinstance(x, dict): return {k: deep(v, f) for k, v in x.items()}
    return x

def msg_out(m):
    """message for the driver"""
    d = deep(m, outs)
    if "buf" in m:
        d["buf"] = buf(m["buf"])[0]
        if m.get("ok") != "true": del d["buf"]
    return d
def msg_spec(m):
    m = dict(m)
    if "buf" in m: m["buf"] = buf(m["buf"])[1]
    return m
def packet_out(p, rnd):
    d = {"flag": p["flag"], "type": p["type"]}
    if "json" in p: d["body"] = render(p["json"], rnd)
    elif "bad" in p:
        if p["bad"] == "#bytes": d["buf"] = BYTES.hex()
        else: d["body"] = p["bad"]
    else: d["buf"] = buf(p["buf"])[0]
    return d
def packet_spec(p):
    p = dict(p)
    if "buf" in p: p["buf"] = buf(p["buf"])[1]
    return p
def wire(w):
    w = dict(w)
    if "body" in w:
        v = parse(w.pop("body"))
        if v is not None: w["json"] = v
    return w
def obs(m): return deep(m, ins)
