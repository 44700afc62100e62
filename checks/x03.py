"""X03: who is in a local session: everybody in it knows everybody else in it, and nobody else."""
import random
import check, xchg
from check import Check

MC = "CONSTANTS Stations = {%s}\n Services = {%s}\n Keep = TRUE\n Mode = any\nSPECIFICATION Spec\nINVARIANTS Together NoStrangers\nCHECK_DEADLOCK FALSE\n"
GEN = "CONSTANT Steps = %d\nINIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n"
CFG = "CONSTANTS Stations = {\"s1\", \"s2\", \"s3\", \"s4\"}\n Services = {\"alpha\", \"beta\"}\n Keep = TRUE\nINIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n"
ST = ["s1", "s2", "s3", "s4"]
UU = {s: ("%02x" % (17 * k)) * 4 + "00112233445566778899aabb" for k, s in enumerate(ST, 1)}
OF = {v: k for k, v in UU.items()}
SUF = "._mvrxchange._tcp.local."

def spell(v, rnd):
    """other ways to write the name of the same session"""
    if rnd.random() < 0.6: return v
    return "".join(ch + rnd.choice(["", "", " ", "!", ".", "\u00e9"]) for ch in v)

def plan(cid, g, seed):
    rnd = random.Random(seed)
    ops = [{"op": "netns"}]
    for k in range(1, 5): ops.append({"op": "host", "as": "h%d" % k, "n": str(k)})
    share = rnd.choice([{}, {}, {"s2": "h1"}, {"s2": "h1", "s4": "h3"}, {"s2": "h1", "s3": "h1"}])  # several stations on one machine
    for s in ST: ops.append({"op": "station", "as": s, "at": share.get(s, "h" + s[1]), "listen": False, "reply": {"JOIN": {"t": "JOIN_RET", "ok": "true", "st": UU[s], "name": s, "prov": "p", "maj": "1", "min": "6"}, "COMMIT": {"t": "COMMIT_RET"}, "LEAVE": {"t": "LEAVE_RET"}}})
    for k in g.get("unplugged", []): ops.append({"op": "unplug", "on": "h%d" % k, "n": str(k)})
    for f in g.get("foreign", []): ops.append(dict(f, op="foreign"))
    srv, name, ev = {s: "none" for s in ST}, {s: "" for s in ST}, []
    def look(e):
        for s in ST:
            want = [[UU[t], name[t]] for t in ST if t != s and srv[s] != "none" and srv[t] == srv[s]]
            ops.append({"op": "group", "on": s, "want": want})
        for s in ST: ops.append({"op": "calls", "on": s}); ops.append({"op": "rets", "on": s})
        ev.append(e)
    for e in g["ev"]:
        e = dict(e); e.pop("want", None)
        if e["e"] == "connect":
            L = []
            e["list"] = [dict(x, name=x["name"] + rnd.choice(["", "", "=", " a=b;c", "." + "n" * 90])) for x in e["list"]]
            for x in e["list"]:
                srv[x["s"]], name[x["s"]] = x["v"], x["name"]
                L.append({"on": x["s"], "service": spell(x["v"], rnd), "name": x["name"], "prov": "prov", "uuid": UU[x["s"]],
                          "commits": [{"fname": "f%d" % k, "file": UU[x["s"]], "st": UU[x["s"]], "maj": "1", "min": "6"} for k in range(rnd.choice([0, 1, 2]))]})
            ops.append({"op": "connect", "list": L})
        elif e["e"] == "leave":
            for s in e["list"]: srv[s] = "none"
            ops.append({"op": "leave", "list": e["list"]})
        elif e["e"] == "query": ops.append({"op": "query", "on": e["s"], "times": e.get("times", 1)})
        elif e["e"] == "send": ops.append({"op": "sendmsg", "on": e["s"], "list": [{"msg": {"t": "COMMIT", "fname": "x", "file": UU[e["s"]], "st": UU[e["s"]], "maj": "1", "min": "6", "for": [UU[t] for t in e["to"]]}, "label": "c", "custom": False}]})
        look(e)
    if g.get("hear"): ops += [{"op": "sleep", "ms": 6000}, {"op": "hear", "ms": 9000}]
    else: ops.append({"op": "sleep", "ms": 2500})
    look({"e": "rest"})
    return {"case": cid, "ops": ops}, {"ev": ev, "hear": bool(g.get("hear"))}

def observe(cid, t, evs):
    if any(e["ev"] == "netns" and e["ok"] != "true" for e in evs): raise RuntimeError("no network namespace")
    it = iter(e for e in evs if e["ev"] in ("connect", "leave", "query", "sendmsg", "hear", "group", "calls", "rets"))
    ev = []
    for e in t["ev"]:
        e = dict(e)
        if e["e"] in ("connect", "leave"):
            r = next(it)
            if any(x != "0" for x in r["rcs"]): raise RuntimeError("refused: %s" % r)
        elif e["e"] == "send": next(it)
        elif e["e"] == "query":
            q = next(it)
            e["found"] = [{"s": OF.get(x["uuid"], x["uuid"]), "service": x["service"].removesuffix(SUF), "name": x["name"], "ips": x["ips"]} for x in q["list"]]
            if e.get("others"): e["found"] = [x for x in e["found"] if x["s"] in UU or x["service"] not in e["others"]]
            e["past"] = q["past"]
        elif e["e"] == "rest": e["heard"] = next(it)["n"] if t["hear"] else "0"
        e["groups"] = {s: [{"s": OF.get(m["uuid"], m["uuid"]), "name": m["name"]} for m in next(it)["list"]] for s in ST}
        e["calls"], e["rets"] = {}, {}
        for s in ST:
            e["calls"][s] = [{"t": m["t"], "s": OF.get(m.get("st"), "?"), "name": m.get("name", "")} for m in next(it)["list"]]
            e["rets"][s] = [{"t": r["msg"]["t"]} for r in next(it)["list"]]
        ev.append(e)
    return {"id": cid, "ev": ev}

def corrupt(o, rnd):
    e = rnd.choice(o["ev"])
    g = [s for s in ST if e["groups"][s]]
    if not g: return None
    s = rnd.choice(g)
    k = rnd.randint(0, 3)
    if k == 0: e["groups"][s].pop(); return "member lost"
    if k == 1: e["groups"][s].append(e["groups"][s][0]); return "member twice"
    if k == 2: e["groups"][s][0]["name"] += "x"; return "old name"
    m = [t for t in ST if e["calls"][t]]
    if not m: return None
    t = rnd.choice(m); e["calls"][t].append(e["calls"][t][0]); return "told twice"

def c(s, v, n): return {"s": s, "v": v, "name": n}
def fixed():
    con = lambda *L: {"e": "connect", "list": list(L)}
    q = lambda s: {"e": "query", "s": s}
    # a lookup that goes on and on after connecting again
    yield "again", {"hear": True, "ev": [con(c("s1", "alpha", "a")), con(c("s1", "alpha", "b")), con(c("s1", "beta", "c"))]}
    # a machine without a network finds nobody, at once
    yield "unplugged", {"unplugged": [1], "ev": [q("s1"), con(c("s1", "alpha", "a"))] + [dict(q("s1"), times=200000)] + [{"e": "leave", "list": ["s1"]}, q("s1")]}
    # services of the same type whose text is none of ours
    T = {"empty": "", "flag": "04" + b"flag".hex(), "noname": "03" + b"a=b".hex(), "zero": "00"}
    for k, (n, txt) in enumerate(T.items()):
        yield "foreign-" + n, {"foreign": [{"host": "zeta%d" % k, "port": str(9000 + k), "txt": txt}],
                               "ev": [q("s1"), con(c("s2", "alpha", "a")), con(c("s3", "alpha", "b")), q("s2"), q("s1"), con(c("s1", "alpha", "c"))]}

def main(tier):
    C = Check("X03", tier)
    C.model("GroupMC", MC % ("a, b, c", "u, v"))
    if not C.quick: C.model("GroupMC", MC % ("a, b, c, d", "u"), timeout=600)
    gs = C.model("GroupGen", GEN % 8, workers=1, simulate=72 if C.quick else 400, depth=12, seed=check.SEED + 43).msgs
    X = xchg.exe()
    cases = [plan("g%d" % k, g, "%d/%d" % (check.SEED, k)) for k, g in enumerate(gs)]
    for n, g in fixed():
        for e in g["ev"]:
            if e["e"] == "query": e["others"] = ["zeta0", "zeta1", "zeta2", "zeta3"]
        cases.append(plan(n, g, n))
    good = C.conform(X, "GroupTrace", cases, observe, cfg=CFG, selftest=corrupt, jobs=80)
    C.notes["events"] = sum(len(o["ev"]) for o in good)
    C.notes["connects"] = sum(len(e["list"]) for o in good for e in o["ev"] if e["e"] == "connect")
    C.samples = [str(o["ev"])[:600] for o in good[:2]]
    C.assumptions = ["stations that connect at the same time start at least 150 ms apart; connects do not overlap leaves", "one network interface per host"]
    return C.finish()
