"""X04: messages reach exactly the members they are meant for, answers reach the callback of their message."""
import random
import check, xchg
from check import Check
from x02 import file_tok

MC = "CONSTANT Small = %s\nSPECIFICATION Spec\nINVARIANTS Shows Prefix Once\nPROPERTIES Finishes\nCHECK_DEADLOCK FALSE\n"
GEN = "CONSTANT Count = %d\nINIT GInit\nNEXT SNext\nCHECK_DEADLOCK FALSE\n"

def plan(cid, g, seed):
    rnd = random.Random(seed)
    M, ops = [], [{"op": "netns", "lo": True}, {"op": "station", "as": "me", "listen": False}]
    for i, m in enumerate(g["m"], 1):
        s = dict(m); on = "m%d" % i
        if m["k"] == "st": ops.append({"op": "station", "as": on, "echo": True, "mode": m["mode"], "callback": m["mode"] != "mute"})
        elif m["k"] == "fake":
            a = xchg.packet_out(m["ans"], rnd); s["ans"] = xchg.packet_spec(m["ans"])
            n = 28 + (len(a["body"].encode()) if "body" in a else (len(a["buf"]) // 2 if not a["buf"].startswith("gen:") else int(a["buf"].split(":")[1])))
            o = {"op": "fake", "as": on, "packet": a, "delay": m["delay"], "end": "close" if m["cut"] == "no" else m["end"]}
            cut = {"no": n, "more": n, "nothing": 0, "head": rnd.randint(1, 27), "body": n if n == 28 else rnd.randint(28, n - 1)}[m["cut"]]
            if m["cut"] == "more": a["len"] = str(n - 28 + rnd.choice([1, 100, 10 ** 7]))
            elif m["cut"] != "no": o["cut"] = str(cut)
            if cut < n or m["cut"] == "more": s["ans"] = {"none": "y"}
            elif m["end"] == "rst": o["end"] = "close"
            o["chunks"] = [str(rnd.choice([1, 27, 28, 29, 1000])) for _ in range(rnd.randint(0, 4))]
            s = {k: s[k] for k in ("uuid", "k", "ans")}
            ops.append(o)
        M.append(s); ops.append({"op": "member", "on": "me", "to": on, "uuid": m["uuid"]})
    ev = []
    for e in g["ev"]:
        if e["e"] == "stop":
            if e["i"] <= len(M) and M[e["i"] - 1]["k"] == "st": ops.append({"op": "stop", "on": "m%d" % e["i"]})
            ev.append(e); continue
        L, out = [], []
        for k, s in enumerate(e["list"]):
            lab = "L%d.%d" % (len(ev), k); d = xchg.msg_out(s["msg"])
            if s["msg"]["t"] == "REQUEST_RET" and s["msg"]["ok"] == "true" and s["msg"]["buf"] == "none": pass
            out.append({"msg": d, "label": lab, "custom": s["custom"] == "y"})
            sm = xchg.msg_spec(s["msg"])
            L.append({"msg": sm, "label": lab, "custom": s["custom"], "file": file_tok(sm["file"]) if sm["t"] == "REQUEST" else "none"})
        ops.append({"op": "sendmsg", "on": "me", "list": out})
        for i, m in enumerate(M, 1):
            if m["k"] != "dead": ops.append({"op": "calls" if m["k"] == "st" else "got", "on": "m%d" % i})
        ops.append({"op": "rets", "on": "me"})
        ev.append({"e": "send", "list": L})
    return {"case": cid, "ops": ops}, {"m": M, "ev": ev}

def observe(cid, t, evs):
    if any(e["ev"] == "netns" and e["ok"] != "true" for e in evs): raise RuntimeError("no network namespace")
    it = iter(e for e in evs if e["ev"] in ("sendmsg", "calls", "got", "rets"))
    ev = []
    for e in t["ev"]:
        e = dict(e)
        if e["e"] == "send":
            e["rcs"] = next(it)["rcs"]; e["seen"] = []
            for m in t["m"]:
                if m["k"] == "dead": e["seen"].append([]); continue
                l = next(it)
                e["seen"].append([xchg.obs(x) for x in l["list"]] if l["ev"] == "calls" else [xchg.wire(x) for x in l["list"]])
            e["rets"] = [dict(r, msg=xchg.obs(r["msg"])) for r in next(it)["list"]]
        ev.append(e)
    return {"id": cid, "m": t["m"], "ev": ev}

def corrupt(o, rnd):
    es = [e for e in o["ev"] if e["e"] == "send"]
    rnd.shuffle(es)
    for e in es:
        if e["rets"]:
            k = rnd.randint(0, 3)
            if k == 0: e["rets"].pop(); return "answer lost"
            if k == 1: e["rets"].append(e["rets"][0]); return "answer twice"
            if k == 2: r = rnd.choice(e["rets"]); r["cb"] = "custom" if r["cb"] == "global" else "global"; return "wrong callback"
            r = rnd.choice(e["rets"]); r["label"] += "x"; return "wrong message"
    return None

def main(tier):
    C = Check("X04", tier)
    C.model("SendMC", MC % ("TRUE" if C.quick else "FALSE"))
    gs = C.model("SendGen", GEN % (1000 if C.quick else 10000), workers=1, simulate=1, depth=10000, seed=check.SEED + 41).msgs
    X = xchg.exe()
    cases = [plan("p%d" % k, g, "%d/%d" % (check.SEED, k)) for k, g in enumerate(gs)]
    good = C.conform(X, "SendTrace", cases, observe, selftest=corrupt)
    C.notes["messages"] = sum(len(e["list"]) for o in good for e in o["ev"] if e["e"] == "send"); C.notes["answers"] = sum(len(e["rets"]) for o in good for e in o["ev"] if e["e"] == "send")
    C.notes["members"] = sum(len(o["m"]) for o in good)
    C.samples = [{"m": str(o["m"])[:300], "ev": str(o["ev"])[:500]} for o in good[:2]]
    C.assumptions = ["members have one address each; a member that answers does so within the 10 s the library waits"]
    return C.finish()
