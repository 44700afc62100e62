"""X02: a station's server under any interleaving of connections, pieces, half-closes, resets and stops."""
import random
import check, xchg
from check import Check

MC = "CONSTANT NC = %d\nSPECIFICATION %s\nINVARIANTS CallsAreDelivered AnswersAreOwn Replies\n%sCHECK_DEADLOCK FALSE\n"
GEN = "CONSTANTS Count = 0\n Steps = %d\n WithStop = %s\nINIT RInit\nNEXT RNext\nCHECK_DEADLOCK FALSE\n"

def uuid_of(text):
    h = text.lower().replace("-", "")
    if len(text) != 36 or len(h) != 32: return None
    P = [h[k:k + 2] for k in range(0, 32, 2)]
    return "".join(P[k] for k in (3, 2, 1, 0, 7, 6, 5, 4, 11, 10, 9, 8, 15, 14, 13, 12))
def file_tok(u): a, b = int(u[:2], 16), int(u[2:4], 16); return xchg.buf("%d:x%d" % (1 + a * a * 8, b))[1]

def plan(cid, g, seed):
    """the driver's operations and the events they stand for; event k is told apart by the log entry it reads"""
    rnd = random.Random(seed)
    pk, sent, total, spec = {}, {}, {}, []
    for c, p in enumerate(g["pk"], 1):
        d = xchg.packet_out(p, rnd)
        n = len(d["body"].encode()) if "body" in d else (len(d["buf"]) // 2 if not d["buf"].startswith("gen:") else int(d["buf"].split(":")[1]))
        if "more" in p: d["len"] = str(2 ** 64 - 1) if p["more"] == "big" else str(n + int(p["more"]))
        pk[c], total[c], sent[c] = d, 28 + n, 0
        s = xchg.packet_spec(p)
        u = uuid_of((((p.get("json") or {}).get("o") or {}).get("FileUUID") or {}).get("s", ""))
        s["file"] = file_tok(u) if u else "none"
        spec.append(s)
    ops = [{"op": "station", "as": "S", "echo": True, "callback": g["pk"][0]["cb"] == "y"}]
    tr = []
    def upto(c, p):
        T = total[c]
        return {1: rnd.choice([1, 4, 27, rnd.randint(1, 27)]), 2: 28, 3: T if T <= 29 else rnd.choice([29, T - 1, rnd.randint(29, T - 1)]), 4: T}[p]
    pos = {c: 0 for c in pk}; fin = set(); ended = set(); stopped = False; reset = set()
    whole = lambda c: pos[c] == 4 and "more" not in g["pk"][c - 1] and g["pk"][c - 1]["flag"] == "778682"
    for e in g["ops"]:
        e = dict(e); c = e.get("c"); on = "c%s" % c
        if c in fin and e["e"] in ("push", "shut", "recv"): continue       # a short body was delivered earlier than the schedule thought
        if e["e"] == "dial": ops.append({"op": "dial", "on": "S", "as": on, "packet": pk[c]})
        elif e["e"] == "push":
            to = upto(c, e["p"]) if e["p"] != pos[c] else min(sent[c] + 1, {1: 27, 3: total[c] - 1}.get(e["p"], sent[c]))
            while sent[c] < to:
                k = min(to - sent[c], rnd.choice([1, 3, 28, 1000, 10 ** 9]) if to - sent[c] < 200 else rnd.choice([1000, 10 ** 9]) if to - sent[c] < 20000 else 10 ** 9)
                ops.append({"op": "push", "on": on, "n": str(k), "wait": rnd.choice([0, 0, 1, 5])}); sent[c] += k
            q = 4 if sent[c] == total[c] else 3 if sent[c] > 28 else 2 if sent[c] == 28 else 1
            if q == pos[c] and e["p"] != pos[c]: continue
            pos[c] = e["p"] = q
        elif e["e"] == "shut": ops.append({"op": "shut", "on": on}); ended.add(c)
        elif e["e"] == "hang":
            if e["how"] == "reset": reset.add(c)
            ops.append({"op": "hang", "on": on, "rst": e["how"] == "reset", "wait": rnd.choice([0, 0, 3])})
        elif e["e"] == "stop": ops.append({"op": "stop", "on": "S"}); stopped = True
        elif e["e"] == "recv":
            final = whole(c) or c in ended or stopped or (pos[c] >= 2 and g["pk"][c - 1]["flag"] != "778682")
            if final: fin.add(c)
            ops.append({"op": "recv", "on": on, "ms": 20000 if final else 60})
        tr.append(e)
    # the server still serves
    if not stopped:
        p = {"flag": "778682", "type": "0", "json": {"o": {"Type": {"s": "MVR_LEAVE"}, "FromStationUUID": {"s": "FFEEDDCC-0000-0000-0000-00000000%04X" % rnd.randint(0, 65535)}}}, "cb": g["pk"][0]["cb"]}
        c = len(spec) + 1; on = "c%d" % c
        ops += [{"op": "dial", "on": "S", "as": on, "packet": xchg.packet_out(p, rnd)}, {"op": "push", "on": on}, {"op": "recv", "on": on, "ms": 20000}]
        spec.append(dict(p, file="none")); tr += [{"e": "dial", "c": c}, {"e": "push", "c": c, "p": 4}, {"e": "recv", "c": c}]
    sure = sum(1 for c in pos if whole(c) and c not in reset) + 1 if g["pk"][0]["cb"] == "y" and not stopped else 0
    ops.append({"op": "calls", "on": "S", "atleast": str(sure), "wait": 30})
    tr.append({"e": "calls"})
    return {"case": cid, "ops": ops}, {"pk": spec, "tr": tr}

def observe(cid, m, evs):
    logs = iter(e for e in evs if e["ev"] in ("recv", "calls", "refused"))
    tr = []
    for e in m["tr"]:
        e = dict(e)
        if e["e"] == "recv":
            l = next(logs); e["how"] = l["how"]; e["wire"] = xchg.wire(l["wire"]) if l["ev"] == "recv" else {}
        elif e["e"] == "calls": e["list"] = [xchg.obs(x) for x in next(logs)["list"]]
        tr.append(e)
    return {"id": cid, "pk": m["pk"], "tr": tr}

def corrupt(o, rnd):
    if any(e["e"] == "stop" for e in o["tr"]): return None
    k = [e for e in o["tr"] if e["e"] == "recv" and e["how"] != "timeout" and "json" in e.get("wire", {})]
    l = o["tr"][-1]["list"]
    if l and rnd.random() < 0.4: l.append(l[0]); return "call twice"
    if len(l) > 1 and rnd.random() < 0.5: l.pop(); return "call lost"
    if k: e = rnd.choice(k); e["wire"] = {"short": "0"}; return "answer lost"
    return None

def main(tier):
    C = Check("X02", tier)
    C.model("SessMC", MC % (2, "Spec", "PROPERTIES Live1 Live2\n"))
    if not C.quick: C.model("SessMC", MC % (3, "SafeSpec", ""))
    gs = C.model("SessGen", GEN % (26, "FALSE"), workers=1, simulate=300 if C.quick else 4000, depth=60, seed=check.SEED + 21).msgs
    gs += C.model("SessGen", GEN % (14, "TRUE"), workers=1, simulate=100 if C.quick else 1500, depth=40, seed=check.SEED + 22).msgs
    X = xchg.exe()
    cases = [plan("s%d" % k, g, "%d/%d" % (check.SEED, k)) for k, g in enumerate(gs)]
    good = C.conform(X, "SessTrace", cases, observe, selftest=corrupt, paths=True)
    C.notes["schedules"] = len(cases); C.notes["connections"] = sum(len(o["pk"]) for o in good); C.notes["calls"] = sum(len(o["tr"][-1]["list"]) for o in good)
    C.notes["connections_without_answer"] = sum(1 for o in good for e in o["tr"] if e["e"] == "recv" and e["wire"].get("short") == "0")
    C.samples = [{"tr": [{k: str(v)[:120] for k, v in e.items()} for e in o["tr"]]} for o in good[:2]]
    C.assumptions = ["loopback TCP delivers what was sent before a reset was sent or nothing of what the server has not read yet", "an answer arrives within 20 s"]
    return C.finish()
