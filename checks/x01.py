"""X01: messages survive the wire; packages that are wrong are refused."""
import random
import check, xchg
from check import Check

MC = "INIT Init\nNEXT Next\nINVARIANTS RoundTrip Refuses Ids0\nCHECK_DEADLOCK FALSE\n"
def case(cid, g, rnd):
    if g["k"] == "enc": return {"case": cid, "ops": [{"op": "encode", "msg": xchg.msg_out(g["msg"])}]}
    return {"case": cid, "ops": [{"op": "decode", "packet": xchg.packet_out(g["packet"], rnd)}]}
def observe(cid, g, evs):
    e = {x["ev"]: x for x in evs}
    if g["k"] == "enc": return {"id": cid, "k": "enc", "msg": xchg.msg_spec(g["msg"]), "wire": xchg.wire(e["encode"]["wire"]), "dec": xchg.obs(e["decoded"]["msg"]), "header": e["decoded"]["header"]}
    return {"id": cid, "k": "dec", "packet": xchg.packet_spec(g["packet"]), "dec": xchg.obs(e["decode"]["msg"]), "header": e["decode"]["header"]}
def corrupt(m, rnd):
    d = m["dec"]
    if d["ok"] == "true":
        fs = [f for f in d if f not in ("err", "commits", "from", "for") and not (f == "st" and False)]
        f = rnd.choice(fs); d[f] = {"ok": "false", "t": "LEAVE_RET" if d["t"] != "LEAVE_RET" else "JOIN"}.get(f, d[f] + "1"); return f
    if m["k"] == "dec": d["ok"] = "true"; return "ok"
    return None

def main(tier):
    C = Check("X01", tier)
    C.model("XchgMC", MC)
    num = 3000 if C.quick else 40000
    gs = C.model("XchgGen", "CONSTANT Count = %d\nINIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n" % num, workers=1, simulate=1, depth=num + 5, seed=check.SEED + 11).msgs
    # files around the size the receiving buffer starts with
    big = [{"k": "enc", "msg": {"t": "REQUEST_RET", "ok": "true", "err": "", "buf": "%d:x%d" % (n, i)}} for i, n in enumerate([31457252, 31457279, 31457280, 31500000] if C.quick else list(range(31457248, 31457284, 2)) + [40000000, 70000001])]
    rnd = random.Random(check.SEED)
    X = xchg.exe()
    cases = [(case("m%d" % i, g, rnd), g) for i, g in enumerate(gs + big)]
    good = C.conform(X, "XchgTrace", cases, observe, selftest=corrupt)
    C.notes["messages_sent"] = sum(1 for g in gs if g["k"] == "enc"); C.notes["packages_read"] = sum(1 for g in gs if g["k"] == "dec"); C.notes["packages_refused"] = sum(1 for o in good if o["dec"]["ok"] != "true")
    C.samples = [{k: str(v)[:300] for k, v in o.items()} for o in good[:3]]
    C.assumptions = ["texts without NUL bytes; numbers are non-negative integers of their range"]
    return C.finish()
