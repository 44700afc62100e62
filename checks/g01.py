"""G01: what is built through the GDTF writing API is what the file says and what a reader is shown."""
import check, gdtf
from check import Check, driver

def mc(focus, n):
    return 'CONSTANTS\n MaxOps = %d\n Focus = "%s"\nINIT Init\nNEXT Next\nINVARIANTS SavedFine Distinct\nCHECK_DEADLOCK FALSE\n' % (n, focus)
def models(C, depths):
    for f, n in depths: C.model("GdtfMC", mc(f, n))
    C.notes["model_depths"] = dict(depths)

def deep(e):
    while e["k"]: e = e["k"][-1]
    return e
def corrupt(m, rnd):
    """one plausible deviation of the implementation"""
    k = rnd.randrange(5)
    if k == 0 and m["rcs"]: m["rcs"][rnd.randrange(len(m["rcs"]))] = "err"; return "return code"
    if k == 1 and len(m["post"]) > 1: del m["post"][rnd.randrange(1, len(m["post"]))]; return "reader node dropped"
    if k == 2:
        n = rnd.choice(m["post"]); fs = [f for f, v in n["f"].items() if v.startswith("@") and v != "@0" and f in ("Model", "Geometry", "Attribute", "Feature", "ParentLogicalChannel")]
        if fs and not (n["c"] == "IGdtfGeometry" and fs[0] == "Geometry"): n["f"][fs[0]] = "@" + str(int(n["f"][fs[0]][1:]) + 1); return "reference " + fs[0]
    if k == 3: m["xml"]["k"][0]["k"].pop(); return "xml element dropped"
    if k == 4:
        e = deep(m["xml"]); e["a"]["Extra"] = "1"; return "xml attribute added"
    return None

def main(tier):
    C = Check("G01", tier)
    models(C, (("dmx", 3), ("geo", 4), ("attr", 4)) if C.quick else (("dmx", 5), ("geo", 6), ("attr", 6)))
    num, ln, runs = (700, 80, 1) if C.quick else (4000, 120, 5)
    hs = []
    for s in range(runs):
        hs += C.model("GdtfGen", "CONSTANT MaxOps = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" % ln, workers=1, simulate=num, depth=ln + 5, seed=check.SEED + s).msgs
    bg = C.model("GdtfBig", "CONSTANT MaxOps = %d\nINIT Init\nNEXT BNext\nCHECK_DEADLOCK FALSE\n" % ln, workers=1, simulate=60 if C.quick else 600, depth=ln + 5, seed=check.SEED + 500).msgs
    C.notes["big_fixtures"] = {"number": len(bg), "calls_up_to": max(len(h) for h in bg)}
    hs += bg
    cases = [(gdtf.case("h%d" % i, h), h) for i, h in enumerate(hs)]
    good = C.conform(driver(), "GdtfTrace", cases, gdtf.observe, selftest=corrupt)
    cnt, cls = {}, {}
    for h in hs:
        for o in h: cnt[o["m"]] = cnt.get(o["m"], 0) + 1; cls[o["c"]] = cls.get(o["c"], 0) + 1
    C.notes.update(calls_by_method=cnt, created_by_class={k: v for k, v in cls.items() if k}, histories=len(hs), tries_per_history=ln)
    C.samples = [{"case": o["id"], "calls": ["%s(%s) on n%d" % (x["m"], ",".join(x["a"]), x["on"]) for x in o["ops"][:12]], "reader_nodes": len(o["post"])} for o in good[:3]]
    C.assumptions = ["numbers are exchanged as decimal text with at most 10 significant digits", "names consist of characters the format allows", "order of XML elements is compared per element name"]
    return C.finish()
