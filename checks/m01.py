"""M01: what is built through the MVR writing API is what the file says and what a reader is shown."""
import check, mvr
from check import Check, driver

A = "CreateLayerObject CreateGroupObject3 CreateFixture SetClass CreateClassObject CreateSymDefObject AddSymbol SetMultipatchParent".split()
B = "CreateLayerObject CreateFixture CreateFocusPoint CreatePositionObject SetPosition SetFocusPoint AddAdress SetGobo SetGoboRotation AddMapping CreateGroupObject3".split()
def mc(n, ms):
    return """CONSTANTS
 MaxOps = %d
 Methods = {%s}
 StrDom <- SmallStr
 MatDom <- SmallMat
 AddrDom <- OneAddr
 BreakDom <- TwoBreaks
 FileDom <- OneFile
INIT Init
NEXT Next
INVARIANTS Parents WalkOnce References SaveStable Dedup Breaks Losses
PROPERTY Grow
CHECK_DEADLOCK FALSE
""" % (n, ",".join('"%s"' % m for m in ms))

def corrupt(m, rnd):
    """one plausible deviation of the implementation"""
    k = rnd.randrange(5)
    if k == 0 and m["rcs"]:
        j = rnd.randrange(len(m["rcs"])); m["rcs"][j] = "err" if m["rcs"][j] == "ok" else "ok"; return "return code %d" % j
    if k == 1 and len(m["post"]) > 1: del m["post"][rnd.randrange(1, len(m["post"]))]; return "reader node dropped"
    if k == 2:
        n = rnd.choice(m["post"])
        if "Name" in n["f"] and n["f"]["Name"] != "!": n["f"]["Name"] += "x"; return "reader name changed"
    if k == 3 and m["xml"]["k"]: del m["xml"]["k"][-1]; return "xml element dropped"
    if k == 4 and m["xml"]["k"]:
        e = m["xml"]
        while e["k"]: e = e["k"][-1]
        e["x"] += "7"; return "xml text changed"
    return None

def main(tier):
    C = Check("M01", tier)
    for n, ms in (((4, A), (4, B)) if C.quick else ((5, A), (5, B))): C.model("MvrMC", mc(n, ms), coverage=True)
    num, ln = (1200, 40) if C.quick else (9000, 60)
    hs = []
    for s in range(1 if C.quick else 6):
        r = C.model("MvrGen", "CONSTANT MaxOps = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" % ln, workers=1, simulate=num if C.quick else num // 6, depth=ln + 5, seed=check.SEED + s)
        hs += r.msgs
    cases = [(mvr.case("h%d" % i, h), h) for i, h in enumerate(hs)]
    good = C.conform(driver(), "MvrTrace", cases, mvr.observe, selftest=corrupt)
    cnt = {}
    for h in hs:
        for o in h: cnt[o["m"]] = cnt.get(o["m"], 0) + 1
    C.notes["calls_by_method"] = cnt
    C.notes["histories"] = len(hs); C.notes["calls_per_history"] = ln
    C.samples = [{"case": o["id"], "calls": ["%s(%s) on n%d" % (x["m"], ",".join(x["a"]), x["on"]) for x in o["ops"][:12]], "reader_nodes": len(o["post"])} for o in good[:3]]
    C.assumptions = ["numbers are exchanged as decimal text with at most 10 significant digits", "order of XML elements is compared per element name"]
    return C.finish()
