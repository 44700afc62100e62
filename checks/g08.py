"""G08: what a mode says about its DMX breaks and how many addresses it takes up in each."""
import check, gdtf
from check import Check, driver

def said(dump): return [{"b": n["f"]["Breaks"], "fp": n["f"]["Footprints"], "none": n["f"]["NoFootprints"].split(), "past": n["f"]["PastBreaks"]} for n in dump if n["c"] == "IGdtfDmxMode"]
def observe(cid, hist, evs):
    e = {x["ev"]: x for x in evs}
    if any(x["ev"] == "op" and x["rc"] for x in evs): raise ValueError("a call failed")
    return {"id": cid, "name": gdtf.NAME, "manu": gdtf.MANU, "uid": gdtf.UID, "ops": gdtf.ops_of(hist), "pre": said(e["pre"]["nodes"]), "post": said(e["post"]["nodes"])}
def corrupt(m, rnd):
    w = m[rnd.choice(["pre", "post"])]
    w = [x for x in w if x["fp"]]
    if not w: return None
    x = rnd.choice(w); k = rnd.randrange(3)
    if k == 0: x["b"] = " ".join(x["b"].split()[1:]); return "break missing"
    if k == 1: x["past"] = "0"; return "a break behind the last"
    x["none"].append("1"); return "footprint of a break it does not have"

def main(tier):
    C = Check("G08", tier)
    for n, small in ((5, "TRUE"), (4, "FALSE")) if C.quick else ((5, "FALSE"), (8, "TRUE")):
        C.model("FootMC", "CONSTANTS\n MaxOps = %d\n Small = %s\nINIT Init\nNEXT Next\nINVARIANTS Complete Bounded Saved\nCHECK_DEADLOCK FALSE\n" % (n, small))
    num, ln, runs = (2500, 60, 1) if C.quick else (12000, 90, 4)
    hs = []
    for s in range(runs):
        hs += C.model("FootGen", "CONSTANT MaxOps = %d\nINIT Init\nNEXT FNext\nCHECK_DEADLOCK FALSE\n" % ln, workers=1, simulate=num, depth=ln + 5, seed=check.SEED + 900 + s).msgs
    good = C.conform(driver(), "FootTrace", [(gdtf.case("h%d" % i, h), h) for i, h in enumerate(hs)], observe, selftest=corrupt)
    C.notes.update(fixtures=len(hs), modes=sum(len(o["pre"]) for o in good), breaks_shown=sum(len(x["b"].split()) for o in good for x in o["pre"]), modes_with_several_breaks=sum(1 for o in good for x in o["pre"] if " " in x["b"]))
    C.samples = [{"case": o["id"], "modes": o["post"]} for o in good[:3]]
    C.assumptions = ["footprints of modes whose references lead to geometries with references are not judged: the format does not say where those are"]
    return C.finish()
