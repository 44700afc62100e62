"""Z01: a reader hands out exactly the sound members of any archive, however it is laid out or damaged, and refuses one without description."""
import check, arch, build
from check import Check, driver

def corrupt(m, rnd):
    rs = [r for r in m["reads"] if not r["flips"] and r["rc"] == "ok"]
    if not rs: return None
    r = rnd.choice(rs); k = rnd.randrange(4)
    if k == 0: r["rc"] = "err1"; return "result"
    if k == 1 and r["files"]: del r["files"][-1]; return "file lost"
    if k == 2 and r["files"]: r["files"][0]["d"] = "?"; return "content"
    if k == 3: r["title"] += "x"; return "description"
    return None

MC = """CONSTANTS
 MaxMs = %d
 Faults = {%s}
 Hows = {%s}
 Lens = {%s}
INIT Init
NEXT Next
INVARIANTS WalkIsMeaning Subset NoDoubles LayoutFree
CHECK_DEADLOCK FALSE
"""
def main(tier):
    C = Check("Z01", tier)
    q = lambda *x: ",".join('"%s"' % y for y in x)
    if C.quick:
        C.model("ArchMC", MC % (1, q("none", "local", "beyond", "long", "garbage", "nosig", "longname"), q("stored", "bzip2"), "0,1"))
        C.model("ArchMC", MC % (2, q("none", "local", "nosig"), q("stored"), "0"))
    else:
        C.model("ArchMC", MC % (2, q("none", "local", "beyond", "long", "garbage", "nosig", "longname"), q("stored", "bzip2"), "0"))
        C.model("ArchMC", MC % (2, q("none", "beyond"), q("stored"), "0,1"))
    gs = []
    for s in range(1 if C.quick else 3):
        gs += C.model("ArchGen", "CONSTANTS\n MaxReads = 3\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", workers=1, simulate=700 if C.quick else 6000, depth=8, seed=check.SEED + s).msgs
    cases = [(arch.case("a%d" % i, g), g) for i, g in enumerate(gs)]
    good = C.conform(driver(True), "ArchTrace", cases, arch.observe, selftest=corrupt)
    cnt = {"reads": 0, "refused": 0, "sound": 0, "faults": 0, "flipped": 0, "files handed out": 0}
    for g, o in zip(gs, good):
        for r in g["reads"]: cnt["reads"] += 1; cnt["sound"] += arch.sane(r); cnt["flipped"] += r["flips"] > 0; cnt["faults"] += sum(m["fault"] != "none" for m in r["a"]["ms"])
        for r in o["reads"]: cnt["refused"] += r["rc"] != "ok"; cnt["files handed out"] += len(r["files"])
    C.notes.update(cnt)
    C.samples = [{"case": o["id"], "reads": [{"kind": r["kind"], "end": r["a"]["end"], "members": ["%s%s %s %s" % (m["n"][0], m["n"][1], m["how"], m["fault"]) for m in r["a"]["ms"]], "rc": r["rc"], "files": len(r["files"])} for r in o["reads"]]} for o in good[:2]]
    C.assumptions = ["run with AddressSanitizer: a read or write outside of a buffer ends the case", "member contents damaged without breaking the compression are out of scope: the reader does not compare checksums"]
    return C.finish()
