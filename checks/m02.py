"""M02: a reader is shown the scene of a document in whatever equivalent way another program wrote it."""
import zipfile
import check, mvr
from check import Check, driver
import m01

def corrupt(m, rnd):
    n = rnd.choice(m["post"]); fs = [f for f in n["f"] if f in ("Name", "Guid", "Class", "Position", "CustomId", "MultipatchParent") and not n["f"][f].startswith("!") and n["c"] in ("ISceneObj", "IClass", "IPosition", "ISymDef") and (f != "Position" or n["f"]["Type"] == "6")]
    if not fs: return None
    f = rnd.choice(fs); n["f"][f] += "9"; return f

def main(tier):
    C = Check("M02", tier)
    C.model("MvrMC", m01.mc(4, m01.B), coverage=True)
    num, ln = (1500, 40) if C.quick else (9000, 60)
    gs = []
    for s in range(1 if C.quick else 6):
        gs += C.model("MvrDocGen", "CONSTANT MaxOps = %d\nINIT DInit\nNEXT DNext\nCHECK_DEADLOCK FALSE\n" % ln, workers=1, simulate=num if C.quick else num // 6, depth=ln + 5, seed=check.SEED + 100 + s).msgs
    cases = [(mvr.doc_case("d%d" % i, g, ("upper", "lower")[i % 2], i % 3 != 0, (zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED)[i // 2 % 2]), g) for i, g in enumerate(gs)]
    good = C.conform(driver(), "MvrTrace", cases, mvr.doc_observe, selftest=corrupt)
    C.notes["documents"] = len(gs); C.notes["documents_with_dangling_references"] = sum(1 for g in gs if g["gone"])
    C.samples = [{"case": o["id"], "gone": o["gone"], "reader_nodes": [(n["c"], n["f"].get("Name")) for n in o["post"][:10]]} for o in good[:3]]
    C.assumptions = ["documents derive from scenes the API can build; XML is well-formed"]
    return C.finish()
