"""G02: a reader is shown the fixture of a document in whatever equivalent way another program wrote it."""
import zipfile
import check, gdtf, g01
from check import Check, driver

def corrupt(m, rnd):
    n = rnd.choice(m["post"])
    if rnd.randrange(2) and len(m["post"]) > 2: m["post"].remove(n) if n["p"] else None; return "node" if n["p"] else None
    fs = [f for f, v in n["f"].items() if f in ("Name", "Pretty", "DmxBreak", "PhysicalUnit", "StartAddress", "EndAddress") and v != "!"]
    if not fs or n["c"] == "IGdtfColorSpace": return None
    n["f"][fs[0]] += "9"; return fs[0]

def main(tier):
    C = Check("G02", tier)
    g01.models(C, (("dmx", 3), ("attr", 3)) if C.quick else (("dmx", 4), ("geo", 5), ("attr", 5)))
    num, ln, runs = (900, 70, 1) if C.quick else (4000, 110, 5)
    gs = []
    for s in range(runs):
        gs += C.model("GdtfDocGen", "CONSTANT MaxOps = %d\nINIT DInit\nNEXT DNext\nCHECK_DEADLOCK FALSE\n" % ln, workers=1, simulate=num, depth=ln + 5, seed=check.SEED + 200 + s).msgs
    bg = C.model("GdtfBigDoc", "CONSTANT MaxOps = %d\nINIT DInit\nNEXT DNext\nCHECK_DEADLOCK FALSE\n" % ln, workers=1, simulate=100 if C.quick else 1000, depth=ln + 5, seed=check.SEED + 700).msgs
    C.notes["big_fixtures"] = {"number": len(bg), "calls_up_to": max(len(g["ops"]) for g in bg)}
    gs += bg
    cases = [(gdtf.doc_case("d%d" % i, g, ("upper", "lower")[i % 2], i % 3 != 0, (zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED)[i // 2 % 2], case=i % 5 != 0), g) for i, g in enumerate(gs)]
    good = C.conform(driver(), "GdtfTrace", cases, gdtf.doc_observe, selftest=corrupt)
    C.notes.update(documents=len(gs), documents_with_dangling_references=sum(1 for g in gs if g["gone"]), documents_without_fillers=sum(1 for g in gs if not g["fill"]))
    C.samples = [{"case": o["id"], "gone": o["gone"], "fill": o["fill"], "reader_nodes": [(n["c"], n["f"].get("Name")) for n in o["post"][:10]]} for o in good[:3]]
    C.assumptions = ["documents derive from fixtures the API can build; XML is well-formed"]
    return C.finish()
