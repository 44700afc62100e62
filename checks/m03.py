"""M03: every file that a writer is given travels in the MVR archive, and a reader gets exactly those back."""
import check, files
from check import Check, driver

def corrupt(m, rnd):
    k = rnd.randrange(4)
    if k == 0 and len(m["members"]) > 1: del m["members"][-1]; return "member lost"
    if k == 1 and m["readers"][0]["files"]: m["readers"][0]["files"][0]["d"] = "?"; return "content of a file"
    if k == 2 and m["readers"][0]["files"]: m["readers"][-1]["files"][0]["n"][1] += "x"; return "name of a file"
    if k == 3: m["readers"][0]["left"] += 1; return "file left behind"
    return None

def gen(C, kinds, num, ln, seed):
    r = C.model("FilesGen", "CONSTANTS\n MaxOps = %d\n Kinds = {%s}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" % (ln, ",".join('"%s"' % k for k in kinds)), workers=1, simulate=num, depth=ln + 5, seed=seed)
    return r.msgs

def main(tier, pid="M03", kinds=("mvr",)):
    C = Check(pid, tier)
    C.model("FilesMC", mc(kinds, 3 if C.quick else 4))
    num, ln = (500, 14) if C.quick else (6000, 24)
    gs = []
    for s in range(1 if C.quick else 4): gs += gen(C, kinds, num if C.quick else num // 4, ln, check.SEED + s)
    cases = [(files.case("f%d" % i, g), g) for i, g in enumerate(gs)]
    good = C.conform(driver(), "FilesTrace", cases, files.observe, selftest=corrupt)
    cnt = {}
    for g in gs:
        for o in g["ops"]: cnt[o["m"]] = cnt.get(o["m"], 0) + 1
    C.notes.update({"calls_by_kind": cnt, "histories": len(gs), "members_read_back": sum(len(r["files"]) for o in good for r in o["readers"])})
    C.samples = [{"case": o["id"], "calls": ["%s %s%s" % (x["m"], x["dir"], x["n"]) for x in o["ops"]], "members": o["members"][:8]} for o in good[:3]]
    C.assumptions = ["one program at a time uses the library's working folder"]
    return C.finish()

def mc(kinds, n): return """CONSTANTS
 MaxOps = %d
 Kinds = {%s}
INIT Init
NEXT Next
INVARIANTS Unique Complete Faithful ShownRight
CHECK_DEADLOCK FALSE
""" % (n, ",".join('"%s"' % k for k in kinds))
