"""Z02: whatever the members of an archive and the fixture types of a scene are called, nothing outside of the library's working folders is created, changed or removed."""
import check, contain
from check import Check, driver

def corrupt(m, rnd):
    r = rnd.choice(m["reads"]); k = rnd.randrange(2)
    if k == 0: r["strayed"] = ["l1/x"]; return "a file outside"
    for r in m["reads"]:
        for i, n in enumerate(r["names"]):
            if r["sound"][i] and n["lead"] == "" and n["sep"] == "/" and not set(n["segs"]) & {"", ".", ".."}: r["sound"][i] = False; return "an ordinary file lost"
    return None

def main(tier):
    C = Check("Z02", tier)
    C.model("ContainMC", "CONSTANTS\n MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANTS Contained FileContained FlatContained OrdinaryPasses\nCHECK_DEADLOCK FALSE\n" % (5 if C.quick else 7))
    gs = []
    for s in range(1 if C.quick else 3):
        gs += C.model("ContainGen", "CONSTANTS\n MaxReads = 3\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", workers=1, simulate=500 if C.quick else 4000, depth=8, seed=check.SEED + s).msgs
    cases = [(contain.case("n%d" % i, g), g) for i, g in enumerate(gs)]
    good = C.conform(driver(), "ContainTrace", cases, contain.observe, selftest=corrupt)
    C.notes.update({"names": sum(len(r["names"]) for g in gs for r in g["reads"]), "names that lead out": sum(".." in n["segs"] for g in gs for r in g["reads"] for n in r["names"]),
                    "files handed out": sum(sum(r["sound"]) for o in good for r in o["reads"])})
    C.samples = [{"case": "n%d" % i, "names": [contain.text(n) for r in g["reads"] for n in r["names"]][:8]} for i, g in enumerate(gs[:3])]
    C.assumptions = ["every case runs five folders deep in a scratch folder as an unprivileged user, with at most four '..' in a name"]
    return C.finish()
