"""G05: the report of a reader names exactly what is wrong with a document, and where."""
import zipfile, xml.parsers.expat
import check, gdtf
from mvr import xml_text, archive
from check import Check, driver

def text(g, style, pretty): return '<?xml version="1.0" encoding="UTF-8"?>' + xml_text(g["xml"], style, 0, pretty)
def places(x):
    at = []; p = xml.parsers.expat.ParserCreate()
    p.StartElementHandler = lambda t, a: at.append(p.CurrentLineNumber)
    p.Parse(x.encode(), True); return at
def form(i): return ("upper", "lower")[i % 2], i % 4 != 0
def case(i, g, path="$HOME/d.gdtf"):
    return {"case": "e%d" % i, "ops": [{"op": "put", "path": path, "hex": archive([("description.xml", text(g, *form(i)).encode())], zipfile.ZIP_DEFLATED)}] + gdtf.reader(path)}
def clean(e): return dict(e, a=e["a"] or {}, k=[clean(c) for c in e["k"]])
def observe(cid, g, evs):
    post = [e["nodes"] for e in evs if e["ev"] == "post"][0]
    said = [{"t": int(f["ErrorType"]), "tag": f["NodeName"], "name": f["ObjectName"], "m": f["ErrorMessage"], "at": int(f["LineAndColumnNumber"].split(",")[0])} for f in (gdtf.dec_all(f) for f in gdtf.errors(post))]
    return {"id": cid, "nums": g["nums"], "res": g["res"], "xml": clean(g["xml"]), "at": places(text(g, *form(int(cid[1:])))), "said": said}
def corrupt(m, rnd):
    if not m["said"]: m["said"].append({"t": 1, "tag": "GDTF", "name": "", "m": "x", "at": 1}); return "made up"
    k = rnd.randrange(3); s = rnd.choice(m["said"])
    if k == 0: m["said"] = [x for x in m["said"] if x != s]; return "kept back"
    if k == 1: s["at"] += 1; return "elsewhere"
    s["t"] += 1; return "something else"

def main(tier):
    C = Check("G05", tier)
    one = C.model("GdtfErrAll", "CONSTANT Pairs = %d\nINIT AInit\nNEXT ANext\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n" % (1 if C.quick else 20), workers=1, seed=check.SEED + 1300).msgs
    num, ln, runs = (400, 60, 1) if C.quick else (6000, 90, 4)
    gs = []
    for s in range(runs):
        gs += C.model("GdtfErrGen", "CONSTANT MaxOps = %d\nINIT DInit\nNEXT ENext\nCHECK_DEADLOCK FALSE\n" % ln, workers=1, simulate=num, depth=ln + 5, seed=check.SEED + 1200 + s).msgs
    good = C.conform(driver(), "GdtfErrTrace", [(case(i, g), g) for i, g in enumerate(one + gs)], observe, selftest=corrupt)
    C.notes.update(documents=len(one) + len(gs), single_mistakes=sum(1 for g in one if len(g["edits"]) == 1), pairs_of_mistakes=sum(1 for g in one if len(g["edits"]) == 2), random_documents=len(gs),
                   entries=sum(len(o["said"]) for o in good), documents_with_nothing_wrong=sum(1 for o in good if not o["said"]), kinds=sorted({s["t"] for o in good for s in o["said"]}))
    C.samples = [{"case": o["id"], "report": o["said"][:5]} for o in good[1:4000:700]]
    C.assumptions = ["documents are well-formed XML in which elements that something can refer to have a name", "every document is read by one reader in a fresh process state"]
    return C.finish()
