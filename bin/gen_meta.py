#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification: TLC model checking, TLC-generated histories replayed into the real library, TLC trace validation"
P = []
def prop(pid, title, statement, over, text, why, files, mech, built=True, note="", tech=T, level="model_checking", na=""):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, built=built, note=note, tech=tech, level=level, na=na))

NOTE = ("Exhaustive on the specification for the small constants named in the evidence; the real code is judged on the histories generated from the "
        "specification, each validated call by call by TLC. Trusts: the driver, the XML/zip reading of Python, TLC.")

exec(open(os.path.join(V, "bin", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "LIBMVRGDTF_VERIF", "enable": "the checks compile /repo's sources themselves with -DLIBMVRGDTF_VERIF (lib/build.py)", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 checks/run.py %s quick" % p["id"], "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"], "level_note": p["note"] or NOTE} for p in P if p["built"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if not p["built"]]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
