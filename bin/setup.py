#!/usr/bin/env python3
"""setup_cmd: nothing is installed; parses every specification and checks the tools are there."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib"); sys.dont_write_bytecode = True
import tlc
ok = True
for f in sorted(glob.glob(V + "/spec/*.tla")):
    p = subprocess.run(["java", "-cp", tlc.CP, "tla2sany.SANY", os.path.basename(f)], capture_output=True, text=True, cwd=V + "/spec")
    if p.returncode or "*** Errors" in p.stdout or "Fatal" in p.stdout: ok = False; print(f, p.stdout[-2000:])
print("specifications parsed" if ok else "specification errors")
sys.exit(0 if ok else 1)
