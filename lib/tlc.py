"""Runs TLC and reads what the specification printed ("@@" + JSON lines)."""
import json, os, re, subprocess, shutil, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TLCError(Exception):
    pass

class Result:
    def __init__(s): s.out = ""; s.msgs = []; s.generated = 0; s.distinct = 0; s.violated = None; s.coverage = {}

def run(module, cfg, workers=8, simulate=None, depth=None, seed=None, env=None, timeout=600, xmx="6g", coverage=False, ok_violation=False):
    """cfg: text of the configuration. Returns Result; raises TLCError on any failure of TLC or of the model."""
    tmp = tempfile.mkdtemp(prefix="vtlc_")
    try:
        cfgp = os.path.join(tmp, module + ".cfg")
        with open(cfgp, "w") as f: f.write(cfg)
        cmd = ["java", "-Xss64m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp, "-cp", CP, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-config", cfgp, "-metadir", os.path.join(tmp, "m"), "-workers", str(workers)]
        if simulate: cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
        if seed is not None: cmd += ["-seed", str(seed)]
        if coverage: cmd += ["-coverage", "1"]
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ); e.update(env or {})
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC timed out on " + module)
        r = Result(); r.out = p.stdout + p.stderr
        for line in p.stdout.splitlines():
            if line.startswith('"@@'):
                try: r.msgs.append(json.loads(json.loads(line)[2:]))
                except ValueError: raise TLCError("bad message: " + line[:300])
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
        if m: r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"The number of states generated: ([\d,]+)", p.stdout)
        if m: r.generated = int(m[-1].replace(",", "")); r.distinct = r.generated
        if coverage:
            for a, d, g in re.findall(r"^<(\w+) line .*?>: (\d+):(\d+)", p.stdout, re.M): r.coverage[a] = int(g)
        v = re.search(r"(Invariant|Property|Action property) (\S+) is violated|Temporal properties were violated", p.stdout)
        if v: r.violated = v.group(0)
        if p.returncode != 0 and not (v and ok_violation):
            ls = [l for l in r.out.splitlines() if not l.startswith(('"@@', "Parsing", "Semantic", "Linting"))]
            k = next((n for n, l in enumerate(ls) if l.startswith("Error:")), 0)
            raise TLCError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, "\n".join(l[:500] for l in ls[k:k + 40])))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
