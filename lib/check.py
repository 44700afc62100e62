"""Common frame of every check: build, run, judge, evidence, known findings, verdict."""
import json, os, sys, time, subprocess, tempfile, shutil, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, tlc

VERIF = build.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

def driver(asan=False):
    gen = os.path.join(build.CACHE, "reflect_gen.inc")
    os.makedirs(build.CACHE, exist_ok=True)
    tmp = gen + ".%d" % os.getpid()
    subprocess.run([sys.executable, os.path.join(VERIF, "harness/gen_reflect.py"), build.REPO + "/src/Include/IMediaRessourceVectorInterface.h", tmp], check=True, capture_output=True)
    if not os.path.exists(gen) or open(gen).read() != open(tmp).read(): os.replace(tmp, gen)
    else: os.unlink(tmp)
    flags = ["-fsanitize=address", "-DVH_ASAN"] if asan else []
    return build.build("driver_asan" if asan else "driver", [os.path.join(VERIF, "harness/driver.cpp")], flags, generated=[gen])

def scratch():
    d = tempfile.mkdtemp(prefix="vchk_"); os.chmod(d, 0o711); return d

def run_cases(exe, cases, jobs=8, timeout=840):
    """cases: list of {"case": id, "ops": [...]} -> {id: [events]}"""
    d = scratch()
    try:
        cp, op = os.path.join(d, "c.jsonl"), os.path.join(d, "o.jsonl")
        with open(cp, "w") as f:
            for c in cases: f.write(json.dumps(c) + "\n")
        env = dict(os.environ); env["VH_TMP"] = d; env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=2000"
        subprocess.run([exe, cp, op, str(jobs)], check=True, env=env, timeout=timeout)
        out = {c["case"]: [] for c in cases}
        with open(op) as f:
            for l in f:
                e = json.loads(l); out[e.pop("case")].append(e)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def ended(evs):
    """None when the case ran to its end, else what stopped it"""
    for e in evs:
        if e["ev"] in ("crash", "hang", "exception", "badop"): return e
    return None if evs and any(e["ev"] == "end" for e in evs) else {"ev": "lost"}

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.quick = tier != "thorough"
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.rejections, self.actions = [], {}, [], {}
        self.assumptions = []
        kf = os.path.join(VERIF, "known_findings.txt")
        self.known = []
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l.startswith("{"):
                    k = json.loads(l)
                    if k["property"] == pid and k.get("status") == "open": self.known.append(k)
        self.tmp = scratch()

    def model(self, module, cfg, **kw):
        """exhaustive or simulated model checking of the specification itself"""
        r = tlc.run(module, cfg, **kw)
        self.states += r.distinct; self.transitions += r.generated
        for a, n in r.coverage.items(): self.actions[module + "." + a] = self.actions.get(module + "." + a, 0) + n
        return r

    def validate(self, module, cases, cfg=None, chunk=4000, paths=False, **kw):
        """trace validation: every recorded case must be accepted; returns {id: rejection}
        paths: the specification has several behaviours per case, one that explains the whole case accepts it"""
        bad = {}
        for k in range(0, len(cases), chunk):
            part = cases[k:k + chunk]
            p = os.path.join(self.tmp, "cases.json")
            with open(p, "w") as f: json.dump(part, f)
            r = tlc.run(module, cfg or "INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n", env={"CASES": p}, **kw)
            self.states += r.distinct; self.transitions += r.generated
            seen, far = {}, {}
            for m in r.msgs: 
                if isinstance(m, dict) and "at" in m: far[m["id"]] = max(far.get(m["id"], 0), m["at"])
                if isinstance(m, dict) and "v" in m: seen[m["id"]] = m
            for c in part:
                m = seen.get(c["id"])
                if paths and m is None: m = {"v": "REJ", "why": {"no behaviour explains event": c["tr"][far.get(c["id"], 0)], "number": far.get(c["id"], 0)}}
                if m is None: raise tlc.TLCError("no verdict for case %s" % c["id"])
                if m["v"] == "OK": self.traces += 1
                else: bad[c["id"]] = m["why"]
        return bad

    def conform(self, exe, module, cases, observe, cfg=None, selftest=None, jobs=8, **kw):
        """cases: list of (driver_case, meta). Runs the real code, records, validates against the specification.
        A rejected case is run again before it is reported. Returns the accepted trace cases."""
        def go(part):
            res = run_cases(exe, [c for c, _ in part], jobs)
            obs, bad = [], {}
            for c, meta in part:
                b = ended(res[c["case"]])
                if res[c["case"]] and res[c["case"]][0]["ev"] == "skipped": continue
                if b: bad[c["case"]] = {"at": "the real code stopped", "event": b}; continue
                try: obs.append(observe(c["case"], meta, res[c["case"]]))
                except Exception as x: bad[c["case"]] = {"at": "unreadable output", "error": repr(x)[:300]}
            before = self.traces
            if obs: bad.update(self.validate(module, obs, cfg, **kw))
            return obs, bad
        obs, bad = go(cases)
        if bad:
            again = [x for x in cases if x[0]["case"] in bad]
            again = again[:12 if any(isinstance(b, dict) and isinstance(b.get("event"), dict) and b["event"].get("ev") == "hang" for b in bad.values()) else 40]
            t = self.traces
            _, bad2 = go(again)
            self.traces = t
            if not bad2:
                again = again * 1
                _, bad2 = go(again); self.traces = t
            ob = {o["id"]: o for o in obs}
            for c, meta in again:
                cid = c["case"]
                if cid in bad2: self.reject(cid, bad2[cid], {"module": module, "driver": c, "trace": ob.get(cid)})
            self.notes["rejected_first_run"] = self.notes.get("rejected_first_run", 0) + len(bad)
        good = [o for o in obs if o["id"] not in bad]
        if selftest and good:
            self.selftest(module, good, selftest, cfg, **kw)
        return good

    def selftest(self, module, good, mutate, cfg=None, **kw):
        """the validator must reject corrupted traces, or its acceptance means nothing"""
        import copy, random
        rnd = random.Random(SEED)
        muts = []
        for k in range(40):
            m = copy.deepcopy(rnd.choice(good)); what = mutate(m, rnd)
            if what: m["id"] = "self%d" % k; muts.append((m, what))
        t = self.traces
        bad = self.validate(module, [m for m, _ in muts], cfg, **kw) if muts else {}
        self.traces = t
        missed = [w for m, w in muts if m["id"] not in bad]
        self.notes["corrupted_traces_rejected"] = self.notes.get("corrupted_traces_rejected", 0) + len(bad)
        if missed: raise RuntimeError("%s accepts corrupted traces: %s" % (module, missed[:5]))

    def reject(self, cid, why, replay):
        self.rejections.append((cid, why, replay))

    def finish(self, level="model_checking", extra=None):
        outd = os.path.join(VERIF, "out", self.pid)
        shutil.rmtree(outd, ignore_errors=True)
        viol, hit = [], set()
        for cid, why, replay in self.rejections:
            k = next((k for k in self.known if k["case"] == cid), None)
            if k: hit.add(k["case"]); continue
            os.makedirs(outd, exist_ok=True)
            name = "".join(ch if ch.isalnum() or ch in "-_." else "_" for ch in str(cid))[:80]
            p = os.path.join(outd, name + ".json")
            with open(p, "w") as f: json.dump({"property": self.pid, "case": cid, "why": why, "replay": replay}, f, indent=1)
            viol.append((cid, p, why))
        for k in self.known:
            if k["case"] in hit: print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "samples": self.samples[:3]}
        cov.update(self.notes)
        if self.actions: cov["actions"] = self.actions
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for cid, p, why in viol[:20]:
            print("  rejected %s: %s" % (cid, json.dumps(why)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if not viol: print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 1 if viol else 0
