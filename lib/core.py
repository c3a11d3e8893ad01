"""Orchestration shared by all checks: runs TLC (model checking, behaviour
generation, trace validation) and the harness drivers (which execute the real
code of /repo), collects coverage, and reports."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/pypyvenv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def driver_env(extra=None):
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO + ":" + os.path.join(VERIF, "harness"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONWARNINGS="ignore")
    if extra:
        e.update({k: str(v) for k, v in extra.items()})
    return e


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.states = self.transitions = self.traces = self.steps = self.behaviours = 0
        self.samples, self.failures, self.mc_runs, self.notes = [], [], [], []
        self.exhaustive = []
        self.n = 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env=None, workers=4, heap="3g", timeout=600, args=()):
        self.n += 1
        d = tempfile.mkdtemp(prefix="tlc%d_" % self.n, dir=self.work)
        cfgp = os.path.join(d, "M.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.setdefault("GEN_DEPTH", "0")
        e.setdefault("TRACES", "/dev/null")
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:ParallelGCThreads=4",
               "-cp", JARS, "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(d, "md"),
               "-workers", str(workers), "-noGenerateSpecTE", "-deadlock"] + list(args) + \
              [os.path.join(VERIF, "specs", module + ".tla")]
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as fo:
            try:
                rc = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, timeout=timeout,
                                    cwd=os.path.join(VERIF, "specs")).returncode
            except subprocess.TimeoutExpired:
                rc = -9
        with open(outp, errors="replace") as f:
            out = f.read()
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m2 = re.findall(r"The number of states generated: (\d+)", out)
            if m2:
                gen = int(m2[-1])
        return {"rc": rc, "out": out, "generated": gen, "distinct": dist}

    def mc(self, module, spec="GSpec", invariants=(), properties=(), constants="", env=None, workers=4, heap="4g",
           timeout=800, constraint=None, label=None, action_constraint=None):
        """Exhaustive model checking of a specification (independent of /repo)."""
        cfg = "SPECIFICATION %s\n%s\n" % (spec, constants)
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        for p in properties:
            cfg += "PROPERTY %s\n" % p
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        if action_constraint:
            cfg += "ACTION_CONSTRAINT %s\n" % action_constraint
        r = self._tlc(module, cfg, env, workers, heap, timeout)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise MachineryError("model checking %s failed (rc %s):\n%s" % (module, r["rc"], r["out"][-3000:]))
        if r["distinct"] < 2:
            raise MachineryError("vacuous model: %s" % module)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.mc_runs.append({"module": label or module, "distinct_states": r["distinct"], "states_generated": r["generated"],
                             "invariants": list(invariants), "properties": list(properties), "complete": True})
        return r

    def gen(self, module, depth, spec="HSpec", constants="", num=None, env=None, workers=4, heap="4g", timeout=600,
            seed=None, limit=None, label=None):
        """Behaviours of the specification: exhaustive to `depth` (num None) or `num` random simulations."""
        cfg = "SPECIFICATION %s\n%s\n" % (spec, constants)
        e = {"GEN_DEPTH": depth}
        e.update(env or {})
        args = []
        if num is not None:
            args = ["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(self.seed if seed is None else seed)]
            workers = 1
        r = self._tlc(module, cfg, e, workers, heap, timeout, args)
        if "Error:" in r["out"] or r["rc"] not in (0,):
            raise MachineryError("behaviour generation %s failed (rc %s):\n%s" % (module, r["rc"], r["out"][-3000:]))
        res, seen = [], set()
        for line in r["out"].splitlines():
            if line.startswith('"BEHAVIOUR '):
                txt = json.loads(line)[len("BEHAVIOUR "):]
                if txt not in seen:
                    seen.add(txt)
                    res.append(json.loads(txt))
        if not res:
            raise MachineryError("no behaviours generated from %s" % module)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.mc_runs.append({"module": (label or module) + (" (simulation)" if num is not None else " (all behaviours)"),
                             "depth": depth, "distinct_behaviours": len(res), "states_generated": r["generated"]})
        if limit and len(res) > limit:
            step = len(res) / float(limit)
            res = [res[int(k * step)] for k in range(limit)]
        self.behaviours += len(res)
        return res

    # ------------------------------------------------------------- driver
    def drive(self, script, mode, args=None, behaviours=None, timeout=800):
        """Run a harness driver on the real code; returns list of trace files (one per group).
        Driver writes <out>/<name>.json, each a JSON array of traces."""
        self.n += 1
        out = tempfile.mkdtemp(prefix="drv%d_" % self.n, dir=self.work)
        spec = {"mode": mode, "seed": self.seed, "tier": self.tier, "out": out, "args": args or {}}
        if behaviours is not None:
            spec["behaviours"] = behaviours
        sp = os.path.join(out, "_job.json")
        with open(sp, "w") as f:
            json.dump(spec, f)
        logp = os.path.join(out, "_log.txt")
        with open(logp, "w") as fo:
            try:
                rc = subprocess.run([PY, os.path.join(VERIF, "harness", script + ".py"), sp], stdout=fo,
                                    stderr=subprocess.STDOUT, env=driver_env(), timeout=timeout, cwd=out).returncode
            except subprocess.TimeoutExpired:
                rc = -9
        if rc != 0:
            with open(logp, errors="replace") as f:
                log = f.read()
            raise DriverDied(script, mode, rc, log[-4000:])
        files = sorted(os.path.join(out, f) for f in os.listdir(out) if f.endswith(".json") and not f.startswith("_"))
        if not files:
            raise MachineryError("driver %s/%s produced no traces" % (script, mode))
        return files

    # --------------------------------------------------- trace validation
    CHUNK = 5 << 20   # bytes of traces per TLC run

    def validate(self, module, files, label=None, workers=4, heap="4g", timeout=800, constants=""):
        """Check recorded traces against a specification; big files are cut into chunks that run side by side."""
        if isinstance(files, str):
            files = [files]
        jobs = []
        for f in files:
            with open(f) as fh:
                traces = json.load(fh)
            if not traces:
                raise MachineryError("empty trace file %s" % f)
            part, size, parts = [], 0, []
            for t in traces:
                n = len(json.dumps(t))
                if part and size + n > self.CHUNK:
                    parts.append(part)
                    part, size = [], 0
                part.append(t)
                size += n
            parts.append(part)
            if len(parts) == 1:
                jobs.append((f, traces))
            else:
                for k, q in enumerate(parts):
                    name = "%s.part%d" % (f, k)
                    with open(name, "w") as fh:
                        json.dump(q, fh)
                    jobs.append((name, q))
        del traces
        if len(jobs) == 1 or not self.thorough:
            for f, traces in jobs:
                self._validate(module, f, traces, workers, heap, timeout, constants)
        else:
            with ThreadPoolExecutor(max_workers=3) as ex:
                for r in [ex.submit(self._validate, module, f, traces, 2, heap, timeout, constants) for f, traces in jobs]:
                    r.result()

    def _validate(self, module, f, traces, workers, heap, timeout, constants):
        nsteps = sum(len(t["steps"]) for t in traces)
        r = self._tlc(module, "SPECIFICATION TSpec\n" + constants + "\n", {"TRACES": f}, workers, heap, timeout)
        fails = []
        for m in re.finditer(r'<<\s*"TRACEFAIL",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', r["out"], re.S):
            fails.append((int(m.group(1)), int(m.group(2)), " ".join(m.group(3).split())))
        fails = sorted(set(fails))
        evalerr = r["rc"] != 0 or "No error has been found" not in r["out"]
        if evalerr and not fails:
            if r["rc"] == -9 or "OutOfMemory" in r["out"] or "Parsing or semantic" in r["out"] or "StackOverflow" in r["out"]:
                raise MachineryError("trace validation %s failed (rc %s):\n%s" % (module, r["rc"], r["out"][-3000:]))
            # a recorded step on which the specification cannot even be evaluated (ill-typed observation)
            m = re.search(r"/\\ vTid = (\d+)", r["out"])
            k = re.findall(r"/\\ vIdx = (-?\d+)", r["out"])
            tid = int(m.group(1)) if m else 1
            idx = int(k[-1]) + 1 if k else 1
            fails = [(tid, idx, '{"ill-formed observation"}')]
            self.notes.append(r["out"][-1500:])
        if not evalerr and not fails and r["distinct"] != nsteps + len(traces):
            raise MachineryError("trace validation %s covered %d states, expected %d" % (module, r["distinct"], nsteps + len(traces)))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.traces += len(traces)
        self.steps += nsteps
        if len(self.samples) < 6:
            t = traces[len(traces) // 2]
            self.samples.append({"spec": module, "trace": t["name"], "cfg": _short(t.get("cfg")), "steps": len(t["steps"]),
                                 "step_1": _short(t["steps"][0] if t["steps"] else None)})
        for tid, idx, bad in fails:
            t = traces[tid - 1]
            self.failures.append({"spec": module, "name": t["name"], "step": idx, "clauses": bad, "cfg": t.get("cfg"),
                                  "steps": t["steps"][:idx], "file": os.path.basename(f)})

    def parallel(self, *fns):
        with ThreadPoolExecutor(max_workers=4) as ex:
            fs = [ex.submit(fn) for fn in fns]
            for f in fs:
                f.result()


class DriverDied(Exception):
    def __init__(self, script, mode, rc, log):
        Exception.__init__(self, "driver %s/%s died (rc %s)\n%s" % (script, mode, rc, log))
        self.script, self.mode, self.rc, self.log = script, mode, rc, log


def _short(x, n=700):
    s = json.dumps(x)
    return json.loads(s) if len(s) <= n else s[:n] + "..."


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "known"]


def matches(kf, fail):
    """A known finding names the exact scenario (trace name) and the clause."""
    return fail["name"] == kf["trace"] and kf["clause"] in fail["clauses"] and fail["clauses"].count('"') == 2


def report(ctx, prop, level="model_checking", assumptions=()):
    kfs = known_findings(ctx.pid)
    new, seen = [], set()
    for f in ctx.failures:
        hit = next((k for k in kfs if matches(k, f)), None)
        if hit:
            seen.add(json.dumps(hit, sort_keys=True))
        else:
            new.append(f)
    for k in kfs:
        if json.dumps(k, sort_keys=True) in seen:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"]))
        else:
            print("note: listed finding not reproduced on this tree: %s" % k["what"])
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "trace_steps": ctx.steps, "generated_behaviours_replayed": ctx.behaviours,
           "model_runs": ctx.mc_runs, "samples": ctx.samples}
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for k, f in enumerate(new[:20]):
            rp = os.path.join(rdir, "%s_%d.json" % (ctx.pid, k))
            with open(rp, "w") as fh:
                json.dump(f, fh, indent=1)
            if k < 4:
                print("  broken: spec %s, trace %s, step %d, clauses %s" % (f["spec"], f["name"], f["step"], f["clauses"]))
            last = f["steps"][-1] if f["steps"] else None
            if k < 4:
                print("    last step: " + json.dumps(last)[:600])
        print("VIOLATION property=%s replay=%s" % (ctx.pid, os.path.join(rdir, "%s_0.json" % ctx.pid)))
        return 1
    print("OK property=%s tier=%s states=%d traces=%d steps=%d wall=%.1fs" % (
        ctx.pid, ctx.tier, ctx.states, ctx.traces, ctx.steps, time.time() - ctx.t0))
    return 0
