"""Shared machinery of the checks: TLC runs, trace validation, replay of
behaviours generated from the specifications, evidence and verdicts."""
import json, os, random, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4


def _classpath():
    """tla2tools plus the CommunityModules, wherever the `tlc` wrapper finds them."""
    jars = [JAR]
    d = os.path.dirname(JAR)
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".jar") and "ommunity" in f:
                jars.append(os.path.join(root, f))
    return ":".join(jars)


CP = _classpath()


class CheckError(Exception):
    """The machinery itself failed: neither 'holds' nor 'violated'."""


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha256(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.model_runs = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.run_dir = os.path.join(VERIF, "run", "%s_%d" % (pid, os.getpid()))
        shutil.rmtree(self.run_dir, ignore_errors=True)
        os.makedirs(self.run_dir)
        self.replay_dir = os.path.join(VERIF, "replay")
        os.makedirs(self.replay_dir, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, env=None, args=(), workers=None, timeout=800, heap="3g", tag=""):
        """Runs TLC on spec/<module>.tla with a generated cfg in a scratch copy of the spec dir."""
        d = os.path.join(self.run_dir, "tlc_%s%s_%d" % (module, tag, random.randrange(1 << 30)))
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-metadir",
               os.path.join(d, "states"), "-noGenerateSpecTE", "-workers", str(workers or NCPU),
               "-config", module + ".cfg"] + list(args) + [module + ".tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s after %d s" % (module, timeout))
        out = r.stdout.decode(errors="replace")
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return TlcResult(r.returncode, out, time.time() - t, d)

    def model_check(self, module, cfg_text, what, **kw):
        """Exhaustive exploration of a specification; its invariants must hold on the model."""
        deadlock = kw.pop("deadlock", False)
        args = list(kw.pop("args", ()))
        if not deadlock:
            args.append("-deadlock")
        r = self.tlc(module, cfg_text, args=args, **kw)
        if r.rc != 0:
            raise CheckError("model %s (%s) does not satisfy its own properties (rc=%d):\n%s" % (module, what, r.rc, r.out[-3000:]))
        gen, dist = r.counts()
        self.states += dist
        self.transitions += gen
        self.model_runs.append({"module": module, "what": what, "distinct_states": dist, "generated": gen, "wall_s": round(r.wall, 1)})
        self.log("model %s: %d states generated, %d distinct (%s) %.1fs" % (module, gen, dist, what, r.wall))
        return r

    def behaviours(self, module, cfg_text, what, simulate=None, depth=None, **kw):
        """Behaviours of the specification, printed by its Emit operator as '@@<json>'.
        simulate=N: N random behaviours of the given depth; otherwise all of the (bounded) model."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed * 7919 + 17)]
        args.append("-deadlock")
        r = self.tlc(module, cfg_text, args=args, workers=1 if simulate else None, **kw)
        if r.rc != 0:
            raise CheckError("behaviour generation from %s failed (rc=%d):\n%s" % (module, r.rc, r.out[-3000:]))
        seen, res = set(), []
        for ln in r.out.splitlines():
            i = ln.find("@@")
            if i < 0:
                continue
            s = ln[i + 2:]
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            if s in seen:
                continue
            seen.add(s)
            res.append(json.loads(s))
        gen, dist = r.counts()
        self.states += dist
        self.transitions += gen
        self.model_runs.append({"module": module, "what": what, "distinct_states": dist, "generated": gen,
                                "behaviours": len(res), "wall_s": round(r.wall, 1)})
        self.log("behaviours of %s: %d (%s) %.1fs" % (module, len(res), what, r.wall))
        if not res:
            raise CheckError("no behaviours from %s (%s)\n%s" % (module, what, r.out[-2000:]))
        return res

    # ------------------------------------------------------------ harness
    def build(self, units, **kw):
        self.exe, self.lib, self.plugins = B.build(units, **kw)
        return self.exe

    def build_py(self):
        """The Python module; suites of harness/py_drive.py are named py_*."""
        self.pypath = B.build_py(os.path.dirname(self.lib))

    def drive(self, suite, sessions, jobs=None, timeout=60, env=None):
        """Runs every session in a child process of the harness; returns its traces, in order."""
        jobs = jobs or NCPU
        d = os.path.join(self.run_dir, "drive_%s_%d" % (suite, random.randrange(1 << 30)))
        os.makedirs(d)
        src = os.path.join(d, "in.jsonl")
        with open(src, "w") as f:
            for i, s in enumerate(sessions):
                s = dict(s)
                s["id"] = i + 1
                f.write(json.dumps(s) + "\n")
        e = dict(os.environ)
        for k in list(e):
            if k.startswith("OMP_") or k.startswith("GOMP_"):
                del e[k]
        e["VT_SCRATCH"] = d
        e.update(env or {})
        t = time.time()
        exe = [self.exe]
        if suite.startswith("py_"):
            exe = [B.PYTHON, "-B", os.path.join(VERIF, "harness", "py_drive.py")]
            e["VT_PYPATH"] = ":".join(self.pypath)
            e["PYTHONDONTWRITEBYTECODE"] = "1"
        r = subprocess.run(exe + [suite, src, os.path.join(d, "out"), str(jobs), str(timeout)],
                           cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise CheckError("harness %s failed (rc=%d): %s" % (suite, r.returncode, r.stdout.decode(errors="replace")[-2000:]))
        got = {}
        for w in range(jobs):
            p = os.path.join(d, "out.%d" % w)
            if os.path.exists(p):
                with open(p, errors="replace") as f:
                    for ln in f:
                        o = json.loads(ln)
                        got[o["id"]] = o
        if len(got) != len(sessions):
            raise CheckError("harness %s returned %d traces for %d sessions" % (suite, len(got), len(sessions)))
        out = [got[i + 1] for i in range(len(sessions))]
        shutil.rmtree(d, ignore_errors=True)
        self.log("harness %s: %d sessions, %d events, %.1fs" % (suite, len(out), sum(len(o["ev"]) for o in out), time.time() - t))
        return out

    # --------------------------------------------------- trace validation
    def validate(self, module, traces, consts="", what="", timeout=800, procs=None, sample=True, heap="2g"):
        """TLC decides whether each recorded trace is a behaviour of the specification.
        Returns the list of (index, first unexplained event number) of rejected traces."""
        if not traces:
            return []
        procs = procs or min(NCPU, max(1, len(traces) // 40 + 1))
        cost = [len(t["ev"]) + 1 for t in traces]
        chunks = [[] for _ in range(procs)]
        load = [0] * procs
        for i in sorted(range(len(traces)), key=lambda i: -cost[i]):
            k = load.index(min(load))
            chunks[k].append(i)
            load[k] += cost[i]
        chunks = [c for c in chunks if c]
        cfg = "SPECIFICATION TraceSpec\nCONSTRAINT TraceProgress\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + consts

        def one(ci):
            idx, bad = list(chunks[ci]), []
            while True:
                r = attempt(ci, idx)
                if isinstance(r, tuple):
                    return sorted(bad + r[0]), r[1], r[2]
                # TLC could not evaluate an observation (a value no behaviour of the specification has): the trace is rejected
                bad.append((idx[r[0]], r[1]))
                del idx[r[0]]
                if len(bad) >= 3 or not idx:
                    return bad, 0, 0

        def attempt(ci, idx):
            p = os.path.join(self.run_dir, "tr_%s_%d_%d.ndjson" % (module, ci, random.randrange(1 << 30)))
            with open(p, "w") as f:
                for i in idx:
                    f.write(json.dumps({"ev": traces[i]["ev"], "cfg": traces[i].get("cfg", {"x": 0})}) + "\n")
            r = self.tlc(module, cfg, env={"TRACES": p}, workers=1, timeout=timeout, heap=heap, tag="_%d" % ci)
            rej = []
            m = re.search(r"@@REJ (\[.*?\])\s*\"?$", r.out, re.M)
            fin = re.search(r"@@DONE (\d+) OF (\d+)", r.out)
            if not m or not fin or int(fin.group(2)) != len(idx):
                ev = re.search(r"Error: The behavior up to this point is:(.*?)Error: The error occurred when TLC was evaluating", r.out, re.S)
                at = ev and re.findall(r"\bti = (\d+)", ev.group(1)), ev and re.findall(r"/\\ l = (\d+)", ev.group(1))
                if ev and at[0] and at[1] and 1 <= int(at[0][-1]) <= len(idx):
                    return [int(at[0][-1]) - 1, int(at[1][-1])]
                raise CheckError("trace validation with %s gave no verdict (rc=%d):\n%s" % (module, r.rc, _tail(r.out)))
            for a, b in json.loads(m.group(1).replace('\\"', '"')):
                rej.append((idx[a - 1], b))
            if int(fin.group(1)) + len(rej) != len(idx):
                raise CheckError("trace validation with %s: inconsistent verdict" % module)
            gen, dist = r.counts()
            os.remove(p)
            return rej, gen, dist

        t = time.time()
        with ThreadPoolExecutor(max_workers=procs) as ex:
            res = list(ex.map(one, range(len(chunks))))
        rej = sorted(x for r in res for x in r[0])
        self.states += sum(r[2] for r in res)
        self.transitions += sum(r[1] for r in res)
        self.traces += len(traces)
        self.events += sum(len(x["ev"]) for x in traces)
        self.log("validated %d traces (%d events) against %s%s: %d rejected, %.1fs" % (
            len(traces), sum(len(x["ev"]) for x in traces), module, " (" + what + ")" if what else "", len(rej), time.time() - t))
        if sample and len(self.samples) < 6:
            k = self.rng.randrange(len(traces))
            self.samples.append({"module": module, "what": what, "trace": clip(traces[k]["ev"][:6])})
        return rej

    def judge(self, suite, module, sessions, what, consts="", env=None, jobs=None, timeout=60, repeat=True,
              classify=None, procs=None):
        """drive + validate; every rejected trace that repeats is a violation.
        repeat=False: the recorded history itself is the evidence (concurrent runs)."""
        traces = self.drive(suite, sessions, jobs=jobs, timeout=timeout, env=env)
        rej = self.validate(module, traces, consts=consts, what=what, procs=procs)
        bad = []
        if rej:
            self.self_check_binding = False
            again = [sessions[i] for i, _ in rej[:20]]
            if repeat:
                tr2 = self.drive(suite, again, jobs=min(4, jobs or 4), timeout=timeout * 2, env=env)
                rej2 = dict(self.validate(module, tr2, consts=consts, what="re-run of rejected", sample=False))
                for k, (i, l) in enumerate(rej[:20]):
                    if k in rej2:
                        bad.append((i, rej2[k], tr2[k]))
                if not bad:
                    # not repeating: the recorded history is itself a counterexample, unless it is a mere
                    # timeout of the child process (the machine may have been busy)
                    keep = [i for i, l in rej[:20] if not (0 < l <= len(traces[i]["ev"]) and traces[i]["ev"][l - 1].get("op") == "Hang")]
                    if keep:
                        rej3 = dict(self.validate(module, [traces[i] for i in keep], consts=consts, what="re-validation", sample=False))
                        bad = [(i, rej3[k], traces[i]) for k, i in enumerate(keep) if k in rej3]
                    if not bad:
                        self.extra["timeouts_not_repeated"] = self.extra.get("timeouts_not_repeated", 0) + len(rej)
            else:
                tr2 = [traces[i] for i, _ in rej[:20]]
                rej2 = dict(self.validate(module, tr2, consts=consts, what="re-validation", sample=False))
                for k, (i, l) in enumerate(rej[:20]):
                    if k in rej2:
                        bad.append((i, rej2[k], traces[i]))
        for i, l, tr in bad:
            ev = tr["ev"]
            first = ev[l - 1] if 0 < l <= len(ev) else None
            rec = {"suite": suite, "module": module, "what": what, "session": sessions[i], "first_unexplained_event": l,
                   "event": first, "trace": ev}
            key = classify(sessions[i], l, tr) if classify else None
            self.violation(rec, key)
        return traces

    def corrupt_check(self, module, traces, mutate, consts="", what="corrupted traces", n=12):
        """Binding self-test: recorded traces with one observation changed must be rejected by TLC."""
        pool = []
        for t in traces:
            m = mutate(json.loads(json.dumps(t)))
            if m is not None:
                pool.append(m)
            if len(pool) >= n:
                break
        if not pool:
            return 0
        st, tr, tv, ev = self.states, self.transitions, self.traces, self.events
        rej = self.validate(module, pool, consts=consts, what=what, sample=False)
        self.states, self.transitions, self.traces, self.events = st, tr, tv, ev
        if len(rej) != len(pool):
            raise CheckError("binding self-test: %d of %d corrupted traces were accepted by %s" % (len(pool) - len(rej), len(pool), module))
        self.extra["corrupted_traces_rejected"] = self.extra.get("corrupted_traces_rejected", 0) + len(rej)
        return len(rej)

    # ------------------------------------------------------------ verdict
    def violation(self, rec, key=None):
        for k in known_findings(self.pid):
            if key and k["key"] == key:
                if key not in [x["key"] for x in self.known]:
                    self.known.append(k)
                return
        self.violations.append(rec)

    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples or ["none"], "model_runs": self.model_runs}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.run_dir, ignore_errors=True)
        if self.violations:
            p = os.path.join(self.replay_dir, "%s_%s.json" % (self.pid, time.strftime("%H%M%S")))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "violations": self.violations[:10]}, f, indent=1)
            v = self.violations[0]
            print("first violation: %s" % json.dumps(clip({k: x for k, x in v.items() if k != "trace"}))[:3000], flush=True)
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            return 1
        self.log("holds: %d model states, %d traces validated, %d events" % (self.states, self.traces, self.events))
        return 0


class TlcResult:
    def __init__(self, rc, out, wall, d):
        self.rc, self.out, self.wall, self.dir = rc, out, wall, d

    def counts(self):
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", self.out)
        if m:
            return tuple(int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"The number of states generated: ([\d,]+)", self.out)
        if m:
            n = int(m[-1].replace(",", ""))
            return n, n
        m = re.findall(r"Progress: ([\d,]+) states checked", self.out)
        if m:
            n = int(m[-1].replace(",", ""))
            return n, n
        return 0, 0


def _tail(s):
    keep = [l for l in s.splitlines() if not l.startswith("@@")]
    i = next((k for k, l in enumerate(keep) if l.startswith("Error")), max(0, len(keep) - 40))
    return "\n".join(keep[i:i + 40])[-4000:]


def clip(x, n=400):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "..."
    if isinstance(x, list):
        return [clip(y, n) for y in x[:24]] + (["..."] if len(x) > 24 else [])
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in list(x.items())[:40]}
    return x


def known_findings(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("open", []) if k["property"] == pid]


def main(pid, fn):
    """Runs a check body; 0 holds, 1 violated, 2 the machinery failed."""
    c = Check(pid)
    try:
        fn(c)
        return c.finish()
    except (CheckError, B.BuildError) as e:
        if c.violations:
            print("(%s)" % str(e)[:500], flush=True)
            return c.finish()
        print("ERROR property=%s %s" % (pid, e), flush=True)
        shutil.rmtree(c.run_dir, ignore_errors=True)
        return 2
