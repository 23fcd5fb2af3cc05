"""Shared runner of the checks: builds harnesses against /repo's working tree, explores, writes evidence,
prints VIOLATION / KNOWN-FINDING lines."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


class HarnessError(Exception):
    pass


def known_findings(prop):
    """[(key regex, text)] of the findings recorded (not repaired) for a property"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


class Result:
    """accumulated coverage of one check"""

    def __init__(self):
        self.states = self.transitions = self.traces = self.evaluations = self.executions = self.pruned = self.outcomes = 0
        self.samples, self.jobs, self.counters, self.violations = [], {}, {}, []
        self.capped = []

    def add_job(self, name, d):
        for k in ("states", "transitions", "traces", "evaluations", "executions", "pruned", "outcomes"):
            setattr(self, k, getattr(self, k) + d.get(k, 0))
        j = self.jobs.setdefault(name, {"executions": 0, "states": 0, "outcomes": 0})
        j["executions"] += d.get("executions", 0)
        j["states"] += d.get("states", 0)
        j["outcomes"] += d.get("outcomes", 0)
        for k, v in d.get("counters", {}).items():
            self.counters[k] = self.counters.get(k, 0) + v
        for s in d.get("samples", [])[:2]:
            if len(self.samples) < 24:
                self.samples.append(name + ": " + s)
        if d.get("capped"):
            self.capped.append(name)
        for v in d.get("violations", []):
            self.violations.append(dict(v, job=name))


class Check:
    def __init__(self, prop, level="model_checking", technique="", rule="", assumptions=()):
        self.prop, self.level, self.rule, self.assumptions = prop, level, rule, list(assumptions)
        self.t0 = time.time()
        self.res = Result()
        self.build = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.notes = []

    # ---------------------------------------------------------------- C++
    def cxx(self, harnesses, timeout=None):
        """harnesses: list of Cpp"""
        t = time.time()
        for h in harnesses:
            h.build_into(self.build)
        with cf.ThreadPoolExecutor(NCPU) as pool:
            objs = [(h, o) for h in harnesses for o in h.objects]
            # largest first: the harness sources
            futs = [pool.submit(h.compile_one, o) for h, o in objs]
            for f in futs:
                f.result()
            for f in [pool.submit(h.link) for h in harnesses]:
                f.result()
        self.notes.append("build %.1fs" % (time.time() - t))
        tasks = []
        for h in harnesses:
            for line in subprocess.run([h.exe, "--list"], capture_output=True, text=True, env=h.env()).stdout.split("\n"):
                if not line.strip():
                    continue
                name, shards, th = line.split()
                if int(th) and TIER != "thorough":
                    continue
                if h.jobs and not name.startswith(tuple(h.jobs)):
                    continue
                for s in range(int(shards)):
                    tasks.append((h, name, s, int(shards)))
        if not tasks:
            raise HarnessError("no job in the harnesses")
        with cf.ThreadPoolExecutor(NCPU) as pool:
            futs = [pool.submit(self._run_task, *t) for t in tasks]
            for (h, name, s, n), f in zip(tasks, futs):
                d = f.result()
                self.res.add_job(h.name + "." + name, d)
                for v in self.res.violations:
                    v.setdefault("harness", h.name)

    def _run_task(self, h, name, s, n):
        out = os.path.join(self.build, "%s_%s_%d.json" % (h.name, name, s))
        cmd = [h.exe, "--job", name, "--shard", str(s), str(n), "--out", out]
        if TIER == "thorough":
            cmd.append("--thorough")
        if h.max_seconds:
            cmd += ["--max-seconds", str(h.max_seconds)]
        limit = h.timeout
        tmpd = tempfile.mkdtemp(dir=self.build)
        for attempt in range(2):
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=h.env(), cwd=tmpd)
            try:
                so, se = p.communicate(timeout=limit)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise HarnessError("job %s.%s ran over %ds" % (h.name, name, limit))
            if p.returncode == 0 and os.path.exists(out):
                d = json.load(open(out))
                if d["finished"] or attempt == 1:
                    return d
                first = d  # crashed or hung: run it once more before reporting
                os.unlink(out)
                continue
            if p.returncode < 0 and attempt == 0:
                continue
            if p.returncode < 0:
                return {"violations": [{"key": "killed:" + name, "msg": "the process died with signal %d" % -p.returncode, "path": [], "log": []}]}
            raise HarnessError("job %s.%s ended with %s: %s" % (h.name, name, p.returncode, se.decode(errors="replace")[-2000:]))
        return first

    # ---------------------------------------------------------------- Python
    def py(self, scripts, python="python3", env=None, timeout=850):
        """run every job of the harness scripts (lib/pyex.py) against the Python code of /repo"""
        tasks = []
        e = dict(os.environ, **(env or {}))
        e.update(VERIF_TIER=TIER, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", VERIF_REPO=REPO, PYTHONHASHSEED="0",
                 PYTHONPATH=os.path.join(VERIF, "lib") + os.pathsep + os.path.join(VERIF, "standins_py"))
        for s in scripts:
            path = os.path.join(VERIF, "checks", "py", s)
            p = subprocess.run([python, path, "--list"], capture_output=True, text=True, env=e)
            if p.returncode:
                raise HarnessError("%s: %s" % (s, p.stderr[-2000:]))
            for line in p.stdout.split("\n"):
                if line.startswith("JOB "):
                    name, shards, th = line[4:].split()
                    if int(th) and TIER != "thorough":
                        continue
                    tasks += [(s[:-3], path, name, i, int(shards)) for i in range(int(shards))]

        def one(t):
            h, path, name, i, n = t
            tmpd = tempfile.mkdtemp(dir=self.build)
            try:
                p = subprocess.run([python, path, name, str(i), str(n)], capture_output=True, text=True, env=e, cwd=tmpd, timeout=timeout, errors="replace", stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                raise HarnessError("job %s.%s ran over %ds" % (h, name, timeout))
            lines = [l for l in p.stdout.split("\n") if l.startswith("RESULT ")]
            if p.returncode != 0 or not lines:
                if p.returncode < 0 and p.returncode != -9:
                    return {"violations": [{"key": "killed:" + name, "msg": "the interpreter died with signal %d" % -p.returncode, "path": [], "log": []}]}
                raise HarnessError("job %s.%s ended with %s: %s" % (h, name, p.returncode, (p.stdout[-1000:] + p.stderr[-3000:])))
            return json.loads(lines[-1][7:])
        with cf.ThreadPoolExecutor(NCPU) as pool:
            for t, d in zip(tasks, pool.map(one, tasks)):
                self.res.add_job(t[0] + "." + t[2], d)

    # ---------------------------------------------------------------- report
    def finish(self, extra=None):
        known = known_findings(self.prop)
        new, seen_known = [], {}
        for v in self.res.violations:
            for k, txt in known:
                if re.fullmatch(k, v["key"]):
                    seen_known.setdefault(k, (txt, v))
                    break
            else:
                new.append(v)
        r = self.res
        cov = {"executions": r.executions, "jobs": r.jobs, "counters": r.counters, "distinct_outcomes": r.outcomes,
               "samples": r.samples[:24], "exhaustive": not r.capped, "notes": "; ".join(self.notes)}
        if r.capped:
            cov["capped_jobs"] = r.capped
        if self.level == "model_checking":
            cov.update(states=r.states, transitions=r.transitions, traces_validated_against_impl=r.traces, oracle_evaluations=r.evaluations)
        else:
            cov.update(evaluations=r.evaluations, distinct_nontrivial=r.states, rule=self.rule)
        if self.rule:
            cov["rule"] = self.rule
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: executions=%d states=%d transitions=%d evaluations=%d outcomes=%d wall=%.1fs %s" %
              (self.prop, r.executions, r.states, r.transitions, r.evaluations, r.outcomes, time.time() - self.t0, "; ".join(self.notes)))
        for k, (txt, v) in seen_known.items():
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, txt, v["key"]))
        rc = 0
        if new:
            rdir = os.path.join(VERIF, "replay", self.prop)
            os.makedirs(rdir, exist_ok=True)
            done = set()
            for v in new:
                if v["key"] in done:
                    continue
                done.add(v["key"])
                path = os.path.join(rdir, re.sub(r"[^A-Za-z0-9_.-]+", "_", v["key"])[:80] + ".json")
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                print("  %s [%s] %s" % (v["job"], v["key"], v["msg"][:300]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.build, ignore_errors=True)
        else:
            print("kept " + self.build)
        sys.stdout.flush()
        return rc


class Cpp:
    def __init__(self, name, sources, repo_sources=(), flags=(), opt="-O1", links=(), std="c++20", stand=("a",), asan=False, cxx="g++",
                 timeout=300, max_seconds=0, mpi=False, extra_sources=(), jobs=None):
        self.jobs = jobs  # only the jobs whose name starts with one of these
        self.name, self.flags, self.opt, self.links, self.std, self.asan, self.cxx = name, list(flags), opt, list(links), std, asan, cxx
        self.timeout = timeout
        self.max_seconds = max_seconds
        self.src = [s if os.path.isabs(s) else os.path.join(VERIF, "checks", s) for s in sources]
        self.src += [os.path.join(REPO, "c++/triqs", s) for s in repo_sources]
        self.incs = []

    def env(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:detect_leaks=0:allow_user_segv_handler=1:detect_stack_use_after_return=0"
        e["UBSAN_OPTIONS"] = "abort_on_error=1:halt_on_error=1:print_stacktrace=0"
        e["OPENBLAS_NUM_THREADS"] = "1"
        e["OMP_NUM_THREADS"] = "1"
        return e

    def build_into(self, d):
        self.dir = os.path.join(d, self.name)
        os.makedirs(self.dir, exist_ok=True)
        self.exe = os.path.join(self.dir, "run")
        self.objects = []
        for i, s in enumerate(self.src):
            self.objects.append((s, os.path.join(self.dir, "%d_%s.o" % (i, os.path.basename(s)))))

    def cflags(self):
        f = ["-std=" + self.std, self.opt, "-g0", "-w", "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "standins"),
             "-I" + os.path.join(REPO, "c++"), "-I" + os.path.join(VERIF, "standins", "config")]
        if self.asan:
            f += ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        return f + self.flags

    def compile_one(self, so):
        s, o = so
        p = subprocess.run([self.cxx] + self.cflags() + ["-c", s, "-o", o], capture_output=True, text=True, errors="replace")
        if p.returncode:
            raise HarnessError("compilation of %s failed:\n%s" % (s, p.stderr[:6000]))

    def link(self):
        p = subprocess.run([self.cxx] + (["-fsanitize=address,undefined"] if self.asan else []) + [o for _, o in self.objects] + ["-o", self.exe] + self.links,
                           capture_output=True, text=True, errors="replace")
        if p.returncode:
            raise HarnessError("link of %s failed:\n%s" % (self.name, p.stderr[:4000]))


def main(check_fn, prop, **kw):
    c = Check(prop, **kw)
    try:
        check_fn(c)
        rc = c.finish()
    except HarnessError as e:
        print("HARNESS-ERROR %s: %s" % (prop, e))
        shutil.rmtree(c.build, ignore_errors=True)
        rc = 2
    sys.exit(rc)
