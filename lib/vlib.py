"""Shared machinery of the checks: build, drive the implementation, run TLC, report."""
import os, sys, re, json, time, subprocess, random, shutil, fcntl, hashlib, signal, itertools
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FV_REPO", "/repo")
BUILD = os.environ.get("FV_BUILD", os.path.join(VERIF, "build"))
SPECS = os.path.join(VERIF, "specs")
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 4))

class CheckError(Exception):
    """The check itself could not be carried out (never a verdict on the code)."""

def sh(cmd, timeout=900, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         env=e, cwd=cwd, start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return -999, out

def java_overrides():
    """Compiles the evaluation of the specifications' real arithmetic (specs/java) if it is out of date."""
    src, d = os.path.join(SPECS, "java", "FReal.java"), os.path.join(BUILD, "tla")
    cls = os.path.join(d, "FReal.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src): return
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, ".javalock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src): return
        rc, o = sh(["javac", "-cp", JARS, "-d", d, src])
        if rc: raise CheckError("javac failed: " + o[-2000:])

def mpi_env():
    return {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
            "OMPI_MCA_btl": "self,vader,tcp", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_plm_rsh_agent": "",
            "OMP_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive", "OMPI_MCA_mpi_yield_when_idle": "1", "PRTE_MCA_rmaps_default_mapping_policy": ":oversubscribe", "OPENBLAS_NUM_THREADS": "1"}

def program(ck, name):
    """The program of that name built from /repo's working tree."""
    for d, _, fs in os.walk(os.path.join(BUILD, "repo")):
        if name in fs and os.access(os.path.join(d, name), os.X_OK): return os.path.join(d, name)
    raise CheckError("program %s not built" % name)

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv: self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "run", pid)
        self.outdir = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.work, ignore_errors=True); os.makedirs(self.work)
        shutil.rmtree(self.outdir, ignore_errors=True)
        self.states = 0; self.transitions = 0; self.traces = 0; self.events = 0
        self.samples = []; self.assumptions = []; self.violations = []; self.notes = {}
        self.known_hit = {}
        self.omp = 1
        self.runs = 0

    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, quick, thorough): return thorough if self.thorough else quick
    def log(self, *a): print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, drivers, repo_targets=()):
        """Builds the libraries from /repo's working tree with its own CMake files, and the drivers against them."""
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            rb, hb = os.path.join(BUILD, "repo"), os.path.join(BUILD, "harness")
            env = {"CC": "gcc", "CXX": "g++"}
            if not os.path.exists(os.path.join(rb, "build.ninja")):
                shutil.rmtree(rb, ignore_errors=True)
                rc, o = sh(["cmake", "-S", REPO, "-B", rb, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-Wno-dev",
                            "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -DDEBUG=1 -Wno-error -isystem /usr/include/scotch",
                            "-DEIGEN3_INCLUDE_DIR=/usr/include/eigen3", "-DPETSC_DIR=" + PETSC, "-DPETSC_ARCH=", "-DSCOTCH_DIR=/usr", "-DNOTAGS=1"], env=env)
                if rc: raise CheckError("configuring the repository failed:\n" + o[-3000:])
            if not os.path.exists(os.path.join(hb, "build.ninja")):
                shutil.rmtree(hb, ignore_errors=True)
                rc, o = sh(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", hb, "-G", "Ninja", "-DFV_SRC=" + os.path.join(REPO, "src"),
                            "-DFV_BUILD=" + rb, "-DPETSC=" + PETSC, "-Wno-dev"], env=env)
                if rc: raise CheckError("configuring the drivers failed:\n" + o[-3000:])
            jobs = [["ninja", "-C", rb, "-j", str(NCPU), "fvens_base"] + list(repo_targets)]
            if drivers:
                jobs.append(["ninja", "-C", hb] + ["CMakeFiles/%s.dir/%s.cpp.o" % (d, d) for d in drivers])
            with ThreadPoolExecutor(2) as ex:
                for rc, o in ex.map(lambda c: sh(c, timeout=800), jobs):
                    if rc: raise CheckError("build failed:\n" + o[-3000:])
            if drivers:
                rc, o = sh(["ninja", "-C", hb] + list(drivers), timeout=600)
                if rc: raise CheckError("linking the drivers failed:\n" + o[-3000:])
        self.log("built")

    def exe(self, d): return os.path.join(BUILD, "harness", d)

    # ----------------------------------------------------------------- drivers
    def drive(self, driver, jobs, ranks=1, per_job=20.0, base=60.0, args=(), env=None, shards=None, threads=1):
        """Runs the jobs (list of dicts with 'id') through a driver; returns {id: [events]}.
        A job during which the driver dies or hangs becomes the single event Crash / Hang.
        With threads > 1 the first of the processes the jobs are divided over uses that many threads."""
        res = {}
        if not jobs: return res
        self.runs += 1
        if shards is None: shards = max(1, min(NCPU // max(1, ranks), (len(jobs) + 19) // 20))
        chunks = [jobs[i::shards] for i in range(shards)]
        with ThreadPoolExecutor(shards) as ex:
            for r in ex.map(lambda a: self._drive_chunk(driver, a[1], ranks, per_job, base, args, dict(env or {}, OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY="passive") if threads > 1 and a[0] == 0 else env, "%s.%d.%d.%d" % (driver, ranks, self.runs, a[0])), enumerate(chunks)):
                res.update(r)
        return res

    def _drive_chunk(self, driver, jobs, ranks, per_job, base, args, env, tag):
        res, todo, attempt, slow, hangs, unborn = {}, list(jobs), 0, set(), 0, 0
        exe = self.exe(driver)
        while todo:
            attempt += 1
            stem = os.path.join(self.work, "%s.%d" % (tag, attempt))
            with open(stem + ".jobs", "w") as f:
                for j in todo: f.write(" ".join("%s=%s" % (k, v) for k, v in j.items()) + "\n")
            cmd = [exe, stem + ".jobs", stem + ".out", stem + ".prog"] + list(args)
            e = mpi_env()
            if ranks == 1: e["OMPI_MCA_ess_singleton_isolated"] = "1"
            # processes that end badly leave their session directories to whoever cleans up: none is shared
            tmp = os.path.join(self.work, "t" + hashlib.md5(stem.encode()).hexdigest()[:8]); os.makedirs(tmp, exist_ok=True)
            e["TMPDIR"] = tmp; e["OMP_NUM_THREADS"] = str(self.omp)
            if env: e.update(env)
            if ranks > 1: cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(ranks)] + cmd
            rc, out, hung = self._run_watch(cmd, e, stem + ".prog", per_job * (3 if slow else 1), base)
            shutil.rmtree(tmp, ignore_errors=True)
            done = {}
            for r in range(ranks):
                fn = stem + ".out" + ("" if ranks == 1 else ".%d" % r)
                if os.path.exists(fn):
                    for line in open(fn, errors="replace"):
                        if line.endswith("}\n"):
                            try: d = json.loads(line)
                            except ValueError: continue
                            done.setdefault(d["id"], {})[r] = d["ev"]
            complete = {i: v for i, v in done.items() if len(v) == ranks}
            for i, v in complete.items(): res[i] = v[0] if ranks == 1 else [v[r] for r in range(ranks)]
            left = [j for j in todo if j["id"] not in complete]
            if rc == 0 and not left: break
            begun = [int(x) for x in open(stem + ".prog").read().split()] if os.path.exists(stem + ".prog") else []
            cur = [i for i in begun if i not in complete]
            if not cur:
                if rc == 0 or not left: 
                    if left: raise CheckError("driver %s skipped jobs: %s" % (driver, out[-1500:]))
                    break
                if not begun and unborn < 5: unborn += 1; time.sleep(1.5 * unborn); continue      # MPI did not come up
                if not begun: raise CheckError("driver %s did not start (rc %s): %s" % (driver, rc, out[-2000:]))
                if not left: break
                last = begun[-1]                        # ended right after a job: by an exception it recorded, or by a fault while it cleaned up
                if last not in [j["id"] for j in todo]: raise CheckError("driver %s died between jobs (rc %s): %s" % (driver, rc, out[-2000:]))
                if "Exception" not in json.dumps(res[last])[:4000]:
                    ev = {"event": "Crash", "rc": rc, "what": out[-400:]}
                    res[last] = [ev] if ranks == 1 else [[dict(ev)] for _ in range(ranks)]
                todo = left
                if attempt > 40: break
                continue
            bad = cur[-1]
            if hung and hangs == 0 and bad not in slow:      # a loaded machine is not a hang: once more, with more time
                slow.add(bad); todo = [j for j in left if j["id"] == bad] + [j for j in left if j["id"] != bad]; continue
            if hung: hangs += 1
            ev = {"event": "Hang" if hung else "Crash", "rc": rc, "what": out[-400:]}
            res[bad] = [ev] if ranks == 1 else [[dict(ev)] for _ in range(ranks)]
            todo = [j for j in left if j["id"] != bad]
            if attempt > 40 or hangs > 3:     # many crashes: the rest is not needed for a verdict
                for j in todo: pass
                break
        return res

    def _run_watch(self, cmd, env, prog, per_job, base):
        e = dict(os.environ); e.update(env)
        logf = prog + ".log"
        with open(logf, "w") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=self.work, start_new_session=True)
            last, lastsize, hung = time.time(), -1, False
            while True:
                try: p.wait(timeout=0.1); break
                except subprocess.TimeoutExpired: pass
                size = os.path.getsize(prog) if os.path.exists(prog) else -1
                now = time.time()
                if size != lastsize: lastsize, last = size, now
                if now - last > (per_job if size >= 0 else base):
                    hung = True
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    p.wait(); break
        out = open(logf, errors="replace").read()[-4000:]
        return (-999 if hung else p.returncode), out, hung

    # --------------------------------------------------------------------- TLC
    def tlc(self, spec, cfg, env=None, workers=None, extra=(), timeout=800, heap="2g", tag=None, defs=None):
        tag = tag or (spec + "-" + hashlib.md5(repr((cfg, env, extra)).encode()).hexdigest()[:8])
        d = os.path.join(self.work, "tlc-" + tag); os.makedirs(d, exist_ok=True)
        cfgfile = cfg
        if "\n" in cfg or defs is not None:
            cfgfile = os.path.join(d, "M.cfg"); open(cfgfile, "w").write(cfg)
        else: cfgfile = os.path.join(SPECS, cfg)
        java_overrides()
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + self.work, "-DTLA-Library=" + SPECS, "-cp", os.path.join(BUILD, "tla") + ":" + JARS, "tlc2.TLC",
               "-metadir", d, "-noGenerateSpecTE", "-workers", str(workers or 1), "-config", cfgfile] + list(extra) + [os.path.join(SPECS, spec + ".tla")]
        rc, out = sh(cmd, timeout=timeout, env=env, cwd=SPECS)
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    @staticmethod
    def tlc_counts(out):
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if m: return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m: return int(m[-1]), int(m[-1])
        return 0, 0

    @staticmethod
    def printed(out, prefix):
        r = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"' + prefix + " ") and line.endswith('"'):
                r.append(line[len(prefix) + 2:-1].replace('\\"', '"').replace("\\\\", "\\"))
        return r

    def model(self, spec, cfg, env=None, workers=None, extra=(), timeout=600, expect_ok=True, prefix=None, heap="3g"):
        """Explores a design model; any property violation in the model is an error of the model."""
        rc, out = self.tlc(spec, cfg, env=env, workers=workers or NCPU, extra=extra, timeout=timeout, heap=heap)
        gen, dist = self.tlc_counts(out)
        if rc != 0 and expect_ok: raise CheckError("model %s: TLC rc %d\n%s" % (spec, rc, out[-3000:]))
        self.states += dist; self.transitions += gen
        self.notes.setdefault("models", []).append({"spec": spec, "distinct_states": dist, "states_generated": gen})
        return self.printed(out, prefix) if prefix else out

    def validate(self, spec, cases, prop=None, cfg="Trace.cfg", shards=None, timeout=700, extra_env=None):
        """Checks recorded cases against a trace specification. Returns {case id: set of clauses}."""
        if not cases: return {}
        shards = shards or max(1, min(NCPU - 1, (len(cases) + 7) // 8))
        bad = {}
        def one(k):
            sub = cases[k::shards]
            fn = os.path.join(self.work, "%s.%d.%d.ndjson" % (spec, k, int(time.time() * 1e6)))
            with open(fn, "w") as f:
                for c in sub: f.write(json.dumps(c) + "\n")
            env = {"TRACE_FILE": fn, "PROP": prop or self.pid}
            if extra_env: env.update(extra_env)
            rc, out = self.tlc(spec, cfg, env=env, workers=1, extra=["-continue"], timeout=timeout, tag="%s-%d-%d" % (spec, k, int(time.time() * 1e6)))
            return sub, fn, rc, out
        with ThreadPoolExecutor(shards) as ex:
            for sub, fn, rc, out in ex.map(one, range(shards)):
                gen, dist = self.tlc_counts(out)
                expect = sum(len(c["ev"]) + 1 for c in sub)
                b = {}
                for line in self.printed(out, "SKIP"): self.notes["events_outside_domain"] = self.notes.get("events_outside_domain", 0) + 1
                for line in self.printed(out, "BAD"):
                    d = json.loads(line); b.setdefault(d["id"], set()).update(d["failed"])
                # every event must have been consumed, except after a rejection
                if rc not in (0, 12) or dist == 0 or (not b and rc != 0) or (not b and dist != expect):
                    raise CheckError("trace validation %s: TLC rc %d, %d states for %d expected (%s)\n%s" % (spec, rc, dist, expect, fn, out[-3500:]))
                self.states += dist; self.transitions += gen
                for i, s in b.items(): bad.setdefault(i, set()).update(s)
        self.traces += len(cases); self.events += sum(len(c["ev"]) for c in cases)
        return bad

    # ------------------------------------------------------------------ verdict
    def known(self):
        if not hasattr(self, "_known"):
            fn = os.path.join(VERIF, "known_findings.txt"); self._known = []
            for line in (open(fn) if os.path.exists(fn) else []):
                if line.startswith("known: "):
                    k = json.loads(line[7:])
                    if k["property"] == self.pid: self._known.append(k)
        return self._known

    def violation(self, case, clauses, note=""):
        """case: the full case record (inputs and events)."""
        key = json.dumps(case.get("key", ""), sort_keys=True)
        left = set()
        for c in clauses:
            ks = [k for k in self.known() if re.search(k["match"], key) and re.search(k["clause"], c)]
            if ks: self.known_hit.setdefault(ks[0]["id"], ks[0])
            else: left.add(c)
        if not left: return
        clauses = left
        os.makedirs(self.outdir, exist_ok=True)
        fn = os.path.join(self.outdir, "replay-%d.json" % len(self.violations))
        json.dump({"property": self.pid, "clauses": sorted(clauses), "note": note, "seed": self.seed, "tier": self.tier, "case": case}, open(fn, "w"), indent=1)
        self.violations.append({"replay": fn, "clauses": sorted(clauses)})

    def conform(self, spec, driver, jobs, meta, ranks=1, confirm=True, prop=None, cfg="Trace.cfg", assemble=None, **kw):
        """drive + validate + confirm by repeating rejected cases. meta[id] = abstract inputs merged into the case."""
        byid = {j["id"]: j for j in jobs}
        def mk(res):
            out = []
            for i, ev in res.items():
                c = {"id": i}; c.update(meta[i])
                if assemble: c.update(assemble(i, ev))
                else: c["ev"] = ev
                out.append(c)
            return sorted(out, key=lambda c: c["id"])
        drive = driver if callable(driver) else lambda js, **k: self.drive(driver, js, **k)      # jobs -> events by id
        res = drive(jobs, ranks=ranks, **kw)
        self.log("%s: %d cases on %d rank(s)" % (getattr(driver, "__name__", driver), len(res), ranks))
        cases = mk(res)
        bad = self.validate(spec, cases, prop=prop, cfg=cfg)
        self.log("%s: validated %d cases, rejected %d" % (spec, len(cases), len(bad)))
        if cases and len(self.samples) < 3:
            c = cases[0]; self.samples.append(json.dumps({k: c[k] for k in c if k != "ev"})[:500] + " events: " + ",".join(str(e.get("event")) for e in c["ev"][:12] if isinstance(e, dict)))
        if bad:
            cnt = {}
            for v in bad.values():
                for x in v: cnt[x] = cnt.get(x, 0) + 1
            self.log("rejected clauses: " + ", ".join("%s %d" % x for x in sorted(cnt.items())))
            # a sample that contains every clause
            ids, seen = [], {}
            for i in sorted(bad):
                if any(seen.get(x, 0) < 6 for x in bad[i]) or len(ids) < 12:
                    ids.append(i)
                    for x in bad[i]: seen[x] = seen.get(x, 0) + 1
            ids = ids[:120]
            n = 0
            for again in range(3):           # a failure that depends on timing or on the jobs before it may need more than one attempt
                res2 = drive([byid[i] for i in ids] if again < 2 else jobs, ranks=ranks, **kw)
                cases2 = {c["id"]: c for c in mk(res2)}
                bad2 = self.validate(spec, [cases2[i] for i in (ids if again < 2 else sorted(cases2)) if i in cases2], prop=prop, cfg=cfg)
                for i in sorted(bad2):
                    c = cases2[i]; c["job"] = byid[i]
                    self.violation(c, bad.get(i, set()) | bad2[i]); n += 1
                if n: break
            if n == 0 and confirm:
                # A recorded behaviour that the specification does not have is one, however rarely it happens (threads);
                # a process that died or did not answer once in four attempts is put down to the machine.
                byc = {c["id"]: c for c in cases}; machine = re.compile(r"\.unexplained_(Crash|Hang)$")
                for i in ids:
                    if all(machine.search(x) for x in bad[i]): self.notes.setdefault("not_reproduced", []).append([i, sorted(bad[i])]); continue
                    c = byc[i]; c["job"] = byid[i]; c["seen"] = "once in %d attempts" % (again + 2); self.violation(c, bad[i]); n += 1
                self.log("%d rejections were not reproduced: %s" % (len(bad), {i: sorted(bad[i]) for i in ids[:5]}))
        return bad

    def finish(self, level="model_checking", extra=None):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "events": self.events, "samples": self.samples[:5] or ["(none)"]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        ev["coverage"].update(self.notes)
        if extra: ev["coverage"].update(extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for v in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
            print("   clauses: " + ", ".join(v["clauses"]))
        self.log("done: %d states, %d traces, %d events, %d violation(s)" % (self.states, self.traces, self.events, len(self.violations)))
        if not self.violations: shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0
