"""Common driver of the /verif checks: builds /repo's current working tree with
sanitizers in a scratch folder, runs harness groups in parallel, collects what the
monitors observed, matches violations against known_findings.json, writes evidence."""
import os, sys, json, time, shutil, subprocess, tempfile, atexit, re, fnmatch, glob, signal, random, errno, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1"))

SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all"
KINDS = {
    # kind: (CMAKE_BUILD_TYPE flags)
    "san": "-O1 -g1 -fno-omit-frame-pointer " + SAN,
    "rel": "-O2 -g1 -DNDEBUG",
    # variables without initial value filled with different patterns
    "fillz": "-O1 -g1 -DNDEBUG -ftrivial-auto-var-init=zero",
    "fillp": "-O1 -g1 -DNDEBUG -ftrivial-auto-var-init=pattern",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    # fast-to-compile sanitizer build for the Eigen-heavy stand-alone tools
    "san0": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address -fno-sanitize-recover=all",
}

class HarnessError(Exception):
    pass

def sh(cmd, cwd=None, env=None, timeout=600, check=True, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       shell=isinstance(cmd, str), **kw)
    out = p.stdout.decode("utf-8", "replace")
    if check and p.returncode != 0:
        raise HarnessError("command failed (%s): %s\n%s" % (p.returncode, cmd, out[:3000]+out[-1500:]))
    return p.returncode, out

class Check:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = "quick"
        if "--tier" in sys.argv:
            self.tier = sys.argv[sys.argv.index("--tier") + 1]
        elif os.environ.get("VERIF_TIER") in ("quick", "thorough"):
            self.tier = os.environ["VERIF_TIER"]
        self.thorough = self.tier == "thorough"
        self.seed = SEED
        self.only = None
        if "--replay" in sys.argv:
            self.only = sys.argv[sys.argv.index("--replay") + 1]
        self.t0 = time.time()
        dev = os.environ.get("VF_DEVCACHE")
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir="/tmp")
        self.cache = dev if dev else os.path.join(self.scratch, "build")
        os.makedirs(self.cache, exist_ok=True)
        self._pid = os.getpid()
        atexit.register(self._cleanup)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *a: sys.exit(143))
        self.viol = []       # (key, message, replay)
        self.counters = {}
        self.evals = 0
        self.cases = 0
        self.nontrivial = 0
        self._sigs = set()
        self.samples = []
        self.assumptions = []
        self.rule = ""
        self.inconclusive = []
        self.mult = 1
        self.ratio = {}   # per oracle: largest |difference|/tolerance seen (how far from an alarm)

    def _cleanup(self):
        if os.getpid() == self._pid:
            shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- builds -------------------------------------------------------------
    def build(self, kind="san", targets=("TEUFELlib",), extra_flags=""):
        d = os.path.join(self.cache, kind)
        env = dict(os.environ, CC="gcc", CXX="g++")
        flags = KINDS[kind] + (" " + extra_flags if extra_flags else "")
        if not os.path.exists(os.path.join(d, "build.ninja")):
            sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Vf",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DBUILD_DOCUMENTATION=OFF", "-DBUILD_TESTS=OFF",
                "-DCMAKE_CXX_FLAGS_VF=" + flags], env=env)
        sh(["ninja", "-C", d, "-j", str(NCPU)] + list(targets), env=env, timeout=800)
        return d

    def _link_info(self, d):
        """include and link flags as the project's own build of `teufel` uses them"""
        txt = open(os.path.join(d, "build.ninja")).read()
        inc = re.search(r"INCLUDES = (.*)", txt).group(1)
        m = re.search(r"build teufel: .*?LINK_LIBRARIES = (.*?)\n", txt, re.S)
        libs = m.group(1)
        libs = re.sub(r"(?<!\S)libTEUFELlib\.a", os.path.join(d, "libTEUFELlib.a"), libs)
        libs = libs.replace("-Wl,-Bstatic", "").replace("-Wl,-Bdynamic", "")
        return inc, libs

    def harness(self, src, kind="san", extra="", std="-std=c++14", out=None, pre_libs=""):
        d = self.build(kind)
        inc, libs = self._link_info(d)
        name = out or os.path.splitext(os.path.basename(src))[0]
        binp = os.path.join(self.scratch, name + "_" + kind)
        cmd = "g++ %s %s -w -fpermissive -m64 -pthread -fopenmp %s -I%s/lib %s %s -o %s %s %s" % (
            std, KINDS[kind], inc, VERIF, extra, os.path.join(VERIF, "harness", src), binp, pre_libs, libs)
        sh(cmd, timeout=800)
        if os.environ.get("VF_KEEPBIN"): shutil.copy(binp, os.environ["VF_KEEPBIN"])
        return binp

    def env(self, **kw):
        e = dict(os.environ)
        e.update({
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
            "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1",
            "OMP_NUM_THREADS": "2", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
            "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_rmaps_base_oversubscribe": "1",
            "HDF5_USE_FILE_LOCKING": "FALSE",
        })
        e.update({k: str(v) for k, v in kw.items()})
        if "TMPDIR" in kw: e["TMPDIR"] = tempfile.mkdtemp(prefix="t", dir=str(kw["TMPDIR"]))   # MPI session folders are not shared
        return e

    def outside(self, p):
        """ended from outside (memory guard, ...) or MPI could not start: says nothing about the program"""
        return p.returncode in (-9, -15) or (p.returncode != 0 and re.search(rb"MPI_INIT\b|orte_init|PMIx server|ORTE_ERROR|unable to create the desired directory", p.stdout or b"") is not None)

    # ---- harness groups -----------------------------------------------------
    def groups(self, binp):
        rc, out = sh([binp, "--list"], env=self.env())
        return [l.split()[0] for l in out.splitlines() if l.strip()]

    def run_group(self, binp, group, timeout=400, maxrestart=4, env=None, seed=None):
        """run one group, restarting after crashes; returns list of event dicts"""
        start = 0
        res = {"viol": [], "stats": [], "cnt": {}, "samples": [], "died": 0, "incon": []}
        for attempt in range(maxrestart + 1):
            wd = tempfile.mkdtemp(prefix="run_", dir=self.scratch)
            outf = os.path.join(wd, "vf.out")
            cmd = [binp, "--group", group, "--seed", str(seed if seed is not None else self.seed), "--tier", self.tier, "--out", outf, "--start", str(start), "--mult", str(self.mult)]
            if self.only and self.only.startswith(group + ":"):
                cmd += ["--case", self.only.split(":")[1]]
            log = os.path.join(wd, "log")
            rc = None
            for tries in range(2):
                if os.path.exists(outf): os.unlink(outf)
                with open(log, "wb") as lf:
                    p = subprocess.Popen(cmd, cwd=wd, env=env or self.env(), stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
                    try:
                        rc = p.wait(timeout=timeout)
                        break
                    except subprocess.TimeoutExpired:
                        os.killpg(p.pid, signal.SIGKILL); p.wait()
                        rc = "timeout"
            last = start - 1
            done = False; term = None
            if os.path.exists(outf):
                for line in open(outf, errors="replace"):
                    f = line.rstrip("\n").split("\t")
                    if not line.endswith("\n") or len(f) < {"CASE": 3, "VIOL": 5, "STAT": 5, "CNT": 3, "SAMPLE": 3, "RATIO": 3, "TERMINATE": 2}.get(f[0], 1): continue
                    if f[0] == "CASE": last = int(f[2])
                    elif f[0] == "VIOL": res["viol"].append((f[1], f[4], "%s:%s" % (f[2], f[3])))
                    elif f[0] == "STAT": res["stats"].append((int(f[2]), int(f[3]), int(f[4])))
                    elif f[0] == "CNT": res["cnt"][f[1]] = res["cnt"].get(f[1], 0) + int(f[2])
                    elif f[0] == "SAMPLE": res["samples"].append("%s: %s" % (f[1], f[2]))
                    elif f[0] == "RATIO": self.ratio[f[1]] = max(self.ratio.get(f[1], 0), float(f[2]))
                    elif f[0] == "DONE": done = True
                    elif f[0] == "TERMINATE": term = f[1]
            if done and rc == 0:
                break
            res["died"] += 1
            tail = open(log, errors="replace").read()[-200000:]
            if rc == "timeout":
                # twice over a generous limit: the operation does not terminate
                res["viol"].append(("hang:%s" % group, "case did not finish within %ds, twice" % timeout, "%s:%d" % (group, last)))
                break
            key, msg = crash_key(tail, rc)
            if term: key, msg = "terminate:%s" % group, term
            res["viol"].append((key, msg, "%s:%d" % (group, last)))
            if last < start or self.only: break
            start = last + 1
            if os.environ.get("VF_KEEPLOG"): sys.stderr.write(tail[-6000:])
        return res

    def absorb(self, res):
        for v in res["viol"]: self.viol.append(v)
        for a, b, c in res["stats"]:
            self.cases += a; self.nontrivial += b; self.evals += c
        for k, v in res["cnt"].items(): self.counters[k] = self.counters.get(k, 0) + v
        self.samples += res["samples"][:2]

    def run_all(self, binp, groups=None, timeout=None, env=None, workers=None, mult=(1, 1)):
        self.mult = mult[1] if self.thorough else mult[0]
        timeout = timeout or (400 if self.thorough else 200)
        gs = groups or self.groups(binp)
        if self.only:
            gs = [g for g in gs if self.only.startswith(g + ":")]
        with ThreadPoolExecutor(workers or NCPU) as ex:
            futs = [(g, ex.submit(self.run_group, binp, g, timeout, 4, env)) for g in gs]
            for g, f in futs:
                r = f.result()
                self.absorb(r)
                if not r["viol"] and sum(s[0] for s in r["stats"]) == 0:
                    self.inconclusive.append("group %s ran no case" % g)

    # ---- python-side oracles -------------------------------------------------
    def check(self, ok, key, msg, replay=""):
        self.evals += 1
        if not ok:
            self.viol.append((key, msg, replay or self.prop))
        return ok

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def case(self, sig=None):
        self.cases += 1
        if sig is not None and sig not in self._sigs:
            self._sigs.add(sig); self.nontrivial += 1

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    def expect(self, name, minimum):
        """a run that observed too little decides nothing"""
        if self.counters.get(name, 0) < minimum:
            self.inconclusive.append("observed only %d of %s (expected at least %d)" % (self.counters.get(name, 0), name, minimum))

    # ---- verdict ------------------------------------------------------------
    def guard(self, fn, name="program"):
        """outputs of the executed program that are missing or of unexpected shape, wherever a monitor stumbles over them"""
        def g(k):
            try: return fn(k)
            except (HarnessError, MemoryError): raise
            except Exception as x:
                if isinstance(x, OSError) and x.errno in (errno.ENOMEM, errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN): raise
                if isinstance(x, subprocess.TimeoutExpired): raise
                tb = traceback.extract_tb(x.__traceback__); at = [f for f in tb if "/checks/" in f.filename or "/lib/" in f.filename][-1:]
                self.check(False, "%s:unusable-output" % self.prop, "what the program wrote cannot be evaluated: %s: %s (%s)" % (type(x).__name__, str(x)[:300], at[0].line[:200] if at and at[0].line else ""), "%s:%s" % (name, k))
        return g

    def finish(self, rule=None, assumptions=()):
        if rule: self.rule = rule
        known = load_known()
        new, seen_known = [], {}
        for key, msg, rep in self.viol:
            hit = None
            for k in known:
                if k["property"] == self.prop and k["status"] == "known" and fnmatch.fnmatchcase(key, k["key"]):
                    hit = k; break
            if hit: seen_known.setdefault(hit["key"], (hit, msg, rep))
            else: new.append((key, msg, rep))
        uniq = {}
        for key, msg, rep in new: uniq.setdefault(key, (msg, rep))
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        replay = os.path.join(evdir, "replay-%s.json" % self.prop)
        if os.path.exists(replay): os.unlink(replay)
        if uniq:
            with open(replay, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "how": "VERIF_SEED=%d python3 checks/run.py %s --tier %s --replay <case>" % (self.seed, self.prop, self.tier),
                           "violations": [{"key": k, "what": m, "case": r} for k, (m, r) in uniq.items()]}, f, indent=1)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": self.nontrivial, "rule": self.rule,
                           "samples": self.samples[:12] or ["none"], "cases": self.cases, "observed": self.counters,
                           "inconclusive": self.inconclusive,
                           "largest_difference_over_tolerance": self.ratio},
              "assumptions": list(assumptions) + self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(uniq),
              "known_findings_seen": sorted(seen_known)}
        with open(os.path.join(evdir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, (k, msg, rep) in seen_known.items():
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, k["what"], key))
        for key, (msg, rep) in uniq.items():
            print("  violated %s at %s: %s" % (key, rep, msg[:600]))
        print("%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs observed=%s" % (
            self.prop, self.tier, self.seed, self.cases, self.evals, self.nontrivial, time.time() - self.t0, self.counters))
        if os.environ.get("VF_RATIO"):
            print({k: v for k, v in self.ratio.items() if v > 0.05})
        if uniq:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            sys.stdout.flush()
            sys.exit(1)
        if self.inconclusive or self.evals == 0:
            print("INCONCLUSIVE property=%s %s" % (self.prop, "; ".join(self.inconclusive) or "nothing evaluated"))
            sys.stdout.flush()
            sys.exit(3)
        sys.stdout.flush()
        sys.exit(0)

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def crash_key(log, rc):
    """a stable key of a sanitizer report / crash: kind + function, no line numbers"""
    m = re.search(r"SUMMARY: ThreadSanitizer: (.+?) (/?[^\s:]+(?::\d+)*) in (.*)", log) or re.search(r"SUMMARY: ThreadSanitizer: (.+?)()()$", log, re.M)
    if m:
        # all functions of the code under test that take part, sorted out of the two access stacks: the first frame in src
        fr = re.findall(r"#\d+ (.+?) (?:/\S*?/)?src/([\w.]+):\d+", log)
        f = os.path.basename(m.group(2)) or (fr[0][1] if fr else "")
        fn = m.group(3) or (fr[0][0] if fr else "")
        return "tsan:%s:%s:%s" % (m.group(1).replace(" ", "-"), f.split(":")[0], re.sub(r"\(.*", "", re.sub(r" \[clone.*", "", fn))), m.group(0)[:300]
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)(?: (\S+) in (.*))?", log)
    if m:
        kind = m.group(2)
        fn = (m.group(4) or "").strip()
        if kind.startswith("/") or ":" in kind:   # UBSan: SUMMARY: UndefinedBehaviorSanitizer: undefined-behavior file:line
            kind = "undefined-behavior"
        # first frame inside the code under test
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?/src/[\w.]+)", log)
        where = ""
        for f, path in fr:
            where = re.sub(r"\(.*", "", f); break
        if not where and fn: where = re.sub(r"\(.*", "", fn)
        if m.group(1) == "UndefinedBehaviorSanitizer" or "runtime error" in log:
            r = re.search(r"(\S+?):\d+:\d+: runtime error: (.*)", log)
            if r:
                what = re.sub(r"[-+]?[0-9][0-9.e+x-]*", "N", r.group(2))[:60]
                return "ubsan:%s:%s" % (where or os.path.basename(r.group(1)), what), r.group(0)[:400]
        return "san:%s:%s" % (kind, where), m.group(0)[:300]
    r = re.search(r"(\S+?):\d+:\d+: runtime error: (.*)", log)
    if r:
        what = re.sub(r"[-+]?[0-9][0-9.e+x-]*", "N", r.group(2))[:60]
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?/src/[\w.]+)", log)
        where = re.sub(r"\(.*", "", fr[0][0]) if fr else os.path.basename(r.group(1))
        return "ubsan:%s:%s" % (where, what), r.group(0)[:400]
    return "crash:rc=%s" % rc, "abnormal end rc=%s: %s" % (rc, log[-300:].replace("\n", " | "))
