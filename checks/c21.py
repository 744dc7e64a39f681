import os, re, shutil, subprocess, numpy as np, h5py
from concurrent.futures import ThreadPoolExecutor
from vf import VERIF, NCPU, sh, crash_key
import xmlgen, outcmp, meshlib as M

RESOURCE = re.compile(r"allocation-size-too-big|out-of-memory|hard rss limit|bad_alloc|length_error|bad_array_new_length|exceeds maximum supported size")
ASAN = "detect_leaks=0:exitcode=98:handle_abort=0:allocator_may_return_null=0:verify_asan_link_order=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:malloc_fill_byte=%d:max_malloc_fill_size=1000000"

def run(c):
    san = os.path.join(c.build("san", targets=("teufel",)), "teufel")
    fill = [os.path.join(c.build(k, targets=("teufel",)), "teufel") for k in ("fillz", "fillp")]
    tools = c.build("san0", targets=("propagate", "reflection"))
    so = os.path.join(c.scratch, "mpi_preload.so"); sh("mpicc -shared -fPIC -O1 -o %s %s/lib/mpi_preload.c" % (so, VERIF))

    def launch(cmd, wd, seed=1, timeout=100, preload=True, fillbyte=190, **kw):
        e = c.env(ASAN_OPTIONS=ASAN % fillbyte, VF_SEED2=seed, TMPDIR=c.scratch, OMPI_MCA_mpi_yield_when_idle=1, **kw)
        if preload: e["LD_PRELOAD"] = so
        for k in range(2):
            try:
                p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
                if not c.outside(p): return p.returncode, p.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired: pass
        return None, ""

    def judge(name, rc, out, rep, info):
        """the run ended properly: completed, or ended with a reported error"""
        if not c.check(rc is not None, "C21:hang:"+name, "does not end: "+info, rep): return None
        if re.search(r"Sanitizer|runtime error:", out):
            if RESOURCE.search(out): c.count("resource_exhaustion"); return False
            key, msg = crash_key(out, rc); c.check(False, "C21:"+key, "%s (%s)" % (msg, info), rep); return None
        if rc == 0: c.count("completed"); return True
        if RESOURCE.search(out): c.count("resource_exhaustion"); return False
        bad = rc in (-4, -7, -8, -11, 132, 135, 136, 139) or (rc in (-6, 134) and "terminate called" not in out and "what()" not in out)
        sig = re.search(r"Signal: (.*) \(", out)
        if not c.check(not bad, "C21:crash:%s:%s" % (name, sig.group(1) if sig else rc), "%s ended with %s: %s (%s)" % (name, rc, out[-300:], info), rep): return None
        c.check(len(re.findall(r"(?i)error|not found|what\(\)|can't|cannot|unknown|usage|missing|must|please|expected|failed|no .*file", out)) > 0, "C21:silent:"+name, "%s ends with %s without a message: %s (%s)" % (name, rc, out[-300:], info), rep); c.count("reported_errors")
        return False

    # 1. complete runs ------------------------------------------------------------------
    def valid(k):
        rng = np.random.default_rng([c.seed, 21, k]); base = os.path.join(c.scratch, "v%d" % k); os.makedirs(base); rep = "valid:%d" % k
        s = xmlgen.make(rng, base, np_total=int(rng.integers(1, 25)) if k % 3 else None, bunches=1 if rng.random() < .3 else None); R = []
        runs = [("san", [san, "a.xml"], dict(fillbyte=[190, 0, 255, 1][k % 4])), ("fillz", [fill[0], "a.xml"], dict(MALLOC_PERTURB_=255)), ("fillp", [fill[1], "a.xml"], dict(MALLOC_PERTURB_=65))]
        if k % 8 == 7: runs.append(("mpi", ["mpirun", "--oversubscribe", "-n", str(rng.integers(2, 4)), "-x", "LD_PRELOAD=" + so, san, "a.xml"], dict(preload=False)))
        for nm, cmd, kw in runs:
            wd = base+"/"+nm; os.makedirs(wd)
            for f in os.listdir(base):
                if os.path.isfile(base+"/"+f): shutil.copy(base+"/"+f, wd)
            rc, out = launch(cmd, wd, seed=k+1, timeout=150, **kw); r = judge("teufel", rc, out, rep, "%s: %s" % (nm, s.xml[:1500]))
            if r is None: return
            if not c.check(r, "C21:fails:"+nm, "valid input ends with an error %s: %s (%s)" % (rc, out[-300:], s.xml[:1500]), rep): return
            got = {}
            for f, kd in s.out.items():
                if kd == "debug": continue
                if not c.check(os.path.exists(wd+"/"+f), "C21:output", "%s reports success but %s was not written" % (nm, f), rep): continue
                try: got[f] = outcmp.load(wd+"/"+f)
                except Exception as x: c.check(False, "C21:output", "%s: output %s is unusable: %s" % (nm, f, x), rep)
            R.append(got); c.count("outputs", len(got)); c.count("runs_"+nm)
        for f in R[1]:
            if f in R[2]:
                d, m = outcmp.differ(R[1][f], R[2][f], 1e-9); c.check(d is None, "C21:uninit:"+(f if not f.startswith("obs") else [o[0] for o in s.obs if o[2] == f][0]), "%s depends on memory that was never written: %s (%s)" % (f, d, s.xml[:1500]), rep); c.count("values_under_both_fills", m)
            if f in R[0]: d, m = outcmp.differ(R[0][f], R[1][f], 1e-6); c.check(d is None, "C21:uninit:san", "%s of the sanitized run differs: %s (%s)" % (f, d, s.xml[:1500]), rep)
        for x in s.lattice: c.count("with_"+x)
        for x in set(o[0]+"-"+o[1] for o in s.obs): c.count("with_"+x)
        if s.fel: c.count("with_fel" + ("" if "fel.h5" in s.out else "_unlogged"))
        c.case(("v", k)); c.sample(s.xml[:500]); shutil.rmtree(base, ignore_errors=True)

    # 2. damaged set-up files -----------------------------------------------------------
    def mutate_xml(rng, x):
        ops = []
        for i in range(int(rng.integers(1, 4))):
            A = list(re.finditer(r' ([\w-]+)="([^"]*)"', x)); N = list(re.finditer(r"<(\w[\w-]*)\b[^>]*?/>", x)); B = list(re.finditer(r"<(\w[\w-]*)\b[^<>]*[^/<>]>.*?</\1>", x, re.S)); k = int(rng.integers(0, 12)); pick = lambda L: L[int(rng.integers(len(L)))]
            if k < 5 and A:
                m = pick(A); n, v = m.group(1), m.group(2)
                if n in ("file", "type", "source", "method", "name"): w = pick(["", "x", "../", "a"*300, "%s%n", "no/such/dir/f.h5", v+" ", "beam", "lattice"])
                elif n in ("n", "N", "step", "number", "particles", "indep", "dep"): w = pick(["0", "1", "2", "7", "60", "abc", "", "1.6", "1/0", "nan"] + ["-1", "-7", "6", "100", "3000000000", "1e20", "-1e20"])
                else:
                    w = pick(["0", "-"+v, v+"*1e3", v+"*1e-6", "", "abc", "1e300", "1e-300", "1/0", "0/0", "sqrt(-1)", "-1", "1", "1e9"])
                x = x[:m.start(2)] + w + x[m.end(2):]; ops.append("%s=%s" % (n, w))
            elif k == 5 and A: m = pick(A); x = x[:m.start()] + x[m.end():]; ops.append("drop "+m.group(1))
            elif k == 6 and N: m = pick(N); x = x[:m.start()] + x[m.end():]; ops.append("drop <%s>" % m.group(1))
            elif k == 7 and N: m = pick(N); x = x[:m.end()] + m.group(0)*int(rng.integers(1, 4)) + x[m.end():]; ops.append("repeat <%s>" % m.group(1))
            elif k == 8 and N: m, q = pick(N), pick(N); x = x[:q.start()] + m.group(0) + x[q.end():]; ops.append("<%s> instead of <%s>" % (m.group(1), q.group(1)))
            elif k == 9 and B: m = pick(B); x = x[:m.start()] + x[m.end():]; ops.append("drop block <%s>" % m.group(1))
            elif k == 10 and B: m = pick(B); i = pick([a.start() for a in N] or [len(x)]); x = x[:i] + m.group(0) + x[i:]; ops.append("copy block <%s>" % m.group(1))
            else: i = int(rng.integers(len(x))); x = x[:i] + pick(["", "<", ">", "\"", "&", "\0", "é", "/", " "]) + x[i+int(rng.integers(0, 2)):]; ops.append("character %d" % i)
        # keep the amount of work bounded
        x = re.sub(r'(<tracking [^>]*n=")(\d{3,})(")', r"\g<1>50\3", x)
        return x, "; ".join(ops)

    def damaged(k):
        rng = np.random.default_rng([c.seed, 211, k]); base = os.path.join(c.scratch, "d%d" % k); os.makedirs(base); rep = "damaged:%d" % k
        s = xmlgen.make(rng, base, steps=int(rng.integers(1, 8))); y, ops = mutate_xml(rng, s.xml); open(base+"/a.xml", "w").write(y)
        rc, out = launch([san, "a.xml"], base, seed=k, fillbyte=[190, 0, 255][k % 3]); r = judge("teufel", rc, out, rep, "%s in %s" % (ops, y[:3000]))
        c.count("damaged_setups"); c.case(("d", k) if r is not None else None)
        if r is False: c.count("damaged_setups_rejected")
        shutil.rmtree(base, ignore_errors=True)

    # 3. damaged particle, screen and mesh files ------------------------------------------
    def mutate_sdds(rng, fn):
        t = open(fn).read(); pick = lambda L: L[int(rng.integers(len(L)))]; k = int(rng.integers(0, 9)); L = t.split("\n")
        if k == 0: i = int(rng.integers(len(L))); del L[i]; t = "\n".join(L); op = "line %d missing" % i
        elif k == 1: i = int(rng.integers(len(L))); L.insert(i, L[i]); t = "\n".join(L); op = "line %d twice" % i
        elif k == 2: i = int(rng.integers(len(t))); t = t[:i]; op = "cut at %d" % i
        elif k in (3, 4):
            m = pick(list(re.finditer(r"(?<=[\n ])-?\d[\w.+-]*(?=[\n ])", t))); w = pick(["-5", "0", "1", "1000", "100000", "1e400", "nan", "inf", "abc", "", "1e-400"]); t = t[:m.start()] + w + t[m.end():]; op = "%s -> %s" % (m.group(0), w)
        elif k == 5: m = pick(list(re.finditer("double|long", t))); w = pick(["string", "short", "character", "float", "long64", "unknown", "double", "long"]); t = t[:m.start()] + w + t[m.end():]; op = "type "+w
        elif k == 6: t = t.replace("mode=ascii", pick(["mode=binary", "mode=none", "mode=ascii, lines_per_row=3", "mode=ascii, no_row_counts=1", "mode=ascii, additional_header_lines=2"])); op = "data mode"
        elif k == 7: m = pick(list(re.finditer(r"name=(\w+)", t))); t = t[:m.start(1)] + pick(["y", "q", "", "Charge"]) + t[m.end(1):]; op = "name "+m.group(1)
        else: i = int(rng.integers(len(t))); t = t[:i] + chr(int(rng.integers(1, 127))) + t[i+1:]; op = "byte %d" % i
        open(fn, "w").write(t); return "SDDS " + op

    def mutate_h5(rng, fn):
        pick = lambda L: L[int(rng.integers(len(L)))]; k = int(rng.integers(0, 8))
        if k == 7: b = open(fn, "rb").read(); i = int(rng.integers(len(b))); open(fn, "wb").write(b[:i]); return "HDF5 cut at %d" % i
        with h5py.File(fn, "r+") as f:
            n = pick(sorted(f.keys())); d = f[n]; A = sorted(d.attrs)
            if k == 0: del f[n]; return "without data set "+n
            if k == 1 and A: a = pick(A); del d.attrs[a]; return "without attribute "+a
            if k in (2, 3) and A:
                a = pick(A); v = d.attrs[a]
                w = pick([0, -1, v+1, v-1, 2*v, 50, np.float64(v), np.int64(v), np.array([v, v]), "text"] if isinstance(v, np.integer) else [0.0, -v, np.nan, np.inf, np.int32(0), "text", np.array([v, v])]); del d.attrs[a]; d.attrs[a] = np.int32(w) if isinstance(v, np.integer) and isinstance(w, (int, np.int32)) else w; return "attribute %s = %s" % (a, w)
            v = d[()]; at = dict(d.attrs); del f[n]
            if k == 4: v = pick([v.reshape(-1), v[..., None], v[:max(1, v.shape[0]-1)], np.concatenate([v, v]), v[:0], v[..., :-1] if v.ndim > 1 else v[:1], np.swapaxes(v, 0, v.ndim-1)]); op = "shape %s" % (v.shape,)
            elif k == 5: t = pick(["f4", "i4", "i8", "S5", "i2"]); v = np.nan_to_num(np.asarray(v, float)).astype(t) if t != "S5" else np.full(v.shape, b"text"); op = "type "+t
            else:
                if v.dtype.kind == "i": j = tuple(int(rng.integers(q)) for q in v.shape); w = pick([-1, 10**6, 2**31-1, -2**31, 0]); v = v.copy(); v[j] = w
                else: j = tuple(int(rng.integers(q)) for q in v.shape) if v.size else (); w = pick([np.nan, np.inf, 0, 1e300, -1]); v = v.copy(); v[j if j else ...] = w
                op = "value %s" % w
            q = f.create_dataset(n, data=v)
            for a, b in at.items(): q.attrs[a] = b
            return "%s: %s" % (n, op)

    def files(k):
        rng = np.random.default_rng([c.seed, 212, k]); base = os.path.join(c.scratch, "f%d" % k); os.makedirs(base); rep = "files:%d" % k
        for t in range(40):
            for f in os.listdir(base): os.unlink(base+"/"+f)
            s = xmlgen.make(rng, base, steps=int(rng.integers(1, 6)), lattice=["background", "screen"] if k % 3 == 0 else ["background"], observers=["mesh", "point"] if k % 3 == 1 else None)
            c3 = [f for f in os.listdir(base) if (f.endswith(".sdds") if k % 3 == 2 else f.endswith(".h5"))]
            if k % 3 == 1: c3 = [f for f in c3 if f.startswith("obs")]
            if c3: break
        f = sorted(c3)[0]; ops = [mutate_sdds(rng, base+"/"+f) if f.endswith("sdds") else mutate_h5(rng, base+"/"+f)]
        rc, out = launch([san, "a.xml"], base, seed=k, fillbyte=[190, 0, 255][k % 3]); r = judge("teufel", rc, out, rep, "%s (%s)" % (ops, f)); c.count("damaged_files"); c.count("damaged_"+("particles" if f.endswith("sdds") else "screen" if f == "src.h5" else "mesh"))
        if r is False: c.count("damaged_files_rejected")
        c.case(("f", k) if r is not None else None); shutil.rmtree(base, ignore_errors=True)

    # 4. the stand-alone tools ---------------------------------------------------------------
    def tool(k):
        rng = np.random.default_rng([c.seed, 213, k]); base = os.path.join(c.scratch, "t%d" % k); os.makedirs(base); rep = "tool:%d" % k; name = ("propagate", "reflection")[k % 2]; h = 10**rng.uniform(-3, -1); dt = h/M.CC
        while True:
            m = M.grid(rng, int(rng.integers(1, 4)), int(rng.integers(1, 4)), h)
            if M.conditioned(m): break
        M.timing(m, rng.normal(size=m.Np)*dt, dt, int(rng.integers(2, 9))); M.rand_fields(rng, m); M.write(m, base+"/s.h5"); q = M.grid(rng, int(rng.integers(1, 3)), int(rng.integers(1, 3)), h, rng.normal(size=3)*10*h); M.timing(q, 10*dt, dt, int(rng.integers(1, 9))); M.write(q, base+"/t.h5", fields=rng.random() < .5)
        args = ["s.h5", "t.h5", "o.h5"]; u = int(rng.integers(0, 6)); op = "none"
        if u < 4: f = args[int(rng.integers(2))]; op = f + " " + mutate_h5(rng, base+"/"+f)
        elif u == 4: args = [[], ["s.h5"], ["s.h5", "t.h5"], ["missing.h5", "t.h5", "o.h5"], ["s.h5", "missing.h5", "o.h5"], ["s.h5", "t.h5", "no/dir/o.h5"], args+["x"], ["s.h5", "s.h5", "s.h5"], ["/", "t.h5", "o.h5"]][int(rng.integers(9))]; op = "arguments %s" % args
        rc, out = launch([os.path.join(tools, name)] + args, base, preload=False, timeout=200); r = judge(name, rc, out, rep, "%s: %s" % (name, op)); c.count("tool_runs")
        if op == "none" and r is not None: c.check(r and os.path.exists(base+"/o.h5"), "C21:fails:"+name, "valid input: %s" % out[-300:], rep)
        if r and op.startswith("arguments") and len(args) >= 3 and args[2] != "o.h5": pass
        elif r: c.check(os.path.exists(base+"/o.h5"), "C21:output:"+name, "reports success without writing the output (%s)" % op, rep)
        if r is False: c.count("tool_inputs_rejected")
        c.case(("t", k) if r is not None else None); shutil.rmtree(base, ignore_errors=True)

    # 5. uninitialised values, bit by bit ----------------------------------------------------
    def memcheck(k):
        rng = np.random.default_rng([c.seed, 214, k]); base = os.path.join(c.scratch, "g%d" % k); os.makedirs(base); rep = "memcheck:%d" % k
        s = xmlgen.make(rng, base, np_total=int(rng.integers(1, 6)), steps=int(rng.integers(2, 6)), observers=[["point", "screen"], ["snapshot", "mesh"]][k % 2], lattice=[["background", "screen", "tgu"], ["undulator", "packet", "soft"], ["wave", "dipole", "background"]][k % 3], fel=bool(k % 2))
        rc, out = launch(["valgrind", "--tool=memcheck", "--error-limit=no", "--num-callers=12", "--log-file=vg.log", "--leak-check=no", fill[0].replace("fillz", "fillz"), "a.xml"], base, seed=k, timeout=400)
        if rc is None: c.inconclusive.append("valgrind run %d did not finish, twice" % k); return
        log = open(base+"/vg.log").read() if os.path.exists(base+"/vg.log") else ""
        m = re.search(r"ERROR SUMMARY: (\d+)", log)
        if not c.check(bool(m) and rc == 0, "C21:memcheck:run", "run ends with %s: %s" % (rc, out[-300:]), rep): return
        for blk in re.split(r"==\d+== \n", log):
            h = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Invalid free|Mismatched free|Source and destination overlap).*\n==\d+==    at 0x\w+: (.+?) \((.+?)\)", blk)
            if not h: continue
            fr = re.findall(r"(?:at|by) 0x\w+: (.+?) \(([\w.]+\.(?:cpp|h)):\d+\)", blk)
            top = h.group(3).split(":")[0]; own = top in SRC
            # library code called directly with our data: replacement functions of valgrind itself (memcpy, free, ...)
            if not own and ("vg_replace" in h.group(3) or re.match(r"in .*libm[-.]|in .*libstdc|in .*libgomp", h.group(3)) or h.group(1).startswith("Invalid")) and fr and fr[0][1] in SRC and len(fr) > 0: own = True
            if own: c.check(False, "C21:memcheck:%s:%s" % (h.group(1).replace(" ", "-"), re.sub(r"\(.*", "", fr[0][0] if fr else h.group(2))), "%s in %s (%s)" % (h.group(0).split("\n")[0], fr[:3], s.xml[:1200]), rep)
        c.count("memcheck_runs"); c.case(("g", k)); shutil.rmtree(base, ignore_errors=True)
    from vf import REPO
    SRC = set(os.listdir(REPO+"/src"))

    # 6. command lines ------------------------------------------------------------------------
    def cmdline(k):
        base = os.path.join(c.scratch, "c%d" % k); os.makedirs(base); rng = np.random.default_rng([c.seed, 215, k]); s = xmlgen.make(rng, base, steps=2)
        open(base+"/empty.xml", "w").close(); open(base+"/bin.xml", "wb").write(bytes(rng.integers(0, 256, 5000, dtype=np.uint8))); open(base+"/deep.xml", "w").write("<teufel>" + "<lattice>"*3000 + "</lattice>"*3000 + "</teufel>")
        args = [[], ["missing.xml"], [base], ["empty.xml"], ["bin.xml"], ["deep.xml"], ["a"*5000], [""], ["a.xml", "b", "c"], ["src.h5"]][k % 10]
        rc, out = launch([san] + args, base); judge("teufel", rc, out, "cmdline:%d" % k, "arguments %s" % [a[:50] for a in args]); 
        if k % 10 != 8 and rc is not None: c.check(rc != 0, "C21:exit", "success reported for %s" % [a[:50] for a in args], "cmdline:%d" % k)
        c.count("command_lines"); c.case(("c", k)); shutil.rmtree(base, ignore_errors=True)

    G = {"valid": (valid, 48, 560), "damaged": (damaged, 240, 4200), "files": (files, 150, 2100), "tool": (tool, 60, 700), "memcheck": (memcheck, 6, 40), "cmdline": (cmdline, 10, 10)}
    if c.only: g, k = c.only.split(":"); jobs = [(G[g][0], int(k))]
    else:
        jobs = [(f, i) for g in ("memcheck", "valid", "cmdline", "tool", "damaged", "files") for f, q, t in [G[g]] for i in range(t if c.thorough else q)]
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(lambda j: c.guard(j[0], j[0].__name__)(j[1]), jobs))
    if not c.only:
        for k, n in (("runs_san", 40), ("runs_fillp", 40), ("runs_mpi", 4), ("outputs", 400), ("values_under_both_fills", 20000), ("damaged_setups", 200), ("damaged_setups_rejected", 40), ("damaged_files", 120), ("damaged_files_rejected", 30), ("tool_runs", 50), ("memcheck_runs", 5), ("command_lines", 10), ("completed", 150), ("reported_errors", 100)): c.expect(k, n)
    c.finish("whole programs on generated inputs, each judged by the way it ends and what the instrumentation reports. valid: set-ups covering all elements, sources, logs and observers run as AddressSanitizer+UBSan build (heap blocks filled with changing bytes) and as two builds whose stack variables are filled with zero or a pattern under different malloc fills; all complete, and every file written must agree between the builds, so no output depends on memory contents. damaged: 1-4 random changes to a valid set-up (dropped, duplicated, renamed, moved nodes and attributes, hostile numbers, cut text); files: truncated or altered particle, mesh and screen files (shapes, types, attributes, values); tool: propagate and reflection on such files and wrong arguments; cmdline: malformed command lines; memcheck: valgrind on optimised builds, judging only frames of src/. A run must end by itself, without sanitizer report or fatal signal, and if it does not complete it must say why and return failure", ["allocation failure for absurd sizes is an acceptable rejection", "leaks at exit are not judged", "third-party libraries are not instrumented", "a rejected input may end in an uncaught exception, which is how the program reports errors"])
