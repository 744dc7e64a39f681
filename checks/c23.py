import os, re, subprocess, sys, json, numpy as np, h5py, shutil
from concurrent.futures import ThreadPoolExecutor
from vf import VERIF, NCPU, sh, HarnessError
import xmlgen, outcmp, meshlib as M
CC = 299792458.0

def run(c):
    grp = c.only.split(":")[0] if c.only else None
    repo = os.environ.get("VF_REPO", "/repo"); sc = os.path.join(c.scratch, "scripts"); shutil.copytree(os.path.join(repo, "scripts"), sc, ignore=shutil.ignore_patterns("*.ipynb", "__pycache__"))
    exe = os.path.join(c.build("rel", targets=("teufel",)), "teufel")
    so = os.path.join(c.scratch, "mpi_preload.so"); sh("mpicc -shared -fPIC -O1 -o %s %s/lib/mpi_preload.c" % (so, VERIF))
    def launch(wd, seed, f="a.xml"):
        for k in range(2):
            try:
                p = subprocess.run([exe, f], cwd=wd, env=c.env(LD_PRELOAD=so, VF_SEED2=seed, TMPDIR=c.scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
                if not c.outside(p): return p.returncode, p.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired: pass
        return None, ""
    def readers(jobs, name):
        """one interpreter judges a batch of jobs"""
        d = os.path.join(c.scratch, name); os.makedirs(d); json.dump(jobs, open(d+"/jobs.json", "w")); env = c.env(MPLBACKEND="Agg", MPLCONFIGDIR=d, PYTHONDONTWRITEBYTECODE="1", HOME=d, OPENBLAS_NUM_THREADS="1", TMPDIR=d)
        try: p = subprocess.run([sys.executable, os.path.join(VERIF, "lib", "readers.py"), sc, d+"/jobs.json", d+"/res.json"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700 if c.thorough else 300); rc, out = p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired: rc, out = None, "timeout"
        R = json.load(open(d+"/res.json")) if os.path.exists(d+"/res.json") else []
        for r in R:
            c.evals += r["evals"]; c.case(r["job"])
            for k, n in r["count"].items(): c.count(k, n)
            for k, m in r["viol"]: c.viol.append((k, m, r["job"]))
        if len(R) < len(jobs):
            if rc is None: c.inconclusive.append("the readers did not finish job %s" % jobs[len(R)]["id"])
            elif rc is not None and rc < 0 and rc != -9: c.check(False, "C23:crash", "the interpreter ended with signal %d while reading" % -rc, jobs[len(R)]["id"])
            else: raise HarnessError("readers: %s %s" % (rc, out[-2000:]))

    def prog(k):
        rng = np.random.default_rng([c.seed, 23, k]); base = os.path.join(c.scratch, "p%d" % k); os.makedirs(base)
        obs = ["point", "screen", "mesh"] + [str(x) for x in rng.choice(["snapshot", "screen", "point"], int(rng.integers(0, 3)))]
        s = xmlgen.make(rng, base, observers=obs, probe=False, fel=(k % 6 == 5), np_total=int(rng.integers(2, 30))); n = s.n; x = re.sub(r"<watch[^>]*/>\n?", "", s.xml); st = [int(i) for i in rng.integers(0, n+1, 2)]
        W = "\n".join('<watch step="%d" file="w%d.h5"/><watch-sdds step="%d" file="w%d.sdds"/>' % (t, i, t, i) for i, t in enumerate(st)); open(base+"/a.xml", "w").write(x.replace("</tracking>", W+"\n</tracking>"))
        rc, out = launch(base, k+1)
        if rc is None: c.inconclusive.append("run %d did not finish, twice" % k); return None
        if rc != 0: c.count("not_runnable"); shutil.rmtree(base, ignore_errors=True); return None
        c.count("program_runs"); F = lambda kind: [o[2] for o in s.obs if o[0] == kind]; logs = [f for f in s.out if f.startswith("log")]
        miss = [f for f in ["w%d.%s" % (i, e) for i in (0, 1) for e in ("h5", "sdds")]+logs+[o[2] for o in s.obs] if not os.path.exists(base+"/"+f)]
        if miss: c.check(False, "C23:unusable-output", "%s: not written" % miss, "program:%d" % k); return None
        c.sample("%d particles, %d steps, observers %s, logs %s" % (s.np, n, [o[0] for o in s.obs], logs))
        return {"id": "program:%d" % k, "kind": "program", "seed": [c.seed, 231, k], "dir": base, "watch": [["w%d.h5" % i, "w%d.sdds" % i] for i in (0, 1)], "logs": logs, "points": F("point"), "screens": F("screen"), "snapshots": F("snapshot"), "meshes": F("mesh"), "plot": [f for f in logs+[o[2] for o in s.obs] if rng.random() < .6]}

    def back(k):
        """what the library writes is read by the program like the original"""
        rng = np.random.default_rng([c.seed, 232, k]); base = os.path.join(c.scratch, "b%d" % k); os.makedirs(base); rep = "back:%d" % k; dt = 1e-12; nt = int(rng.integers(6, 20))
        O = rng.normal(size=3); xmlgen.source_screen(base+"/s.h5", rng, O, nt, dt, rng.uniform(-1, 1)*1e-9)
        with h5py.File(base+"/s.h5", "a") as f: d = f["Screen"]; d.attrs["dtx"] = 0.0; d.attrs["dty"] = 0.0; nn = d[1]; t0 = 0.
        m = M.grid(rng, 2, 2, 1e-3, O+nn*.05); M.timing(m, t0+.05/CC+rng.uniform(-1, 1, m.Np)*dt, dt, nt); M.write(m, base+"/m.h5", fields=True)
        readers([{"id": rep, "kind": "rewrite", "seed": [1, k], "screens": [[base+"/s.h5", base+"/s2.h5"]], "meshes": [[base+"/m.h5", base+"/m2.h5"]]}], "rb%d" % k)
        if not (os.path.exists(base+"/s2.h5") and os.path.exists(base+"/m2.h5")): c.check(False, "C23:rewrite", "nothing was written", rep); return
        got = []
        for i, (s, mf) in enumerate((("s.h5", "m.h5"), ("s2.h5", "m2.h5"))):
            wd = base+"/r%d" % i; os.makedirs(wd); shutil.copy(base+"/"+s, wd+"/s.h5"); shutil.copy(base+"/"+mf, wd+"/m.h5"); P = O+nn*.05
            open(wd+"/a.xml", "w").write('<?xml version="1.0"?>\n<teufel description="t" author="v"><lattice><screen name="s" file="s.h5">%s</screen></lattice><beam><particle gamma="10" charge="-1e-15" cmr="-1.0">%s%s</particle></beam><tracking method="Vay" delta_t="1e-13" n="2"/><observer><point file="o.sdds" source="lattice">%s<time t0="%s" dt="%s" n="%d"/></point><mesh file="m.h5" source="lattice"/></observer></teufel>' % (xmlgen.v3("position", O), xmlgen.v3("position", O+nn*100), xmlgen.v3("momentum", (0, 0, 1)), xmlgen.v3("position", P), xmlgen.g(t0+.05/CC), xmlgen.g(dt), nt))
            rc, out = launch(wd, 1)
            if rc is None: c.inconclusive.append("run %d did not finish, twice" % k); return
            if not c.check(rc == 0, "C23:rewrite", "the program rejects %s: %s" % ("the original files" if i == 0 else "files written by the library", out[-300:]), rep): return
            got.append((outcmp.load(wd+"/o.sdds"), outcmp.load(wd+"/m.h5")))
        for i, w in enumerate(("point fields from the screen written by the library", "mesh observer whose file the library wrote")):
            d, nv = outcmp.differ(got[0][i], got[1][i], 1e-9); c.check(d is None, "C23:rewrite", "%s: %s" % (w, d), rep); c.count("rewritten_values", nv)
        fm = np.abs(got[0][1].get("ElMagField", np.zeros(1))).max(); c.count("back_nonzero", int(fm > 0)); c.case(rep); shutil.rmtree(base, ignore_errors=True)

    one = lambda g: int(c.only.split(":")[1]) if grp == g else None
    with ThreadPoolExecutor(NCPU) as ex:
        if grp in (None, "program"):
            ks = range(24 if not c.thorough else 260) if grp is None else [one("program")]
            jobs = [j for j in ex.map(c.guard(prog), ks) if j]; B = [jobs[i::NCPU] for i in range(NCPU)]
            for r in ex.map(lambda a: readers(a[1], "rp%d" % a[0]) if a[1] else None, enumerate(B)): pass
            for j in jobs: shutil.rmtree(j["dir"], ignore_errors=True)
        if grp in (None, "synthetic"):
            ks = list(range(48 if not c.thorough else 1600)) if grp is None else [one("synthetic")]
            jobs = []
            for k in ks: d = os.path.join(c.scratch, "y%d" % k); os.makedirs(d); jobs.append({"id": "synthetic:%d" % k, "kind": "synthetic", "seed": [c.seed, 233, k], "dir": d, "plots": k % 2 == 0})
            NB = NCPU if not c.thorough else NCPU*6; B = [jobs[i::NB] for i in range(NB)]
            for r in ex.map(lambda a: readers(a[1], "rs%d" % a[0]) if a[1] else None, enumerate(B)): pass
        if grp in (None, "back"):
            for r in ex.map(c.guard(back, "back"), range(10 if not c.thorough else 80) if grp is None else [one("back")]): pass
    if grp is None:
        for n, q in (("program_runs", 16), ("screens", 60), ("screen_pixels", 400), ("spectra", 500), ("curves", 300), ("numbers", 150), ("watch_particles", 1000), ("log_rows", 40), ("meshes", 40), ("mesh_times", 1000), ("script_runs", 120), ("emittances", 5), ("rewritten_values", 500), ("back_nonzero", 5)): c.expect(n, q)
    c.finish(rule="one case: one set of recorded files (written by the program itself, or made up in its format) read through every reader, query and script", assumptions=["the definitions of the beam parameters: population rms; xp, yp as angles; normalised emittance <beta gamma> sqrt(<x2><xp2>-<xxp>2)", "vtk and pygmsh are not installed: the 3D display receives recorded calls"])
