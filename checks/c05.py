import os, shutil, subprocess, numpy as np, h5py
from concurrent.futures import ThreadPoolExecutor
from vf import NCPU
import xmlgen, outcmp

def field(fn):
    if fn.endswith(".h5"):
        with h5py.File(fn, "r") as f: return f["ElMagField"][()]
    C = outcmp.sdds(fn)[1]; return np.stack([C[k] for k in C if k[0] in "EB"], -1)

def run(c):
    grp = c.only.split(":")[0] if c.only else None
    if grp != "program":
        h = c.harness("c05.cpp")
        c.run_all(h, mult=(4, 20))
    exe, so = os.path.join(c.build("rel", ["teufel"]), "teufel"), os.path.join(c.scratch, "mp.so")
    if grp in (None, "program"): subprocess.check_call(["mpicc", "-O1", "-fPIC", "-shared", "-o", so, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "mpi_preload.c"), "-ldl"])

    def launch(wd):
        for k in range(2):
            try:
                p = subprocess.run([exe, "a.xml"], cwd=wd, env=c.env(LD_PRELOAD=so, VF_SEED2=1, TMPDIR=c.scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
                if not c.outside(p): return p.returncode, p.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired: pass
        return None, ""

    def prog(k):
        """observers of the real program: what the lattice elements, or the beam components, give together is the sum of what each of them gives alone"""
        rng = np.random.default_rng([c.seed, 5, k]); base = os.path.join(c.scratch, "p%d" % k); os.makedirs(base); rep = "program:%d" % k; beam = k % 2
        kinds = list(rng.permutation(["background", "undulator", "dipole", "wave", "packet", "soft", "tgu", "screen"]))[:int(rng.integers(2, 4))]
        s = xmlgen.make(rng, base, bunches=int(rng.integers(2, 5)) if beam else 1, observers=[str(x) for x in rng.choice(["point", "screen", "snapshot", "mesh"], 3)], fel=False if beam else bool(rng.random() < .6), lattice=kinds, logs=False, random_bunch=False, source="beam" if beam else "lattice")
        L, B, T, O = s.parts; A = [t for t in T if "<fel1d" not in t]
        jobs = [("all", L, B, T)] + ([("part%d" % i, L, [b], T) for i, b in enumerate(B)] if beam else [("part%d" % i, [l], B, A) for i, l in enumerate(L)]); R = []
        for nm, l, b, t in jobs:
            wd = base+"/"+nm; os.makedirs(wd)
            for f in s.inputs + [o[2] for o in s.obs if o[0] == "mesh"]: shutil.copy(base+"/"+f, wd)
            open(wd+"/a.xml", "w").write('<?xml version="1.0"?>\n<teufel description="t" author="v">\n<lattice>\n%s\n</lattice>\n<beam>\n%s\n</beam>\n<tracking method="Vay" delta_t="%s" n="%d">\n%s\n</tracking>\n<observer>\n%s\n</observer>\n</teufel>\n' % ("\n".join(l), "\n".join(b), xmlgen.g(s.dt), s.n, "\n".join(t), "\n".join(O)))
            rc, out = launch(wd)
            if rc and nm == "all": rc, out = launch(wd)      # composition is judged here, not occasional failures
            if rc is None: c.inconclusive.append("run %d did not finish, twice" % k); return
            if rc != 0 and nm == "all": bad = out; rc0 = rc; R.append(None); continue
            if rc != 0: c.count("not_runnable"); shutil.rmtree(base, ignore_errors=True); return
            R.append({o[2]: field(wd+"/"+o[2]) for o in s.obs})
        # every part runs by itself, so does the whole
        if not c.check(R[0] is not None, "C05:program:run", "all parts run alone, but not together: %s" % (bad[-300:] if R[0] is None else ""), rep): return
        nz = 0
        for kind, src, fn in s.obs:
            P = np.array([r[fn] for r in R[1:]]); v = R[0][fn]; sc = np.abs(P).reshape(len(P), -1, 6).max((0, 1))
            if not c.check(v.shape == P[0].shape, "C05:program:shape", "%s: %s and %s" % (fn, v.shape, P[0].shape), rep): continue
            d = np.abs(v-P.sum(0)).reshape(-1, 6).max(0); c.check(np.all(d <= 1e-11*sc), "C05:program:%s-%s" % (kind, src), "field at the %s observer differs from the sum over the %s by up to %s of %s" % (kind, "%d beam components" % len(B) if beam else "elements %s" % s.lattice, d, sc), rep)
            c.count("program_fields", v.size//6); nz += sum(bool(np.abs(p).max() > 0) for p in P) > 1
        c.count("program_runs"); c.count("program_observers_with_several_contributions", nz); c.case(("p", k) if nz else None)
        c.sample("real program: %s, %d steps, observers %s%s" % ("beam of %s" % s.kinds if beam else "lattice %s" % s.lattice, s.n, [o[0] for o in s.obs], ", FEL" if s.fel else "")); shutil.rmtree(base, ignore_errors=True)

    if grp in (None, "program"):
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(c.guard(prog), range(600 if c.thorough else 60) if not c.only else [int(c.only.split(":")[1])]))
    if not c.only:
        c.expect("point_fields", 300)
        c.expect("trace_bins", 1000)
        c.expect("macro_fields", 300)
        c.expect("lattice_fields", 1000)
        c.expect("program_runs", 30)
        c.expect("program_observers_with_several_contributions", 30)
    c.finish("random particles in random partitions into bunches and beams, macro-particles, and random add/remove histories of lattices; results "
             "compared with the long-double sum of the individually computed contributions. Real program: observations of a lattice (with FEL interactions present during tracking, which must not appear in them) and of a beam of several components equal the sum of runs with one element or component each. Non-trivial: more than one contribution.")
