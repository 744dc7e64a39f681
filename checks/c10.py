import os, re, subprocess, shutil, numpy as np, h5py
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
from vf import VERIF, NCPU, sh
import xmlgen, outcmp
LD = np.longdouble; CC = LD(299792458.0); MU0 = LD(4e-7)*LD(np.pi)

class Ref:
    """the documented 1-D scheme, advanced from observed particle states"""
    def __init__(s, e, dt):
        f = lambda n, a: LD(float(e.find(n).get(a))); v = lambda n: np.array([f(n, a) for a in "xyz"])
        s.N = int(e.get("N")); s.dt = LD(dt); s.ds = s.dt*CC; s.o = v("position"); s.prop = v("prop"); s.prop /= np.sqrt((s.prop**2).sum()); p = v("pol"); p -= s.prop*(p*s.prop).sum(); s.ex = p/np.sqrt((p**2).sum()); s.ey = np.cross(s.prop, s.ex)
        s.zR, s.w0, s.zw = f("mode", "zR"), f("mode", "w0"), f("mode", "zwaist"); s.E = np.zeros(s.N, LD); s.step = 0; s.J = np.zeros(s.N, LD); s.fuzz = LD(0)
        if e.find("seed") is not None:
            t = np.arange(s.N)*s.dt - f("seed", "tstart"); s.E = f("seed", "E0")*np.cos(2*LD(np.pi)*CC/f("seed", "lambda")*t)*np.exp(-LD(.5)*(t/f("seed", "tau"))**2)
        s.P = s.E.copy(); s.max = np.abs(s.E).max(); s.seed = s.max; s.driven = LD(0)
    def advance(s, J):
        n = np.zeros(s.N, LD); n[1] = s.E[0]; n[2:] = s.E[:-2]+s.E[2:]-s.P[:-2]+s.dt**2*J[1:-1]; s.E[1:-1] += s.dt**2*J[1:-1]; s.P, s.E, s.J = s.E, n, J; s.step += 1; s.max = max(s.max, np.abs(s.E).max())
    def drive(s, X, U, A, Q):
        z = s.ds*s.step; w2 = s.w0**2*(1+((z-s.zw)/s.zR)**2); h = s.o + s.prop*z; dz = ((h-X)*s.prop).sum(-1); g = np.sqrt(1+(U**2).sum(-1)); b = U/g[:, None]; bp = (A-b*(b*A).sum(-1)[:, None])/g[:, None]
        k = Q/(LD(np.pi)/2*w2)/s.dt*MU0*CC**2; j = (bp*s.ex).sum(-1)*k; J = np.zeros(s.N, LD); i = np.arange(s.N)
        for d, q in zip(dz, j):
            c = np.rint(d/s.ds); m = np.abs(i-c) <= 10; J[m] += q*np.exp(-(d-i[m]*s.ds)**2/(8*s.ds**2))/(2*np.sqrt(2*LD(np.pi)))
        tot = ((np.abs(A).max(-1)/g*np.abs(k))).sum()*s.dt**2; rel = LD(1e-15)*(np.abs(h).max()+np.abs(X).max())/s.ds; s.fuzz += tot*(rel*2+LD(1e-13)) + np.abs(j).sum()*s.dt**2*LD(1e-6); s.driven += np.abs(J).max()*s.dt**2; s.advance(J)
    def tol(s): return s.max*(LD(1e-12)*(s.step+10)) + s.fuzz*(s.step+2)*8 + LD(1e-300)
    def field(s, X):
        """field seen at the positions X, None where the nearest cell cannot be told"""
        q = (((s.o + s.prop*s.ds*s.step) - X)*s.prop).sum(-1)/s.ds; i = np.rint(q).astype(int); return [None if not (0 <= k < s.N) or abs(abs(a-k)-.5) < 1e-6 else s.E[k] for a, k in zip(q, i)]

def run(c):
    grp = c.only.split(":")[0] if c.only else None
    def rat(k, v): c.ratio[k] = max(c.ratio.get(k, 0), v)
    if grp != "program":
        h = c.harness("c10.cpp"); c.run_all(h, mult=(2, 8))
    if grp in (None, "program"):
        exe = os.path.join(c.build("rel", targets=("teufel",)), "teufel"); so = os.path.join(c.scratch, "mpi_preload.so"); sh("mpicc -shared -fPIC -O1 -o %s %s/lib/mpi_preload.c" % (so, VERIF))
    def launch(wd, seed):
        for k in range(2):
            try:
                p = subprocess.run([exe, "a.xml"], cwd=wd, env=c.env(LD_PRELOAD=so, VF_SEED2=seed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
                if not c.outside(p): return p.returncode, p.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired: pass
        return None, ""
    def prog(k):
        """the field logged by a real run is the one its particles drive, and the field its particles feel is the logged one"""
        rng = np.random.default_rng([c.seed, 10, k]); base = os.path.join(c.scratch, "p%d" % k); os.makedirs(base); rep = "program:%d" % k
        s = xmlgen.make(rng, base, observers=["point"], probe=True, fel=True, logs=False, lattice=["background"] if k % 2 else None, steps=int(rng.integers(2, 80 if c.thorough else 40))); n = s.n; x = re.sub(r"<probe [^>]*/>", '<probe file="probe.h5" step="1" number="%d"/>' % s.np, s.xml); x = re.sub(r"<watch[^>]*/>\n?", "", x); x = re.sub(r'<log file="fel[^>]*/>', "", x)
        f = 10**rng.uniform(1, 10) if rng.random() < .8 else 1.0; q = []     # bunches that drive a field from far below to far above the seed
        x = re.sub(r'(<(?:particle|bunch) gamma="[^"]*" charge=")([^"]*)', lambda m: m.group(1) + "%.17g" % max(-1e-5, float(m.group(2))*f), x); st = []
        def lg(m): st.append(int(rng.integers(1, 4)) if rng.random() < .8 else int(rng.integers(1, n+4))); return '%s<log file="felx%d.h5" step="%d"/></fel1d>' % (m.group(1), len(st)-1, st[-1])
        x = re.sub(r"(<fel1d.*?)</fel1d>", lg, x, flags=re.S); open(base+"/a.xml", "w").write(x); root = ET.fromstring(x)
        for b, e in enumerate([e for e in root.find("beam") if e.tag != "probe"]):
            m = s.sizes[b]; ch = float(e.get("charge")) if e.tag != "SDDS" else -float(outcmp_charge(base+"/beam%d.sdds" % b)); q += [ch/m]*m
        rc, out = launch(base, k+1)
        if rc is None: c.inconclusive.append("run %d did not finish, twice" % k); return
        F = [Ref(e, float(root.find("tracking").get("delta_t"))) for e in root.find("tracking").findall("fel1d")]
        if rc != 0:         # a particle can be thrown out of the window by a strong field
            c.check("FEL1D" in out, "C10:program:run", "program failed: %s" % out[-300:], rep); c.count("program_stopped"); shutil.rmtree(base, ignore_errors=True); return
        try: D = h5py.File(base+"/probe.h5", "r")["Probe"][()].astype(LD)
        except Exception as e: c.check(False, "C10:program:probe", "probe log: %r" % e, rep); return
        if not c.check(D.shape == (n+1, s.np, 16), "C10:program:probe", "probe log %s for %d particles and %d steps" % (D.shape, s.np, n), rep): return
        if not np.isfinite(D).all(): c.count("program_not_finite"); shutil.rmtree(base, ignore_errors=True); return
        Q = np.array(q, LD); rows = [[(r.E.copy(), r.J, r.tol(), r.fuzz)] for r in F]; felt = []
        for r in F: r.advance(np.zeros(r.N, LD)); 
        for i, r in enumerate(F):
            if r.step % st[i] == 0: rows[i].append((r.E.copy(), r.J, r.tol(), r.fuzz))
        for j in range(1, n+1):
            felt.append([(r.field(D[j, :, 1:4]), r.tol()) for r in F])
            for i, r in enumerate(F):
                r.drive(D[j, :, 1:4], D[j, :, 4:7], D[j, :, 7:10], Q)
                if r.step % st[i] == 0: rows[i].append((r.E.copy(), r.J, r.tol(), r.fuzz))
        for i, r in enumerate(F):
            try:
                h5 = h5py.File(base+"/felx%d.h5" % i, "r"); E, J = h5["InteractionField"][()], h5["CurrentDensity"][()]
            except Exception as e: c.check(False, "C10:program:log", "field log: %r" % e, rep); continue
            if not c.check(E.shape == (len(rows[i]), r.N) and J.shape == E.shape, "C10:program:rows", "log of a field of %d cells every %d of %d steps: %s and %s, expected %d rows" % (r.N, st[i], n, E.shape, J.shape, len(rows[i])), rep): continue
            for a, (e, jj, t, fz) in enumerate(rows[i]):
                d = np.abs(E[a]-e).max(); rat("C10:program:field", float(d/t)); tj = np.abs(jj).max()*LD(1e-9)+fz*8/r.dt**2+LD(1e-300); dj = np.abs(J[a]-jj).max(); rat("C10:program:current", float(dj/tj))
                ok = c.check(np.isfinite(E[a]).all() and d <= t, "C10:program:field", "row %d of field log %d deviates by %g from the field driven by the recorded particles (field %g, tolerance %g)" % (a, i, d, np.abs(e).max(), t), rep) and c.check(np.isfinite(J[a]).all() and dj <= tj, "C10:program:current", "row %d of field log %d: current density deviates by %g (%g, tolerance %g)" % (a, i, dj, np.abs(jj).max(), tj), rep)
                c.count("program_log_values", r.N)
                if not ok: break
            if r.driven > 1e3*r.tol(): c.count("program_driven"); c.count("program_driven_above_seed", int(r.driven > r.seed > 0)); c.case(("p", k, i))
        if k % 2:           # the other fields are known, so the interaction field the particles feel can be told
            b = root.find("lattice/background"); E0, B0 = [np.array([LD(float(b.find(t).get(a))) for a in "xyz"]) for t in "EB"]
            for j in range(n):
                for p in range(s.np):
                    v = [f[p] for f, t in felt[j]]
                    if any(a is None for a in v): c.count("ambiguous_cells"); continue
                    E, B = sum((r.ex*a for r, a in zip(F, v)), E0), sum((r.ey*a/CC for r, a in zip(F, v)), B0); t = sum((t for f, t in felt[j]), LD(0)) + LD(1e-13)*(np.abs(E).max()+np.abs(E0).max()+CC*np.abs(B0).max()+sum(abs(a) for a in v)); d = max(np.abs(E-D[j+1, p, 10:13]).max(), np.abs(B-D[j+1, p, 13:16]).max()*CC); rat("C10:program:felt", float(d/t))
                    if not c.check(d <= t, "C10:program:felt", "particle %d at step %d feels a field that deviates by %g from background plus interaction field (%s, tolerance %g)" % (p, j+1, d, [float(a) for a in v], t), rep): return
                    c.count("program_felt"); c.count("program_felt_above_background", int(max(abs(a) for a in v) > 1e3*t))
        c.count("program_runs"); c.sample("real program: %d interactions of %s cells, %d particles, %d steps, lattice %s" % (len(F), [r.N for r in F], s.np, n, s.lattice)); shutil.rmtree(base, ignore_errors=True)
    if grp in (None, "program"):
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(c.guard(prog), range(500 if c.thorough else 60) if not c.only else [int(c.only.split(":")[1])]))
    if not c.only:
        for k, n in (("cells_with_field", 5000), ("driven_runs", 60), ("logs_read", 40), ("perceived", 500), ("rejections", 200), ("program_runs", 30), ("program_log_values", 20000), ("program_driven", 12), ("program_driven_above_seed", 2), ("program_felt", 1000), ("program_felt_above_background", 300)): c.expect(k, n)
    c.finish("random grids, directions, polarisations, modes, seeds and beams; the field of every cell is compared after sampled steps with a long-double "
             "advance of the documented 1-D scheme from the observed particle states, logs are read back from HDF5. Real program: the same advance from the probe log of all particles reproduces every row of the field logs (one or two interactions), and the fields the particles felt are background plus the logged interaction field. Non-trivial: runs in which a field was present.",
             ["the discretised scheme documented in the class (update rule, Gaussian filter of 2 cells, mode area) is the reference, its physical accuracy is not judged"])

def outcmp_charge(fn):
    L = open(fn).read().split("! page number 1\n")[1].split("\n"); return L[1]
