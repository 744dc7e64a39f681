import os, re, subprocess, shutil, numpy as np, h5py
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
from vf import VERIF, NCPU, sh
import xmlgen, outcmp, meshlib
from radref import LD, CC, Track

def run(c):
    grp = c.only.split(":")[0] if c.only else None
    def rat(k, v): c.ratio[k] = max(c.ratio.get(k, 0), float(v))
    if grp != "program":
        h = c.harness("c12.cpp")
        c.run_all(h, mult=(3, 12))
    if grp in (None, "program"):
        exe = os.path.join(c.build("rel", targets=("teufel",)), "teufel"); so = os.path.join(c.scratch, "mpi_preload.so"); sh("mpicc -shared -fPIC -O1 -o %s %s/lib/mpi_preload.c" % (so, VERIF))
    def launch(wd, seed):
        for k in range(2):
            try:
                p = subprocess.run([exe, "a.xml"], cwd=wd, env=c.env(LD_PRELOAD=so, VF_SEED2=seed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
                if not c.outside(p): return p.returncode, p.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired: pass
        return None, ""

    def prog(k):
        """the files written by a real run hold the fields of the trajectories recorded in the same run"""
        rng = np.random.default_rng([c.seed, 12, k]); base = os.path.join(c.scratch, "p%d" % k); os.makedirs(base); rep = "program:%d" % k
        s = xmlgen.make(rng, base, observers=[str(o) for o in rng.permutation(["point", "screen", "snapshot", "mesh", str(rng.choice(["point", "screen", "snapshot", "mesh"]))])], probe=True, logs=False, lattice=["background"] if k % 2 else None, source=None if k % 2 else "beam", steps=int(rng.integers(0, 60 if c.thorough else 30)))
        n = s.n; x = re.sub(r"<probe [^>]*/>", '<probe file="probe.h5" step="1" number="%d"/>' % s.np, s.xml); x = re.sub(r"<watch[^>]*/>\n?", "", x)
        if rng.random() < .4: x = re.sub(r'(<snapshot.*?<time t0=")[^"]*', lambda m: m.group(1) + "%.17g" % (rng.uniform(-.2, 1.1)*n*s.dt), x, flags=re.S)      # while the particles are being tracked
        open(base+"/a.xml", "w").write(x); root = ET.fromstring(x); mesh = {f: meshlib.read(base+"/"+f, False) for kd, so_, f in s.obs if kd == "mesh"}; q = []
        for b, e in enumerate([e for e in root.find("beam") if e.tag != "probe"]):
            m = s.sizes[b]; ch = float(e.get("charge")) if e.tag != "SDDS" else -float(open(base+"/beam%d.sdds" % b).read().split("! page number 1\n")[1].split("\n")[1]); q += [LD(ch)/m]*m
        rc, out = launch(base, k+1)
        if rc is None: c.inconclusive.append("run %d did not finish, twice" % k); return
        if rc != 0: c.check(s.fel and "FEL1D" in out, "C12:program:run", "program failed: %s" % out[-300:], rep); c.count("program_stopped"); shutil.rmtree(base, ignore_errors=True); return
        try: D = h5py.File(base+"/probe.h5", "r")["Probe"][()].astype(LD)
        except Exception as e: c.check(False, "C12:program:probe", "probe log: %r" % e, rep); return
        if not c.check(D.shape == (n+1, s.np, 16), "C12:program:probe", "probe log %s for %d particles and %d steps" % (D.shape, s.np, n), rep): return
        P = [Track(D[:, i, 0], D[:, i, 1:4], D[:, i, 4:7], D[:, i, 7:10], q[i]) for i in range(s.np)]; bg = None
        if k % 2: b = root.find("lattice/background"); bg = np.array([float(b.find(t).get(a)) for t in "EB" for a in "xyz"])
        f = lambda e, a, d=None: float(e.get(a)) if e.get(a) is not None else d; v = lambda e: np.array([LD(e.get(a)) for a in "xyz"])
        for (kd, src, fn), e in zip(s.obs, root.find("observer")):
            key = "C12:program:%s-%s" % (kd, src); t = e.find("time")
            if kd == "point":
                pr, co = outcmp.sdds(base+"/"+fn); N, t0, dt = int(t.get("n")), f(t, "t0"), f(t, "dt"); got = np.stack([co[a] for a in ("Ex", "Ey", "Ez", "Bx", "By", "Bz")], -1)[None]; cells = [(v(e.find("position")), t0)]
                c.check(got.shape == (1, N, 6) and pr["NumberTimeSteps"] == N and abs(pr["t0"]-t0) <= 1e-9*abs(t0) and abs(pr["dt"]-dt) <= 1e-9*dt and np.all(np.abs(co["t"]-t0-dt*np.arange(N)) <= 1e-9*(abs(t0)+dt*N)), key+"-file", "times or size of the trace: %s, %s" % (got.shape, pr), rep)
            elif kd in ("screen", "snapshot"):
                h, w = e.find("hpitch"), e.find("vpitch"); nx, ny = int(h.get("n")), int(w.get("n")); O = v(e.find("position")); h5 = h5py.File(base+"/"+fn, "r"); got = h5["ElMagField"][()]; pos = h5["ObservationPosition"][()]
                o = (lambda i, m: LD(i-m//2)) if kd == "screen" else (lambda i, m: i-LD(m-1)/2)
                cells = [(O+v(h)*o(i, nx)+v(w)*o(j, ny), f(t, "t0")+f(h, "dt", 0)*(i-nx//2)+f(w, "dt", 0)*(j-ny//2)) for i in range(nx) for j in range(ny)]; N, dt = (int(t.get("n")), f(t, "dt")) if kd == "screen" else (1, 1.0)
                if not c.check(pos.shape == (nx, ny, 3) and got.shape == ((nx, ny, N, 6) if kd == "screen" else (nx, ny, 6)), key+"-file", "shapes %s, %s for %dx%d cells of %d samples" % (pos.shape, got.shape, nx, ny, N), rep): continue
                got = got.reshape(nx*ny, N, 6); z = np.array([a for a, b in cells]); c.check(np.abs(pos.reshape(-1, 3)-z).max() <= 1e-13*np.abs(z).max(), key+"-positions", "cell positions", rep)
            else:
                m = mesh[fn]; r = meshlib.read(base+"/"+fn); N, dt = m.nt, m.dt; cells = list(zip(m.C.astype(LD), m.t0))
                if not c.check(r.Np == m.Np and r.nt == N and r.dt == dt and np.array_equal(r.T, m.T) and np.array_equal(r.t0, m.t0) and np.abs(r.P-m.P).max() <= 1e-13*np.abs(m.P).max(), key+"-file", "mesh or timing changed", rep): continue
                got = r.V
            if not c.check(got.shape[0] == len(cells) and got.shape[1:] == (N, 6) and np.isfinite(got).all(), key+"-file", "fields of shape %s for %d cells of %d samples, or invalid" % (got.shape, len(cells), N), rep): continue
            for i, (O, t0) in enumerate(cells):
                if src == "lattice":
                    d = np.abs(got[i]-bg); ok = np.all(d[:, :3] <= 1e-12*np.abs(bg[:3]).max()) and np.all(d[:, 3:] <= 1e-12*np.abs(bg[3:]).max()); c.count("program_lattice_samples", N)
                elif kd == "snapshot":
                    R = [p.instant(O, LD(t0)) for p in P]
                    if any(a is None for a in R): c.count("ambiguous"); continue
                    w = sum(a[0] for a in R); tol = 3*sum(a[1] for a in R)+LD(1e-11)*sum(np.abs(a[0][:3]).max() for a in R)+LD(1e-300); d = np.abs(got[i]-w); d[:, 3:] *= CC; rat(key, d.max()/tol); ok = d.max() <= tol; c.count("program_snapshot_cells"); c.count("program_snapshot_nonzero", int(np.abs(w[:3]).max() > 1e3*tol))
                else:
                    R = [p.trace(O, LD(t0), LD(dt), N) for p in P]; w = sum(a[0] for a in R); tol = sum(a[1] for a in R)[None, :]*3+LD(1e-300); d = np.abs(got[i]-w); d[:, 3:] *= CC; tol = tol[:, :3].max(); rat(key, d.max()/tol); ok = d.max() <= tol; c.count("program_%s_samples" % kd, N); c.count("program_%s_nonzero" % kd, int((np.abs(w[:, :3]).max(1) > 1e3*tol).sum()))
                if not c.check(ok, key, "%d particles, %d steps, cell %d of %d: field deviates by %g from that of the recorded trajectories (%g)" % (s.np, n, i, len(cells), float(d.max()), float(np.abs(got[i]).max())), rep): break
            if kd == "snapshot" and src != "lattice":
                X = h5["ParticleCoordinates"][()] if "ParticleCoordinates" in h5 else None; R = [p.at(LD(f(t, "t0"))) for p in P]
                if c.check(X is not None and X.shape == (s.np, 6), key+"-particles", "particle coordinates missing or not of all %d particles" % s.np, rep):
                    sx, su = np.abs(D[..., 1:4]).max(), np.abs(D[..., 4:7]).max()
                    for i, r in enumerate(R):
                        if r is None: c.count("ambiguous"); continue
                        if not c.check(np.abs(X[i, :3]-r[:3]).max() <= 1e-9*sx and np.abs(X[i, 3:]-r[3:]).max() <= 1e-9*su, key+"-particles", "particle %d: %s instead of %s" % (i, X[i], [float(a) for a in r]), rep): break
                        c.count("program_particles"); c.count("program_particles_inside", int(np.abs(r[3:]).max() > 0))
        c.count("program_runs"); c.case(("p", k)); c.sample("real program: bunches %s %s, lattice %s, %d steps%s, observers %s" % (s.kinds, s.sizes, s.lattice, n, ", FEL" if s.fel else "", [o[:2] for o in s.obs])); shutil.rmtree(base, ignore_errors=True)
    if grp in (None, "program"):
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(c.guard(prog), range(400 if c.thorough else 50) if not c.only else [int(c.only.split(":")[1])]))
    if not c.only:
        for k in ("beam", "bunch", "lattice"):
            c.expect("screen_samples_" + k, 1000); c.expect("snapshot_cells_" + k, 1000); c.expect("point_samples_" + k, 1000)
        c.expect("files", 500); c.expect("large_screens", 8); c.expect("large_snapshots", 8); c.expect("large_points", 8); c.expect("particles_in_snapshot", 20)
        for k, m in (("program_runs", 40), ("program_lattice_samples", 200), ("program_point_nonzero", 30), ("program_screen_nonzero", 200), ("program_mesh_nonzero", 60), ("program_snapshot_nonzero", 60), ("program_particles_inside", 15)): c.expect(k, m)
    c.finish("screen, snapshot and point observers of randomly tracked beams, single bunches and lattices of analytic fields, on random grids "
             "(single cells, even and odd sizes, oblique pitch, tilted cell timing, prefilled fields); every cell and sample compared with the field of "
             "the source evaluated at the documented position and time, buffers and files with the fields held. Real program: all observer files of a run are compared with the fields which the trajectories in the probe log of the same run radiate, recomputed in extended precision (time averages per sample, retarded fields of snapshots), with the background for lattice sources, and the particle coordinates of snapshots with the trajectories. Non-trivial: several cells and a field.")
