import os, re, subprocess, numpy as np, h5py, shutil
from concurrent.futures import ThreadPoolExecutor
from vf import VERIF, NCPU, sh
import xmlgen, outcmp
CC = 299792458.0; EM = 1.60217662e-19/9.10938356e-31

def vay_end(P, E, B, dt):
    """momentum at the end of the step centred at (P, E, B)"""
    k = -EM*.5*dt; u = P + E/CC*k; t = B*k; us = (u*t).sum(-1); t2 = (t*t).sum(-1); s = 1+(u*u).sum(-1)-t2
    g = np.sqrt(.5*(s+np.sqrt(s*s+4*(t2+us*us)))); t = t/g[..., None]; return (u + t*(u*t).sum(-1)[..., None] + np.cross(u, t))/(1+(t*t).sum(-1))[..., None], g

def run(c):
    grp = c.only.split(":")[0] if c.only else None
    if grp != "program": h = c.harness("c18.cpp"); c.run_all(h, mult=(3, 6))
    exe = os.path.join(c.build("rel", targets=("teufel",)), "teufel")
    so = os.path.join(c.scratch, "mpi_preload.so"); sh("mpicc -shared -fPIC -O1 -o %s %s/lib/mpi_preload.c" % (so, VERIF))
    def launch(wd, f, seed):
        for k in range(2):
            try:
                p = subprocess.run([exe, f], cwd=wd, env=c.env(LD_PRELOAD=so, VF_SEED2=seed, TMPDIR=c.scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
                if not c.outside(p): return p.returncode, p.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired: pass
        return None, ""

    def prog(k):
        """all outputs of one run describe the same history, and that history is the one the tracking algorithm produces from the fields it logs"""
        rng = np.random.default_rng([c.seed, 18, k]); base = os.path.join(c.scratch, "p%d" % k); os.makedirs(base); rep = "program:%d" % k
        s = xmlgen.make(rng, base, observers=["point"], probe=True, fel=(k % 4 == 3)); n = s.n; x = re.sub(r"<watch[^>]*/>\n?", "", s.xml); full = rng.random() < .7
        ps, pn = (1, s.np+int(rng.integers(0, 3))) if full else s.probe; x = re.sub(r"<probe [^>]*/>", '<probe file="probe.h5" step="%d" number="%d"/>' % (ps, pn), x)
        W = ['<watch step="%d" file="w%d.h5"/>' % (i, i) for i in range(n+1)]; sd = sorted(set(int(i) for i in rng.integers(0, n+1, 4))); W += ['<watch-sdds step="%d" file="s%d.sdds"/>' % (i, i) for i in sd] + ['<watch step="%d" file="never.h5"/>' % (n+1+int(rng.integers(0, 3))), '<watch step="%d" file="twice.h5"/>' % rng.integers(0, n+1)]
        W = [W[i] for i in rng.permutation(len(W))]; x = x.replace("</tracking>", "\n".join(W) + "\n</tracking>"); open(base+"/a.xml", "w").write(x)
        rc, out = launch(base, "a.xml", k+1)
        if rc is None: c.inconclusive.append("run %d did not finish, twice" % k); return
        if rc != 0: c.check(s.fel and "FEL1D" in out, "C18:program:run", "program failed: %s" % out[-300:], rep); c.count("not_runnable"); shutil.rmtree(base, ignore_errors=True); return
        X = []
        for i in range(n+1):
            ok = os.path.exists(base+"/w%d.h5" % i)
            if not c.check(ok, "C18:program:watch", "watch point at step %d of %d was not written" % (i, n), rep): return
            v = h5py.File(base+"/w%d.h5" % i, "r")["electrons"][()]
            if not c.check(v.shape == (s.np, 6), "C18:program:watch", "watch point at step %d: %s for %d particles" % (i, v.shape, s.np), rep): return
            X.append(v)
        X = np.array(X); c.check(not os.path.exists(base+"/never.h5"), "C18:program:watch", "watch point after the last step was written", rep)
        if not c.check(np.isfinite(X).all(), "C18:program:watch", "watch points hold invalid numbers", rep): return
        c.count("program_watch_rows", X.shape[0]*X.shape[1]); off = np.concatenate([[0], np.cumsum(s.sizes)]); near = lambda a, b, t: np.all(np.abs(a-b) <= t*np.maximum(np.abs(a).max(), 1e-300))
        SX, SP = np.abs(X[..., :3]).max()+1e-300, np.abs(X[..., 3:]).max()+1e-300
        same6 = lambda a, b: np.all(np.abs(a[..., :3]-b[..., :3]) <= 1e-13*SX) and np.all(np.abs(a[..., 3:]-b[..., 3:]) <= 1e-13*SP)
        for i in sd:
            P, C = outcmp.sdds(base+"/s%d.sdds" % i); v = np.stack([C[a] for a in ("x", "y", "z", "px", "py", "pz")], -1); c.check(v.shape == X[i].shape and same6(v, X[i]), "C18:program:sdds", "both formats differ at step %d" % i, rep); c.count("program_sdds", len(v))
        # time of every particle and step, from the SDDS file of a step
        for b, m in enumerate(s.sizes):
            R = X[:, off[b]:off[b+1]]
            f = base+"/traj%d.h5" % b
            if "traj%d.h5" % b in s.out:
                g = re.search(r'<trajectories file="traj%d.h5" step="(\d+)"(?: particles="(\d+)")?' % b, x); st = int(g.group(1)); np_ = min(m, int(g.group(2) or m)); T = h5py.File(f, "r")["Trajectories"][()]; want = R[::st, :np_]
                c.check(T.shape == want.shape and same6(T, want), "C18:program:trajectories", "trajectory log of bunch %d (step %d, %d of %d particles) has shape %s or differs from the watch points" % (b, st, np_, m, T.shape), rep); c.count("program_trajectory_rows", T.shape[0]*T.shape[1] if T.ndim == 3 else 0)
            if "log%d.sdds" % b in s.out:
                st = int(re.search(r'<log file="log%d.sdds" step="(\d+)"' % b, x).group(1)); P, C = outcmp.sdds(base+"/log%d.sdds" % b); Q = R[::st]
                if not c.check(len(C["t"]) == len(Q) and P["NumberTimeSteps"] == len(Q) and P["NumberParticles"] == m, "C18:program:log-rows", "log of bunch %d with step %d: %d rows instead of %d" % (b, st, len(C["t"]), len(Q)), rep): continue
                mean = Q.mean(1); rms = Q[..., :3].std(1); g = np.sqrt(1+(Q[..., 3:]**2).sum(-1)).mean(1)
                for j, a in enumerate(("x_av", "y_av", "z_av", "bgx_av", "bgy_av", "bgz_av")): c.check(np.all(np.abs(C[a]-mean[:, j]) <= 1e-5*(SX if j < 3 else SP)), "C18:program:log", "%s of bunch %d differs from the watch points: %s, %s" % (a, b, C[a][:3], mean[:3, j]), rep)
                for j, a in enumerate(("x_rms", "y_rms", "z_rms")): c.check(np.all(np.abs(C[a]-rms[:, j]) <= 1e-5*rms[:, j].max()+1e-7*SX), "C18:program:log", "%s of bunch %d differs from the watch points: %s, %s" % (a, b, C[a][:3], rms[:3, j]), rep)
                c.check(np.all(np.abs(C["gamma"]-g) <= 1e-5*g.max()), "C18:program:log", "gamma of bunch %d" % b, rep); t = C["t"]; c.check(np.all(np.abs(t-t[0]-np.arange(len(t))*st*s.dt) <= 1e-5*(np.abs(t).max()+s.dt)), "C18:program:log", "times of the log of bunch %d with step %d: %s, time step %g" % (b, st, t[:4], s.dt), rep); c.count("program_log_rows", len(Q))
        # the probe log observes the beam tracked by the node, in which the particles of all bunches follow each other
        order = list(range(s.np))[:pn]; D = h5py.File(base+"/probe.h5", "r")["Probe"][()]; want = X[::ps][:, order]
        if c.check(D.shape == want.shape[:2]+(16,) and same6(D[..., 1:7], want), "C18:program:probe", "probe log (step %d, %d of %d particles) has shape %s or differs from the watch points" % (ps, pn, s.np, D.shape), rep):
            t, x_, p, a, E, B = D[..., 0], D[..., 1:4], D[..., 4:7], D[..., 7:10], D[..., 10:13], D[..., 13:16]; g = np.sqrt(1+(p**2).sum(-1))[..., None]; aw = -EM*(E/CC + np.cross(p/g, B)); sc = EM*(np.abs(E).max()/CC+np.abs(B).max())
            c.check(np.all(np.abs(a-aw) <= 1e-7*sc), "C18:program:acceleration", "logged acceleration is not the Lorentz force of the logged fields (deviation %g of %g)" % (np.abs(a-aw).max(), sc), rep); c.count("program_probe_rows", D.shape[0]*D.shape[1])
            c.check(np.all(np.abs(t-t[0]-np.arange(len(t))[:, None]*ps*s.dt) <= 1e-12*(np.abs(t).max()+n*s.dt)), "C18:program:probe-time", "times of the probe log", rep)
            if s.lattice == ["background"] and not s.fel:
                m = re.search(r'<background.*?<E x="(\S+)" y="(\S+)" z="(\S+)"/><B x="(\S+)" y="(\S+)" z="(\S+)"/>', x); F = np.array([float(q) for q in m.groups()]); c.check(np.all(np.abs(E-F[:3]) <= 1e-12*np.abs(F[:3]).max()) and np.all(np.abs(B-F[3:]) <= 1e-12*np.abs(F[3:]).max()), "C18:program:background", "perceived fields are not those of the only element", rep); c.count("background_only")
            if ps == 1 and n > 0:
                pe, ge = vay_end(p[:-1], E[:-1], B[:-1], s.dt); bt = pe/ge[..., None]; xn = x_[:-1] + bt*CC*s.dt; pn_ = pe - (E[1:]/CC+np.cross(bt, B[1:]))*EM*.5*s.dt; kick = sc*s.dt
                c.check(np.all(np.abs(xn-x_[1:]) <= 1e-6*CC*s.dt*(kick/g.min()) + 1e-13*SX + 1e-12*CC*s.dt), "C18:program:step", "positions do not follow from the previous state (deviation %g of a step %g)" % (np.abs(xn-x_[1:]).max(), CC*s.dt), rep)
                c.check(np.all(np.abs(pn_-p[1:]) <= 1e-6*kick + 1e-12*SP), "C18:program:step", "momenta do not follow from the previous state (deviation %g, change per step %g)" % (np.abs(pn_-p[1:]).max(), kick), rep); c.count("program_steps", pn_.shape[0]*pn_.shape[1])
        # a shorter run is the beginning of the longer one
        k2 = int(rng.integers(0, n+1)); wd = base+"/short"; os.makedirs(wd)
        for f in s.inputs + [o[2] for o in s.obs if o[0] == "mesh"]: shutil.copy(base+"/"+f, wd)
        open(wd+"/a.xml", "w").write(re.sub(r'(<tracking [^>]*n=")\d+', r"\g<1>%d" % k2, x)); rc, out = launch(wd, "a.xml", k+1)
        if rc is None: c.inconclusive.append("run %d did not finish, twice" % k); return
        if c.check(rc == 0, "C18:program:shorter", "%d steps succeed, %d fail: %s" % (n, k2, out[-300:]), rep):
            for i in range(n+1):
                f = wd+"/w%d.h5" % i; ex = os.path.exists(f); c.check(ex == (i <= k2), "C18:program:shorter", "watch point at step %d of %d: %s" % (i, k2, "written" if ex else "missing"), rep)
                if ex: c.check(same6(h5py.File(f, "r")["electrons"][()], X[i]), "C18:program:shorter", "state after %d steps depends on the number of steps requested (%d, %d)" % (i, n, k2), rep); c.count("program_prefixes")
        c.count("program_runs"); c.case(("p", k) if n > 1 else None); c.sample("real program: bunches %s %s, lattice %s, %d steps%s, probes %d every %d" % (s.kinds, s.sizes, s.lattice, n, ", FEL" if s.fel else "", pn, ps)); shutil.rmtree(base, ignore_errors=True)

    if grp in (None, "program"):
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(c.guard(prog), range(600 if c.thorough else 60) if not c.only else [int(c.only.split(":")[1])]))
    if not c.only:
        for k, n in (("watch_rows", 2000), ("sdds_rows", 2000), ("trajectory_rows", 2000), ("probe_rows", 2000), ("log_files", 300), ("unwritable", 5), ("large_watch_points", 5), ("large_logs", 5), ("program_runs", 40), ("program_watch_rows", 2000), ("program_sdds", 300), ("program_trajectory_rows", 100), ("program_log_rows", 100), ("program_probe_rows", 1000), ("program_steps", 500), ("background_only", 2), ("program_prefixes", 200)): c.expect(k, n)
    c.finish("library: beams of 1..5 bunches of 0..60 particles with mixed charges, several watch points on one file, loggers of random interval and particle number (0, fewer, all, more than present) driven as the program does; file contents compared exactly with the recorded trajectory points, probe fields with the analytic field, missing directories reported. Real program: watch points at every step, in both formats, are compared with the trajectory, probe and parameter logs of the same run (all lattices, FEL interaction), the probe log is replayed step by step - acceleration from the logged fields, position and momentum from the previous row by the Vay scheme - and a run of fewer steps reproduces the beginning of the longer one. Non-trivial: several bunches or several steps.",
        ["random numbers of the real program are seeded identically"])
