import os, re, subprocess, numpy as np, h5py, sys
from concurrent.futures import ThreadPoolExecutor
from vf import VERIF, NCPU
import meshlib as M

def run(c):
    d = c.build("san0", targets=("propagate", "reflection"))
    asan = "detect_leaks=0:exitcode=98:handle_abort=0:allocator_may_return_null=1"
    def tool(name, args, wd, threads=2, timeout=240):
        e = c.env(OMP_NUM_THREADS=threads, ASAN_OPTIONS=asan)
        for k in range(2):
            try:
                p = subprocess.run([os.path.join(d, name)] + args, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                out = p.stdout.decode("utf-8", "replace")
                if "Sanitizer" in out or p.returncode == 98:
                    m = re.search(r"SUMMARY: (.*)", out); c.check(False, "C15:memory:%s" % name, "%s %s: %s" % (name, args, (m.group(1) if m else out[-300:])), wd)
                return p.returncode, out
            except subprocess.TimeoutExpired: pass
        c.check(False, "C15:hang:%s" % name, "%s did not finish within %d s, twice" % (name, timeout)); return None, ""
    nums = lambda s: [float(x) for x in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", s)]

    def setup(rng, fanmesh=False):
        while True:
            h = 10**rng.uniform(-3, -.5); dt = h/M.CC*rng.uniform(.1, 2); O = rng.uniform(-1, 1, 3)
            if fanmesh: m = M.fan(rng, int(rng.integers(25, 45)), h*3, O)
            else: m = M.grid(rng, int(rng.integers(2, 4)), int(rng.integers(2, 5)), h, O, drop=int(rng.integers(0, 3)))
            if M.conditioned(m): break
        same = rng.random() < .3; M.timing(m, rng.uniform(-1, 1)*1e-9 + (0 if same else rng.uniform(-3, 3, m.Np)*dt), dt, int(rng.integers(2, 14))); M.rand_fields(rng, m)
        if rng.random() < .3: m.V[rng.integers(m.Np)] = 0
        x = rng.random()
        if x < .3: m.V *= 10**rng.uniform(-15, 8)                                    # feeble and strong fields
        elif x < .5: w = int(rng.integers(2)); m.V[rng.random(m.Np) < .5, :, 3*w:3*w+3] = 0     # purely electric or magnetic on some cells
        D = h*10**rng.uniform(.5, 2.5); q = M.grid(rng, int(rng.integers(1, 3)), int(rng.integers(1, 3)), h*rng.uniform(.5, 3), O + rng.normal(size=3)*D, drop=int(rng.integers(0, 2)))
        while min(np.linalg.norm(a-b) for a in m.C for b in q.C) < .5*h:
            q.P = q.P + rng.normal(size=3)*D; M.geo(q)
        dq = dt*rng.uniform(.3, 2); nq = int(rng.integers(1, 16)); i = rng.integers(m.Np, size=q.Np)
        t0 = m.t0[i] + np.linalg.norm(q.C-m.C[i], axis=1)/M.CC + rng.uniform(-1, 1, q.Np)*max(m.nt*dt, nq*dq)*.6
        M.timing(q, t0, dq, nq)
        return m, q

    def one(k):
        rng = np.random.default_rng([c.seed, 15, k]); wd = os.path.join(c.scratch, "p%d" % k); os.makedirs(wd); name = ("propagate", "reflection")[k % 2]
        m, q = setup(rng, fanmesh=(k % 8 >= 6)); M.write(m, wd+"/s.h5"); junk = rng.random() < .5
        if junk: M.rand_fields(rng, q)
        M.write(q, wd+"/t.h5", fields=junk or rng.random() < .5)
        src0 = open(wd+"/s.h5", "rb").read(); tgt0 = open(wd+"/t.h5", "rb").read()
        rc, out = tool(name, ["s.h5", "t.h5", "o.h5"], wd, threads=int(rng.integers(1, 6)))
        rep = "%s case %d" % (name, k); r = []
        if rc is None or rc == 98: return
        if not c.check(rc == 0 and os.path.exists(wd+"/o.h5"), "C15:run:%s" % name, "%s ended with %s: %s" % (name, rc, out[-200:]), rep): return
        V = M.reflect(m) if name == "reflection" else m.V; keep = m.V; m.V = V
        ref, sc, hits = M.transport(m, q, -1 if name == 'reflection' else 1); o = M.read(wd+"/o.h5")
        c.check(np.array_equal(o.P, q.P) and np.array_equal(o.T, q.T) and np.array_equal(o.C, q.C) and np.array_equal(o.t0, q.t0) and o.dt == q.dt and o.nt == q.nt, "C15:geometry", "target geometry or timing changed in the output of %s" % name, rep)
        c.check(open(wd+"/s.h5", "rb").read() == src0 and open(wd+"/t.h5", "rb").read() == tgt0, "C15:inputs", "%s changed its input files" % name, rep)
        if not c.check(o.V.shape == ref.shape, "C15:shape", "field data set %s" % (o.V.shape,), rep): return
        for w, nm in ((slice(0, 3), "electric"), (slice(3, 6), "magnetic")):
            dv = np.abs(o.V[..., w]-ref[..., w]).max(axis=(1, 2)); s = sc[:, 0 if w.start == 0 else 1]; bad = dv > 3e-7*s
            c.ratio["C15:transport"] = max(c.ratio.get("C15:transport", 0), float((dv/(3e-7*s)).max()))
            c.check(not bad.any(), "C15:transport:%s" % name, "%s field on target cell %s differs by %s of the sum of contributions" % (nm, np.argmax(dv/s), (dv/s).max()), rep)
        c.count("target_samples", q.Np*q.nt); c.count("source_target_pairs", m.Np*q.Np); c.count("pairs_with_signal", hits); c.count("cells_with_more_than_24_neighbours", sum(len(x) > 24 for x in m.nb)); c.count("runs_"+name)
        c.case(k if hits else None)
        # what is reported
        E = [float(x) for x in re.findall(r"Energy incident on screen = (\S+)", out)]
        for e, (mesh, V) in zip(E[:1]+E[-1:], ((m, keep), (q, ref))):
            want = -np.sum(np.sum(np.cross(V[..., :3], V[..., 3:]).sum(1)*mesh.dt/M.MU0*mesh.N, 1)*mesh.A)*1e6; s2 = np.sum(np.abs(np.cross(V[..., :3], V[..., 3:])).sum((1, 2))*mesh.A)*mesh.dt/M.MU0*1e6
            c.check(abs(e-want) <= 1e-4*abs(want)+1e-7*s2+1e-5*(abs(want) if mesh is q else 0), "C15:energy-report", "reported %g uJ, fields have %g uJ" % (e, want), rep); c.count("reported_energies")
        if name == "reflection":
            S = [nums(x) for x in re.findall(r"total energy flow vector : \(([^)]*)\)", out)]
            for s, V in zip(S, (keep, m.V)):
                w = M.energy_vec(m, V); c.check(np.abs(np.array(s)-w).max() <= 1e-4*np.abs(w).max(), "C15:flow-report", "reported flow %s, fields have %s" % (s, w), rep); c.count("reported_energies")
        c.sample("%s: %d source cells (%d samples of %.3g s), %d target cells, %d of %d pairs with signal, energies %s" % (name, m.Np, m.nt, m.dt, q.Np, hits, m.Np*q.Np, E))
        # schedules, order of the cells, superposition
        if k % 4 < 2:
            m.V = keep; order = rng.permutation(m.Np); oq = rng.permutation(q.Np); M.write(M.perm(m, order), wd+"/s2.h5"); q2 = M.perm(q, oq); M.write(q2, wd+"/t2.h5", fields=False)
            rc, out = tool(name, ["s2.h5", "t2.h5", "o2.h5"], wd, threads=int(rng.choice([1, 3, 8, 16])))
            if rc is not None and c.check(rc == 0, "C15:run:%s" % name, "permuted meshes: ended with %s" % rc, rep):
                o2 = M.read(wd+"/o2.h5"); dv = np.abs(o2.V-o.V[oq]); 
                c.check((dv[..., :3].max(axis=(1, 2)) <= 3e-7*sc[oq, 0]).all() and (dv[..., 3:].max(axis=(1, 2)) <= 3e-7*sc[oq, 1]).all(), "C15:order:%s" % name, "result depends on cell order or thread count (%g of the contributions)" % (dv[..., :3].max(axis=(1, 2))/sc[oq, 0]).max(), rep); c.count("reordered_runs")

    def physics(k):
        """a wide, short pulse passes on to a distant screen / comes back from a mirror as diffraction theory says"""
        rng = np.random.default_rng([c.seed, 16, k]); wd = os.path.join(c.scratch, "f%d" % k); os.makedirs(wd)
        lam = 1e-3; h = .4e-3; a = 15; w = 1.5e-3; n = M.frame(rng)[2]; O = rng.uniform(-1, 1, 3)
        m = M.grid(rng, a, a, h, O, n=n, jitter=.1, bend=0); dt = lam/M.CC/16; nt = 64; f = -n      # light enters against the normal
        e1 = m.e[0]; tp = (np.arange(nt)-nt/2)*dt; sig = lam/M.CC*.35
        m.t0 = 0*m.A - nt/2*dt; M.timing(m, m.t0, dt, nt)
        g = lambda t: -t/sig*np.exp(.5-t*t/2/sig**2)
        amp = np.exp(-np.sum((m.C-O)**2, 1)/w**2)
        m.V[..., :3] = amp[:, None, None]*g(tp)[None, :, None]*e1; m.V[..., 3:] = amp[:, None, None]*g(tp)[None, :, None]*np.cross(f, e1)/M.CC
        dist = rng.uniform(4e-3, 8e-3)
        for name, dirn, sgn in (("propagate", f, 1), ("reflection", -f, -1)):
            q = M.grid(rng, 1, 1, 1e-4, O+dirn*dist, n=-dirn, jitter=0, bend=0); M.timing(q, dist/M.CC-nt/2*dt, dt, nt); M.write(m, wd+"/s.h5"); M.write(q, wd+"/t.h5")
            rc, out = tool(name, ["s.h5", "t.h5", "o.h5"], wd, threads=2)
            if rc is None or not c.check(rc == 0, "C15:run:%s" % name, "ended with %s" % rc): return
            o = M.read(wd+"/o.h5"); fs = np.fft.rfftfreq(1024, dt); G = np.fft.rfft(np.pad(g(tp), (480, 480)))
            with np.errstate(divide="ignore"): G = np.where(fs > 0, G/(1+1j*dist*M.CC/np.pi/w**2/np.where(fs > 0, fs, 1)*-1), 0)
            E = sgn*np.fft.irfft(G)[480:544]; got = o.V[..., :3]@e1; dev = np.abs(got-E).max()/np.abs(E).max(); devB = np.abs(o.V[..., 3:]@np.cross(dirn, e1)*M.CC-E).max()/np.abs(E).max()
            c.check(dev < .25 and devB < .25, "C15:physics:%s" % name, "on-axis pulse %g m behind the screen off by %.3g (E) %.3g (B) of its peak" % (dist, dev, devB)); c.count("physics_pulses"); c.sample("%s of a pulse over %.3g m: deviation from diffraction theory %.3g (E), %.3g (B)" % (name, dist, dev, devB))

    def args(k):
        rng = np.random.default_rng([c.seed, 17, k]); wd = os.path.join(c.scratch, "a%d" % k); os.makedirs(wd); name = ("propagate", "reflection")[k % 2]; m, q = setup(rng); M.write(m, wd+"/s.h5"); M.write(q, wd+"/t.h5"); a = ["s.h5", "t.h5", "o.h5"]; kind = (k//2) % 8
        what = ["no arguments", "one argument", "two arguments", "missing source", "missing target", "source is no HDF5 file", "source without fields", "unwritable output"][kind]
        if kind < 3: a = a[:kind]
        elif kind == 3: a[0] = "none.h5"
        elif kind == 4: a[1] = "none.h5"
        elif kind == 5: open(wd+"/s.h5", "w").write("hello"*100)
        elif kind == 6: 
            with h5py.File(wd+"/s.h5", "a") as f: del f["ObservationPosition"]
            what = "source without positions"
        else: a[2] = "nodir/o.h5"
        rc, out = tool(name, a, wd)
        if rc is None: return
        c.check(rc != 0 and not os.path.exists(wd+"/o.h5"), "C15:args:%s" % what.replace(" ", "-"), "%s with %s: exit status %s, output file %s" % (name, what, rc, os.path.exists(wd+"/o.h5")), "%s args %d" % (name, k)); c.count("rejected_calls")

    nr, na, nf = (600, 64, 6) if c.thorough else (72, 16, 2)
    with ThreadPoolExecutor(NCPU//2) as ex:
        for f in [ex.submit(c.guard(physics, "physics"), k) for k in range(nf)] + [ex.submit(c.guard(one, "propagate"), k) for k in range(nr)] + [ex.submit(c.guard(args, "args"), k) for k in range(na)]: f.result()
    c.expect("target_samples", 500); c.expect("pairs_with_signal", 500); c.expect("reordered_runs", 10); c.expect("physics_pulses", 2); c.expect("rejected_calls", 10); c.expect("cells_with_more_than_24_neighbours", 50)
    c.finish("the real propagate and reflection programs (AddressSanitizer build) run on random irregular source and target meshes, traces, windows and thread counts; every sample of the "
             "written target compared with an independent numpy evaluation of the documented integral, with re-ordered cells and other thread counts, reported energies with the fields, a short "
             "pulse with diffraction theory, and unusable calls must end with an error and without an output file. Non-trivial: some source cell contributes.",
             ["source meshes whose quadratic fit is rank deficient or badly conditioned (e.g. fewer than 6 neighbours) are not judged", "traces of vanishing energy flow (E or B alone) are not judged: the tools document that they skip them"])
