"""random, physically sensible TEUFEL input files (with the auxiliary files they need)"""
import os, numpy as np, h5py
import meshlib as M
CC = 299792458.0
def g(x): return "%.17g" % x
def v3(tag, v, **kw): return "<%s x=\"%s\" y=\"%s\" z=\"%s\"%s/>" % (tag, g(v[0]), g(v[1]), g(v[2]), "".join(" %s=\"%s\"" % (k, x if isinstance(x, str) else g(x)) for k, x in kw.items()))
def rdir(rng):
    v = rng.normal(size=3); return v/np.linalg.norm(v)

def sdds_beam(fn, rng, n, gamma, charge):
    with open(fn, "w") as f:
        f.write("SDDS1\n&parameter name=Particles, type=long, &end\n&parameter name=Charge, type=double, &end\n")
        for c in ("x", "xp", "y", "yp", "t", "p"): f.write("&column name=%s, type=double, &end\n" % c)
        f.write("&data mode=ascii, &end\n! page number 1\n%d\n%s\n%d\n" % (n, g(charge), n))
        for i in range(n): f.write(" ".join(g(x) for x in (rng.normal()*1e-4, rng.normal()*1e-2, rng.normal()*1e-4, rng.normal()*1e-2, 1e-9+rng.normal()*3e-13, gamma*(1+.01*rng.normal()))) + "\n")

def source_screen(fn, rng, O, n, dt, t0, amp=1e5):
    z = rdir(rng); x = np.cross(z, rdir(rng)); x /= np.linalg.norm(x); y = np.cross(z, x); nx, ny = int(rng.integers(3, 5)), int(rng.integers(3, 5)); h = .02
    with h5py.File(fn, "w") as f:
        d = f.create_dataset("Screen", data=np.array([O, z, x*h, y*h]))
        d.attrs["Nx"] = np.int32(nx); d.attrs["Ny"] = np.int32(ny); d.attrs["NOTS"] = np.int32(n); d.attrs["t0"] = float(t0); d.attrs["dt"] = float(dt)
        F = rng.uniform(-1, 1, (nx, ny, n, 6))*amp; F[..., 3:] /= CC; f.create_dataset("ElMagField", data=F)

class Sim: pass

def make(rng, wd, np_total=None, bunches=None, observers=None, fel=None, lattice=None, logs=True, steps=None, random_bunch=True, probe=None, screen=True, source=None):
    """writes wd/a.xml; returns what it describes"""
    s = Sim(); s.out = {}; s.inputs = []; L = []; B = []; T = []; O = []
    dt = 10**rng.uniform(-13, -12); n = int(steps if steps is not None else rng.integers(2, 26)); s.n = n; s.dt = dt
    d = rdir(rng); gam = 10**rng.uniform(.1, 1.3); s.dir = d; s.gamma = gam; v = np.sqrt(1-1/gam**2)*CC; path = lambda k: d*v*dt*k
    mB = gam/(1.7588e11*dt)            # field of one radian per step
    # ---- lattice ----
    kinds = list(rng.permutation(["background", "undulator", "dipole", "wave", "packet", "soft", "tgu"] + (["screen"] if screen else [])))[:int(rng.integers(0, 4))] if lattice is None else lattice
    if "background" not in kinds and lattice is None: kinds.append("background")
    s.lattice = kinds
    for k in kinds:
        P = path(rng.uniform(0, n)) + rng.normal(size=3)*1e-3
        if k == "background":
            Ef = rdir(rng)*mB*CC*10**rng.uniform(-3, -1.5); Bf = rdir(rng)*mB*10**rng.uniform(-2.5, -1); L.append('<background name="b">%s%s</background>' % (v3("E", Ef), v3("B", Bf)))
        elif k == "undulator": L.append('<undulator type="planar" name="u">%s<field B="%s" period="%s" N="%d"/></undulator>' % (v3("position", P), g(mB*.02), g(max(4e-3, v*dt*n*rng.uniform(.3, 2))), rng.integers(2, 8)))
        elif k == "tgu": L.append('<undulator type="transverse gradient" name="u">%s<field B="%s" period="%s" N="%d" kx="%s" modulation="%s"/></undulator>' % (v3("position", P), g(mB*.02), g(max(4e-3, v*dt*n*rng.uniform(.3, 2))), rng.integers(2, 8), g(rng.uniform(1, 100)), g(rng.uniform(-1, 1))))
        elif k in ("dipole", "soft"):
            q = v*dt*n*.2; tr = ' <transition l1="%s" l2="%s"/>' % (g(q*.3), g(q*.4)) if k == "soft" else ""
            L.append('<dipole type="%s" name="d">%s%s%s%s%s%s</dipole>' % ("soft edge" if k == "soft" else "hard edge", v3("B", rdir(rng)*mB*.05), v3("p1", P-d*q), v3("n1", -d), v3("p2", P+d*q), v3("n2", d), tr))
        elif k == "wave": L.append('<wave type="gaussian" name="w">%s<field lambda="%s" ReA="%s" ImA="%s" rayleigh="%s"/></wave>' % (v3("position", P, t=rng.uniform(0, n)*dt), g(CC*dt*rng.uniform(3, 30)), g(mB*CC*.003), g(mB*CC*.002), g(10**rng.uniform(-2, 0))))
        elif k == "packet": L.append('<wave type="packet" name="w">%s<field lambda="%s" ReA="%s" ImA="%s" rayleigh="%s" tau="%s"/></wave>' % (v3("position", P, t=rng.uniform(0, n)*dt), g(CC*dt*rng.uniform(3, 30)), g(mB*CC*.003), g(mB*CC*.002), g(10**rng.uniform(-2, 0)), g(dt*n*rng.uniform(.2, 1))))
        elif k == "screen":
            source_screen(wd+"/src.h5", rng, rng.normal(size=3), int(rng.integers(4, 30)), dt*rng.uniform(.5, 3), rng.uniform(0, n)*dt - .1/CC, mB*CC*.003); s.inputs.append("src.h5"); L.append('<screen name="s" file="src.h5">%s</screen>' % v3("position", P+rdir(rng)*.1, t=rng.uniform(-1, 1)*1e-12)); s.out["SourceScreenTraces_DEBUG.h5"] = "debug"; s.out["SourceScreenTimeDerivative_DEBUG.h5"] = "debug"
    # ---- beam ----
    nb = int(bunches if bunches is not None else rng.integers(1, 4)); tot = int(np_total if np_total is not None else rng.integers(nb, 14)); tot = max(tot, nb)
    cuts = np.sort(rng.choice(np.arange(1, tot), nb-1, replace=False)) if nb > 1 else np.array([], int); sizes = np.diff(np.concatenate([[0], cuts, [tot]])); s.sizes = [int(x) for x in sizes]; s.kinds = []; s.np = tot
    s.front, s.back = -1e9, 1e9
    for b, m in enumerate(s.sizes):
        X = rng.normal(size=3)*1e-4; ch = -10**rng.uniform(-16, -12); kind = "particle" if m == 1 and rng.random() < .7 else ("SDDS" if rng.random() < .3 else "bunch"); s.kinds.append(kind); lg = ""
        q = {"particle": 0, "SDDS": 7e-4, "bunch": 1.3e-3 if random_bunch else 0}[kind]; c = 0 if kind == "SDDS" else float(X.dot(d)); s.front = max(s.front, c+q); s.back = min(s.back, c-q)   # longitudinal extent of the beam
        stp = int(rng.integers(1, n+3))
        if logs and rng.random() < .7:
            lg = '<log file="log%d.sdds" step="%d"%s/>' % (b, stp, ' bunching-freq="%s"' % g(.1/dt) if kind != "particle" and rng.random() < .5 else ""); s.out["log%d.sdds" % b] = ("sdds", [0]+[k for k in range(1, n+1) if k % stp == 0])
        if kind == "particle": B.append('<particle gamma="%s" charge="%s" cmr="-1.0">%s%s%s%s</particle>' % (g(gam*rng.uniform(.9, 1.1)), g(ch), "", v3("position", X), v3("momentum", d+rng.normal(size=3)*.01), lg))
        elif kind == "SDDS":
            sdds_beam(wd+"/beam%d.sdds" % b, rng, m, np.sqrt(gam**2-1), -ch); s.inputs.append("beam%d.sdds" % b); B.append('<SDDS file="beam%d.sdds">%s%s%s</SDDS>' % (b, v3("dir", d), '<correlations><linear indep="2" dep="5" factor="%s"/></correlations>' % g(rng.uniform(-10, 10)) if rng.random() < .3 else "", lg))
        else:
            rnd = random_bunch; r = (lambda x: g(x*rng.uniform(.5, 2))) if rnd else (lambda x: "0")
            tr = ""
            if logs and rng.random() < .6: ts = int(rng.integers(1, n+3)); tn = int(rng.integers(1, m+3)); tr = '<trajectories file="traj%d.h5" step="%d"%s/>' % (b, ts, ' particles="%d"' % tn if rng.random() < .7 else ""); s.out["traj%d.h5" % b] = "h5"
            corr = '<correlations><linear indep="%d" dep="%d" factor="%s"/></correlations>' % (rng.integers(0, 3), rng.integers(3, 6), g(rng.uniform(-10, 10))) if rng.random() < .3 else ""
            B.append('<bunch gamma="%s" charge="%s" cmr="-1.0" n="%d">%s%s%s%s%s</bunch>' % (g(gam), g(ch), m, v3("position", X, xrms=r(1e-4), yrms=r(1e-4), **({"zft": r(1e-4)} if rng.random() < .3 else {"zrms": r(1e-4)})), v3("momentum", d, xrms=r(1e-2), yrms=r(1e-2), delta=r(1e-2)), corr, lg, tr))
    s.probe = None
    if (probe is None and logs and rng.random() < .5) or probe:
        s.probe = (int(rng.integers(1, n+2)), int(rng.integers(1, tot+3))); B.insert(int(rng.integers(0, len(B)+1)), '<probe file="probe.h5" step="%d" number="%d"/>' % s.probe); s.out["probe.h5"] = "probe"
    # ---- tracking ----
    for i in range(int(rng.integers(1, 4))):
        k = int(rng.choice([0, n, rng.integers(0, n+1)])); sd = rng.random() < .4; fn = "w%d.%s" % (i, "sdds" if sd else "h5"); T.append('<watch%s step="%d" file="%s"/>' % ("-sdds" if sd else "", k, fn)); s.out[fn] = "watch-sdds" if sd else "watch"
    if fel or (fel is None and rng.random() < .35):
        s.fel = True
        for q in range(1 + (rng.random() < .3)):
            pol = np.cross(d, rdir(rng)); pol /= np.linalg.norm(pol); N = int(rng.integers(30, 80)); lg = ""; fn = "fel%s.h5" % (q or "")
            if rng.random() < .7: lg = '<log file="%s" step="%d"/>' % (fn, rng.integers(1, n+2)); s.out[fn] = "h5"
            sd = '<seed E0="%s" lambda="%s" tau="%s" tstart="%s"/>' % (g(mB*CC*.003), g(CC*dt*5), g(dt*N*.2), g(dt*N*.5)) if rng.random() < .6 else ""
            ds = CC*dt; near = rng.random() < .5; H = s.front + (rng.integers(0, 12) + rng.uniform(.01, .99))*ds if near else max(.5*N*ds, s.front + ds)    # often the grid begins close ahead of the beam
            M2 = N + 2*n + int(max(0, (H-s.back)/ds - .5*N))
            T.append('<fel1d N="%d">%s%s%s<mode zR="%s" w0="%s" zwaist="%s"/>%s%s</fel1d>' % (M2, v3("position", d*H), v3("prop", d), v3("pol", pol), g(10**rng.uniform(-1, 1)), g(10**rng.uniform(-4, -2.5)), g(rng.uniform(0, 1)), sd, lg))
    else: s.fel = False
    # ---- observers ----
    kinds = [str(x) for x in rng.choice(["point", "screen", "snapshot", "mesh"], int(rng.integers(1, 5)))] if observers is None else observers
    s.obs = []
    for i, k in enumerate(kinds):
        src = str(rng.choice(["beam", "lattice", ""])) if source is None else source; sa = ' source="%s"' % src if src else ""; P = rdir(rng)*rng.uniform(.05, .5); st = rng.uniform(0, n); tc = st*dt + np.linalg.norm(P-path(st))/CC; od = dt*10**rng.uniform(-1, .3)*max(1, n/10); on = int(rng.integers(1, 12)); t0 = tc - od*on*rng.uniform(.1, .9); fn = "obs%d.%s" % (i, "sdds" if k == "point" else "h5"); hx, hy = rdir(rng)*1e-3, rdir(rng)*1e-3; nx, ny = rng.integers(1, 5, 2)
        if src == "lattice": P = path(st) + rng.normal(size=3)*1e-3; t0 = st*dt
        if k == "point": O.append('<point file="%s"%s>%s<time t0="%s" dt="%s" n="%d"/></point>' % (fn, sa, v3("position", P), g(t0), g(od), on))
        elif k == "screen": O.append('<screen file="%s"%s>%s%s%s<time t0="%s" dt="%s" n="%d"/></screen>' % (fn, sa, v3("position", P), v3("hpitch", hx, n=str(nx), dt=rng.normal()*od), v3("vpitch", hy, n=str(ny)), g(t0), g(od), on))
        elif k == "snapshot": O.append('<snapshot file="%s"%s>%s%s%s<time t0="%s"/></snapshot>' % (fn, sa, v3("position", P), v3("hpitch", hx, n=str(nx)), v3("vpitch", hy, n=str(ny)), g(t0 + (0 if src == "lattice" else od*on*.5))))
        else:
            m = M.grid(rng, int(rng.integers(1, 3)), int(rng.integers(1, 3)), 1e-3, P); M.timing(m, t0 + rng.uniform(-1, 1, m.Np)*od, od, on); M.write(m, wd+"/"+fn, fields=rng.random() < .5)
            O.append('<mesh file="%s"%s/>' % (fn, sa))
        s.out[fn] = "sdds-obs" if k == "point" else "obs"; s.obs.append((k, src or "beam", fn))
    s.parts = (L, B, T, O)
    s.xml = '<?xml version="1.0"?>\n<teufel description="t" author="v">\n<lattice>\n%s\n</lattice>\n<beam>\n%s\n</beam>\n<tracking method="Vay" delta_t="%s" n="%d">\n%s\n</tracking>\n<observer>\n%s\n</observer>\n</teufel>\n' % ("\n".join(L), "\n".join(B), g(dt), n, "\n".join(T), "\n".join(O))
    open(wd+"/a.xml", "w").write(s.xml)
    return s
