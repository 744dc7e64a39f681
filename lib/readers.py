"""runs the post-processing library and scripts of TEUFEL on recorded files and judges what they report
usage: readers.py <scripts directory> <jobs.json> <results.json>      (a process of its own: the scripts are executed here)"""
import sys, os, io, json, re, traceback, types, contextlib, runpy, warnings
warnings.simplefilter("ignore")
SC, JOBS, RES = sys.argv[1:4]
sys.path.insert(0, SC)
from unittest.mock import MagicMock
import numpy as np, h5py, matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
import outcmp
class vtk(types.ModuleType):
    class vtkInteractorStyleTrackballCamera: pass
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        return MagicMock()
sys.modules["vtk"] = vtk("vtk"); sys.modules["pygmsh"] = types.ModuleType("pygmsh")      # displays and the mesh generator are not installed
CC = 299792458.0; MU0 = 4e-7*np.pi; ME = 9.1093837e-31; EC = 1.602176634e-19; MEC2 = ME*CC*CC/EC

class Out:
    def __init__(s, job): s.r = {"job": job["id"], "viol": [], "evals": 0, "count": {}}; s.id = job["id"]
    def check(s, ok, key, msg):
        s.r["evals"] += 1
        if not ok: s.r["viol"].append([key, "%s: %s" % (s.id, msg)])
        return bool(ok)
    def near(s, got, ref, key, msg, tol=1e-9, scale=None):
        got = np.asarray(got, float); ref = np.asarray(ref, float); s.r["evals"] += max(0, ref.size-1)
        if got.shape != ref.shape: return s.check(False, key, "%s: shape %s instead of %s" % (msg, got.shape, ref.shape))
        if ref.size == 0: return True
        m = (np.abs(ref).max() if scale is None else scale) + 1e-300; d = np.abs(got-ref); w = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape) if d.ndim else ()
        return s.check(np.isfinite(got).all() and d.max() <= tol*m, key, "%s: %.12g instead of %.12g at %s (scale %g)" % (msg, got[w], ref[w], tuple(int(i) for i in w), m))
    def count(s, k, n=1): s.r["count"][k] = s.r["count"].get(k, 0) + int(n)

def quiet(f, *a, **k):
    b = io.StringIO()
    with contextlib.redirect_stdout(b): r = f(*a, **k)
    return r, b.getvalue()

# ---------------------------------------------------------------- screens
def spectrum(E, dt, n):
    """energy per area and frequency interval of a wave of in-plane field E, from a transform written out (no FFT)"""
    k = np.arange(n//2); F = np.exp(-2j*np.pi*np.outer(k, np.arange(n))/n) @ E
    return k/(n*dt), 2*np.abs(F)**2*dt*dt/(MU0*CC)

def raw_screen(fn):
    f = h5py.File(fn, "r"); S = f["Screen"]; r = {k: S.attrs[k] for k in ("Nx", "Ny", "NOTS", "t0", "dt", "dtx", "dty")}; r["S"] = S[()]; r["A"] = f["ElMagField"][()]; r["pos"] = f["ObservationPosition"][()] if "ObservationPosition" in f else None; r["time"] = f["ObservationTime"][()] if "ObservationTime" in f else None; return r

def screen(o, fn, rng, wave=None):
    """every query of both screen classes against the file; wave: in-plane fields (EH, EV) of the plane waves the file holds"""
    R = raw_screen(fn); Nx, Ny, N = int(R["Nx"]), int(R["Ny"]), int(R["NOTS"])
    import teufel, screen as old
    for lib, cls in (("teufel", teufel.TeufelScreen), ("screen", old.TeufelScreen)):
        s, _ = quiet(cls.read, fn); K = "C23:screen"
        o.check(s.shape() == (Nx, Ny) and s.nots == N and s.Nx == Nx and s.Ny == Ny and (s.xcenter, s.ycenter) == (Nx//2, Ny//2), K+":size", "%s: shape %s, %s steps for a screen %dx%d of %d" % (lib, s.shape(), s.nots, Nx, Ny, N))
        o.near(s.A, R["A"], K+":fields", lib+": fields", 0); o.near([s.t0, s.dt, s.dtx, s.dty], [R[k] for k in ("t0", "dt", "dtx", "dty")], K+":time", lib+": timing", 0)
        for i, (a, b) in enumerate(((s.origin, "origin"), (s.normal, "normal"), (s.dX, "dX"), (s.dY, "dY"))): o.near(a, R["S"][i], K+":geometry", lib+": "+b, 0)
        lx, ly = np.linalg.norm(R["S"][2]), np.linalg.norm(R["S"][3]); o.near([s.dx, s.dy], [lx, ly], K+":geometry", lib+": pitch", 1e-12); o.near(s.ex, R["S"][2]/lx, K+":geometry", lib+": ex", 1e-12); o.near(s.ey, R["S"][3]/ly, K+":geometry", lib+": ey", 1e-12)
        if lib == "teufel":
            o.near(s.df(), 1/(N*R["dt"]), K+":frequency", "df", 1e-12); j = int(rng.integers(0, N+1)); o.near(s.frequency(j), j/(N*R["dt"]), K+":frequency", "frequency(%d)" % j, 1e-12)
        for q in range(6):
            ix, iy = int(rng.integers(Nx)), int(rng.integers(Ny)); T = R["A"][ix, iy]
            x, y = s.screenPos(ix, iy); o.near([x, y], [lx*(ix-Nx//2), ly*(iy-Ny//2)], K+":position", "%s: screenPos(%d,%d)" % (lib, ix, iy), 1e-12, lx+ly)
            if R["pos"] is not None: o.near(s.origin + x*s.ex + y*s.ey, R["pos"][ix, iy], K+":position", "%s: pixel (%d,%d)" % (lib, ix, iy), 1e-12, np.abs(R["pos"]).max())
            t = s.getStartTime(ix, iy); o.near(t, R["t0"]+(ix-Nx//2)*R["dtx"]+(iy-Ny//2)*R["dty"], K+":start-time", "%s: start time of (%d,%d)" % (lib, ix, iy), 1e-12, abs(R["t0"])+Nx*abs(R["dtx"])+Ny*abs(R["dty"]))
            if R["time"] is not None and R["time"].shape == (Nx, Ny): o.near(t, R["time"][ix, iy], K+":start-time", "%s: recorded start time of (%d,%d)" % (lib, ix, iy), 1e-12)
            E, B = s.getFieldTrace(ix, iy); o.near(E, T[:, :3], K+":trace", "%s: E of (%d,%d)" % (lib, ix, iy), 0); o.near(B, T[:, 3:], K+":trace", "%s: B of (%d,%d)" % (lib, ix, iy), 0)
            P = np.cross(T[:, :3], T[:, 3:])/MU0; sc = (np.linalg.norm(T[:, :3], axis=1)*np.linalg.norm(T[:, 3:], axis=1)).sum()/MU0*R["dt"]; o.near(s.totalPowerDensity(ix, iy), -P.sum(0).dot(R["S"][1])*R["dt"], K+":power", "%s: power density of (%d,%d)" % (lib, ix, iy), 1e-7, sc)
            ex, ey = R["S"][2]/lx, R["S"][3]/ly; F = s.getInPlaneFields(ix, iy)
            for a, b, w in zip(F, (T[:, :3]@ex, T[:, :3]@ey, T[:, 3:]@ex, T[:, 3:]@ey), ("EH", "EV", "BH", "BV")): o.near(a, b, K+":in-plane", "%s: %s of (%d,%d)" % (lib, w, ix, iy), 1e-12, np.abs(T[:, :3] if w[0] == "E" else T[:, 3:]).max())
            if N >= 4:
                for h, w in ((0, "H"), (1, "V")):
                    f, a = getattr(s, "spectralDensity"+w)(ix, iy); o.near(f, np.arange(N//2)/(N*R["dt"]), K+":frequency", "%s: frequency axis of the spectrum" % lib, 1e-12)
                    if wave is not None:
                        fr, ar = spectrum(wave[h][ix, iy], R["dt"], N); tot = sum(spectrum(wave[g][ix, iy], R["dt"], N)[1].max() for g in (0, 1)); o.check(len(a) == N//2, K+":spectrum", "%d channels of %d samples" % (len(a), N)); o.near(a[1:], ar[1:], K+":spectrum", "%s: spectral density %s of (%d,%d)" % (lib, w, ix, iy), 1e-6, tot); o.count("spectra")
            o.count("screen_pixels")
        # a pixel that is set holds what was set, all others what they held
        ix, iy = int(rng.integers(Nx)), int(rng.integers(Ny)); E, B = rng.normal(size=(N, 3)), rng.normal(size=(N, 3)); before = s.A.copy(); s.setFieldTrace(ix, iy, E, B); before[ix, iy] = np.hstack([E, B]); o.near(s.A, before, K+":set", "%s: after setFieldTrace(%d,%d)" % (lib, ix, iy), 0)
        # written and read again
        w = fn+"."+lib+".copy.h5"; quiet(s.write, w); g, _ = quiet(cls.read, w)
        for k in ("A", "origin", "normal", "dX", "dY"): o.near(getattr(g, k), getattr(s, k), K+":rewrite", "%s: %s after write and read" % (lib, k), 0)
        o.near([g.Nx, g.Ny, g.nots, g.t0, g.dt, g.dtx, g.dty], [s.Nx, s.Ny, s.nots, s.t0, s.dt, s.dtx, s.dty], K+":rewrite", lib+": attributes after write and read", 0); os.unlink(w); o.count("screens")

def synthetic_screen(fn, rng, old=False):
    """plane waves, different in every pixel, falling onto a screen; returns their in-plane fields"""
    Nx, Ny, N = int(rng.integers(2 + old, 7)), int(rng.integers(2 + old, 7)), int(rng.choice([rng.integers(4, 12), rng.integers(4, 80)])); z = rng.normal(size=3); z /= np.linalg.norm(z); x = np.cross(z, rng.normal(size=3)); x /= np.linalg.norm(x); y = np.cross(x, z)
    lx, ly = 10**rng.uniform(-4, -1, 2); dt = 10**rng.uniform(-16, -11); t0 = rng.uniform(-1, 1)*1e-8; O = rng.normal(size=3)
    n = -np.cross(x, y); EH, EV = rng.normal(size=(2, Nx, Ny, N))*10**rng.uniform(0, 6); t = np.arange(N)
    E = EH[..., None]*x + EV[..., None]*y; B = np.cross(-n, E)/CC; A = np.concatenate([E, B], -1); dtx, dty = rng.normal(size=2)*dt*(rng.random() < .6)
    with h5py.File(fn, "w") as f:
        if old:
            P = O + (np.arange(Nx)-Nx//2)[:, None, None]*x*lx + (np.arange(Ny)-Ny//2)[None, :, None]*y*ly; d = f.create_dataset("ObservationPosition", data=P); d.attrs["Nx"] = np.int32(Nx); d.attrs["Ny"] = np.int32(Ny); g = f.create_dataset("ElMagField", data=A); g.attrs["t0"] = t0; g.attrs["dt"] = dt; g.attrs["NOTS"] = np.int32(N)
        else:
            d = f.create_dataset("Screen", data=np.array([O, n, x*lx, y*ly])); g = f.create_dataset("ElMagField", data=A)
            for k, v in (("Nx", np.int32(Nx)), ("Ny", np.int32(Ny)), ("NOTS", np.int32(N)), ("t0", t0), ("dt", dt), ("dtx", dtx), ("dty", dty)): d.attrs[k] = v
    return dict(EH=EH, EV=EV, Nx=Nx, Ny=Ny, N=N, dt=dt, t0=t0, dtx=0. if old else dtx, dty=0. if old else dty, O=O, n=n, x=x, y=y, lx=lx, ly=ly, A=A)

# ---------------------------------------------------------------- particles
def watch_equal(o, w, X, key, msg):
    for i, k in enumerate(("x", "y", "z", "bgx", "bgy", "bgz")): o.near(getattr(w, k), X[:, i], key, "%s: %s" % (msg, k), 1e-12, np.abs(X[:, 3*(i//3):3*(i//3)+3]).max())
    o.check(w.NOP == len(X), key, "%s: %s particles of %d" % (msg, w.NOP, len(X))); o.near(w.gamma, np.sqrt(1+(X[:, 3:]**2).sum(1)), key, "%s: gamma" % msg, 1e-12)

def stats(X):
    """definitions of the beam parameters, in higher precision"""
    x, y, z, u, v, w = np.asarray(X, np.longdouble).T; n = len(x); bg = np.sqrt(u*u+v*v+w*w); g = np.sqrt(1+bg*bg); xp, yp = np.arctan2(u, w), np.arctan2(v, w); E = bg*bg/(g+1)*MEC2; c = lambda a, b: np.mean((a-a.mean())*(b-b.mean())); r = lambda a: np.sqrt(c(a, a)); t = z/CC
    em = lambda a, b: np.sqrt(max(0, c(a, a)*c(b, b)-c(a, b)**2))
    return {k: float(q) for k, q in dict(N=n, x_mean=x.mean(), y_mean=y.mean(), z_mean=z.mean(), xp_mean=xp.mean(), yp_mean=yp.mean(), bgx_mean=u.mean(), bgy_mean=v.mean(), bgz_mean=w.mean(), E_kin=E.mean(), E_tot=(g*MEC2).mean(), gamma=g.mean(), betagamma=bg.mean(), x_rms=r(x), y_rms=r(y), z_rms=r(z), t_rms=r(t), E_rms=r(E),
        ex_n_rms=bg.mean()*em(x, xp), ey_n_rms=bg.mean()*em(y, yp), ez_rms=em(E, t)).items()}

def bunch(rng):
    n = int(rng.integers(3, 300)); g = 10**rng.uniform(.5, 3); bg = np.sqrt(g*g-1); X = np.zeros((n, 6)); s = 10**rng.uniform(-5, -2, 2); d = 10**rng.uniform(-4, -2.5, 2)
    for i in (0, 1): X[:, i] = rng.normal(size=n)*s[i] + rng.normal()*s[i]; X[:, 3+i] = bg*(rng.normal(size=n)*d[i] + rng.choice([0, 1])*rng.normal()*d[i]/s[i]*X[:, i])
    X[:, 2] = rng.normal(size=n)*10**rng.uniform(-5, -3); X[:, 5] = bg*(1+rng.normal(size=n)*10**rng.uniform(-3, -2) + rng.choice([0, 1])*rng.normal()*5*X[:, 2]); X[:, 2] += rng.uniform(0, 10); return X

def watch(o, fn, X):
    import teufel
    w, _ = quiet(teufel.TeufelWatch.read, fn); watch_equal(o, w, X, "C23:watch", os.path.basename(fn)); o.count("watch_particles", len(X)); return w

def parameters(o, w, X):
    S = stats(X); P = w.parameters(); o.check(set(S) <= set(P), "C23:parameters", "parameters() misses %s" % sorted(set(S)-set(P))); sx, su = np.abs(X[:, :3]).max(), np.abs(X[:, 3:]).max()
    for k in sorted(set(S) & set(P)):
        sc = {"x_mean": sx, "y_mean": sx, "z_mean": sx, "x_rms": sx, "y_rms": sx, "z_rms": sx, "t_rms": sx/CC, "bgx_mean": su, "bgy_mean": su, "bgz_mean": su, "xp_mean": 3., "yp_mean": 3., "ex_n_rms": su*sx, "ey_n_rms": su*sx, "E_rms": S["E_tot"], "ez_rms": S["E_tot"]*sx/CC}.get(k, 0)
        o.near(P[k], S[k], "C23:parameters", k, 1e-6, abs(S[k]) + sc*1e-6)
    o.count("parameters", len(S))

def log(o, fn):
    import teufel
    P, C = outcmp.sdds(fn); L, _ = quiet(teufel.readTeufelBeamLog, fn)
    for a, b in dict(x_avg="x_av", y_avg="y_av", z_avg="z_av", t="t", x_rms="x_rms", y_rms="y_rms", z_rms="z_rms", bgx_avg="bgx_av", bgy_avg="bgy_av", bgz_avg="bgz_av", gamma="gamma", delta="delta", BF="BF").items():
        if o.check(a in L, "C23:log", "%s is missing" % a): o.near(L[a], C[b] if b in C else np.zeros(len(C["t"])), "C23:log", a, 1e-9)
    o.count("log_rows", len(C["t"]))

# ---------------------------------------------------------------- meshes
def mesh(o, fn, rng):
    import MeshedFields as M
    f = h5py.File(fn, "r"); P, T = f["MeshCornerPoints"][()], f["MeshTriangles"][()]; t0, A = f["ObservationTime"][()], f["ElMagField"][()]; Nt, dt = int(f["ObservationTime"].attrs["Nt"]), float(f["ObservationTime"].attrs["dt"]); pos = f["ObservationPosition"][()]; f.close(); K = "C23:mesh"; n = len(T)
    m, _ = quiet(M.MeshedField.ReadMeshedField, fn); g, _ = quiet(M.MeshedField.ReadMesh, fn)
    for q in (m, g): o.near(q.points, P, K+":geometry", "points", 0); o.near(q.triangles, T, K+":geometry", "triangles", 0); o.near(q.pos, pos, K+":geometry", "centres", 1e-9); o.check(q.Np == n, K+":geometry", "%s cells of %d" % (q.Np, n))
    o.near(m.A, A, K+":fields", "fields", 0); o.near(m.t0, t0, K+":fields", "start times", 0); o.near([m.Nt, m.dt], [Nt, dt], K+":fields", "sampling", 0)
    N = np.cross(P[T[:, 2]]-P[T[:, 0]], P[T[:, 1]]-P[T[:, 0]]); a = np.linalg.norm(N, axis=1); N /= a[:, None]; o.near(m.MeshArea(), .5*a, K+":area", "areas", 1e-9); o.near(m.MeshNormals(), N, K+":normal", "normals", 1e-9)
    bb = m.BoundingBox(); o.near(np.array(bb), np.array([P.min(0), P.max(0)]).T, K+":bounds", "bounding box", 0)
    for q in range(5):
        i = int(rng.integers(n)); E, B = A[i, :, :3], A[i, :, 3:]; sc = (np.linalg.norm(E, axis=1)*np.linalg.norm(B, axis=1)).sum()/MU0*dt; S = np.cross(E, B).sum(0)/MU0*dt
        o.near(m.FieldTrace(i), A[i], K+":fields", "trace of cell %d" % i, 0); o.near(m.MeshNormal(i), N[i], K+":normal", "normal of cell %d" % i, 1e-9); o.near(m.EnergyFlowVector(i), S, K+":power", "energy flow of cell %d" % i, 1e-7, sc); o.near(m.NormalEnergyFlow(i), -S.dot(N[i]), K+":power", "normal energy flow of cell %d" % i, 1e-7, sc); o.count("mesh_cells")
        # times: on samples, between them, before, after, and exactly the first and the last one
        for t in (t0[i], t0[i]+(Nt-1)*dt, t0[i]+dt*rng.uniform(0, max(Nt-1, 1)), t0[i]+dt*rng.integers(0, Nt), t0[i]-dt*rng.uniform(.01, 3), t0[i]+dt*(Nt-1+rng.uniform(.01, 3)), t0[i]+dt*(Nt-1-rng.uniform(0, min(1, Nt-1)))):
            F = np.asarray(m.FieldsAtTime(t)); ref = np.zeros((n, 6)); tol = 1e-9; edge = np.zeros(n, bool)
            for c in range(n):
                u = (t-t0[c])/dt; slack = 1e-9 + 4e-16*(abs(t)+abs(t0[c]))/dt; k = np.arange(Nt); w = np.clip(1-np.abs(u-k), 0, 1)
                if u < -slack or u > Nt-1+slack: continue
                ref[c] = w@A[c]; edge[c] = min(abs(u), abs(u-(Nt-1))) <= slack and not (c == i and t in (t0[i], t0[i]+(Nt-1)*dt))
            sc = np.array([np.abs(A[..., :3]).max()]*3+[np.abs(A[..., 3:]).max()]*3)+1e-300; tol = 1e-9 + 1e-15*(abs(t)+np.abs(t0).max())/dt*4
            if o.check(F.shape == (n, 6), K+":at-time", "%s for %d cells" % (F.shape, n)): o.near((F/sc)[~edge], (ref/sc)[~edge], K+":at-time", "fields at t=%.17g (first trace: t0=%.17g dt=%g Nt=%d)" % (t, t0[0], dt, Nt), tol, 1.)
            o.count("mesh_times")
    # written and read again, also through a field of the user's own
    w = fn+".copy.h5"; quiet(m.WriteMeshedField, w); r, _ = quiet(M.MeshedField.ReadMeshedField, w)
    for k in ("points", "triangles", "A", "t0", "pos"): o.near(getattr(r, k), getattr(m, k), K+":rewrite", "%s after write and read" % k, 0)
    o.near([r.Nt, r.dt, r.Np], [m.Nt, m.dt, m.Np], K+":rewrite", "sampling after write and read", 0)
    f = h5py.File(w, "r"); o.check(int(f["MeshCornerPoints"].attrs["Ncp"]) == len(P) and int(f["MeshTriangles"].attrs["Ntri"]) == n and int(f["ObservationPosition"].attrs["Np"]) == n, K+":rewrite", "numbers of the written mesh"); o.near(f["ObservationPosition"][()], pos, K+":rewrite", "written centres", 1e-9); f.close(); os.unlink(w)
    b = M.MeshedField(P, T); quiet(b.WriteMesh, w); r, _ = quiet(M.MeshedField.ReadMesh, w); o.near(r.points, P, K+":rewrite", "points of a mesh", 0); o.near(r.triangles, T, K+":rewrite", "triangles of a mesh", 0); os.unlink(w); o.count("meshes")

# ---------------------------------------------------------------- scripts
class Plot: pass
def run_script(name, args):
    """executes a script; what it drew, printed and handed to the 3D display"""
    import MeshedFields as M
    p = Plot(); p.show3d = None; plt.close("all"); av = sys.argv; sys.argv = [os.path.join(SC, name)] + [str(a) for a in args]; saved = M.MeshedField.ShowMeshedField
    def rec(self, *a, **k): p.show3d = k
    M.MeshedField.ShowMeshedField = rec; b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b), contextlib.redirect_stderr(b), np.errstate(all="ignore"): runpy.run_path(os.path.join(SC, name), run_name="__main__")
        p.err = None
    except SystemExit as x: p.err = "exit %s" % x.code if x.code else "ended early"
    except Exception as x: p.err = "%s: %s (%s)" % (type(x).__name__, str(x)[:200], [f.line for f in traceback.extract_tb(x.__traceback__) if SC in f.filename][-1:])
    finally: sys.argv = av; M.MeshedField.ShowMeshedField = saved
    p.out = b.getvalue(); p.lines = []; p.text = ""; p.mesh = []; p.axes = []
    for n in plt.get_fignums():
        f = plt.figure(n); p.text += "\n".join(t.get_text() for t in f.texts)
        for ax in f.axes:
            for l in ax.get_lines(): p.lines.append((l.get_label(), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)))
            p.axes.append((ax.get_xlabel(), ax.get_ylabel(), ax.get_xlim(), ax.get_ylim()))
            for c in ax.collections:
                if type(c).__name__ == "QuadMesh" and ax.get_title(): p.mesh.append((ax.get_title(), np.asarray(c.get_array(), float)))
    plt.close("all"); return p

def curve(o, p, script, label, x, y, tol=1e-6, scale=None, what=None):
    """one of the drawn curves is the expected one"""
    x, y = np.asarray(x, float), np.asarray(y, float); sy = (np.abs(y).max() if scale is None else scale)+1e-300; sx = np.abs(x).max()+1e-300; best = None
    for l, a, b in p.lines:
        if label is not None and l != label: continue
        if a.shape != x.shape or b.shape != y.shape: best = best or "%d points instead of %d" % (len(a), len(x)); continue
        dx, dy = np.abs(a-x).max()/sx if len(x) else 0, np.abs(b-y).max()/sy if len(y) else 0
        if np.isfinite(dx+dy) and dx <= max(tol, 1e-9) and dy <= tol: o.check(True, "", ""); o.count("curves"); return True
        best = "nearest curve deviates by %g in x and %g in y" % (dx, dy)
    return o.check(False, "C23:plot:%s" % script[5:-3], "%s does not draw %s: %s" % (script, what or label, best or "no such curve"))

def ran(o, p, script, args): o.count("script_runs"); return o.check(p.err is None, "C23:plot:%s:failed" % script[5:-3], "%s %s: %s" % (script, " ".join(str(a) for a in args), p.err))
def number(o, p, script, rx, ref, tol, scale=0., src=None):
    m = re.search(rx + r"\s*(-?(?:nan|inf|[\d.]+(?:[eE][-+]?\d+)?))", src if src is not None else p.out)
    if not o.check(m is not None, "C23:plot:%s" % script[5:-3], "%s reports no number for '%s'" % (script, rx)): return
    v = float(m.group(1)); o.count("numbers"); o.check(abs(v-ref) <= tol*abs(ref)+scale, "C23:plot:%s" % script[5:-3], "%s reports %s %.9g instead of %.9g" % (script, rx, v, ref))
LAB = [r'$E_x$', r'$E_y$', r'$E_z$', r'$B_x$', r'$B_y$', r'$B_z$']

def plot_log(o, fn, rng):
    P, C = outcmp.sdds(fn); t = C["t"]*1e9; bu = rng.random() < .5; a = [fn] + (["--bunching"] if bu else []) + (["--list_params", "--list_columns"] if rng.random() < .3 else []); n = "plot_BeamParameters.py"; p = run_script(n, a)
    if not ran(o, p, n, a): return
    sx = max(np.abs(C[k]).max() for k in ("x_av", "y_av", "z_av")); sb = max(np.abs(C[k]).max() for k in ("bgx_av", "bgy_av", "bgz_av"))
    for k in "xyz": curve(o, p, n, r'$%s_{avg.}$' % k, t, C[k+"_av"], 1e-9, sx)
    if bu:
        curve(o, p, n, r'$\delta$', t, C["delta"], 1e-9, what="delta"); curve(o, p, n, r'$BF$', t, C["BF"] if "BF" in C else 0*t, 1e-9, what="BF"); curve(o, p, n, r'$\gamma - \gamma[0]$', t, C["gamma"]-C["gamma"][0], 1e-9, np.abs(C["gamma"]).max())
    else:
        for k in "xyz": curve(o, p, n, r'$\beta_%s\gamma$' % k, t, C["bg%s_av" % k], 1e-9, sb)
    curve(o, p, n, r'$x_{r.m.s.}$', t, 1e3*C["x_rms"], 1e-9); curve(o, p, n, r'$y_{r.m.s.}$', t, 1e3*C["y_rms"], 1e-9); curve(o, p, n, r'$z_{r.m.s.}$', t, 1e12*C["z_rms"]/CC, 2e-3)

def plot_point(o, fn, rng):
    P, C = outcmp.sdds(fn); t = C["t"]*1e9; N = len(t); sp = rng.random() < .6; a = [fn] + (["--spectrum"] if sp else []) + (["--list_params", "--list_columns"] if rng.random() < .3 else []); n = "plot_PointObservation.py"; p = run_script(n, a)
    if not ran(o, p, n, a): return
    dt = float(P["dt"]); ttol = 1e-9
    # the times of the samples: seen from the start, in units of the step
    for k, l in zip(("Ex", "Ey", "Ez", "Bx", "By", "Bz"), LAB):
        curve(o, p, n, l, t, C[k], 1e-7)
        for L, x, y in p.lines:
            if L == l: o.near((x-t)/(1e9*dt), np.zeros(N), "C23:plot:PointObservation", "times of %s, in steps" % l, 1e-3+1e-12*np.abs(C["t"]).max()/dt, 1.); break
    if sp and N >= 4:
        k = np.arange(N//2); W = np.exp(-2j*np.pi*np.outer(k, np.arange(N))/N); A = 2*np.real((W@C["Ex"])*np.conj(W@C["By"]))*dt*dt/MU0; sc = 2*np.sqrt((np.abs(W@C["Ex"])**2).max()*(np.abs(W@C["By"])**2).max())*dt*dt/MU0
        curve(o, p, n, None, 1e-12*k/(N*dt), 1e18*A, 1e-6, 1e18*sc, "the spectrum")

def plot_screens(o, fn, rng, d):
    """d: plane waves in the file"""
    N, dt, Nx, Ny, A = d["N"], d["dt"], d["Nx"], d["Ny"], d["A"]; cx, cy = Nx//2, Ny//2; t = lambda i, j: 1e9*(d["t0"]+(i-cx)*d["dtx"]+(j-cy)*d["dty"]+np.arange(N)*dt)
    S = -np.cross(A[..., :3], A[..., 3:]).sum(2)@d["n"]/MU0*dt; cell = d["lx"]*d["ly"]
    i, j = int(rng.integers(Nx)), int(rng.integers(Ny)); a = [fn] + (["-xy", i, j] if rng.random() < .6 else []); n = "plot_Screen_TD.py"; p = run_script(n, a)
    if ran(o, p, n, a):
        for q in [(cx, cy)] + ([(i, j)] if len(a) > 1 else []):
            for k in range(6): curve(o, p, n, LAB[k], t(*q), A[q][:, k], 1e-7, np.abs(A[q][:, 3*(k//3):3*(k//3)+3]).max(), "%s of pixel (%d,%d)" % (LAB[k], q[0], q[1]))
    f, _ = spectrum(d["EH"][0, 0], dt, N); H = np.array([[spectrum(d["EH"][u, v], dt, N)[1] for v in range(Ny)] for u in range(Nx)]); df = 1/(N*dt)
    r = sorted(rng.uniform(0, .5/dt, 2)); circ = rng.uniform(0, 1)*np.hypot(d["lx"]*Nx, d["ly"]*Ny)/2; a = [fn]; roi = rng.random() < .5; ci = rng.random() < .5
    if roi: a += ["-roi", repr(float(r[0])), repr(float(r[1]))]
    if ci: a += ["-circ", circ]
    if rng.random() < .3: a += ["-fmax", .3/dt]
    n = "plot_Screen.py"; p = run_script(n, a)
    if ran(o, p, n, a):
        curve(o, p, n, None, 1e-12*f, 1e18*H[cx, cy], 1e-6, 1e18*H.max(), "the spectrum on axis"); curve(o, p, n, None, 1e-12*f, 1e18*cell*H.sum((0, 1)), 1e-6, what="the integrated spectrum")
        x, y = np.meshgrid(d["lx"]*(np.arange(Nx)-cx), d["ly"]*(np.arange(Ny)-cy), indexing="ij"); q = x*x+y*y; clear = np.abs(q-circ**2).min() > 1e-9*circ**2
        number(o, p, n, r"integrated energy =", 1e6*S.sum()*cell, 1e-5)
        if ci and clear: number(o, p, n, r"integrated energy in circle =", 1e6*S[q <= circ**2].sum()*cell, 1e-5); curve(o, p, n, None, 1e-12*f, 1e18*cell*H[q <= circ**2].sum(0), 1e-6, 1e18*cell*H.sum((0, 1)).max(), "the spectrum within the circle")
        if roi:
            k0, k1 = int(np.ceil(r[0]/df)), int(np.floor(r[1]/df)); number(o, p, n, r"integrated energy in ROI =", 1e6*H[..., k0:k1].sum()*df*cell, 1e-5)
    if Nx > 1 and Ny > 1:
        # horizontal polarisation along the axes of the laboratory: this script takes Ex and By, for a screen facing the z axis
        ax = rng.random() < .5; k = int(rng.integers(Nx if ax else Ny)); a = [fn, "-x" if ax else "-y", k] if rng.random() < .7 else [fn]; n = "plot_Screen_Cross.py"; p = run_script(n, a); Z = lambda T: 2*np.real((W@T[:, 0])*np.conj(W@T[:, 4]))*dt*dt/MU0; W = np.exp(-2j*np.pi*np.outer(np.arange(N//2), np.arange(N))/N); G = np.array([[Z(A[u, v]) for v in range(Ny)] for u in range(Nx)]); sc = 2*(np.abs(A[..., 0]).sum(-1).max()*np.abs(A[..., 4]).sum(-1).max())*dt*dt/MU0
        if ran(o, p, n, a):
            curve(o, p, n, None, 1e-12*f, 1e18*G[cx, cy], 1e-6, 1e18*sc, "the spectrum on axis"); curve(o, p, n, None, 1e-12*f, 1e18*cell*G.sum((0, 1)), 1e-6, 1e18*sc*cell*Nx*Ny, "the integrated spectrum")
            if len(a) > 1 and ax: xp, yy = d["ly"]*(np.arange(Ny)-cy), G[k].sum(-1)*df
            else: k = k if len(a) > 1 else cy; xp, yy = d["lx"]*(np.arange(Nx)-cx), G[:, k].sum(-1)*df
            g = [y for xl, yl, x, y in p.axes if "THz" in yl and "pos" in xl]
            if o.check(len(g) == 1, "C23:plot:Screen_Cross", "no spectral map"): o.near(g[0], [0, 1e-12*df*(N//2-1)], "C23:plot:Screen_Cross", "frequencies of the spectral map, THz", 1e-6)
            curve(o, p, n, "total intensity", xp, 1e6*yy, 1e-6, 1e6*sc*df*N, "the intensity across the screen")
    fr = rng.uniform(.02, .45)/dt; n = "plot_SingleFrequency.py"; a = [fn, fr]; p = run_script(n, a)
    if ran(o, p, n, a):
        T = np.array([[t(u, v)*1e-9 for v in range(Ny)] for u in range(Nx)]); F = (A[..., :2]*np.exp(2j*np.pi*fr*T)[..., None]).sum(2)*dt; m = np.abs(F).max(); sc = 10**(-np.rint(np.log10(m))); ph = 1e-9 + 1e-14*fr*np.abs(T).max()
        for c, w in ((0, "x"), (1, "y")):
            g = [v for ti, v in p.mesh if "E_%s" % w in ti and "amplitude" in ti]; h = [v for ti, v in p.mesh if "E_%s" % w in ti and "phase" in ti]
            if not o.check(len(g) == 1 and len(h) == 1, "C23:plot:SingleFrequency", "no map of E_%s" % w): continue
            o.near(np.asarray(g[0]).reshape(Ny, Nx), sc*np.abs(F[..., c]).T, "C23:plot:SingleFrequency", "amplitude of E_%s at %g Hz" % (w, fr), ph+1e-8, sc*m); got = np.abs(F[..., c]).T*np.exp(1j*np.asarray(h[0]).reshape(Ny, Nx)); o.check(np.abs(got-F[..., c].T).max() <= (ph+1e-8)*m, "C23:plot:SingleFrequency", "phase of E_%s" % w); o.count("maps", 2)

def watch_text(o, p, n, X, gam_total=True):
    S = stats(X); t = p.text; half = lambda d: .51*10.**-d
    number(o, p, n, r"E_\{beam\}\$ =", 1e-6*(S["E_tot"] if gam_total else MEC2*S["betagamma"]), 2e-4, half(3), t); o.check(re.search(r"\b%d particles" % len(X), t) is not None, "C23:plot:%s" % n[5:-3], "%s reports another number of particles than %d: %s" % (n, len(X), t[:80]))
    E = np.sqrt(1+(X[:, 3:]**2).sum(1))*MEC2; tt = -X[:, 2]/CC; c = lambda a, b: np.mean((a-a.mean())*(b-b.mean())); tau = np.sqrt(c(tt, tt))
    if n != "plot_Watch.py": return
    number(o, p, n, r"\\sigma_E\$ =", 1e-3*S["E_rms"], 3e-4, half(1), t); number(o, p, n, r"\\sigma_t\$ =", 1e12*tau, 2e-3, half(3), t); q = 1e-15*c(E, tt)/tau**2; number(o, p, n, r"\$c\$ =", q, 2e-3, half(2)+1e-6*S["E_rms"]*1e-15/tau, t)
    x, y, z, u, v, w = X.T; bg = S["betagamma"]; d = np.sqrt(((u/w)**2+(v/w)**2)).max()
    if d < 2e-2:
        number(o, p, n, r"\\epsilon\^n_\{x, RMS\}\$ =", 1e6*S["ex_n_rms"], 3e-2, half(3)+1e6*S["x_rms"]*1e-8*bg, t); number(o, p, n, r"\\epsilon\^n_\{y, RMS\}\$ =", 1e6*S["ey_n_rms"], 3e-2, half(3)+1e6*S["y_rms"]*1e-8*bg, t); o.count("emittances")

def plot_mesh(o, fn, rng):
    f = h5py.File(fn, "r"); P, T, A, t0 = f["MeshCornerPoints"][()], f["MeshTriangles"][()], f["ElMagField"][()], f["ObservationTime"][()]; dt = float(f["ObservationTime"].attrs["dt"]); N = A.shape[1]; f.close()
    if N < 4: return
    Nn = np.cross(P[T[:, 2]]-P[T[:, 0]], P[T[:, 1]]-P[T[:, 0]]); a2 = np.linalg.norm(Nn, axis=1); ar = .5*a2; Nn /= a2[:, None]; S = np.cross(A[..., :3], A[..., 3:]).sum(1)/MU0*dt; sc = (np.linalg.norm(A[..., :3], axis=2)*np.linalg.norm(A[..., 3:], axis=2)).sum(1)/MU0*dt
    if sc.max() == 0: return
    q = int(rng.integers(0, 4)); t = t0[0] + dt*rng.uniform(0, N-1); args = [fn] + ([["-Ex=%r" % float(t)], ["-Ey=%r" % float(t)], ["-Ez=%r" % float(t)], []][q]); n = "plot_MeshedField.py"; p = run_script(n, args)
    if not ran(o, p, n, args): return
    number(o, p, n, "total pulse energy =", -1e6*((S*Nn).sum(1)*ar).sum(), 1e-5, 1e-8*1e6*(sc*ar).sum()); number(o, p, n, "peak energy density =", np.linalg.norm(S, axis=1).max(), 1e-5, 1e-8*sc.max())
    if o.check(p.show3d is not None and "scalars" in p.show3d, "C23:plot:MeshedField", "nothing was handed to the display"):
        v = np.asarray(p.show3d["scalars"], float)
        if q == 3: o.near(v, -(S*Nn).sum(1), "C23:plot:MeshedField", "energy density shown", 1e-6, sc.max())
        else:
            u = (t-t0)/dt; w = np.clip(1-np.abs(u[:, None]-np.arange(N)), 0, 1); ref = np.einsum("ij,ij->i", w, A[:, :, q])*((u >= 0) & (u <= N-1)); ok = (np.abs(u) > 1e-6) & (np.abs(u-(N-1)) > 1e-6); o.near(v[ok], ref[ok], "C23:plot:MeshedField", "field %s shown" % "xyz"[q], 1e-7, np.abs(A[..., :3]).max())
    W = np.exp(-2j*np.pi*np.outer(np.arange(N//2), np.arange(N))/N); F = np.einsum("kn,cni->cki", W, A); V = np.real(np.cross(F[..., :3], np.conj(F[..., 3:])))@(-Nn.mean(0)); tot = (V*ar[:, None]).sum(0)*2*dt*dt/MU0
    curve(o, p, n, None, 1e-12*np.arange(N//2)/(N*dt), 1e18*tot, 1e-6, 1e18*2*(np.linalg.norm(F[..., :3], axis=2)*np.linalg.norm(F[..., 3:], axis=2)*ar[:, None]).sum(0).max()*dt*dt/MU0, "the spectrum")

# ---------------------------------------------------------------- jobs
def program(o, job, rng):
    d = job["dir"]; j = lambda f: os.path.join(d, f)
    for f in job["watch"]:                     # pairs of formats of one step
        X = h5py.File(j(f[0]), "r")["electrons"][()]; w = watch(o, j(f[0]), X); watch(o, j(f[1]), X)
        a = stats(X)
        if np.all(np.isfinite(X)) and len(X) > 1:
            b = {}
            for n in ("plot_Watch.py",):
                for k in f:
                    p = run_script(n, [j(k), "-img", j("w.png"), "-pix", 20])
                    if ran(o, p, n, [k]): watch_text(o, p, n, X); b[k] = p.text
    for f in job["logs"]:
        log(o, j(f))
        if f in job["plot"]: plot_log(o, j(f), rng)
    for f in job["points"]:
        if f in job["plot"]: plot_point(o, j(f), rng)
    for f in job["screens"]:
        screen(o, j(f), rng); R = raw_screen(j(f))
        if f in job["plot"]:
            n = "plot_Screen_TD.py"; p = run_script(n, [j(f)]); q = (int(R["Nx"])//2, int(R["Ny"])//2)
            if ran(o, p, n, [f]):
                for k in range(6): curve(o, p, n, LAB[k], 1e9*(R["t0"]+np.arange(int(R["NOTS"]))*R["dt"]), R["A"][q][:, k], 1e-7, np.abs(R["A"][q][:, 3*(k//3):3*(k//3)+3]).max())
    for f in job["snapshots"]:
        A = h5py.File(j(f), "r")["ElMagField"][()]
        if A.shape[0] > 1 and A.shape[1] > 1 and np.abs(A[..., :3]).max() > 0 and np.abs(A[..., 3:]).max() > 0: n = "plot_Snapshot.py"; p = run_script(n, [j(f)]); ran(o, p, n, [f])
    for f in job["meshes"]:
        mesh(o, j(f), rng)
        if f in job["plot"]: plot_mesh(o, j(f), rng)

def synthetic(o, job, rng):
    d = job["dir"]; s = synthetic_screen(d+"/s.h5", rng); screen(o, d+"/s.h5", rng, (s["EH"], s["EV"]))
    if job["plots"]: plot_screens(o, d+"/s.h5", rng, s)
    q = synthetic_screen(d+"/old.h5", rng, True); import teufel, screen as old
    for cls in (teufel.TeufelScreen, old.TeufelScreen):
        g, _ = quiet(cls.read, d+"/old.h5"); o.near(g.origin, q["O"], "C23:screen:old-format", "origin", 1e-9); o.near(g.dX, q["x"]*q["lx"], "C23:screen:old-format", "dX", 1e-9, 10*q["lx"]); o.near(g.dY, q["y"]*q["ly"], "C23:screen:old-format", "dY", 1e-9, 10*q["ly"]); o.near(g.normal, q["n"], "C23:screen:old-format", "normal", 1e-6); o.near(g.A, q["A"], "C23:screen:old-format", "fields", 0); o.near([g.t0, g.dt, g.nots, g.dtx, g.dty], [q["t0"], q["dt"], q["N"], 0, 0], "C23:screen:old-format", "timing", 0); o.count("old_screens")
    X = bunch(rng); f = h5py.File(d+"/w.h5", "w"); f.create_dataset("electrons", data=X); f.close(); w = watch(o, d+"/w.h5", X); parameters(o, w, X)
    if job["plots"]:
        for n, g in (("plot_Watch.py", True), ("plot_Watch_Dispersion.py", False)):
            p = run_script(n, [d+"/w.h5", "-img", d+"/w.png", "-pix", 20])
            if ran(o, p, n, ["w.h5"]): watch_text(o, p, n, X, g)
    import meshlib as M; a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4)); m = M.grid(rng, a, b, 10**rng.uniform(-4, -1), rng.normal(size=3)); N = int(rng.choice([rng.integers(1, 4), rng.integers(4, 40)])); dt = 10**rng.uniform(-15, -11); t0 = rng.choice([0, 1])*rng.uniform(-1, 1)*1e-8 + rng.uniform(-1, 1, len(m.T))*dt*rng.choice([0, 3]); A = rng.normal(size=(len(m.T), N, 6))*1e3; A[..., 3:] /= CC
    with h5py.File(d+"/m.h5", "w") as f:
        x = f.create_dataset("MeshCornerPoints", data=m.P); x.attrs["Ncp"] = len(m.P); x = f.create_dataset("MeshTriangles", data=m.T.astype("i4")); x.attrs["Ntri"] = len(m.T); x = f.create_dataset("ObservationPosition", data=(m.P[m.T[:, 0]]+m.P[m.T[:, 1]]+m.P[m.T[:, 2]])/3); x.attrs["Np"] = len(m.T); x = f.create_dataset("ObservationTime", data=t0*np.ones(len(m.T))); x.attrs["Nt"] = N; x.attrs["dt"] = dt; f.create_dataset("ElMagField", data=A)
    mesh(o, d+"/m.h5", rng)
    if job["plots"]: plot_mesh(o, d+"/m.h5", rng)

def rewrite(o, job, rng):
    """files written by the library for the program to read"""
    import teufel, MeshedFields as M
    for a, b in job["screens"]: s, _ = quiet(teufel.TeufelScreen.read, a); quiet(s.write, b); o.count("rewritten")
    for a, b in job["meshes"]: m, _ = quiet(M.MeshedField.ReadMeshedField, a); quiet(m.WriteMeshedField, b); o.count("rewritten")

R = []
for job in json.load(open(JOBS)):
    o = Out(job)
    try: globals()[job["kind"]](o, job, np.random.default_rng(job["seed"]))
    except MemoryError: raise
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__); at = [f for f in tb if SC in f.filename][-1:] or tb[-1:]
        o.check(False, "C23:error", "%s: %s in %s: %s" % (type(x).__name__, str(x)[:300], os.path.basename(at[0].filename), at[0].line))
    R.append(o.r); json.dump(R, open(RES, "w"))
