"""Meshed screens in numpy: generation, files, geometry, and the documented Kirchhoff transport."""
import numpy as np, h5py
CC = 299792458.0; MU0 = 4e-7*np.pi

def frame(rng, n=None):
    n = rng.normal(size=3) if n is None else np.asarray(n, float); n /= np.linalg.norm(n)
    while True:
        a = np.cross(rng.normal(size=3), n)
        if np.linalg.norm(a) > 0.3: break
    a /= np.linalg.norm(a)
    return a, np.cross(n, a), n          # a x b = n

class Mesh: pass

def grid(rng, a, b, h, O=(0, 0, 0), n=None, jitter=0.2, bend=0.1, drop=0):
    """irregular triangulated patch; cell normals (p3-p1)x(p2-p1) near n"""
    e1, e2, n = frame(rng, n); m = Mesh(); P = []
    for i in range(a+1):
        for j in range(b+1):
            P.append(np.asarray(O) + e1*((i-a/2+jitter*rng.uniform(-1, 1))*h) + e2*((j-b/2+jitter*rng.uniform(-1, 1))*h) + n*(bend*h*rng.uniform(-1, 1)))
    T = []
    for i in range(a):
        for j in range(b):
            p00 = i*(b+1)+j; p01 = p00+1; p10 = p00+b+1; p11 = p10+1
            T += [(p00, p11, p10), (p00, p01, p11)] if rng.random() < .5 else [(p00, p01, p10), (p01, p11, p10)]
    T = [T[k] for k in rng.permutation(len(T))]
    if drop: T = T[:len(T)-drop]
    T = [tuple(np.roll(t, rng.integers(3))) for t in T]
    m.P = np.array(P); m.T = np.array(T, int); m.e = (e1, e2, n)
    return geo(m)

def fan(rng, k, h, O=(0, 0, 0), n=None):
    """k triangles around one common corner"""
    e1, e2, n = frame(rng, n); m = Mesh(); O = np.asarray(O); P = [O]
    for i in range(k):
        f = 2*np.pi*(i+0.2*rng.uniform(-1, 1))/k; P.append(O + (e1*np.cos(f)+e2*np.sin(f))*h*rng.uniform(.8, 1.2))
    m.P = np.array(P); m.T = np.array([(0, 1+(i+1) % k, 1+i) for i in range(k)], int); m.e = (e1, e2, n)
    return geo(m)

def geo(m):
    a, b, c = (m.P[m.T[:, i]] for i in range(3)); x = np.cross(c-a, b-a); l = np.linalg.norm(x, axis=1)
    m.C = (a+b+c)/3; m.A = l/2; m.N = x/l[:, None]; m.Np = len(m.T); m.nt = 0; m.dt = 0; m.t0 = np.zeros(m.Np)
    m.nb = [[k for k in range(m.Np) if set(m.T[i]) & set(m.T[k])] for i in range(m.Np)]
    return m

def timing(m, t0, dt, nt, V=None):
    m.t0 = np.asarray(t0, float)*np.ones(m.Np); m.dt = dt; m.nt = nt; m.V = np.zeros((m.Np, nt, 6)) if V is None else V
    return m

def write(m, fn, fields=True):
    with h5py.File(fn, "w") as f:
        d = f.create_dataset("MeshCornerPoints", data=m.P); d.attrs["Ncp"] = np.int32(len(m.P))
        d = f.create_dataset("ObservationPosition", data=m.C); d.attrs["Np"] = np.int32(m.Np)
        f.create_dataset("MeshTriangles", data=m.T.astype("i4"))
        d = f.create_dataset("ObservationTime", data=m.t0); d.attrs["Nt"] = np.int32(m.nt); d.attrs["dt"] = float(m.dt)
        if fields: f.create_dataset("ElMagField", data=m.V)

def read(fn, fields=True):
    m = Mesh()
    with h5py.File(fn, "r") as f:
        m.P = f["MeshCornerPoints"][()]; m.C = f["ObservationPosition"][()]; m.T = f["MeshTriangles"][()]; m.t0 = f["ObservationTime"][()]
        m.dt = float(f["ObservationTime"].attrs["dt"]); m.nt = int(f["ObservationTime"].attrs["Nt"]); m.V = f["ElMagField"][()] if fields else None; m.Np = len(m.T)
    return m

def perm(m, order):
    q = Mesh(); q.P = m.P; q.T = m.T[order]; q.e = m.e; geo(q); q.C = m.C[order]; q.t0 = m.t0[order]; q.dt = m.dt; q.nt = m.nt; q.V = m.V[order]
    return q

def rand_fields(rng, m, amp=1e4):
    m.V = rng.uniform(-1, 1, (m.Np, m.nt, 6))*amp; m.V[:, :, 3:] /= CC
    return m

def interp(V, t0, dt, t):
    """linear between samples, the trace is zero at the samples before and after its own"""
    n = V.shape[0]; u = (t-t0)/dt; k = np.floor(u); f = (u-k)[:, None]; k = k.astype(int)
    Z = np.vstack([np.zeros((1, V.shape[1])), V, np.zeros((1, V.shape[1]))])
    ok = (k >= -1) & (k < n); k = np.where(ok, k, -1)
    return np.where(ok[:, None], Z[k+1]*(1-f)+Z[k+2]*f, 0)

def ddt(V, dt):
    d = np.empty_like(V); d[:, 1:-1] = (V[:, 2:]-V[:, :-2])/(2*dt); d[:, 0] = (V[:, 1]-V[:, 0])/dt; d[:, -1] = (V[:, -1]-V[:, -2])/dt
    return d

def conditioned(m):
    """the quadratic fit is determined by the neighbourhood of every cell"""
    for i in range(m.Np):
        if len(m.nb[i]) < 6: return False
        A = fitmatrix(m, i)[0]; s = np.linalg.svd(A/np.linalg.norm(A, axis=0), compute_uv=False)
        if s[-1] < 2e-3*s[0]: return False
    return True

def fitmatrix(m, i):
    n = m.N[i]; x = np.cross(n, [1, 0, 0] if abs(n[0]) < .7 else [0, 1, 0]); x /= np.linalg.norm(x); y = np.cross(n, x)
    d = m.C[m.nb[i]]-m.C[i]; u = d@x; v = d@y
    return np.stack([np.ones_like(u), u, v, u*u, v*v, u*v], 1), np.stack([x, y, n])

def ddn(m, dV):
    """normal derivatives from Maxwell's equations, transverse ones from a quadratic fit over the neighbourhood"""
    out = np.empty_like(m.V)
    for i in range(m.Np):
        A, R = fitmatrix(m, i); s = np.linalg.norm(A, axis=0); t = m.t0[i]+np.arange(m.nt)*m.dt
        F = np.stack([np.hstack([w[:, :3]@R.T, w[:, 3:]@R.T]) for w in (interp(m.V[k], m.t0[k], m.dt, t) for k in m.nb[i])])
        g = np.linalg.lstsq(A/s, F.reshape(len(F), -1), rcond=None)[0]/s[:, None]; gx = g[1].reshape(m.nt, 6); gy = g[2].reshape(m.nt, 6)
        tE = dV[i][:, :3]@R.T; tB = dV[i][:, 3:]@R.T
        E = np.stack([gx[:, 2]-tB[:, 1], gy[:, 2]+tB[:, 0], -gx[:, 0]-gy[:, 1]], 1)
        B = np.stack([gx[:, 5]+tE[:, 1]/CC**2, gy[:, 5]-tE[:, 0]/CC**2, -gx[:, 3]-gy[:, 4]], 1)
        out[i] = np.hstack([E@R, B@R])
    return out

def transport(m, q, side=1):
    """Kirchhoff integral of the traces of m on the cells of q (side=1: light passing against the normals,
    -1: light leaving along the normals); also the sum of the absolute contributions"""
    dV = ddt(m.V, m.dt); dN = ddn(m, dV); out = np.zeros((q.Np, q.nt, 6)); sc = np.zeros((q.Np, 2)); hits = 0
    for j in range(q.Np):
        t = q.t0[j]+np.arange(q.nt)*q.dt
        for i in range(m.Np):
            R = q.C[j]-m.C[i]; r = np.linalg.norm(R); w = m.A[i]/(4*np.pi); tr = t-r/CC
            for V, c in ((m.V[i], -R@m.N[i]/r**3), (dV[i], -R@m.N[i]/r**2/CC), (dN[i], 1/r)):
                a = interp(V, m.t0[i], m.dt, tr); out[j] += a*(side*c*w)
                sc[j, 0] += np.abs(V[:, :3]).max()*abs(c*w); sc[j, 1] += np.abs(V[:, 3:]).max()*abs(c*w)
            if np.any((tr > m.t0[i]) & (tr < m.t0[i]+(m.nt-1)*m.dt)): hits += 1
    return out, sc, hits

def reflect(m):
    V = m.V.copy(); n = m.N[:, None, :]; E = V[..., :3]; B = V[..., 3:]
    En = n*np.sum(E*n, -1, keepdims=True); Bn = n*np.sum(B*n, -1, keepdims=True)
    V[..., :3] = 2*En-E; V[..., 3:] = B-2*Bn
    return V

def energy_vec(m, V):
    return np.einsum("i,ik->k", m.A, np.cross(V[..., :3], V[..., 3:]).sum(1)*m.dt/MU0)
