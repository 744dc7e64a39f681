"""fields radiated by recorded trajectories, recomputed in extended precision"""
import numpy as np
LD = np.longdouble; CC = LD(299792458.0); MU0 = LD(4e-7)*LD(np.pi); EPS0 = 1/(MU0*CC*CC)

def lw(X, U, A, Q, obs):
    """Lienard-Wiechert fields (.., 6) of sources at X, momentum U = beta gamma, dU/dt = A"""
    g = np.sqrt(1+(U**2).sum(-1))[..., None]; b = U/g; bp = (A-b*(b*A).sum(-1)[..., None])/g; R = obs-X; r = np.sqrt((R**2).sum(-1))[..., None]; n = R/r; k = (1-(b*n).sum(-1)[..., None])**3
    E = Q/(4*LD(np.pi)*EPS0)*((n-b)/(r*r*k*g*g) + np.cross(n, np.cross(n-b, bp))/(r*k*CC)); return np.concatenate([E, np.cross(n, E)/CC], -1)

class Track:
    def __init__(s, T, X, U, A, Q): s.T, s.X, s.U, s.A, s.Q = T, X, U, A, Q
    def arrival(s, obs): return s.T + np.sqrt(((obs-s.X)**2).sum(-1))/CC
    def trace(s, obs, t0, dt, N):
        """(time averages of the observed field over the samples, scale of its error)"""
        F = np.zeros((N, 6), LD); n = len(s.T)
        if n < 2 or N < 2: return F, np.zeros(6, LD)
        t = s.arrival(obs); f = lw(s.X, s.U, s.A, s.Q, obs); k = np.arange(N); a, b = t0+(k-LD(.5))*dt, t0+(k+LD(.5))*dt; m = 0; S = np.zeros(6, LD)
        for i in range(n-1):
            if t[i+1] <= a[0] or t[i] >= b[-1]: continue
            lo, hi = np.maximum(a, t[i]), np.minimum(b, t[i+1]); w = np.maximum(hi-lo, 0)[:, None]/dt; q = ((lo+hi)/2-t[i])[:, None]/(t[i+1]-t[i]); F += w*(f[i]*(1-q)+f[i+1]*q); m += 1
            e = LD(1e-15)*(np.abs(t).max()+abs(t0)+dt*N); z = np.maximum(np.abs(f[i][:3]).max(), np.abs(f[i+1][:3]).max())*(LD(1e-9)+30*e/min(dt, t[i+1]-t[i])); S[:3] += z; S[3:] += z/CC
        return F, S
    def instant(s, obs, t):
        """(field at the instant t, its uncertainty), None too close to an end of the trajectory to tell"""
        g = t-s.arrival(obs); e = LD(1e-14)*(abs(t)+np.abs(s.T).max())
        if abs(g[-1]) < e or (abs(g[0]) < e and len(g) > 1): return None
        if g[-1] > 0: return np.zeros(6, LD), LD(0)
        if g[0] <= 0:
            b = s.U[0]/np.sqrt(1+(s.U[0]**2).sum()); Rc = (obs-s.X[0])/CC; h = t-s.T[0]; bb = (b*b).sum(); bR = (b*Rc).sum(); q = (h-bR-np.sqrt((h-bR)**2-(1-bb)*(h*h-(Rc*Rc).sum())))/(1-bb)
            F = lambda q: lw(s.X[0]+b*CC*q, s.U[0], 0*s.A[0], s.Q, obs); v = F(q); d = (abs(q)+np.sqrt((Rc**2).sum()))*LD(1e-13)/(1-bb); return v, 3*np.abs(F(q-d)-v)[:3].max() + LD(1e-9)*np.abs(v[:3]).max()
        i = np.nonzero(g > 0)[0][-1]; x = lambda q, V: V[i]*(1-q)+V[i+1]*q; r = lambda q: x(q, s.T)+np.sqrt(((obs-x(q, s.X))**2).sum())/CC-t; lo, hi = LD(0), LD(1)
        for _ in range(70):
            m = (lo+hi)/2
            if r(m) <= 0: lo = m
            else: hi = m
        q = (lo+hi)/2; F = lambda q: lw(x(q, s.X), x(q, s.U), x(q, s.A), s.Q, obs); v = F(q); d = LD(3e-5)+100*e/(r(LD(1))-r(LD(0))); return v, np.abs(F(q+d)-F(q-d))[:3].max() + LD(1e-9)*np.abs(v[:3]).max()
    def at(s, t):
        """coordinates at the time t, zero outside; None at the ends"""
        if min(abs(t-s.T[0]), abs(t-s.T[-1])) <= 1e-13*(abs(t)+np.abs(s.T).max()): return None
        if not (s.T[0] < t < s.T[-1]): return np.zeros(6, LD)
        i = np.searchsorted(s.T, t)-1; q = (t-s.T[i])/(s.T[i+1]-s.T[i]); return np.concatenate([s.X[i]*(1-q)+s.X[i+1]*q, s.U[i]*(1-q)+s.U[i+1]*q])
