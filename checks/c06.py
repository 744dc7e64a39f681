import os, re, subprocess, numpy as np
from concurrent.futures import ThreadPoolExecutor
from vf import REPO, NCPU, crash_key
import meshlib as M

def run(c):
    # 1. the observers inside the library
    h = c.harness("c06.cpp", kind="tsan")
    if c.only is None or c.only.split(":")[0] in c.groups(h): c.run_all(h, mult=(2, 1))
    # 2. the programs propagate and reflection
    tool = {n: c.harness("c06tool.cpp", kind="tsan", extra='-DTOOL=\'"%s/src/%s.cpp"\'' % (REPO, n), out="c06_" + n) for n in ("propagate", "reflection")}

    def one(k):
        rng = np.random.default_rng([c.seed, 6, k]); wd = os.path.join(c.scratch, "t%d" % k); os.makedirs(wd); name = ("propagate", "reflection")[k % 2]; rep = "tool:%d" % k
        while True:
            hh = 10**rng.uniform(-3, -.5); dt = hh/M.CC*rng.uniform(.1, 2); O = rng.uniform(-1, 1, 3); m = M.grid(rng, int(rng.integers(2, 4)), int(rng.integers(2, 5)), hh, O)
            if M.conditioned(m): break
        M.timing(m, rng.uniform(-1, 1, m.Np)*dt, dt, int(rng.integers(3, 12))); M.rand_fields(rng, m)
        D = hh*10**rng.uniform(.5, 1.5); q = M.grid(rng, int(rng.integers(1, 4)), int(rng.integers(1, 4)), hh, O + rng.normal(size=3)*D)
        while min(np.linalg.norm(a-b) for a in m.C for b in q.C) < .5*hh: q.P = q.P + rng.normal(size=3)*D; M.geo(q)
        i = rng.integers(m.Np, size=q.Np); nq = int(rng.integers(1, 10)); M.timing(q, m.t0[i] + np.linalg.norm(q.C-m.C[i], axis=1)/M.CC + rng.uniform(-1, 1, q.Np)*m.nt*dt*.5, dt*rng.uniform(.3, 2), nq)
        M.write(m, wd+"/s.h5"); M.write(q, wd+"/t.h5", fields=False); ref = None
        for j in range(4 if c.thorough else 3):
            th = 1 if j == 0 else int(rng.integers(2, 13)); fast = int(rng.random() < .6); out = "o%d.h5" % j
            e = c.env(VF_THREADS=th, VF_GSEED=int(rng.integers(1 << 30)), VF_JITTER=int(rng.choice([0, 5, 40])) if j else 0, VF_FAST=fast if j else 0)
            try: p = subprocess.run([tool[name], "s.h5", "t.h5", out], cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
            except subprocess.TimeoutExpired: c.inconclusive.append("%s with %d threads did not finish" % (name, th)); return
            log = p.stdout.decode("utf-8", "replace")
            if "Sanitizer" in log: key, msg = crash_key(log, p.returncode); c.check(False, "C06:%s:%s" % (name, key), "%s with %d threads: %s" % (name, th, msg), rep); return
            if not c.check(p.returncode == 0 and os.path.exists(wd+"/"+out), "C06:%s:run" % name, "%s with %d threads ended with %s: %s" % (name, th, p.returncode, log[-200:]), rep): return
            V = M.read(wd+"/"+out).V; w = re.findall(r"encountered (\d+)|(\d+) 'zero", log)
            if j == 0: ref = V; sc = np.abs(np.concatenate([V[..., :3].ravel(), [0]])).max(), np.abs(np.concatenate([V[..., 3:].ravel(), [0]])).max()
            else:
                d = np.abs(V-ref); bad = (d[..., :3].max() > 1e-9*sc[0]) or (d[..., 3:].max() > 1e-9*sc[1]) or not np.isfinite(V).all()
                c.check(not bad, "C06:%s" % name, "result of %s with %d threads differs from the one with 1 thread (%g of %g)" % (name, th, d[..., :3].max(), sc[0]), rep)
                c.count("program_schedules"); c.count("values_compared", ref.size)
                if fast: c.count("schedules_with_progress")
                if th > q.Np: c.count("more_threads_than_cells")
                r = re.search(r"VFTHREADS (\d+)", log); c.count("program_threads", int(r.group(1)) if r else 0); c.case((k, j, th) if sc[0] > 0 else None)
    todo = range(48 if c.thorough else 10)
    if c.only:
        g, k = c.only.split(":"); todo = [int(k)] if g == "tool" else []
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(c.guard(one, "tool"), todo))
    if not c.only:
        for n, q in (("schedules", 500), ("cells_exactly_once", 2000), ("schedules_with_progress", 100), ("fields_seen", 100), ("more_threads_than_cells", 50), ("values_compared", 100000), ("program_schedules", 10)): c.expect(n, q)
    c.finish("every parallel computation - screen, snapshot and mesh observers of beam, bunch and lattice sources, the programs propagate and reflection - is executed under ThreadSanitizer on a pthread-based OpenMP runtime with varied thread count (1-16), numbering, chunk order and injected delays, with the once-per-minute progress report triggered in half of the runs: no unsynchronised conflicting accesses, results equal to the sequential ones to rounding (1e-9 of the largest), and lattice evaluations logged cell by cell prove that each cell is evaluated at every sample",
        ["the runtime stand-in hands work shares to the threads as the OpenMP specification allows", "memory accesses inside HDF5 are not instrumented (they happen outside parallel regions)"])
