import os, re, shutil, subprocess, numpy as np
from concurrent.futures import ThreadPoolExecutor
from vf import VERIF, sh
import xmlgen, outcmp

def run(c):
    exe = os.path.join(c.build("rel", targets=("teufel",)), "teufel")
    so = os.path.join(c.scratch, "mpi_preload.so"); sh("mpicc -shared -fPIC -O1 -o %s %s/lib/mpi_preload.c" % (so, VERIF))

    def launch(wd, n, seed, threads, jitter, single):
        e = c.env(OMP_NUM_THREADS=threads, VF_SEED2=seed, VF_MPI_JITTER=jitter, VF_MPILOG=os.path.join(wd, "mpilog"), OMPI_MCA_mpi_yield_when_idle=1, TMPDIR=c.scratch)
        if single: e["LD_PRELOAD"] = so; cmd = [exe, "a.xml"]
        else: cmd = ["mpirun", "--oversubscribe", "-n", str(n), "-x", "LD_PRELOAD=" + so, exe, "a.xml"]
        for k in range(2):
            try:
                p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, start_new_session=True)
                if not c.outside(p): return p.returncode, p.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired: pass
        return None, ""

    def one(k):
        rng = np.random.default_rng([c.seed, 7, k]); base = os.path.join(c.scratch, "s%d" % k); os.makedirs(base); rep = "run:%d" % k
        nmax = 8 if c.thorough else 5
        nodes = sorted(set(int(x) for x in rng.integers(2, nmax+1, 3))); q = int(rng.choice(nodes))
        tot = max(1, int(rng.choice([q-1, q, q+1, 2*q-1, 2*q, 2*q+1, 3*q+1, 1, 2])))
        s = xmlgen.make(rng, base, np_total=tot, bunches=int(rng.integers(1, min(4, tot)+1)), logs=True, observers=[str(x) for x in rng.choice(["point", "screen", "snapshot", "mesh"], 2)])
        ref = None
        for n in [1] + nodes:
            wd = base + "/n%d" % n; os.makedirs(wd)
            for f in os.listdir(base):
                if os.path.isfile(base+"/"+f): shutil.copy(base+"/"+f, wd)
            rc, out = launch(wd, n, k+1000*c.seed, int(rng.integers(1, 3)), 0 if n == 1 else int(rng.choice([0, 20, 60])), n == 1)
            if rc is None: c.inconclusive.append("run %d on %d nodes did not finish, twice" % (k, n)); return
            if n == 1:
                if rc != 0: c.check(s.fel and "FEL1D" in out, "C07:run", "ends with %d on one node: %s" % (rc, out[-300:]), rep); c.count("not_runnable"); return      # a bunch may be thrown out of the window of the FEL
                ref = {f: outcmp.load(wd+"/"+f) for f in s.out if os.path.exists(wd+"/"+f)}; c.count("configurations"); continue
            why = re.search(r"what\(\):.*", out)
            if not c.check(rc == 0, "C07:run", "ends with %d on %d nodes (%d particles, lattice %s): %s; succeeds on one node" % (rc, n, s.np, s.lattice, why.group(0) if why else out[-200:]), rep): continue
            chunk = -(-s.np//n); seen = 0
            for f, r in ref.items():
                kind = s.out[f] if isinstance(s.out[f], str) else "log"
                if not c.check(os.path.exists(wd+"/"+f), "C07:missing:"+kind, "%s not written on %d nodes" % (f, n), rep): continue
                try: o = outcmp.load(wd+"/"+f)
                except Exception as x: c.check(False, "C07:unreadable:"+kind, "%s on %d nodes: %s" % (f, n, x), rep); continue
                if kind == "probe":
                    want = min(s.probe[1], s.np)
                    if chunk < want:      # particles living on other nodes
                        full = o["Probe"].shape[1] == want
                        c.check(full, "C07:probe-nodes", "probe log holds %d instead of %d particles on %d nodes" % (o["Probe"].shape[1], want, n), rep)
                        if not full: r = {a: (b[:, :chunk] if a == "Probe" else b) for a, b in r.items()}; o = {a: (r[a] if a.startswith("Probe@") else b) for a, b in o.items()}
                d, m = outcmp.differ(r, o, 1e-9); src = [a for a in s.obs if a[2] == f]; key = "C07:" + ("%s-%s" % (src[0][0], src[0][1]) if src else kind)
                c.check(d is None, key, "%s differs on %d nodes (%d particles): %s" % (f, n, s.np, d), rep); c.count("values_compared", m); c.count("files_compared"); seen += m
                if src and any(v.size and np.abs(v).max() > 0 for a, v in r.items() if "Field" in a or "column E" in a): c.count("observers_with_field")
            logs = [dict((l.split()[0], float(l.split()[1])) for l in open(wd+"/mpilog.%d" % i)) for i in range(n) if os.path.exists(wd+"/mpilog.%d" % i)]
            if c.check(len(logs) == n, "C07:finalize", "%d of %d nodes finished" % (len(logs), n), rep):
                c.check(all(all(l[x] == logs[0][x] for x in ("barrier", "bcast", "gather", "reduce")) for l in logs), "C07:collectives", "nodes took part in different numbers of collective operations: %s" % logs, rep)
                c.count("collective_operations", int(sum(logs[0][x] for x in ("barrier", "bcast", "gather", "reduce")))); c.count("injected_delays", int(sum(l["delays"] for l in logs))); c.count("clock_jumps", int(sum(l["hops"] for l in logs)))
            c.count("parallel_runs"); c.count("nodes", n); c.case((k, n) if seen else None)
            if s.np < n: c.count("more_nodes_than_particles")
            if s.np % n: c.count("uneven_distribution")
        c.sample("%d particles in %s, lattice %s, observers %s%s on %s nodes" % (s.np, s.kinds, s.lattice, [(o[0], o[1]) for o in s.obs], ", FEL interaction" if s.fel else "", nodes))
        shutil.rmtree(base, ignore_errors=True)
    todo = range(200 if c.thorough else 40)
    if c.only: todo = [int(c.only.split(":")[1])]
    with ThreadPoolExecutor(3) as ex: list(ex.map(c.guard(one, "run"), todo))
    if not c.only:
        for n, q in (("parallel_runs", 60), ("files_compared", 300), ("observers_with_field", 60), ("more_nodes_than_particles", 5), ("uneven_distribution", 20), ("clock_jumps", 300)): c.expect(n, q)
    c.finish("the real program is run on one node and on several (up to 5, thorough 8) with generated inputs - several beam components, every kind of lattice element, interaction, logger, watch point and observer, particle numbers around multiples of the node count; all output files equal those of the one-node run to 1e-9 of the largest value of each vector quantity, all nodes finish and take part in the same collective operations, with delays injected before those",
        ["the random generator of node 0 is seeded identically in all runs and differently on the other nodes", "waiting times in the program are skipped"])
