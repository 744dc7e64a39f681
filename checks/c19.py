import os, re, shutil, subprocess, numpy as np
from concurrent.futures import ThreadPoolExecutor
from vf import VERIF, NCPU, sh
import xmlgen, outcmp

INT = {"n", "N", "step", "number", "particles", "indep", "dep"}

def rewrite(rng, xml):
    """the same input, numbers given by definitions and expressions (of exactly the same value in double precision)"""
    V = []; cnt = 0
    for i in range(int(rng.integers(2, 7))):
        v = int(rng.integers(1, 9)); e = "%d" % v
        if V and rng.random() < .5: k = int(rng.integers(len(V))); e, v = "%s+%d" % (V[k][0], v), V[k][1]+v
        V.append(("a%d" % i if rng.random() < .5 else "Var_%d" % i, v, e))
    local = 0
    def sub(m):
        nonlocal cnt
        k, t = m.group(1), m.group(2)
        try: x = float(t)
        except ValueError: return m.group(0)
        if k in ("version",) or rng.random() < .3: return m.group(0)
        a, v, _ = V[int(rng.integers(len(V)))]; cnt += 1; s = "(%s)" % t
        if k in INT: f = ["%s+%d-%s" % (a, int(x), a), "%s+%d" % (a, int(x)-v) if int(x) >= v else "%s-%d" % (a, v-int(x)), "%d*%s/%s" % (int(x), a, a)]
        else: f = ["%s*%s^0" % (s, a), "%s+0*%s" % (s, a), s, "2*%s/2" % s, "%s-(%s-%d)" % (s, a, v), "-(-%s)" % s, "4*(%s*0.25)*cos(%s-%s)" % (s, a, a)]
        return ' %s="%s"' % (k, f[int(rng.integers(len(f)))])
    head, n, tail = re.match(r'(.*<tracking [^>]*)( n="\d+")(.*)', xml, re.S).groups()
    out = re.sub(r' (\w+)="([^"]*)"', sub, head) + n + re.sub(r' (\w+)="([^"]*)"', sub, tail)
    out = re.sub(r"(<teufel[^>]*>\n)", lambda m: m.group(1) + "".join('<calc %svar="%s" eq="%s"/>\n' % ('print="%s = " ' % a if rng.random() < .3 else "", a, e) for a, v, e in V), out)
    # definitions of their own where a list of entries stands
    for sec in ("lattice", "beam", "observer"):
        if rng.random() < .5: out = out.replace("<%s>\n" % sec, '<%s>\n<calc var="own_%s" eq="%s*2"/>\n' % (sec, sec, V[0][0]))
    return out, cnt

def run(c):
    grp = c.only.split(":")[0] if c.only else None
    if grp not in ("rewrite", "program"):
        h = c.harness("c19.cpp"); c.run_all(h, mult=(1, 1))
    exe = os.path.join(c.build("rel", targets=("teufel",)), "teufel")
    so = os.path.join(c.scratch, "mpi_preload.so"); sh("mpicc -shared -fPIC -O1 -o %s %s/lib/mpi_preload.c" % (so, VERIF))
    def launch(wd, arg, seed):
        for k in range(2):
            try:
                p = subprocess.run([exe] + arg, cwd=wd, env=c.env(LD_PRELOAD=so, VF_SEED2=seed, TMPDIR=c.scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
                if not c.outside(p): return p.returncode, p.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired: pass
        return None, ""
    def copyin(base, wd):
        os.makedirs(wd)
        for f in os.listdir(base):
            if os.path.isfile(base+"/"+f): shutil.copy(base+"/"+f, wd)

    def rew(k):
        rng = np.random.default_rng([c.seed, 19, k]); base = os.path.join(c.scratch, "r%d" % k); os.makedirs(base); rep = "rewrite:%d" % k
        s = xmlgen.make(rng, base); x2, cnt = rewrite(rng, s.xml); R = []
        for j, x in enumerate((s.xml, x2)):
            wd = base + "/v%d" % j; copyin(base, wd); open(wd+"/a.xml", "w").write(x); rc, out = launch(wd, ["a.xml"], k+1000*c.seed)
            if rc is None: c.inconclusive.append("run %d did not finish, twice" % k); return
            if j == 0 and rc != 0: c.check(s.fel and "FEL1D" in out, "C19:rewrite:run", "valid input fails (%d): %s: %s" % (rc, out[-300:], x[:1500]), rep); c.count("not_runnable"); return        # a bunch may be thrown out of the window of the FEL
            w = re.search(r"what\(\):.*", out)
            if j and not c.check(rc == 0, "C19:rewrite:run", "input with expressions fails (%d: %s): %s" % (rc, w.group(0) if w else out[-200:], x2[:1500]), rep): return
            R.append({f: outcmp.load(wd+"/"+f) if os.path.exists(wd+"/"+f) else None for f in s.out})
        for f in s.out:
            a, b = R[0][f], R[1][f]
            if not c.check((a is None) == (b is None), "C19:rewrite:missing", "%s written: %s with numbers, %s with expressions" % (f, a is not None, b is not None), rep) or a is None: continue
            d, m = outcmp.differ(a, b, 1e-8); c.check(d is None, "C19:rewrite", "%s differs when numbers are replaced by equal expressions: %s" % (f, d), rep); c.count("rewritten_values", m); c.count("rewritten_files")
        c.count("rewritten_runs"); c.count("rewritten_attributes", cnt); c.case(k); c.sample(x2[:700])
        shutil.rmtree(base, ignore_errors=True)

    def prog(k):
        """unusable input: nothing is tracked, no result appears, the program ends with an error"""
        rng = np.random.default_rng([c.seed, 191, k]); base = os.path.join(c.scratch, "p%d" % k); os.makedirs(base); rep = "program:%d" % k
        s = xmlgen.make(rng, base, steps=int(rng.integers(2, 6))); x = s.xml; arg = ["a.xml"]; kind = k % 11
        tag = lambda *t: [m for m in re.finditer(r"<(%s)\b" % "|".join(t), x)]
        def drop_att(names, tags):
            M = [m for m in re.finditer(r"<(?:%s)\b[^>]*?( (?:%s)=\"[^\"]*\")" % ("|".join(tags), "|".join(names)), x)]
            if not M: return None
            m = M[int(rng.integers(len(M)))]; return x[:m.start(1)] + x[m.end(1):]
        if kind == 0: y = x[:int(rng.integers(30, len(x)-3))]; what = "truncated"
        elif kind == 1: t = ["lattice", "beam", "tracking", "observer"][int(rng.integers(4))]; y = re.sub(r"<%s\b.*?</%s>" % (t, t), "", x, flags=re.S); what = "without section " + t
        elif kind == 2: t = ["lattice", "beam", "tracking", "observer"][int(rng.integers(4))]; y = x.replace("<%s" % t, "<%sx" % t).replace("</%s>" % t, "</%sx>" % t); what = "misnamed section " + t
        elif kind == 3: m = tag("background", "undulator", "dipole", "wave", "bunch", "particle", "SDDS", "point", "screen", "snapshot", "mesh"); m = m[int(rng.integers(len(m)))]; t = m.group(1); i = x.find("/>" if t in ("mesh",) else "</%s>" % t, m.end()); y = x[:m.start()] + "<%sx" % t + x[m.end():i] + ("/>" if t == "mesh" else "</%sx>" % t) + x[i+(2 if t == "mesh" else len(t)+3):]; what = "unknown entry %sx" % t
        elif kind == 4: y = x.replace('method="Vay"', 'method="%s"' % ["Euler", "", "vay "][int(rng.integers(3))]); what = "unknown tracking method"
        elif kind == 5: y = drop_att(["file"], ["watch", "watch-sdds", "log", "trajectories", "point", "screen", "snapshot", "mesh", "probe", "SDDS"]); what = "without file name"
        elif kind == 6: m = re.search(r"<(observer)>(.*?)<position[^>]*/>", x, re.S); y = x[:m.start()] + "<observer>" + m.group(2) + x[m.end():] if m and "<position" not in m.group(2) and "mesh" not in m.group(2) else None; what = "observer without position"
        elif kind == 7: M = [m for m in re.finditer(r'source="(beam|lattice)"', x)]; y = x[:M[0].start(1)] + ["bunch1", "fel", "beams"][int(rng.integers(3))] + x[M[0].end(1):] if M else None; what = "unknown source"
        elif kind == 8: y = x; arg = [] if rng.random() < .5 else ["missing.xml"]; what = "no input file"
        elif kind == 9: y = x.replace("<teufel", "<trufel").replace("</teufel", "</trufel"); what = "other root node"
        else: y = re.sub(r'step="\d+"', 'step="%s"' % ["0", "-1", "1-1"][int(rng.integers(3))], re.search(r'<log [^>]*>|<trajectories [^>]*>|<probe [^>]*>', x).group(0)) if re.search(r'<log [^>]*step|<trajectories [^>]*step|<probe [^>]*step', x) else None; y = x.replace(re.search(r'<log [^>]*>|<trajectories [^>]*>|<probe [^>]*>', x).group(0), y, 1) if y else None; what = "step below one"
        if y is None: c.count("not_applicable"); shutil.rmtree(base, ignore_errors=True); return
        wd = base+"/w"; copyin(base, wd); open(wd+"/a.xml", "w").write(y); before = {f: open(wd+"/"+f, "rb").read() for f in os.listdir(wd)}
        rc, out = launch(wd, arg, k)
        if rc is None: c.check(False, "C19:program:hang", "%s: does not end: %s" % (what, y[:1500]), rep); return
        c.check(rc != 0, "C19:program:exit", "%s: the program reports success: %s" % (what, y[:1500]), rep)
        made = [f for f in os.listdir(wd) if f in s.out and before.get(f) != open(wd+"/"+f, "rb").read() and "DEBUG" not in f]
        c.check(not made, "C19:program:results", "%s: results %s were written: %s" % (what, made, y[:1500]), rep)
        c.check(rc not in (-11, -8, -7, 139, 136, 98), "C19:program:crash", "%s: crashed (%s): %s" % (what, rc, y[:1500]), rep)
        c.check(len(re.findall(r"(?i)error|not found|what\(\)|can't|cannot|unknown|usage|missing|must|please", out)) > 0, "C19:program:silent", "%s: ends without a message: %s" % (what, out[-300:]), rep)
        c.count("rejected_programs"); c.count("fault: "+what); c.case((kind, k)); shutil.rmtree(base, ignore_errors=True)
    jobs = []
    if grp in (None, "rewrite"): jobs += [(rew, i) for i in (range(400 if c.thorough else 50) if not c.only else [int(c.only.split(":")[1])])]
    if grp in (None, "program"): jobs += [(prog, i) for i in (range(1100 if c.thorough else 132) if not c.only else [int(c.only.split(":")[1])])]
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(lambda j: c.guard(j[0], {"rew": "rewrite", "prog": "program"}.get(j[0].__name__, j[0].__name__))(j[1]), jobs))
    if not c.only:
        for k, n in (("values", 700), ("printed_definitions", 100), ("definitions", 2000), ("variables_used", 5000), ("redefined", 200), ("elements", 200), ("field_points", 5000), ("exact_particles", 400), ("warm_particles", 20000), ("watch_points", 50), ("fel_cells", 500), ("observers", 150), ("observer_values", 2000), ("faults", 2500), ("unreadable", 100), ("rewritten_runs", 30), ("rewritten_attributes", 500), ("rejected_programs", 80)): c.expect(k, n)
    c.finish("random input files - definitions at every level with chained, redefined and self-referring variables, attributes given by expressions whose value is computed independently in extended precision - are parsed by the real parser; every element, particle, bunch, logger, watch point, interaction and observer created is compared with one built directly from the intended values (fields at points and times, particles one by one or by 8-sigma moment bounds, observer results, requested steps). Each of >100 kinds of single fault (missing part, attribute, section, unknown entry, type, source, step below one, truncation) must be rejected, its fault-free twin accepted. The real program gives the same results for numbers and for equal expressions, and ends with an error and without results on unusable inputs. Non-trivial: distinct section texts / faults.",
        ["values that cannot be evaluated are reported and read as zero, as documented in the code", "random numbers of the real program are seeded identically in both runs"])
