"""read and compare the output files of the simulation program"""
import numpy as np, h5py, re, struct

def sdds(fn):
    """(parameters, {column: values}) of an SDDS file with one page"""
    raw = open(fn, "rb").read(); m = re.search(rb"&data mode=(ascii|binary).*?&end\s*?\n", raw, re.S)
    if not m: raise ValueError("%s: no data section" % fn)
    head = raw[:m.start()].decode(errors="replace"); body = raw[m.end():]
    F = lambda w: [(n.strip('"'), t) for n, t in re.findall(r"&%s name=([\w-]+|\"[^\"]*\").*?type=(\w+)[^&]*&end" % w, head)]
    P, C = F("parameter"), F("column")
    if m.group(1) == b"ascii":
        lines = [l for l in body.decode(errors="replace").split("\n") if not l.startswith("!")]
        par = {n: (float(lines[i]) if t != "string" else lines[i]) for i, (n, t) in enumerate(P)}
        rest = " ".join(lines[len(P):]).split(); n = int(rest[0])
        if len(rest) != 1+n*len(C): raise ValueError("%s: %d values for %d rows" % (fn, len(rest)-1, n))
        v = np.array([float(x) for x in rest[1:]]).reshape(n, len(C))
        return par, {c[0]: v[:, i] for i, c in enumerate(C)}
    if "column_major_order" in m.group(0).decode(): raise ValueError("%s: column major" % fn)
    S = {"double": ("<d", 8), "float": ("<f", 4), "long": ("<i", 4), "short": ("<h", 2), "long64": ("<q", 8), "ulong": ("<I", 4), "ushort": ("<H", 2)}; o = 4; n = struct.unpack_from("<i", body, 0)[0]; par = {}
    def get(t):
        nonlocal o
        if t == "string": l = struct.unpack_from("<i", body, o)[0]; o += 4+l; return body[o-l:o].decode(errors="replace")
        f, l = S[t]; o += l; return struct.unpack_from(f, body, o-l)[0]
    for k, t in P: par[k] = get(t)
    v = [[get(t) for k, t in C] for i in range(n)]
    if o != len(body): raise ValueError("%s: %d bytes of data after %d rows" % (fn, len(body)-o, n))
    return par, {k: np.array([r[i] for r in v]) for i, (k, t) in enumerate(C)}

def h5(fn):
    """{dataset: array}, {dataset@attribute: value}"""
    D = {}; A = {}
    with h5py.File(fn, "r") as f:
        def visit(n, o):
            if isinstance(o, h5py.Dataset): D[n] = np.asarray(o[()], float)
            for k, v in o.attrs.items(): A[n+"@"+k] = v
        f.visititems(visit)
        for k, v in f.attrs.items(): A["/@"+k] = v
    return D, A

def load(fn):
    """{name: (values, scales)} of any output file"""
    R = {}
    if fn.endswith(".h5"):
        D, A = h5(fn)
        for k, v in D.items(): R[k] = v
        for k, v in A.items(): R[k] = np.asarray(v, float) if not isinstance(v, (str, bytes)) else v
    else:
        P, C = sdds(fn)
        for k, v in P.items(): R["param "+k] = np.asarray(v, float) if not isinstance(v, str) else v
        for k, v in C.items(): R["column "+k] = v
    return R

def differ(a, b, tol=1e-9, fields=("ElMagField", "Field", "Probe")):
    """description of the first difference beyond tol of the largest value (separately for every component), or None, and the number of values"""
    n = 0
    if set(a) != set(b): return "contents %s and %s" % (sorted(a), sorted(b)), 0
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)):
            if x != y: return "%s: %r and %r" % (k, x, y), n
            continue
        if x.shape != y.shape: return "%s: shapes %s and %s" % (k, x.shape, y.shape), n
        n += x.size
        if x.size == 0: continue
        if x.dtype.kind in "SUO":
            if not np.array_equal(x, y): return "%s: differs" % k, n
            continue
        if x.ndim > 1 and x.shape[-1] in (6, 16):      # vectors: [t,] X, P, ...
            w = x.shape[-1]; X = x.reshape(-1, w)[:, w % 3:].reshape(-1, w//3, 3); Y = y.reshape(-1, w)[:, w % 3:].reshape(X.shape); sc = np.nanmax(np.abs(X), axis=(0, 2))[None, :, None]
            if w % 3 and not np.all(np.abs(x[..., 0]-y[..., 0]) <= tol*np.abs(x[..., 0]).max()): return "%s: times" % k, n
        else: X, Y = x, y; sc = np.nanmax(np.abs(X)) if np.isfinite(X).any() else 0
        same = (np.isnan(X) & np.isnan(Y)) | (X == Y) | (np.abs(X-Y) <= tol*sc)
        if not np.all(same): i = np.unravel_index(np.argmin(same), same.shape); return "%s[%s]: %.12g and %.12g (%d of %d values)" % (k, ",".join(map(str, i)), X[i], Y[i], (~same).sum(), same.size), n
    return None, n
