"""Replaying meshes and matches of spec/Mapping.tla: both directions of a mapping between two real participants."""
import numpy as np
from .common import Proc, Scenario, eq, floats, judge_lines
from .coupling import PROLOGUE, num

SPD = {"gaussian", "inverse-multiquadrics", "compact-polynomial-c0", "compact-polynomial-c2", "compact-polynomial-c4", "compact-polynomial-c6",
       "compact-polynomial-c8", "compact-tps-c2"}
BASES = sorted(SPD) + ["thin-plate-splines", "multiquadrics", "volume-splines"]


class Skip(Exception):
    pass


# --------------------------------------------------------------------------- radial basis functions

def kernel(name, par):
    def f(r):
        if name == "thin-plate-splines":
            return r * r * np.log(np.maximum(r, 1e-14))
        if name == "volume-splines":
            return r
        if name == "multiquadrics":
            return np.sqrt(par * par + r * r)
        if name == "inverse-multiquadrics":
            return 1 / np.sqrt(par * par + r * r)
        if name == "gaussian":
            return np.where(r > np.sqrt(-np.log(1e-9)) / par, 0.0, np.exp(-(par * r) ** 2))
        p = r / par
        v = {"compact-polynomial-c0": (1 - p) ** 2,
             "compact-polynomial-c2": (1 - p) ** 4 * (4 * p + 1),
             "compact-polynomial-c4": (1 - p) ** 6 * (35 * p ** 2 + 18 * p + 3),
             "compact-polynomial-c6": (1 - p) ** 8 * (32 * p ** 3 + 25 * p ** 2 + 8 * p + 1),
             "compact-polynomial-c8": (1 - p) ** 10 * (1287 * p ** 4 + 1350 * p ** 3 + 630 * p ** 2 + 150 * p + 15),
             "compact-tps-c2": 1 - 30 * p ** 2 - 10 * p ** 3 + 45 * p ** 4 - 6 * p ** 5 - 60 * p ** 3 * np.log(np.maximum(p, 1e-300))}[name]
        return np.where(p >= 1, 0.0, v)
    return f


def rbf_matrix(X, Y, name, par, poly, dead, rescale=False):
    """(matrix from values on X to values on Y, condition). rescale: as the iterative solver does it, returns also the
    matrix of the conservative direction"""
    act = [d for d in range(X.shape[1]) if not dead[d]]
    if not act:
        raise Skip("dead")
    dist = lambda P, Q: np.sqrt(((P[:, None, act] - Q[None, :, act]) ** 2).sum(-1))
    f = kernel(name, par)
    C, A = f(dist(X, X)), f(dist(Y, X))
    n = len(X)
    mono = lambda P, ax: np.hstack([np.ones((len(P), 1))] + [P[:, [d]] for d in ax])
    if poly == "on":
        P = mono(X, act)
        if n < 1 + P.shape[1] or np.linalg.matrix_rank(P) < P.shape[1]:
            raise Skip("polynomial")
        K = np.block([[C, P], [P.T, np.zeros((P.shape[1],) * 2)]])
        cond = np.linalg.cond(K)
        if cond > 1e8:
            raise Skip("condition")
        M = np.hstack([A, mono(Y, act)]) @ np.linalg.inv(K)[:, :n]
        return (M, M, cond) if rescale else (M, cond)
    cond = np.linalg.cond(C)
    if cond > 1e8:
        raise Skip("condition")
    M = A @ np.linalg.inv(C)
    if poly == "separate":
        ax = list(act)
        while True:
            Q = mono(X, ax)
            s = np.linalg.svd(Q, compute_uv=False)
            k = s[0] / max(s[-1], 1e-14)
            if n < Q.shape[1]:
                k = np.inf
            if 1e4 < k < 1e7:
                raise Skip("polynomial")
            if k > 1e5:
                ext = [(X[:, d].max() - X[:, d].min(), d) for d in ax]
                lo = min(ext)[0]
                if sum(e == lo for e, _ in ext) > 1:
                    raise Skip("polynomial")
                ax.remove(min(ext)[1])
                continue
            break
        B = np.linalg.pinv(Q)
        if rescale:
            if len(ax) < len(act):
                raise Skip("polynomial")
            one = M.sum(1)
            if np.abs(one).min() < 1e-2:
                raise Skip("rescaling")
            Mc = M @ (np.eye(n) - Q @ B) + mono(Y, ax) @ B
            return (M @ (np.eye(n) - Q @ B)) / one[:, None] + mono(Y, ax) @ B, Mc, cond
        M = M @ (np.eye(n) - Q @ B) + mono(Y, ax) @ B
    return (M, M, cond) if rescale else (M, cond)


# --------------------------------------------------------------------------- geometry

def measure(P, e):
    a = P[list(e)]
    if len(e) == 2:
        return float(np.linalg.norm(a[1] - a[0]))
    if len(e) == 3:
        u, v = a[1] - a[0], a[2] - a[0]
        return float(.5 * np.sqrt(max(0.0, (u @ u) * (v @ v) - (u @ v) ** 2)))
    return float(abs(np.linalg.det(a[1:] - a[0])) / 6)


def integral(P, elems, size, vals):
    """per component; vals is (n, d). Elements imply their faces."""
    import itertools
    s = set()
    for e in elems:
        if len(e) >= size:
            s |= {tuple(sorted(f)) for f in itertools.combinations(e, size)}
    t = np.zeros(vals.shape[1])
    for e in s:
        t += measure(P, e) * vals[list(e)].mean(0)
    return t


def transform(beh, rng, rotate):
    """coordinates with the same matches: scaling, axes, translation (exact); rotation (rounded)"""
    d = beh["dim"]
    S, T = np.array(beh["src"], float)[:, :d], np.array(beh["tgt"], float)[:, :d]
    if rotate and rng.random() < .3:
        q, _ = np.linalg.qr(np.random.default_rng(rng.getrandbits(60)).normal(size=(d, d)))
        S, T = S @ q, T @ q
        return S, T
    perm = rng.sample(range(d), d)
    flip = np.array([rng.choice([-1, 1]) for _ in range(d)], float)
    f = 2.0 ** rng.randint(-3, 3)
    sh = np.array([rng.randint(-6, 6) for _ in range(d)], float) if rng.random() < .5 else np.zeros(d)
    g = lambda P: ((P[:, perm] + sh) * flip) * f
    return g(S), g(T)


# --------------------------------------------------------------------------- distribution over ranks

def place(nv, elems, ranks, rng):
    """per rank: origin of every local vertex, local elements. A vertex of elements of several ranks is on each of them."""
    if ranks == 1:
        o = list(range(nv))
        rng.shuffle(o)
        parts = [(o, list(elems))]
    else:
        own = [[] for _ in range(ranks)]
        el = [[] for _ in range(ranks)]
        if elems:
            cut = rng.random()
            for e in elems:
                # neighbouring elements tend to be together
                r = rng.randrange(ranks) if cut < .5 else min(ranks - 1, min(e) * ranks // nv)
                el[r].append(e)
        for r in range(ranks):
            own[r] = sorted({v for e in el[r] for v in e})
        for v in range(nv):
            if not any(v in o for o in own):
                own[rng.randrange(ranks)].append(v)
        for o in own:
            rng.shuffle(o)
        parts = list(zip(own, el))
    res = []
    for o, es in parts:
        loc = {v: k for k, v in enumerate(o)}
        le = []
        for e in es:
            e = [loc[v] for v in e]
            rng.shuffle(e)
            le.append(e)
        rng.shuffle(le)
        res.append((o, le))
    return res


class Mesh:
    def __init__(self, name, part, P, elems, ranks, rng):
        self.name, self.part, self.P, self.elems = name, part, P, [tuple(e) for e in elems]
        self.parts = place(len(P), elems, ranks, rng)
        self.copies = np.zeros(len(P), int)
        for o, _ in self.parts:
            for v in o:
                self.copies[v] += 1

    def define(self, p, rng):
        o, es = self.parts[p.rank]
        if o:
            if rng.random() < .3:
                for k, v in enumerate(o):
                    p.add("mv1 %s %d %s" % (self.name, self.P.shape[1], " ".join(map(num, self.P[v]))), eq(k))
            else:
                p.add("mv %s %d %s %d" % (self.name, len(o) * self.P.shape[1], " ".join(num(x) for v in o for x in self.P[v]), len(o)), eq(list(range(len(o)))))
        ops = {2: ("edge", "edges"), 3: ("tri", "tris"), 4: ("tet", "tets")}
        if rng.random() < .5:
            for e in es:
                p.add("%s %s %s" % (ops[len(e)][0], self.name, " ".join(map(str, e))))
        else:
            for size in (2, 3, 4):
                s = [e for e in es if len(e) == size]
                if s:
                    p.add("%s %s %d %s" % (ops[size][1], self.name, size * len(s), " ".join(str(v) for e in s for v in e)))

    def ids(self, rank):
        n = len(self.parts[rank][0])
        return "%d %s" % (n, " ".join(map(str, range(n))))


# --------------------------------------------------------------------------- the two directions

class Method:
    """tag(direction, from, to, constraint) -> xml; rows: per target a list of possible dictionaries source -> weight, or None with a full matrix;
    checks beyond the values in post"""

    def __init__(self, name, tag, rows=None, M=None, tol=1e-9, loose=False, const=False, experimental=False, gradient=False, info=""):
        self.name, self.tag, self.rows, self.M, self.tol, self.loose, self.const = name, tag, rows, M, tol, loose, const
        self.axis = None            # the only component of vectors that is mapped
        self.Mc = None              # matrix of the conservative direction if it differs
        self.experimental, self.gradient, self.info = experimental, gradient, info


def rows_of(beh):
    res = []
    for m in beh["match"]:
        cs = []
        for c in m:
            w = {}
            for i, x in zip(c["ids"], c["num"]):
                if x:
                    w[i - 1] = x / c["den"]
            if w not in cs:
                cs.append(w)
        res.append(cs)
    return res


def recorder(store, key, n):
    def chk(state, pay):
        if state != "ok":
            return "failed: " + pay[:300]
        v = floats(pay)
        if len(v) != n:
            return "%d values, expected %d" % (len(v), n)
        store[key] = v
        return None
    return chk


def scenario(beh, method, rng, opts=None):
    """F: consistent (or scaled) from mesh MA of A to MB of B; G: conservative back (not if there is no conservative variant)."""
    o = dict(opts or {})
    d = beh["dim"]
    S, T = o.pop("coords", None) or transform(beh, rng, beh["shape"] == "soup" and method.name not in ("radial",))
    nS, nT = len(S), len(T)
    elems = [tuple(i - 1 for i in e) for e in beh["elems"]]
    telems = [tuple(i - 1 for i in e) for e in beh["telems"]]
    ra, rb = o.get("ranks", (1, 1))
    A, B = Mesh("MA", "A", S, elems, ra, rng), Mesh("MB", "B", T, telems, rb, rng)
    scaled = o.get("scaled")
    cons = "scaled-consistent-" + scaled if scaled else "consistent"
    back = not method.gradient and method.name not in ("radial", "axial")
    if "where" in o:
        wf, wg = o["where"]
    else:
        wf, wg = rng.choice("AB"), rng.choice("AB")
    ns, win = rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
    data = [("F1", 1)] + ([("F2", d)] if rng.random() < .5 and method.name != "radial" else [])
    gdata = ([("G1", 1)] + ([("G2", d)] if rng.random() < .5 else [])) if back else []
    if not back:
        gdata = [("G1", 1)]
    tagd = lambda n, k: '<data:%s name="%s" waveform-degree="1"/>' % ("vector" if k > 1 or n.endswith("2") else "scalar", n)
    L = [PROLOGUE % (str(method.experimental or bool(o.get("experimental"))).lower(), '<profiling mode="off"/>')]
    L += [tagd(n, k) for n, k in data + gdata]
    # the mesh on which a data travels
    carrier = {}
    for n, _ in data:
        carrier[n] = "MA" if wf == "B" else "MB"
    for n, _ in gdata:
        carrier[n] = ("MB" if wg == "A" else "MA") if method.name != "axial" else "MB"
    received = {"A": set(), "B": set()}
    for n, m in carrier.items():
        if m == "MA":
            received["B"].add("MA")
        else:
            received["A"].add("MB")
    if not back and method.name == "axial":
        received["A"].add("MB")
    maps = {"A": [], "B": []}
    maps[wf].append(method.tag("read" if wf == "B" else "write", "MA", "MB", cons))
    if back:
        maps[wg].append(method.tag("write" if wg == "B" else "read", "MB", "MA", "conservative"))
    elif method.name == "radial" or method.name == "axial":
        wg = o.get("wg", "A")
        maps[wg].append(method.back("write" if wg == "B" else "read", "MB", "MA", "consistent"))
        for n, _ in gdata:
            carrier[n] = "MB" if wg == "A" else "MA"
            received["A" if wg == "A" else "B"].add(carrier[n])
    else:       # gradient: G is mapped by nearest neighbors
        maps[wg].append('<mapping:nearest-neighbor direction="%s" from="MB" to="MA" constraint="conservative"/>' % ("write" if wg == "B" else "read"))
    for m in ("MA", "MB"):
        L.append('<mesh name="%s" dimensions="%d">%s</mesh>' % (m, d, "".join('<use-data name="%s"/>' % n for n, _ in data + gdata)))
    filt = o.get("filter", 'geometric-filter="no-filter"')
    for q, own in (("A", "MA"), ("B", "MB")):
        L.append('<participant name="%s">' % q)
        L.append('<provide-mesh name="%s"/>' % own)
        other = "MB" if q == "A" else "MA"
        if other in received[q]:
            L.append('<receive-mesh name="%s" from="%s" %s/>' % (other, "A" if q == "B" else "B", filt if (ra if q == "A" else rb) > 1 or rng.random() < .5 else ""))
        for n, _ in data:
            L.append('<%s-data name="%s" mesh="%s"/>' % ("write" if q == "A" else "read", n, own))
        for n, _ in gdata:
            L.append('<%s-data name="%s" mesh="%s"/>' % ("write" if q == "B" else "read", n, own))
        L += maps[q]
        if (ra if q == "A" else rb) > 1:
            L.append("<intra-comm:sockets/>")
        L += o.get("inpart", {}).get(q, [])
        L.append("</participant>")
    L.append('<m2n:sockets acceptor="%s" connector="%s"%s/>' % (*rng.sample("AB", 2), o.get("m2n", "")))
    L.append('<coupling-scheme:serial-explicit><participants first="A" second="B"/><time-window-size value="1.0"/><max-time-windows value="%d"/>' % win)
    for n, _ in data:
        L.append('<exchange data="%s" mesh="%s" from="A" to="B" substeps="true"/>' % (n, carrier[n]))
    for n, _ in gdata:
        L.append('<exchange data="%s" mesh="%s" from="B" to="A"/>' % (n, carrier[n]))
    L.append("</coupling-scheme:serial-explicit></precice-configuration>\n")
    sc = Scenario("\n".join(L), 20.0, info=dict(behaviour=beh, method=method.name + method.info))
    procs = {"A": [Proc("A", r, ra) for r in range(ra)], "B": [Proc("B", r, rb) for r in range(rb)]}
    sc.procs = procs["A"] + procs["B"]
    own = {"A": A, "B": B}
    for q in "AB":
        for p in procs[q]:
            p.add("new c.xml")
            own[q].define(p, rng)
            p.add("init")
    g = np.random.default_rng(rng.getrandbits(60))
    store, written = {}, {}

    def values(n, k, mesh, w, s):
        v = g.uniform(-2, 2, (len(mesh.P), k)) if not scaled else g.uniform(1, 3, (len(mesh.P), k))
        kind = rng.random()
        if kind < .15:
            v = np.tile(g.uniform(-2, 2, (1, k)), (len(mesh.P), 1))
        elif kind < .3:
            v = np.outer(mesh.P @ g.uniform(-1, 1, d) + g.uniform(-1, 1), np.arange(1, k + 1))
        written[n, w, s] = v
        return v

    def write(q, n, k, w, s):
        mesh = own[q]
        v = values(n, k, mesh, w, s)
        gr = None
        if method.gradient and n[0] == "F":
            gr = g.uniform(-1, 1, (len(mesh.P), k, d))      # component, direction
            written[n, w, s, "g"] = gr
        for p in procs[q]:
            org = mesh.parts[p.rank][0]
            vals = v[org].ravel()
            if n[0] == "G":
                # copies share the load
                vals = (v[org] / mesh.copies[org][:, None]).ravel()
            p.add("wd %s %s %s %d %s" % (mesh.name, n, mesh.ids(p.rank), len(vals), " ".join(map(num, vals))))
            if gr is not None:
                gv = gr[org].ravel()
                p.add("wg %s %s %s %d %s" % (mesh.name, n, mesh.ids(p.rank), len(gv), " ".join(map(num, gv))))

    def read(q, n, k, w, s, t):
        mesh = own[q]
        for p in procs[q]:
            m = len(mesh.parts[p.rank][0]) * k
            p.add("rd %s %s %s %s %d" % (mesh.name, n, mesh.ids(p.rank), num(t), m), recorder(store, (n, w, s, p.rank), m))

    for w in range(win):
        for s in range(ns):
            for n, k in data:
                write("A", n, k, w, s)
            for p in procs["A"]:
                p.add("adv %s" % num(1 / ns))
        for n, k in gdata:
            read("A", n, k, w, ns - 1, 0)
        for s in range(ns):
            for n, k in data:
                read("B", n, k, w, s, 1 / ns)
            for n, k in gdata:
                write("B", n, k, w, s)
            for p in procs["B"]:
                p.add("adv %s" % num(1 / ns))
    for p in sc.procs:
        p.add("on", eq(0))
        p.add("fin")

    def gather(q, n, k, w, s):
        """(values per origin, spread of the copies)"""
        mesh = own[q]
        res = np.zeros((len(mesh.P), k))
        first = np.full((len(mesh.P), k), np.nan)
        spread = 0.0
        for p in procs[q]:
            org = mesh.parts[p.rank][0]
            v = np.array(store[n, w, s, p.rank]).reshape(len(org), k)
            for i, x in zip(org, v):
                if n[0] == "G":
                    res[i] += x
                else:
                    if not np.isnan(first[i, 0]):
                        spread = max(spread, np.abs(first[i] - x).max())
                    first[i] = x
        return (res if n[0] == "G" else first), spread

    def post(_):
        probs = []
        for w in range(win):
            for n, k in data:
                for s in range(ns):
                    got, spread = gather("B", n, k, w, s)
                    probs += check_consistent(method, beh, S, T, elems, telems, d, scaled, written, (n, w, s), got)
            for n, k in gdata:
                got, _ = gather("A", n, k, w, ns - 1)
                probs += check_back(method, S, T, written[n, w, ns - 1], got, n)
            # both directions of the same operator
            if method.loose and back and not scaled:
                for (n, k), (m, l) in zip(data, gdata):
                    f, gg = written[n, w, ns - 1], written[m, w, ns - 1]
                    fo, _ = gather("B", n, k, w, ns - 1)
                    go, _ = gather("A", m, l, w, ns - 1)
                    a, b = float((f[:, 0] * go[:, 0]).sum()), float((fo[:, 0] * gg[:, 0]).sum())
                    sc_ = max(1.0, np.abs(f[:, 0]) @ np.abs(go[:, 0]))
                    if not abs(a - b) <= method.tol * 10 * sc_:
                        probs.append("%s: consistent and conservative mapping are not transposes: %.12g and %.12g" % (method.name, a, b))
        return probs[:3]

    sc.post = post
    sc.meshes, sc.written, sc.windows, sc.steps, sc.data = own, written, win, ns, data
    return sc


def check_consistent(me, beh, S, T, elems, telems, d, scaled, written, key, got):
    f = written[key]
    gr = written.get(key + ("g",))
    size = (d if scaled == "surface" else d + 1) if scaled else 0
    name = "%s, data %s, window %d, step %d" % (me.name + me.info, *key)
    mag = max(1.0, float(np.abs(f).max()))

    def value(j, row):
        v = sum(wt * f[i] for i, wt in row.items())
        if gr is not None:
            v = v + sum(wt * (gr[i] @ (T[j] - S[i])) for i, wt in row.items())
        return v
    if not np.all(np.isfinite(got)):
        return [name + ": values are not finite"]
    if me.M is not None:
        want = me.M @ f
        if me.axis is not None and f.shape[1] > 1:
            want[:, [k for k in range(f.shape[1]) if k != me.axis]] = 0     # only the component along the axis
        mag = max(mag, float(np.abs(want).max()))
        if scaled:
            return check_scaled(me, S, T, elems, telems, size, f, want, got, name)
        e = np.abs(got - want).max()
        return [] if e <= me.tol * mag else ["%s: off by %.3g (got %s, expected %s)" % (name, e, got.ravel()[:6], want.ravel()[:6])]
    if me.loose:
        probs = []
        c = np.ptp(f, axis=0) == 0
        if me.const and c.all() and np.abs(got - f[0]).max() > me.tol * mag:
            probs.append("%s: a constant is not reproduced: %s instead of %s" % (name, got.ravel()[:6], f[0]))
        for j in range(len(T)):
            for i in range(len(S)):
                if np.array_equal(S[i], T[j]) and np.abs(got[j] - f[i]).max() > me.tol * mag:
                    probs.append("%s: target %d coincides with source %d but gets %s instead of %s" % (name, j, i, got[j], f[i]))
        return probs
    if scaled:
        if any(len(r) > 1 for r in me.rows):
            want = None
        else:
            want = np.array([value(j, r[0]) for j, r in enumerate(me.rows)])
        return check_scaled(me, S, T, elems, telems, size, f, want, got, name)
    for j, cs in enumerate(me.rows):
        vs = [value(j, c) for c in cs]
        if not any(np.abs(got[j] - v).max() <= me.tol * max(mag, np.abs(v).max()) for v in vs):
            return ["%s: target %d has %s, expected %s" % (name, j, got[j], " or ".join(str(v) for v in vs[:4]))]
    return []


def check_scaled(me, S, T, elems, telems, size, f, want, got, name):
    a, b = integral(S, elems, size, f), integral(T, telems, size, got)
    big = integral(S, elems, size, np.abs(f)).max() + 1e-30
    if want is None:
        e = np.abs(a - b).max()
        return [] if e <= me.tol * 10 * big else ["%s: integral %s instead of %s" % (name, b, a)]
    w = integral(T, telems, size, want)
    if np.any(np.abs(w) <= .05 * integral(T, telems, size, np.abs(want))):
        return []
    want = want * (a / w)
    e = np.abs(got - want).max()
    return [] if e <= me.tol * 10 * max(1, np.abs(want).max()) else ["%s: scaled values off by %.3g (got %s, expected %s)" % (name, e, got.ravel()[:6], want.ravel()[:6])]


def check_back(me, S, T, gv, got, n):
    name = "%s, conservative data %s" % (me.name + me.info, n)
    mag = max(1.0, float(np.abs(gv).sum()))
    if me.name in ("radial", "axial"):
        want, ok = me.collect(gv)
        e = np.abs(got - want)[ok].max() if len(ok) else 0
        return [] if e <= me.tol * mag else ["%s collect: off by %.3g (got %s, expected %s)" % (me.name + me.info, e, got.ravel()[:6], want.ravel()[:6])]
    if not np.all(np.isfinite(got)):
        return [name + ": values are not finite"]
    if me.M is not None:
        want = (me.M if me.Mc is None else me.Mc).T @ gv
        mag = max(mag, np.abs(want).max())
        e = np.abs(got - want).max()
        return [] if e <= me.tol * mag else ["%s: off by %.3g (got %s, expected %s)" % (name, e, got.ravel()[:6], want.ravel()[:6])]
    probs = []
    if not me.loose or me.const:
        a, b = gv.sum(0), got.sum(0)
        if np.abs(a - b).max() > me.tol * mag:
            probs.append("%s: the sum is %s instead of %s" % (name, b, a))
    if me.loose:
        return probs
    want, open_ = np.zeros_like(got), set()
    for j, cs in enumerate(me.rows):
        if len(cs) > 1:
            open_ |= {i for c in cs for i in c}
            continue
        for i, wt in cs[0].items():
            want[i] += wt * gv[j]
    for i in range(len(S)):
        if i not in open_ and np.abs(got[i] - want[i]).max() > me.tol * mag:
            probs.append("%s: vertex %d has %s, expected %s" % (name, i, got[i], want[i]))
            break
    return probs


# --------------------------------------------------------------------------- choices

def simple_tag(kind):
    return lambda dr, f, t, c: '<mapping:%s direction="%s" from="%s" to="%s" constraint="%s"/>' % (kind, dr, f, t, c)


def projection(beh, rng):
    kind = {"nn": "nearest-neighbor", "np": "nearest-projection", "cell": "linear-cell-interpolation"}[beh["mode"]]
    if beh["mode"] == "nn" and rng.random() < .3:
        return Method("nearest-neighbor-gradient", simple_tag("nearest-neighbor-gradient"), rows_of(beh), gradient=True, experimental=True)
    return Method(kind, simple_tag(kind), rows_of(beh))


def project(beh, rng, opts=None):
    me = projection(beh, rng)
    o = dict(opts or {})
    if not o.get("noscaled"):
        sizes = {len(e) for e in beh["elems"]}
        size = beh["dim"] + (1 if beh["mode"] == "cell" else 0)
        if sizes and max(sizes) >= size and beh["telems"] and not me.gradient and rng.random() < .5:
            o["scaled"] = "volume" if beh["mode"] == "cell" else "surface"
    if beh["mode"] == "cell":
        # only the closest cells are considered
        import itertools
        k = beh["dim"] + 1
        if beh["shape"] != "grid" and sum(len(e) == k for e in beh["elems"]) > 4:
            raise Skip("cells")
    return scenario(beh, me, rng, o)


def rbf(beh, rng, opts=None):
    o = dict(opts or {})
    coords = transform(beh, rng, False)
    S, T = coords
    ext = max(np.ptp(S, axis=0).max(), np.ptp(T, axis=0).max(), 1e-3)
    solver = o.pop("solver", None) or rng.choice(["rbf-global-direct"] * 4 + ["rbf-pum-direct"] * 3 + ["rbf"])
    for _ in range(12):
        base = rng.choice(BASES)
        alias = solver == "rbf"
        poly = "separate" if alias else rng.choice(["off", "separate"] + (["on"] if solver in ("rbf-global-direct", "rbf-global-iterative") else []))
        if base in SPD and poly == "on":
            continue
        d = beh["dim"]
        if solver == "rbf-pum-direct" and base in ("thin-plate-splines", "volume-splines"):
            continue        # a cluster of one vertex has no solution
        dead = [False] * d
        if solver in ("rbf-global-direct", "rbf-global-iterative", "rbf") and rng.random() < .2 and not alias:
            dead[rng.randrange(d)] = True
        if base in ("thin-plate-splines", "volume-splines"):
            par, attr = None, ""
        elif base in ("multiquadrics", "inverse-multiquadrics"):
            par = ext * rng.choice([.05, .2, .5])
            attr = ' shape-parameter="%s"' % num(par)
        elif base == "gaussian":
            par = rng.choice([1, 2, 4]) / ext
            if rng.random() < .5:
                R = rng.choice([.5, 1, 2]) * ext
                par, attr = np.sqrt(-np.log(1e-9)) / R, ' support-radius="%s"' % num(R)
            else:
                attr = ' shape-parameter="%s"' % num(par)
        else:
            par = ext * rng.choice([.4, 1.1, 3.0])
            attr = ' support-radius="%s"' % num(par)
        try:
            M, Mc, cond = rbf_matrix(S, T, base, par, poly, dead, True) if solver == "rbf-global-iterative" else (None,) * 3
            if M is None:
                M, cond = rbf_matrix(S, T, base, par, poly, dead)
        except Skip:
            continue
        break
    else:
        raise Skip("rbf")
    extra = ""
    if not alias:
        extra += ' polynomial="%s"' % poly if poly != "separate" or rng.random() < .5 else ""
    for x, on in zip("xyz", dead):
        if on:
            extra += ' %s-dead="true"' % x
    loose = False
    if solver == "rbf-pum-direct":
        vpc = o.pop("vpc", None) or rng.choice([2, 3, 5, 20, 50])
        extra += ' vertices-per-cluster="%d" relative-overlap="%s" project-to-input="%s"' % (vpc, rng.choice(["0.1", "0.15", "0.3", "0.6"]), rng.choice(["true", "false"]))
        loose = len(S) >= 2 * vpc
    if solver == "rbf" and len(S) >= 100:
        loose = True
    if (o.get("ranks") or (1, 1)) != (1, 1) and solver in ("rbf-pum-direct", "rbf"):
        loose = True
    if solver == "rbf-global-iterative":
        extra += ' solver-rtol="1e-12"'
    tag = lambda dr, f, t, c: '<mapping:%s direction="%s" from="%s" to="%s" constraint="%s"%s><basis-function:%s%s/></mapping:%s>' % (solver, dr, f, t, c, extra, base, attr, solver)
    tol = max(1e-9, 1e-14 * cond)
    if solver == "rbf-global-iterative":
        tol = 1e-5
    me = Method(solver, tag, M=None if loose else M, tol=tol, loose=loose, const=poly == "separate", info="(%s %s)" % (base, poly))
    me.Mc = Mc
    size = d
    if beh["elems"] and beh["telems"] and max(len(e) for e in beh["elems"]) >= size and not loose and rng.random() < .3:
        o["scaled"] = "surface"
    o["coords"] = coords
    sc = scenario(beh, me, rng, o)
    inside = np.all(T >= S.min(0)) and np.all(T <= S.max(0)) and beh["shape"] == "grid"
    if "pum" in solver and not inside or alias and not inside:
        declines(sc, ["could not be assigned to any cluster", "Too many vertices have been filtered out"])
    return sc


def declines(sc, texts):
    """the library may say that the meshes do not match"""
    def judge(s):
        if any(t in s.logtext(p) or any(t in r[2] for r in s.results(p)) for p in s.procs for t in texts):
            s.declined = True
            return []
        s.judge = None
        try:
            return judge_lines(s)
        finally:
            s.judge = judge
    sc.judge = judge


def radial(beh, rng, opts=None):
    """1D vertices (the sources) along an axis, 3D vertices (the targets) around it"""
    S, T = np.array(beh["src"], float), np.array(beh["tgt"], float)
    ax = rng.randrange(3)
    roll = lambda P: np.roll(P, ax, axis=1)
    S, T = roll(S), roll(T)
    f = 2.0 ** rng.randint(-2, 2)
    sign = rng.choice([-1, 1])
    S, T = S * f * sign, T * f * sign
    rows = rows_of(beh)
    nS = len(S)
    tag = lambda kind: lambda dr, fm, to, c: '<mapping:radial-geometric-multiscale direction="%s" from="%s" to="%s" constraint="%s" multiscale-type="%s" multiscale-axis="%s" multiscale-radius="1.0"/>' % (dr, fm, to, c, kind, "xyz"[ax])
    me = Method("radial", tag("spread"), rows, experimental=True)
    me.back = tag("collect")
    groups = {i: [] for i in range(nS)}
    unsure = set()
    for j, cs in enumerate(rows):
        if len(cs) > 1:
            unsure |= {i for c in cs for i in c}
        else:
            groups[next(iter(cs[0]))].append(j)
    if not all(groups.values()):
        raise Skip("empty")         # no mean of nothing
    ok = [i for i in range(nS) if i not in unsure]

    def collect(gv):
        want = np.zeros((nS, gv.shape[1]))
        for i in ok:
            want[i] = gv[groups[i]].mean(0)
        return want, np.array(ok, int)
    me.collect = collect
    o = dict(opts or {}, coords=(S, T))
    o["wg"] = rng.choice("AB")
    o["where"] = (rng.choice("AB"), o["wg"])
    return scenario(beh, me, rng, o)


def axial(beh, rng, opts=None):
    """one vertex (or a line of vertices) the values of which are spread over a cross section; beh: nearest neighbors in 3D"""
    S, T = np.array(beh["src"], float), np.array(beh["tgt"], float)
    if beh["dim"] != 3 or beh["mode"] != "nn":
        raise Skip("dimension")
    f = 2.0 ** rng.randint(-2, 2)
    perm = rng.sample(range(3), 3)
    S, T = S[:, perm] * f, T[:, perm] * f
    nS = len(S)
    ax = rng.randrange(3)
    prof = rng.choice(["parabolic", "parabolic", "uniform"])
    cs = rng.choice(["circle", "square"])
    rows = rows_of(beh)
    if nS == 1:
        dim = rng.choice(["1d-3d", "1d-2d"])
        if dim == "1d-2d":
            cs = "circle"
        D = np.linalg.norm(T - S[0], axis=1)
        s1, s2 = [(S[0][(ax + k) % 3] - T[:, (ax + k) % 3]) for k in (1, 2)]
        R = max(D.max() if cs == "circle" else max(np.abs(s1).max(), np.abs(s2).max()), .25) * rng.choice([1 / 1.04, 1, 1.3])
        if prof == "uniform":
            wgt = np.ones(len(T))
        elif cs == "circle":
            wgt = (2.0 if dim == "1d-3d" else 1.5) * (1 - (D / R) ** 2)
        else:
            wgt = 2.096 * np.maximum(0, 1 - (s1 / R) ** 2) ** .879 * np.maximum(0, 1 - (s2 / R) ** 2) ** .879
        M = wgt[:, None]
        C = np.full((1, len(T)), 1 / len(T))
        ok = np.array([0])
    else:
        dim = "2d-3d"
        if any(len(r) > 1 for r in rows):
            raise Skip("tie")
        near = [next(iter(r[0])) for r in rows]
        D = np.array([np.linalg.norm(T[j] - S[i]) for j, i in enumerate(near)])
        span = np.ptp(S, axis=0)
        line = int(np.argmax(span))
        if sum(span == span.max()) > 1:
            line = list(span).index(span.max())
        lc = S[:, line]
        R = max(np.abs(lc).max(), D.max()) * rng.choice([1.1, 1.5, 2])
        M, C, ok = np.zeros((len(T), nS)), np.zeros((nS, len(T))), []
        for i in range(nS):
            js = [j for j in range(len(T)) if near[j] == i]
            if not js:
                continue
            ok.append(i)
            far = max(D[js])
            fac = 1.0
            if prof == "parabolic":
                fac = 9 / 8 if cs == "circle" else 1.03745 * max(0, 1 - (lc[i] / R) ** 2) ** .121
            for j in js:
                C[i, j] = fac / len(js)
                if prof == "uniform":
                    M[j, i] = 1
                elif cs == "circle":
                    M[j, i] = 4 / 3 * (1 - (D[j] / far if far else 0) ** 2)
                else:
                    M[j, i] = 2.096 / 1.5 * max(1e-12, 1 - (lc[i] / R) ** 2) ** (-.121) * max(0, 1 - (D[j] / R) ** 2) ** .879
        ok = np.array(ok, int)
    tag = lambda kind: lambda dr, fm, to, c: ('<mapping:axial-geometric-multiscale direction="%s" from="%s" to="%s" constraint="%s" multiscale-dimension="%s" multiscale-type="%s" '
                                              'multiscale-axis="%s" multiscale-radius="%s" multiscale-cross-section-profile="%s"%s/>'
                                              % (dr, fm, to, c, dim, kind, "xyz"[ax], num(R), prof, ' multiscale-cross-section="%s"' % cs if cs == "square" or rng.random() < .5 else ""))
    me = Method("axial", tag("spread"), M=M, experimental=True, info="(%s %s %s)" % (dim, prof, cs))
    me.axis = ax
    me.back = tag("collect")
    me.collect = lambda gv: (C @ gv, ok)
    o = dict(opts or {}, coords=(S, T), wg=rng.choice("AB"))
    o["where"] = (rng.choice("AB"), o["wg"])
    return scenario(beh, me, rng, o)
