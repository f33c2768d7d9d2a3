"""Binds behaviours of Access.tla: direct access to a received mesh and just-in-time mapping in coupled runs."""
import numpy as np

from .common import Proc, Scenario, eq, floats, must_fail
from .coupling import PROLOGUE, num
from .mapping import BASES, Skip, declines, rbf_matrix, recorder


def lucy(r, c):
    return np.where(r >= c, 0.0, 105 / (16 * np.pi * c ** 3) * (1 + 3 * r / c) * (1 - np.minimum(r, c) / c) ** 3)


def basis(P, d, rng):
    ext = max(np.ptp(P, axis=0).max(), 1.0)
    for _ in range(15):
        base = rng.choice([b for b in BASES if b not in ("thin-plate-splines", "volume-splines")])
        poly = rng.choice(["off", "separate", "separate"])
        if "multiquadrics" in base:
            par = ext * rng.choice([.05, .2, .5])
            attr = ' shape-parameter="%s"' % num(par)
        elif base == "gaussian":
            par = rng.choice([1, 2, 4]) / ext
            attr = ' shape-parameter="%s"' % num(par)
        else:
            par = ext * rng.choice([.4, .4, 1.1, 3.0])
            attr = ' support-radius="%s"' % num(par)
        try:
            _, cond = rbf_matrix(P, P, base, par, poly, [False] * d)
        except Skip:
            continue
        return base, par, poly, attr, max(1e-9, 1e-14 * cond)
    raise Skip("rbf")


def scenario(beh, rng, opts=None):
    o = dict(opts or {})
    d, jit, nr = beh["dim"], beh["jit"], len(beh["reg"])
    f = 2.0 ** rng.randint(-3, 3)
    off = [rng.randint(-5, 5) for _ in range(d)]
    perm = rng.sample(range(d), d)
    at = lambda p: [(p[perm[i]] + off[i]) * f for i in range(d)]
    P = np.array([at(p) for p in beh["verts"]])
    nv = len(P)
    nb = rng.choice([1, 1, 2, 3])
    own = [sorted(i for i in range(nv) if i % nb == r) for r in range(nb)]
    deal = rng.sample(range(nv), nv)
    own = [sorted(deal[i] for i in own[r]) for r in range(nb)]
    for l in own:
        rng.shuffle(l)
    vis = [[i - 1 for i in v] for v in beh["vis"]]
    FD = [("F", rng.choice([1, d]))]
    GD = [("G", rng.choice([1, d]))]
    if rng.random() < .4:
        FD.append(("F2", rng.choice([1, d])))
    if rng.random() < .4:
        GD.append(("G2", rng.choice([1, d])))
    dims = dict(FD + GD)
    total = len(beh["steps"])
    kinds = [k for k in ((1, 1), (2, 1), (3, 1), (1, 2), (3, 2)) if total % (k[0] * k[1]) == 0]
    na, its = rng.choice(kinds)
    wins = total // (na * its)
    nbs = rng.choice([1, 2, 3])
    kind = rng.choice(["serial-explicit", "parallel-explicit"]) if its == 1 else rng.choice(["serial-implicit", "parallel-implicit"])
    first, second = rng.sample("AB", 2)
    sub = {n: rng.random() < .5 for n in dims}
    kernelp, tol, support = None, 1e-9, 0.0
    if jit == "pum":
        kernelp = basis(P, d, rng)
        tol = kernelp[4]
    if jit == "cg":
        support = f * (rng.choice([.7, 1, 1.5, 2]) if beh["filter"] else rng.choice([.7, 1, 2, 3.5, 6]))
    # a local mesh next to the accessed one; without a region it is what the received mesh is restricted to
    local = beh["reg"] == [[]] or rng.random() < .25
    L = [PROLOGUE % ("true", '<profiling mode="off"/>')]
    for n in dims:
        L.append('<data:%s name="%s"%s/>' % ("scalar" if dims[n] == 1 else "vector", n, "" if rng.random() < .5 else ' waveform-degree="1"'))
    use = "".join('<use-data name="%s"/>' % n for n in dims)
    L.append('<mesh name="MB" dimensions="%d">%s</mesh>' % (d, use))
    if local:
        L.append('<mesh name="MA" dimensions="%d"><use-data name="F"/></mesh>' % d)
    L.append('<participant name="B"><provide-mesh name="MB"/>')
    L += ['<write-data name="%s" mesh="MB"/>' % n for n, _ in FD] + ['<read-data name="%s" mesh="MB"/>' % n for n, _ in GD]
    L += (["<intra-comm:sockets/>"] if nb > 1 else []) + ["</participant>"]
    flt = "" if beh["filter"] else ' geometric-filter="no-filter"'
    if beh["filter"] and rng.random() < .4:
        flt = ' geometric-filter="on-primary-rank"'
    if beh["filter"] and rng.random() < .4:
        flt += ' safety-factor="%s"' % rng.choice(["0", "0.1", "2"])
    L.append('<participant name="A">' + ('<provide-mesh name="MA"/>' if local else ""))
    L.append('<receive-mesh name="MB" from="B" api-access="true"%s/>' % flt)
    L += ['<read-data name="%s" mesh="MB"/>' % n for n, _ in FD] + ['<write-data name="%s" mesh="MB"/>' % n for n, _ in GD]
    tags = []
    if jit == "nn":
        tags = ['<mapping:nearest-neighbor direction="read" from="MB" constraint="consistent"/>', '<mapping:nearest-neighbor direction="write" to="MB" constraint="conservative"/>']
    elif jit == "cg":
        tags = ['<mapping:coarse-graining direction="write" to="MB" constraint="conservative" radius="%s"/>' % num(support)]
    elif jit == "pum":
        b = '<basis-function:%s%s/></mapping:rbf-pum-direct>' % (kernelp[0], kernelp[3])
        e = ' polynomial="%s" vertices-per-cluster="%d"' % (kernelp[2], rng.choice([nv // 2 + 1, 10, 50]))
        tags = ['<mapping:rbf-pum-direct direction="read" from="MB" constraint="consistent"%s>%s' % (e, b),
                '<mapping:rbf-pum-direct direction="write" to="MB" constraint="conservative"%s>%s' % (e, b)]
    if local:
        L.append('<read-data name="F" mesh="MA"/>')
        tags.append('<mapping:nearest-neighbor direction="read" from="MB" to="MA" constraint="consistent"/>')
    rng.shuffle(tags)
    L += tags + (["<intra-comm:sockets/>"] if nr > 1 else []) + ["</participant>"]
    L.append('<m2n:sockets acceptor="%s" connector="%s"%s/>' % (*rng.sample("AB", 2), rng.choice(["", "", ' enforce-gather-scatter="true"'])))
    L.append('<coupling-scheme:%s><participants first="%s" second="%s"/><time-window-size value="1.0"/><max-time-windows value="%d"/>' % (kind, first, second, wins))
    if its > 1:
        L.append('<max-iterations value="%d"/>' % its)
    L += ['<exchange data="%s" mesh="MB" from="B" to="A"%s/>' % (n, ' substeps="true"' if sub[n] else ' substeps="false"') for n, _ in FD]
    L += ['<exchange data="%s" mesh="MB" from="A" to="B"%s/>' % (n, ' substeps="true"' if sub[n] else ' substeps="false"') for n, _ in GD]
    L.append("</coupling-scheme:%s></precice-configuration>\n" % kind)
    sc = Scenario("\n".join(L), 20.0, info=dict(behaviour=beh))
    sc.soft = True
    A = [Proc("A", r, nr) for r in range(nr)]
    B = [Proc("B", r, nb) for r in range(nb)]
    sc.procs = A + B

    def bad(p, line):
        p.add("cont 1")
        p.add(line, illegal())
        p.add("cont 0")
    g = np.random.default_rng(rng.getrandbits(60))
    store, todo = {}, []
    # loose: the mapping only uses the vertices a rank sees, its exact values are a matter of the partition
    loose = jit == "pum" and nr > 1

    def cmd(p, X):
        return "%d %s" % (X.size, " ".join(num(x) for x in X.ravel()))

    def seen(r):
        def chk(state, pay):
            if state != "ok":
                return "failed: " + pay[:300]
            v = floats(pay)
            n = int(v[0])
            ids, c = v[1:1 + n], np.array(v[1 + n:]).reshape(n, d)
            if len(set(ids)) != n:
                return "vertex ids %s are not unique" % ids
            if nr == 1 and nb == 1 and sorted(ids) != sorted(own[0].index(i) for i in vis[r]):
                return "vertex ids %s" % ids
            if sorted(map(tuple, c.tolist())) != sorted(tuple(P[i]) for i in vis[r]):
                return "accessible vertices %s instead of %s" % (c.tolist(), [P[i].tolist() for i in vis[r]])
        return chk
    mine = [[rng.randrange(nv) for _ in range(rng.randint(0 if nr > 1 else 1, 3))] for _ in A]
    if not any(mine):       # a mesh without any vertex cannot be provided
        mine[0] = [0]
    X = P[mine[0]]
    if beh["reg"] == [[]]:      # a region comes from the local mesh, which has to have a volume
        X = P.min(0) + np.ptp(P, 0) * g.uniform(-.2, 1.2, (4, d)) + f * g.uniform(-1, 1, (4, d))
        mine = [[int(i) for i in ((X[:, None] - P[None]) ** 2).sum(-1).argmin(1)]]
    where = [X if r == 0 else P[mine[r]] for r in range(nr)]
    for p in A:
        p.add("new c.xml")
        if local and mine[p.rank]:
            p.add("mv MA %s %d" % (cmd(p, where[p.rank]), len(mine[p.rank])), eq(list(range(len(mine[p.rank])))))
        b = beh["reg"][p.rank]
        if b:
            lo, hi = at(b[0]), at(b[1])
            reg = [x for i in range(d) for x in (lo[i], hi[i])]
            p.add("reg MB %d %s" % (2 * d, " ".join(map(num, reg))))
            if rng.random() < .1:
                bad(p, "reg MB %d %s" % (2 * d, " ".join(map(num, reg))))
        p.add("init")
        p.add("acc MB", seen(p.rank))
        if rng.random() < .1:
            n = len(vis[p.rank])
            bad(p, "gid MB %d %d" % (n + 1, (n + 1) * d))
    for p in B:
        p.add("new c.xml")
        if own[p.rank]:
            p.add("mv MB %s %d" % (cmd(p, P[own[p.rank]]), len(own[p.rank])), eq(list(range(len(own[p.rank])))))
        p.add("init")
    ids = lambda n: "%d %s" % (n, " ".join(map(str, range(n))))
    # ---- values sent: (data, round, step) -> array; total of the contributions
    sent = {}
    rounds = [(w, k) for w in range(wins) for k in range(its)]
    for m, (w, k) in enumerate(rounds):
        for s in range(nbs):
            for n, q in FD:
                v = g.uniform(-2, 2, (nv, q))
                if loose:
                    v[:] = g.uniform(-2, 2, (1, q))
                sent[n, m, s] = v
    vals = {}
    for m, (w, k) in enumerate(rounds):
        for s in range(na):
            st = beh["steps"][m * na + s]
            for n, q in GD:
                tot = np.zeros((nv, q))
                V = {}
                for a in st["acts"]:
                    if a["op"] == "wd":
                        V[a["tag"]] = g.uniform(-2, 2, (nv, q))
                    elif a["op"] == "wj":
                        V[a["tag"]] = g.uniform(-2, 2, (len(a["xs"]), q))
                        if rng.random() < .1:   # cancelling loads
                            V[a["tag"]][:] = 0
                    vals[n, a.get("tag")] = V.get(a.get("tag"))
                direct = not any(a["op"] == "wj" for a in st["acts"])
                if jit in ("none", "nn") or direct:
                    for i, cs in enumerate(st["total"]):
                        for r, t, e in cs:
                            tot[i] += V[t][e - 1]
                else:
                    for a in st["acts"]:
                        if a["op"] != "wj":
                            continue
                        if loose and not vis[a["r"] - 1]:
                            continue
                        X = np.array([at(x) for x in a["xs"]])
                        if jit == "cg":
                            M = lucy(np.sqrt(((X[:, None] - P[None]) ** 2).sum(-1)), support)
                        elif loose:
                            M = np.full((len(X), nv), 1.0 / nv)     # only the sum counts
                        else:
                            M, _ = rbf_matrix(P, X, *kernelp[:3], [False] * d)
                        tot += M.T @ V[a["tag"]]
                sent[n, m, s] = tot
                # only the sum of the loads is known
                sent[n, m, s, "sum"] = loose and not direct

    def value(n, m, s, u):
        """what the receiver of n reads in step s of round m at time u within the window; list of (round, step, weight)"""
        frm = "B" if n[0] == "F" else "A"
        ns = nbs if frm == "B" else na
        if kind.startswith("parallel") or frm == second:
            src = m - 1
            if src < 0:
                return []
            w, k = rounds[m]
            if k == 0:
                return [(src, ns - 1, 1.0)]
        else:
            src = m
        w = rounds[src][0]
        pts = [(0.0, None)] + ([((j + 1) / ns, j) for j in range(ns)] if sub[n] else [(1.0, ns - 1)])
        # the value at the beginning of the window is the last of the window before
        prev = [(w * its - 1, ns - 1)] if w > 0 else []
        for (t0, a), (t1, b) in zip(pts, pts[1:]):
            if u <= t1 + 1e-12:
                x = (u - t0) / (t1 - t0)
                l = [(src, b, x)] if x > 1e-12 else []
                if x < 1 - 1e-12:
                    l += [(src, a, 1 - x)] if a is not None else [(*c, 1 - x) for c in prev]
                return l
        raise AssertionError

    def combine(n, l):
        return sum((wt * sent[n, a, b] for a, b, wt in l), np.zeros((nv, dims[n])))

    def sums(n, l):
        return any(sent.get((n, a, b, "sum")) for a, b, _ in l)
    for m, (w, k) in enumerate(rounds):
        done = m == len(rounds) - 1
        for s in range(na):
            st = beh["steps"][m * na + s]
            if s == 0 and its > 1:
                for p in A:
                    p.add("rc" if k else "wc", eq(1))
            for a in st["acts"]:
                r = a["r"] - 1
                p = A[r]
                if jit == "pum" and not vis[r] and a["op"] in ("wj", "rj", "bad") and nr > 1:
                    continue
                if a["op"] in ("wd", "rd"):
                    X = P[[i - 1 for i in a["vs"]]]
                elif a["op"] == "bad":
                    X = np.array([at(a["x"])])
                    n, q = (GD if a["w"] else FD)[0]
                    if a["w"]:
                        bad(p, "wm MB %s %s %d %s" % (n, cmd(p, X), q, " ".join("1" for _ in range(q))))
                    else:
                        bad(p, "rm MB %s %s 0 %d" % (n, cmd(p, X), q))
                    continue
                else:
                    X = np.array([at(x) for x in a["xs"]])
                if a["op"] in ("wd", "wj"):
                    for n, q in GD:
                        v = vals[n, a["tag"]]
                        v = v[[i - 1 for i in a["vs"]]] if a["op"] == "wd" else v
                        if a["op"] == "wd" and len(X) > 1 and rng.random() < .3:
                            c = rng.randint(1, len(X) - 1)
                            cut = [(X[:c], v[:c]), (X[c:], v[c:])]
                        elif a["op"] == "wj" and len(X) > 1 and rng.random() < .3:
                            cut = [(X[:1], v[:1]), (X[1:], v[1:])]
                        else:
                            cut = [(X, v)]
                        for x, y in cut:
                            p.add("%s MB %s %s %s" % ("wdx" if a["op"] == "wd" else "wm", n, cmd(p, x), cmd(p, y)))
                else:
                    u0 = s / na
                    u = u0 + (1 - u0) * rng.choice([0, 0.25, 0.5, 0.5, 1])
                    for n, q in FD:
                        e = combine(n, value(n, m, s, u))
                        if a["op"] == "rd":
                            e = e[[i - 1 for i in a["vs"]]]
                        elif jit == "nn":
                            e = e[[i - 1 for i in a["near"]]]
                        elif loose:
                            if kernelp[2] != "separate":
                                continue
                            e = e[:1].repeat(len(X), 0)
                        else:
                            M, _ = rbf_matrix(P, X, *kernelp[:3], [False] * d)
                            e = M @ e
                        p.add("%s MB %s %s %s %d" % ("rdx" if a["op"] == "rd" else "rm", n, cmd(p, X), num(u - u0), e.size), expect(e, tol))
            for p in A:
                if local and mine[p.rank]:
                    u = rng.choice([s / na, 1.0])
                    e = combine("F", value("F", m, s, u))[mine[p.rank]]
                    p.add("rd MA F %s %s %d" % (ids(len(mine[p.rank])), num(u - s / na), e.size), expect(e, 1e-9))
                p.add("adv %s" % num(1 / na))
        for s in range(nbs):
            u0 = s / nbs
            if s == 0 and its > 1:
                for p in B:
                    p.add("rc" if k else "wc", eq(1))
            for n, q in GD:
                u = u0 + (1 - u0) * rng.choice([0, 0.25, 0.5, 0.5, 1])
                for p in B:
                    ks = own[p.rank]
                    p.add("rd MB %s %s %s %d" % (n, ids(len(ks)), num(u - u0), len(ks) * q), recorder(store, (n, m, s, p.rank), len(ks) * q))
                todo.append((n, q, m, s, u))
            for n, q in FD:
                for p in B:
                    v = sent[n, m, s][own[p.rank]]
                    p.add("wd MB %s %s %s" % (n, ids(len(own[p.rank])), cmd(p, v)))
            for p in B:
                p.add("adv %s" % num(1 / nbs))
    for p in sc.procs:
        p.add("on", eq(0))
        p.add("fin")

    def post(_):
        for n, q, m, s, u in todo:
            got = np.zeros((nv, q))
            for p in B:
                ks = own[p.rank]
                got[ks] = np.array(store[n, m, s, p.rank]).reshape(len(ks), q)
            l = value(n, m, s, u)
            e = combine(n, l)
            t = tol * (1 + np.abs(e).max() + sum(np.abs(sent[n, a, b]).max() for a, b, _ in l))
            if sums(n, l):
                if kernelp[2] == "separate" and np.abs(got.sum(0) - e.sum(0)).max() > t * nv:
                    return ["round %d step %d at %s: sum of %s is %s instead of %s" % (m, s, u, n, got.sum(0), e.sum(0))]
            elif np.abs(got - e).max() > t:
                i = np.abs(got - e).max(1).argmax()
                return ["round %d step %d at %s: %s at vertex %s is %s instead of %s" % (m, s, u, n, P[i].tolist(), got[i], e[i])]
        return []
    sc.post = post
    if jit == "pum":
        declines(sc, ["could not be assigned to any cluster"])
    return sc


def illegal():
    def chk(state, pay):
        return must_fail(state, pay)
    chk.illegal = True
    return chk


def expect(e, tol):
    e = e.ravel().tolist()

    def chk(state, pay):
        if state != "ok":
            return "failed: " + pay[:300]
        v = floats(pay)
        if len(v) != len(e):
            return "%d values, expected %d" % (len(v), len(e))
        t = tol * (2 + max(map(abs, e)))
        for a, b in zip(v, e):
            if not abs(a - b) <= t:
                return "read %s, expected %s" % (v[:6], e[:6])
    return chk
