"""Acceleration: behaviours of spec/Accel.tla with an independent reference of the arithmetic."""
import numpy as np
from .common import Proc, Scenario, eq, near
from .coupling import num


class Skip(Exception):
    """The random values are too badly conditioned to be compared."""


BP = .4


class Weights:
    """Preconditioner weights per primary data."""

    def __init__(self, kind, freeze, threshold, names, scaling):
        self.kind, self.freeze, self.threshold = kind, freeze, threshold
        self.w = {n: (1.0 / scaling[n] if kind == "constant" else 1.0) for n in names}
        self.names = names
        self.n, self.frozen, self.first = 0, False, True
        self.sum = {n: 0.0 for n in names}
        self.prev = {n: 0.0 for n in names}

    def update(self, complete, values, res):
        if self.frozen:
            return
        if complete:
            self.n += 1
            if 0 < self.freeze <= self.n:
                self.frozen = True
        if complete and self.kind != "value":
            if self.kind == "residual-sum":
                self.first, self.sum = False, {n: 0.0 for n in self.names}
            return
        nrm = lambda d: {n: float(np.linalg.norm(d[n])) for n in self.names}
        if self.kind == "value":
            if not complete and not self.first:
                return
            for n, x in nrm(values).items():
                if x > 1e-6:
                    self.w[n] = 1 / x
                elif x > 1e-16:
                    raise Skip("tiny")
            self.first = False
        elif self.kind == "residual":
            for n, x in nrm(res).items():
                if x > 1e-6:
                    self.w[n] = 1 / x
                elif x > 1e-16:
                    raise Skip("tiny")
        elif self.kind == "residual-sum":
            x = nrm(res)
            tot = np.sqrt(sum(v * v for v in x.values()))
            if tot < 1e-6:
                raise Skip("tiny")
            for n in self.names:
                self.sum[n] += x[n] / tot
                if self.sum[n] < 1e-6:
                    raise Skip("tiny")
            reset = self.first or not self.threshold
            if not reset:
                for n in self.names:
                    f = self.prev[n] / self.sum[n]
                    if .09 < f < .11 or 9 < f < 11:
                        raise Skip("threshold")
                    if f > 10 or f < .1:
                        reset = True
            if reset:
                for n in self.names:
                    self.w[n] = 1 / self.sum[n]
                    self.prev[n] = self.sum[n]


class Reference:
    """x: values of all data of an iteration, {name: array [stamps][n]}"""

    def __init__(self, o):
        self.o = o
        self.r, self.x, self.rp = {}, {}, {}      # by (window, iteration)
        self.J, self.Jnew, self.stale, self.chunks = None, None, None, 0
        self.wt = Weights(o["prec"], o["freeze"], o["threshold"], o["primary"], o["scaling"])
        self.omega = o["relax"]
        self.old = None

    def primary(self, x):
        return {n: (x[n][-1:] if self.o["reduced"] else x[n]).reshape(-1) for n in self.o["primary"]}

    def flat(self, d):
        return np.concatenate([d[n] for n in self.o["primary"]])

    def full(self, x):
        return np.concatenate([x[n].reshape(-1) for n in self.o["acc"]])

    def unfull(self, v):
        res, k = {}, 0
        for n in self.o["acc"]:
            s = self.o["shape"][n]
            m = s[0] * s[1]
            res[n] = v[k:k + m].reshape(s)
            k += m
        return res

    def remember(self, e, new, prev):
        key = (e["w"], e["it"])
        diff = {n: new[n] - prev[n] for n in new}
        self.r[key] = self.flat(self.primary(diff))
        self.x[key] = self.full(new)
        return diff

    def solve(self, cols, e):
        """least squares coefficients operator: returns V, W and the weights"""
        V = np.array([self.r[(w, k)] - self.r[(w, k - 1)] for w, k in cols]).T
        W = np.array([self.x[(w, k)] - self.x[(w, k - 1)] for w, k in cols]).T
        P = np.concatenate([np.full(self.o["psize"][n], self.wt.w[n]) for n in self.o["primary"]])
        if V.shape[1] >= V.shape[0]:
            raise Skip("square")
        A = P[:, None] * V
        q, r = np.linalg.qr(A)
        ratio = np.abs(np.diag(r)) / np.linalg.norm(A, axis=0)
        ratio2 = np.abs(np.diag(r)) / np.linalg.norm(r)
        # the same in the opposite order: filters start at either end
        q3, r3 = np.linalg.qr(A[:, ::-1])
        ratio3 = np.abs(np.diag(r3)) / np.linalg.norm(A[:, ::-1], axis=0)
        ratio4 = np.abs(np.diag(r3)) / np.linalg.norm(r3)
        low = min(ratio.min(), ratio2.min(), ratio3.min(), ratio4.min())
        if low < (3 * self.o["limit"] if self.o["limit"] > 1e-10 else 1e-3):
            raise Skip("filter")
        return V, W, P, np.linalg.pinv(A, rcond=1e-12)

    def update(self, W, V):
        """W~ of the multi-vector update; known finding A01-imvj: the one of the last window is used again"""
        return self.stale if self.o.get("reuse") and self.stale is not None else W - self.J @ V

    def step(self, e, new, prev):
        """the accelerated iterate"""
        o = self.o
        diff = self.remember(e, new, prev)
        if o["acctype"] == "relax":
            return {n: prev[n] + o["relax"] * diff[n] for n in new}
        if o["acctype"] == "aitken":
            end = {n: diff[n][-1] for n in o["primary"]}
            res = self.flat(end)
            if len(o["primary"]) > 1:
                self.wt.update(False, {n: new[n][-1] for n in o["primary"]}, end)
            if e["how"] == "first":
                self.omega = np.sign(self.omega) * min(o["relax"], abs(self.omega))
            else:
                P = np.ones(len(res))
                if len(o["primary"]) > 1:
                    P = np.concatenate([np.full(len(end[n]), self.wt.w[n]) for n in o["primary"]])
                d = P * (res - self.old)
                if np.linalg.norm(d) < 1e-3:
                    raise Skip("tiny")
                self.omega = -self.omega * float((P * self.old) @ d) / float(d @ d)
            self.old = res
            return {n: prev[n] + self.omega * diff[n] for n in new}
        if e["how"] == "relax":
            return {n: prev[n] + o["relax"] * diff[n] for n in new}
        key = (e["w"], e["it"])
        self.wt.update(False, self.primary(new), self.primary(diff))
        V, W, P, Z = self.solve(e["cols"], e)
        r = self.r[key]
        if o["acctype"] == "ils":
            up = -W @ (Z @ (P * r))
        else:
            if self.J is None:
                self.J = np.zeros((W.shape[0], V.shape[0]))
            J = self.J + self.update(W, V) @ (Z * P)
            self.stale = None
            up = -J @ r
            self.Jnew = J
        if not np.all(np.isfinite(up)) or np.abs(up).max() > 1e4:
            raise Skip("large")
        return self.bound(new, self.unfull(up))

    def bound(self, new, up):
        """the treatment of updates that violate the bounds of data"""
        res = {n: new[n] + up[n] for n in new}
        lo, hi, mode = self.o["lower"], self.o["upper"], self.o["onbound"]
        low = {n: np.maximum(lo[n] - res[n], 0) for n in lo}
        high = {n: np.maximum(res[n] - hi[n], 0) for n in lo}
        for n in lo:
            if np.any((np.abs(res[n] - lo[n]) < 1e-6) | (np.abs(res[n] - hi[n]) < 1e-6)):
                raise Skip("bound")
        if mode == "ignore" or not any(np.any(low[n] + high[n] > 0) for n in lo):
            return res
        self.o["violations"] = self.o.get("violations", 0) + 1
        if mode == "clamp":
            return {n: np.clip(res[n], lo[n], hi[n]) if n in lo else res[n] for n in res}
        if mode == "discard":
            return dict(new)
        f = max(float(np.max((low[n] + high[n]) / np.maximum(np.abs(up[n]), 1e-300))) for n in lo)
        return {n: res[n] - f * up[n] for n in res}

    def converged(self, e, new, prev):
        diff = self.remember(e, new, prev)
        if self.o["acctype"] == "aitken":
            if len(self.o["primary"]) > 1:
                self.wt.update(True, None, None)
            return
        if self.o.get("imvj") == "always":
            self.J, self.Jnew = self.Jnew if self.Jnew is not None else self.J, None
        elif self.o["acctype"] == "imvj" and e["cols"]:
            V, W, P, Z = self.solve(e["cols"], e)
            if self.J is None:
                self.J = np.zeros((W.shape[0], V.shape[0]))
            self.stale = self.update(W, V)
            self.J = self.J + self.stale @ (Z * P)
            self.chunks += 1
            if self.o["imvj"] == "RS-0" and self.chunks > self.o["chunk"]:
                self.chunks, self.J = 0, None
        self.wt.update(True, self.primary(new), self.primary(diff))


def options(beh, rng, o=None):
    """data, meshes and the details that the specification leaves open"""
    cfg = beh["cfg"]
    kind = cfg["kind"]
    links = {"SI": [("A", "B"), ("B", "A")], "PI": [("A", "B"), ("B", "A")], "MI": [("A", "B"), ("B", "A"), ("C", "B"), ("B", "C")]}[kind]
    ns = rng.choice([1, 1, 2, 3])
    ex = []
    for f, t in links:
        for k in range(2 if rng.random() < .3 else 1):
            ex.append(dict(name="D%d" % (len(ex) + 1), f=f, t=t, dim=rng.choice([1, 2]), sub=rng.random() < .7))
    rng.shuffle(ex)
    for k, e in enumerate(ex):
        e["name"] = "D%d" % (k + 1)
    nv = rng.randint(5, 9)
    acc = [e for e in ex if kind != "SI" or e["f"] == "B"]
    p = dict(kind=kind, ex=ex, nv=nv, ns=ns, acctype=cfg["acc"], names=[e["name"] for e in ex])
    p["acc"] = [e["name"] for e in acc]
    prim = [n for n in p["acc"] if rng.random() < .7]
    p["primary"] = prim or [rng.choice(p["acc"])]
    if cfg["acc"] == "relax":
        p["primary"] = p["acc"]
    p["reduced"] = True if ns == 1 else rng.random() < .6
    if not p["reduced"]:
        for e in ex:
            e["sub"] = True
    # samples of a data the accelerating participant knows in a window
    own = any(e["sub"] for e in ex if e["f"] == "B")
    p["shape"] = {e["name"]: (ns if e["sub"] or e["f"] == "B" and own else 1, nv * e["dim"]) for e in ex}
    dims = {e["name"]: e["dim"] for e in ex}
    p["dims"] = dims
    p["psize"] = {n: nv * dims[n] * (1 if p["reduced"] else p["shape"][n][0]) for n in p["primary"]}
    p["relax"] = rng.choice([.1, .25, .5, .8, 1.0])
    p["prec"] = rng.choice(["constant", "residual", "residual-sum", None] + (["value"] if cfg["acc"] not in ("aitken",) else []))
    p["xprec"] = p["prec"]
    p["threshold"] = rng.random() < .5
    p["freeze"] = rng.choice([-1, -1, 1, 2])
    p["scaling"] = {n: 1.0 for n in p["primary"]}
    if p["prec"] == "constant":
        p["scaling"] = {n: rng.choice([1.0, .5, 10.0]) for n in p["primary"]}
    if p["prec"] is None:
        p["prec"], p["threshold"], p["freeze"] = "residual-sum", True, -1
    if cfg["acc"] == "imvj":
        p["imvj"], p["chunk"] = rng.choice([(None, 8), ("always", 0), ("no-restart", 0), ("RS-0", rng.randint(1, 3)), ("RS-SVD", 8)])
    p["lower"], p["upper"], p["onbound"], p["bounds"] = {}, {}, "ignore", {}
    if cfg["acc"] in ("ils", "imvj") and rng.random() < BP:
        p["onbound"] = rng.choice(["ignore", "clamp", "discard", "scale"])
        for n in p["acc"]:
            if rng.random() < .6:
                d = dims[n]
                b = [(rng.choice([None, -3.1, -4.0]), rng.choice([None, 3.1, 4.0])) for _ in range(d)]
                p["bounds"][n] = b
                p["lower"][n] = np.tile([-np.inf if x is None else x for x, _ in b], nv)
                p["upper"][n] = np.tile([np.inf if x is None else x for _, x in b], nv)
    p["filter"] = rng.choice([None, "QR1", "QR1-absolute", "QR2", "QR3"])
    p["limit"] = 1e-2 if p["filter"] is None else 1e-16
    p.update(o or {})
    return p


def xml(beh, p):
    cfg = beh["cfg"]
    L = ['<?xml version="1.0" encoding="UTF-8" ?>', "<precice-configuration>",
         '<log><sink type="stream" output="stdout" filter="%Severity% >= error" format="%Severity% %Message%" /></log>', '<profiling mode="off"/>']
    for e in p["ex"]:
        b = "".join(' %s-bound%s="%s"' % (k, "" if e["dim"] == 1 else "-" + "xyz"[i], num(x))
                    for i, lu in enumerate(p["bounds"].get(e["name"], [])) for k, x in zip(("lower", "upper"), lu) if x is not None)
        L.append('<data:%s name="%s" waveform-degree="1"%s/>' % ("scalar" if e["dim"] == 1 else "vector", e["name"], b))
    parts = sorted({e["f"] for e in p["ex"]})
    for q in parts:
        L.append('<mesh name="%s-Mesh" dimensions="2">%s</mesh>' % (q, "".join('<use-data name="%s"/>' % e["name"] for e in p["ex"] if q in (e["f"], e["t"]))))
    for q in parts:
        L.append('<participant name="%s">' % q)
        L.append('<provide-mesh name="%s-Mesh"/>' % q)
        for s in sorted({e["f"] for e in p["ex"] if e["t"] == q}):
            L.append('<receive-mesh name="%s-Mesh" from="%s"/>' % (s, s))
            L.append('<mapping:nearest-neighbor direction="read" from="%s-Mesh" to="%s-Mesh" constraint="consistent"/>' % (s, q))
        for e in p["ex"]:
            if e["f"] == q:
                L.append('<write-data name="%s" mesh="%s-Mesh"/>' % (e["name"], q))
            if e["t"] == q:
                L.append('<read-data name="%s" mesh="%s-Mesh"/>' % (e["name"], q))
        if p["size"][q] > 1:
            L.append("<intra-comm:sockets/>")
        L.append("</participant>")
    L.append('<m2n:sockets acceptor="A" connector="B"/>')
    if "C" in parts:
        L.append('<m2n:sockets acceptor="B" connector="C"/>')
    tag = {"SI": "serial-implicit", "PI": "parallel-implicit", "MI": "multi"}[p["kind"]]
    L.append("<coupling-scheme:%s>" % tag)
    L += ['<participants first="A" second="B"/>'] if p["kind"] != "MI" else ['<participant name="A"/>', '<participant name="B" control="yes"/>', '<participant name="C"/>']
    L += ['<time-window-size value="1.0"/>', '<max-time-windows value="%d"/>' % cfg["win"]]
    for e in p["ex"]:
        L.append('<exchange data="%s" mesh="%s-Mesh" from="%s" to="%s" substeps="%s"/>' % (e["name"], e["f"], e["f"], e["t"], str(e["sub"]).lower()))
    c = p["measure"]
    L += ['<max-iterations value="%d"/>' % p["maxit"], '<absolute-convergence-measure data="%s" mesh="%s-Mesh" limit="0.05"/>' % (c["name"], c["f"])]
    name = {"ils": "IQN-ILS", "imvj": "IQN-IMVJ", "aitken": "aitken", "relax": "constant"}[p["acctype"]]
    L.append("<acceleration:%s%s%s%s>" % (name, ' on-bound-violation="%s"' % p["onbound"] if p["onbound"] != "ignore" else "", ' reduced-time-grid="%s"' % str(p["reduced"]).lower() if p["acctype"] in ("ils", "imvj") else "",
                                        ' always-build-jacobian="true"' if p.get("imvj") == "always" else ""))
    if p["acctype"] == "relax":
        L.append('<relaxation value="%s"/>' % num(p["relax"]))
    else:
        enforce = ' enforce="true"' if cfg["force"] and p["acctype"] != "aitken" else ""
        L.append('<initial-relaxation value="%s"%s/>' % (num(p["relax"]), enforce))
        if p["acctype"] in ("ils", "imvj"):
            L += ['<max-used-iterations value="%d"/>' % cfg["maxused"], '<time-windows-reused value="%d"/>' % cfg["reused"]]
            if p.get("imvj"):
                L.append('<imvj-restart-mode type="%s"%s/>' % (("no-restart", "") if p["imvj"] in ("always", "no-restart") else (p["imvj"], ' chunk-size="%d"' % p["chunk"])))
        for n in p["primary"]:
            e = next(e for e in p["ex"] if e["name"] == n)
            L.append('<data name="%s" mesh="%s-Mesh" scaling="%s"/>' % (n, e["f"], num(p["scaling"][n])))
        if p["acctype"] != "aitken" and p["filter"]:
            L.append('<filter type="%s" limit="1e-16"/>' % p["filter"])
        if p["xprec"]:
            thr = ' update-on-threshold="%s"' % str(p["threshold"]).lower()
            L.append('<preconditioner type="%s" freeze-after="%d"%s/>' % (p["xprec"], p["freeze"], thr))
    L.append("</acceleration:%s>" % name)
    L += ["</coupling-scheme:%s>" % tag, "</precice-configuration>", ""]
    return "\n".join(L)


def scenario(beh, rng, o=None):
    """May raise Skip."""
    p = options(beh, rng, o)
    cfg = beh["cfg"]
    p["measure"] = next(e for e in p["ex"] if e["f"] == "B") if p["kind"] == "SI" else rng.choice(p["ex"])
    p["maxit"] = max(max(beh["its"]) + rng.randint(0, 1), 2)
    ref = Reference(p)
    log = {(e["w"], e["it"]): e for e in beh["log"]}
    nv, ns = p["nv"], p["ns"]
    parts = sorted({e["f"] for e in p["ex"]})
    ranks = (o or {}).get("ranks", (1,))
    p["size"] = {q: rng.choice(ranks) for q in parts}
    # the vertices of the ranks; a rank may have none
    mine = {}
    for q in parts:
        where = [rng.randrange(p["size"][q]) for _ in range(nv)]
        mine[q] = [[k for k in range(nv) if where[k] == r] for r in range(p["size"][q])]
        if p["size"][q] > 1:
            for m in mine[q]:
                rng.shuffle(m)
    sc = Scenario(xml(beh, p), 20.0, info=dict(behaviour=beh))
    pr = {}
    for q in parts:
        pr[q] = [Proc(q, r, p["size"][q], "cpp", 0) for r in range(p["size"][q])]
        for r, ks in zip(pr[q], mine[q]):
            r.add("new c.xml")
            if ks or len(pr[q]) == 1:
                r.add("mv %s-Mesh %d %s %d" % (q, 2 * len(ks), " ".join("%d.0 0.0" % k for k in ks), len(ks)), eq(list(range(len(ks)))))
            r.add("init")
            r.add("wc", eq(1))
        sc.procs += pr[q]
    start = {n: np.zeros(nv * p["dims"][n]) for n in p["names"]}

    def every(q, line, chk=None):
        for r in pr[q]:
            r.add(line, chk)

    def part(q, r, n, v):
        """ids and values of a rank"""
        ks, d = mine[q][r], p["dims"][n]
        return "%d %s" % (len(ks), " ".join(map(str, range(len(ks))))), np.array(v).reshape(nv, d)[ks].ravel()

    def rd(q, n, t, v, tol):
        for r in range(len(pr[q])):
            i, x = part(q, r, n, v)
            pr[q][r].add("rd %s-Mesh %s %s %s %d" % (q, n, i, num(t), len(x)), near(list(x), tol, max(1.0, float(np.abs(v).max()))))

    def wd(q, n, v):
        for r in range(len(pr[q])):
            i, x = part(q, r, n, v)
            pr[q][r].add("wd %s-Mesh %s %s %d %s" % (q, n, i, len(x), " ".join(map(num, x))))
    g = np.random.default_rng(rng.getrandbits(60))
    for w in range(1, cfg["win"] + 1):
        prev = {n: np.tile(start[n], (p["shape"][n][0], 1)) for n in p["acc"]}
        for it in range(1, beh["its"][w - 1] + 1):
            e = log[(w, it)]
            conv = e["how"] == "converged"
            limit = conv and it == p["maxit"] and rng.random() < .5
            new = {}
            for x in p["ex"]:
                n, m = x["name"], nv * x["dim"]
                if conv and not limit and n in p["acc"]:
                    # the first samples are not measured
                    v = g.uniform(-3, 3, (ns, m))
                    s = prev[n] + 1e-3 * g.uniform(-1, 1, prev[n].shape)
                    v[ns - s.shape[0]:] = s
                    v[-1] = s[-1]
                else:
                    v = g.uniform(-3, 3, (ns, m))
                    if x is p["measure"] and n in p["acc"] and np.linalg.norm(v[-1] - prev[n][-1]) < .5:
                        raise Skip("converges")
                new[n] = v
            for q in parts:
                for k in range(ns):
                    for x in p["ex"]:
                        if x["f"] == q:
                            wd(q, x["name"], new[x["name"]][k])
                    every(q, "adv %s" % num(1.0 / ns) if k < ns - 1 else "advmax", None if k < ns - 1 else near([1.0 / ns]))
            seen = {n: new[n][ns - p["shape"][n][0]:] for n in p["acc"]}
            last = conv and w == cfg["win"]
            for q in parts:
                every(q, "rc", eq(0 if conv else 1))
                every(q, "wc", eq(1 if conv and not last else 0))
            if conv:
                ref.converged(e, seen, prev)
                start = {n: new[n][-1] for n in new}
                for x in p["ex"]:
                    if p["kind"] != "SI" or x["t"] == "A":
                        rd(x["t"], x["name"], 0, start[x["name"]], 1e-9)
            else:
                prev = ref.step(e, seen, prev)
                for x in p["ex"]:
                    n = x["name"]
                    if n not in p["acc"]:
                        continue
                    s = prev[n]
                    rd(x["t"], n, 1.0, s[-1], 1e-6)
                    if x["sub"]:
                        for k in range(ns - 1):
                            rd(x["t"], n, (k + 1) / ns, s[k], 1e-6)
    for q in parts:
        every(q, "on", eq(0))
        every(q, "fin")
    return sc


def scenarios(behs, rng, o=None):
    n = {"skipped": 0}
    res = []
    for k, b in enumerate(behs):
        for a in range(4):
            try:
                res.append(scenario(b, rng(k, a), o))
                break
            except Skip as e:
                n[str(e)] = n.get(str(e), 0) + 1
        else:
            n["skipped"] += 1
    return res, n
