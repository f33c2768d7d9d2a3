"""Binds behaviours of Coupling.tla to the real library: configuration, scripts and comparison."""
import math

import numpy as np

from . import bspline
from .common import Proc, Scenario, eq, near, tail

INF = 1000000
UNITS = [1.0, 1.0, 0.5, 0.25, 0.1, 0.2, 0.01, 0.3]
PROLOGUE = """<?xml version="1.0" encoding="UTF-8" ?>
<precice-configuration experimental="%s">
<log><sink type="stream" output="stdout" filter="%%Severity%% >= error" format="%%Severity%% %%Message%%" /></log>
%s
"""


def num(x):
    return repr(float(x))


class Plan:
    """Concrete choices that the specification leaves open."""

    def __init__(self, beh, rng, opts=None):
        o = dict(variants=("read", "write", "both", "direct"), ranks=(1,), backend="cpp", units=UNITS, dims=(2, 3), maxv=6, gs=True,
                 profiling='<profiling mode="off"/>', vector=True)
        o.update(opts or {})
        self.o, self.beh, self.rng = o, beh, rng
        cfg = beh["cfg"]
        self.cfg, self.parts, self.ex, self.sch = cfg, cfg["parts"], cfg["ex"], cfg["sch"]
        self.unit = rng.choice(o["units"])
        self.scale = rng.choice([1.0, 0.25, 1.0 / 3072, 1.0 / 3072])
        self.dim = rng.choice(o["dims"])
        self.nv = rng.randint(o.get("minv", 1), o["maxv"])
        # classes are only meaningful if some vertex has them; every class gets one as soon as there are two
        self.coords = [o["shape"](c, self.dim) if "shape" in o else [c * 1.0] + [0.5 * ((c * 7) % 5) for _ in range(self.dim - 1)]
                       for c in range(self.nv)]
        # participants use one mesh, or one for writing and one for reading
        self.split = rng.random() < .3 if o.get("split") is None else o["split"]
        self.order = {m: rng.sample(range(self.nv), self.nv) for p in self.parts for m in self.meshes(p)}
        self.size = {p: rng.choice(o["ranks"]) for p in self.parts}
        self.owner = {}
        for p in self.parts:
            if o.get("spread", True):
                self.owner[p] = [rng.randrange(self.size[p]) for _ in range(self.nv)]
            else:
                self.owner[p] = [0] * self.nv
            if self.size[p] > 1 and not o.get("empty", True):
                for r in range(min(self.size[p], self.nv)):
                    self.owner[p][r] = r
        self.names = sorted({e["d"] for e in self.ex})
        self.vec = {d: rng.random() < 0.5 and o["vector"] for d in self.names}
        self.wgt = {d: [[1 + ((c * 2 + j + k) % 3) for j in range(self.dim if self.vec[d] else 1)] for c in range(self.nv)]
                    for k, d in enumerate(self.names)}
        for d in self.names:      # values that cancel each other are values like any other
            if rng.random() < .35:
                for cl in (0, 1):
                    at = [(c, j) for c in range(cl, self.nv, 2) for j in range(len(self.wgt[d][c]))]
                    k = len(at) - 3 if len(at) % 2 and len(at) > 1 else len(at) - len(at) % 2
                    for n, (c, j) in enumerate(at):
                        m = 1 + (n // 2) % 3
                        self.wgt[d][c][j] = (m if n % 2 == 0 else -m) if n < k else (1, 1, -2)[n - k]
        self.K = {d: math.sqrt(sum(x * x for v in self.wgt[d] for x in v)) for d in self.names}
        self.deg = {e["d"]: e["deg"] for e in self.ex}
        # how an ordered pair of participants maps
        self.var = {}
        for e in self.ex:
            k = (e["from"], e["to"])
            if k in self.var:
                continue
            group = [x for x in self.ex if (x["from"], x["to"]) == k]
            anyinit = self.init_sent(k)
            c = ["read", "write"]
            if "direct" in o["variants"] and not anyinit and self.size[k[0]] == 1 and self.size[k[1]] == 1:
                c += ["wdirect", "rdirect"]
            c = [x for x in c if x in o.get("only", c)]
            self.var[k] = rng.choice(c)
        for (a, b), v in list(self.var.items()):
            if v == "rdirect" and self.var.get((b, a)) == "write" and any(
                    x["init"] for x in self.ex if (x["from"], x["to"]) == (b, a)):
                self.var[(b, a)] = "read"
        # data shared by several receivers would otherwise be written on several meshes: fine, but keep one write-mapping at most
        self.mesh = {}
        for i, e in enumerate(self.ex):
            v = self.var[(e["from"], e["to"])]
            self.mesh[i] = self.pm(e["from"]) if v in ("read", "rdirect") else self.pin(e["to"])

    def pm(self, p):
        return p + "-Mesh"

    def pin(self, p):
        return p + "-In" if self.split else p + "-Mesh"

    def meshes(self, p):
        return [self.pm(p)] + ([self.pin(p)] if self.split else [])

    def init_writable(self, e):
        p = e["from"]
        return all(any(y["init"] for y in self.ex if y["from"] == p and y["s"] == x["s"] and y["to"] == x["to"])
                   for x in self.ex if x["from"] == p and x["d"] == e["d"])

    def init_sent(self, k):
        return any(y["init"] for y in self.ex if (y["from"], y["to"]) == k)

    # -- hooks of extensions
    def extend(self, use, wr, rd):
        """Changes what meshes use and participants write and read, returns further data tags."""
        return []

    def base(self, d):
        """The data of the specification that written data d belongs to."""
        return d

    def elements(self, mesh, verts):
        """Lines that define the connectivity of a mesh."""
        return []

    def verts(self, mesh, p, rank):
        """Vertices that a rank defines in the beginning."""
        return [c for c in self.order[mesh] if self.owner[p][c] == rank]

    def mapping_tag(self, p, direction, a, b):
        cons = "consistent"     # the meshes coincide: both constraints give the same, parallel ones have to write conservatively
        if direction == "write" and (self.size[p] > 1 or self.rng.random() < .3):
            cons = "conservative"
        return '<mapping:nearest-neighbor direction="%s" from="%s" to="%s" constraint="%s"/>' % (direction, a, b, cons)

    def begin(self, p, rank):
        pass

    def redefine(self, p, rank, x, pr, meshes, wd):
        """Redefinition of meshes, a step of RemeshGen only."""

    def returned(self, p, rank, x, pr):
        """After an initialize or advance."""

    def more_reads(self, p, ins):
        """Further reads: (mesh, data, expected values of the vertices)."""
        return []

    # -- configuration
    def xml(self):
        o, r = self.o, self.rng
        x = [PROLOGUE % (o.get("experimental", "false"), o["profiling"](self.rng) if callable(o["profiling"]) else o["profiling"])]
        for d in self.names:
            x.append('<data:%s name="%s"%s/>' % ("vector" if self.vec[d] else "scalar", d,
                                                 "" if self.deg[d] == 1 and r.random() < .5 else ' waveform-degree="%d"' % self.deg[d]))
        names = [m for p in self.parts for m in self.meshes(p)]
        use = {m: set() for m in names}
        part = {p: ['<provide-mesh name="%s"/>' % m for m in self.meshes(p)] for p in self.parts}
        recv = {p: {} for p in self.parts}
        wr = {p: [] for p in self.parts}
        rd = {p: [] for p in self.parts}
        mp = {p: [] for p in self.parts}

        def add(lst, v):
            if v not in lst:
                lst.append(v)
        for i, e in enumerate(self.ex):
            a, b, d = e["from"], e["to"], e["d"]
            v = self.var[(a, b)]
            om, im = self.pm(a), self.pin(b)
            if v == "read":
                recv[b].setdefault((om, a), False)
                add(wr[a], (d, om))
                add(rd[b], (d, im))
                use[om].add(d)
                use[im].add(d)
                add(mp[b], ("read", om, im))
            elif v == "write":
                recv[a].setdefault((im, b), False)
                add(wr[a], (d, om))
                add(rd[b], (d, im))
                use[om].add(d)
                use[im].add(d)
                add(mp[a], ("write", om, im))
            elif v == "rdirect":
                recv[b][(om, a)] = True
                use[om].add(d)
                add(wr[a], (d, om))
                add(rd[b], (d, om))
            else:
                recv[a][(im, b)] = True
                use[im].add(d)
                add(wr[a], (d, im))
                add(rd[b], (d, im))
        self.use = use
        x += self.extend(use, wr, rd)
        for m in names:
            x.append('<mesh name="%s" dimensions="%d">%s</mesh>' % (m, self.dim, "".join('<use-data name="%s"/>' % d for d in sorted(use[m]))))
        for p in self.parts:
            l = part[p]
            for (m, q), acc in recv[p].items():
                f = ' geometric-filter="%s"' % r.choice(["no-filter", "on-primary-rank", "on-secondary-ranks"] if o["filters"] is True else o["filters"]) if o.get("filters") else ""
                l.append('<receive-mesh name="%s" from="%s"%s%s/>' % (m, q, ' api-access="true"' if acc else "", f))
            l += ['<write-data name="%s" mesh="%s"/>' % z for z in wr[p]]
            l += ['<read-data name="%s" mesh="%s"/>' % z for z in rd[p]]
            l += [self.mapping_tag(p, *z) for z in mp[p]]
            if self.size[p] > 1:
                l.append("<intra-comm:sockets/>")
            l += o.get("inpart", {}).get(p, [])
            x.append('<participant name="%s">\n%s\n</participant>' % (p, "\n".join(l)))
        self.written, self.reads = wr, rd
        pairs = []
        for s in self.sch:
            ms = [s["b"]] + (s["oth"] if s["kind"] == "MI" else [s["a"]])
            for q in ms[1:]:
                add(pairs, frozenset((ms[0], q)))
        for e in self.ex:
            add(pairs, frozenset((e["from"], e["to"])))
        self.pairs = pairs
        self.received = {p: list((m, acc) for (m, q), acc in recv[p].items()) for p in self.parts}
        for z in pairs:
            a, b = r.sample(sorted(z), 2)
            at = ""
            if o["gs"] and r.random() < .3:
                at += ' enforce-gather-scatter="true"'
            x.append('<m2n:sockets acceptor="%s" connector="%s"%s%s/>' % (a, b, at, o.get("m2n", "")))
        for k, s in enumerate(self.sch):
            x += self.scheme_xml(k + 1, s)
        x.append("</precice-configuration>\n")
        return "\n".join(x)

    def scheme_xml(self, k, s):
        kind = {"SE": "serial-explicit", "PE": "parallel-explicit", "SI": "serial-implicit", "PI": "parallel-implicit", "MI": "multi"}[s["kind"]]
        x = ["<coupling-scheme:%s>" % kind]
        if s["kind"] == "MI":
            for p in [q for q in self.parts if q in s["oth"] or q == s["b"]]:
                x.append('<participant name="%s"%s/>' % (p, ' control="true"' if p == s["b"] else ""))
        else:
            x.append('<participants first="%s" second="%s"/>' % (s["a"], s["b"]))
        if s["meth"] == "first":
            x.append('<time-window-size method="first-participant"/>')
        else:
            x.append('<time-window-size value="%s"/>' % num(s["size"] * self.unit))
        if s["maxT"]:
            x.append('<max-time value="%s"/>' % num(s["maxT"] * self.unit))
        if s["maxW"]:
            x.append('<max-time-windows value="%d"/>' % s["maxW"])
        for i, e in enumerate(self.ex):
            if e["s"] == k:
                x.append('<exchange data="%s" mesh="%s" from="%s" to="%s"%s substeps="%s"/>' % (
                    e["d"], self.mesh[i], e["from"], e["to"], ' initialize="true"' if e["init"] else "", "true" if e["sub"] else "false"))
        if s["kind"] in ("SI", "PI", "MI"):
            if s["maxI"]:
                x.append('<max-iterations value="%d"/>' % s["maxI"])
            if s["minI"] > 1:
                x.append('<min-iterations value="%d"/>' % s["minI"])
            for m in s["conv"]:
                i = m["i"] - 1
                d = self.ex[i]["d"]
                at = 'data="%s" mesh="%s"' % (d, self.mesh[i])
                if m["suffices"]:
                    at += ' suffices="true"'
                if m["strict"]:
                    at += ' strict="true"'
                ab = num(m["n"] / 2.0 * self.scale * self.K[d])
                x.append({"abs": '<absolute-convergence-measure %s limit="%s"/>' % (at, ab),
                          "rel": '<relative-convergence-measure %s limit="%s"/>' % (at, num(m["n"] / 1000.0)),
                          "res": '<residual-relative-convergence-measure %s limit="%s"/>' % (at, num(m["n"] / 1000.0)),
                          "aor": '<absolute-or-relative-convergence-measure %s abs-limit="%s" rel-limit="%s"/>' % (at, ab, num(m["d"] / 1000.0))}[m["type"]])
            if s["acc"]["ex"]:
                x.append('<acceleration:constant><relaxation value="%s"/></acceleration:constant>' % num(s["acc"]["on"] / s["acc"]["od"]))
        x.append("</coupling-scheme:%s>" % kind)
        return x

    # -- values
    def vals(self, d, ab, verts):
        w = self.wgt[d]
        return [ab[c % 2] * self.scale * x for c in verts for x in w[c]]

    def expected(self, e, v, verts):
        if v["k"] == "v":
            return self.vals(e["d"], (v["a"] / v["den"], v["b"] / v["den"]), verts)
        ts = [z["t"] for z in v["w"]]
        xs = [[z["v"][0], z["v"][1]] for z in v["w"]]
        r = bspline.interpolate(ts, xs, v["deg"], v["t"])
        return self.vals(e["d"], r, verts)


def wlist(cfg, p):
    seen, r = set(), []
    for i, e in enumerate(cfg["ex"]):
        if e["from"] == p and e["d"] not in seen:
            seen.add(e["d"])
            r.append(e["d"])
    return r


def scenario(beh, rng, opts=None, timeout=20.0):
    """Scenario of one behaviour."""
    plan = (opts or {}).get("plan", Plan)(beh, rng, opts)
    o = plan.o
    sc = Scenario(plan.xml(), timeout, info=beh)
    sc.plan = plan
    if beh.get("dead"):
        beh["dead"].start(plan)
    sc.soft = beh.get("soft", False)
    cfg = beh["cfg"]
    failed = {p for p in plan.parts if any(x["op"] == "err" or x.get("fatal") for x in beh["tr"][p])}
    if beh.get("solo"):
        plan.parts = plan.parts[:1]
    for p in plan.parts:
        for rank in range(plan.size[p]):
            be = o["backend"] if isinstance(o["backend"], str) else rng.choice(o["backend"])
            pr = Proc(p, rank, plan.size[p], be, rng.choice([0, 0, 0, 1, 3]) if o.get("delay") else 0)
            sc.procs.append(pr)
            script(plan, beh, p, rank, pr, rng, failed)
    return sc


def script(plan, beh, p, rank, pr, rng, failed):
    cfg, u = plan.cfg, plan.unit
    if beh.get("soft"):
        pr.add("cont 1")
    pr.add("new c.xml")
    tr = beh["tr"][p]
    meshes = {}
    # the definition of the meshes is a step of its own only in ApiGen
    extra = [x["c"] for x in tr if x["op"] == "call"]
    pre = 0
    if "solo" in beh:
        while pre < len(tr) and tr[pre]["op"] == "call":
            call(plan, p, pr, tr[pre], "N0", None, extra)
            pre += 1
        if pre == len(tr) or tr[pre]["op"] != "mesh":
            return
        pre += 1
    for mine in plan.meshes(p):
        verts = plan.verts(mine, p, rank)
        ids = list(range(len(verts)))
        meshes[mine] = verts
        xs = [t for c in verts for t in plan.coords[c]]
        if rng.random() < .5 or not verts:
            pr.add("mv %s %d %s %d" % (mine, len(xs), " ".join(map(num, xs)), len(verts)), eq(ids))
        else:
            for i, c in enumerate(verts):
                pr.add("mv1 %s %d %s" % (mine, plan.dim, " ".join(map(num, plan.coords[c]))), eq(i))
        for l in plan.elements(mine, verts):
            pr.add(l)
    plan.begin(p, rank)
    direct = [m for m in {m for _, m in plan.written[p] + plan.reads[p]} if m not in meshes]
    for m in sorted(direct):
        box = []
        for k in range(plan.dim):
            box += [-10.0, 50.0]
        pr.add("reg %s %d %s" % (m, 2 * plan.dim, " ".join(map(num, box))))
    wl = wlist(cfg, p)
    phase, last = "N1", None
    dead = beh.get("dead")
    peers_fail = bool(failed) and not dead
    if dead:
        tr = dead.prepare(plan, p, rank, tr)

    def write_ops(w, op):
        for d, ab in zip(wl, w):
            for dd, m in plan.written[p]:
                if plan.base(dd) != d:
                    continue
                if op == "init" and not any(e["d"] == d and e["from"] == p and plan.init_writable(e) for e in plan.ex):
                    continue
                if op == "init" and m not in meshes:
                    continue
                vs = meshes.get(m, plan.order[m])
                if not vs:
                    continue
                sel = list(enumerate(vs))
                if ab[0] == 0 and ab[1] == 0 and rng.random() < .4:
                    continue
                if ab[0] != ab[1] and 0 in ab:
                    sel = [(i, c) for i, c in sel if ab[c % 2] != 0]
                if not sel:
                    continue
                if rng.random() < .2:     # overwritten by what follows
                    wd(m, dd, sel, [7, -9])
                if rng.random() < .3:
                    rng.shuffle(sel)
                if rng.random() < .2 and len(sel) > 1:
                    k = rng.randrange(1, len(sel))
                    wd(m, dd, sel[:k], ab)
                    wd(m, dd, sel[k:], ab)
                else:
                    wd(m, dd, sel, ab)

    def wd(m, d, sel, ab):
        v = plan.vals(d, ab, [c for _, c in sel])
        pr.add("wd %s %s %d %s %d %s" % (m, d, len(sel), " ".join(str(i) for i, _ in sel), len(v), " ".join(map(num, v))))

    def soften(chk):
        # once a partner has failed a call may already report it
        if not peers_fail:
            return chk

        def c(state, pay):
            if state == "err":
                return None
            return chk(state, pay) if chk else (None if state == "ok" else "unexpected " + state + " " + pay[:200])
        return c

    for k, x in enumerate(tr):
        nxt = tr[k + 1]["op"] if k + 1 < len(tr) else ""
        if k < pre:
            continue
        if dead and x["op"] in ("die", "dead", "killed", "blocked"):
            peers_fail = dead.mark(plan, p, rank, pr, x["op"], last, nxt)
        elif x["op"] == "call":
            call(plan, p, pr, x, phase, last, extra, soften, forgets(tr, k))
        elif x["op"] == "reset":
            plan.redefine(p, rank, x, pr, meshes, wd)
        elif x["op"] == "init":
            phase = "R"
            pr.add("ri", eq(x["ri"]))
            write_ops(x["w"], "init")
            pr.add("init", (dead.must(p, rank, pr) if dead else fails) if nxt == "err" else soften(None))
            if dead and nxt == "err":
                dead.more(p, rank, pr)
            for m in sorted(direct):
                vs = plan.order[m]
                exp = [len(vs)] + list(range(len(vs))) + [t for c in vs for t in plan.coords[c]]
                pr.add("acc %s" % m, near(exp))
        elif x["op"] == "adv":
            write_ops(x["w"], "adv")
            dt = x["dt"] * u
            line = "adv " + num(dt)
            if last["dt"] == x["dt"] and not plan.sets_size(p) and rng.random() < .4:
                line = "advmax"
                pr.add(line, (dead.must(p, rank, pr) if dead else fails) if nxt == "err" else soften(near([dt], 1e-9, 1.0)))
            else:
                pr.add(line, (dead.must(p, rank, pr) if dead else fails) if nxt == "err" else soften(None))
            if dead and nxt == "err":
                dead.more(p, rank, pr)
        elif x["op"] == "ret":
            last = x["obs"]
            pr.add("on", eq(last["on"]))
            pr.add("cp", eq(last["cp"]))
            if last["dt"] < INF:
                pr.add("dt", near([last["dt"] * u], 1e-9, 1.0))
            if not forgets(tr, k):
                pr.add("rc", eq(last["rc"]))
                pr.add("wc", eq(last["wc"]))
            if not last["on"]:
                phase = "E"
            plan.returned(p, rank, x, pr)
        elif x["op"] == "read":
            ins = [e for e in plan.ex if e["to"] == p]
            todo = list(zip(ins, x["v"])) + plan.more_reads(p, list(zip(ins, x["v"])))
            if plan.o.get("shuffle_reads", True):
                rng.shuffle(todo)
            rel = x["rel"] * u
            for e, v in todo:
                if callable(v):
                    m = e["mesh"]
                elif v["k"] == "out":
                    continue
                else:
                    m = plan.mesh_read(e, p)
                vs = meshes.get(m, plan.order[m])
                sel = list(enumerate(vs))
                if not sel:
                    continue
                if rng.random() < .3:
                    rng.shuffle(sel)
                if rng.random() < .2:
                    sel = sel[:rng.randint(1, len(sel))]
                exp = v([c for _, c in sel]) if callable(v) else plan.expected(e, v, [c for _, c in sel])
                tol = 1e-9 if not callable(v) and v["k"] == "v" else 1e-7
                big = max([abs(t) for t in exp] + [plan.scale * 3072])
                pr.add("rd %s %s %d %s %s %d" % (m, e["d"], len(sel), " ".join(str(i) for i, _ in sel), num(rel), len(exp)),
                       near(exp, tol, big))
        elif x["op"] == "fin":
            pr.add("fin", anyway if peers_fail else None)
            phase = "F"
        elif x["op"] == "del":
            pr.add("del")
    if pr.backend != "cpp":       # C and Fortran: the process ends where C++ throws
        pr.expect = [ending(c) if c is fails or peers_fail else c for c in pr.expect]


def ending(chk):
    def c(state, pay):
        return chk(state, pay) if chk else (None if state == "ok" else "unexpected " + state + " " + pay[:200])
    c.aborts = True
    return c


def forgets(tr, k):
    """The duties of the checkpoint are not fulfilled before the next step."""
    for x in tr[k + 1:]:
        if x["op"] in ("adv", "err", "fin"):
            return False
        if x["op"] == "call" and x["c"] == "ckpt-forgot":
            return True
    return False


def rejected(state, pay):
    return None if state == "err" else "state %s %s, expected the call to be rejected" % (state, pay[:200])


rejected.illegal = True


def aborts(state, pay):
    """The C and Fortran interfaces report an error and end the process."""
    return "state %s %s, the process should have been ended" % (state, pay[:200])


aborts.aborts = True


def call(plan, p, pr, x, phase, last, extra, soften=lambda c: c, forgot=False):
    """A further API call of ApiGen."""
    c, u = x["c"], plan.unit
    own, inm = plan.pm(p), plan.pin(p)
    dim, nv = plan.dim, plan.nv
    dw = next((d for d, m in plan.written[p] if m == own), None)
    dr = next((d for d, m in plan.reads[p] if m == inm), None)
    if c.startswith("ckpt-") and forgot and c != "ckpt-forgot":
        return
    if c == "initdata" and "init-forgot" in extra:
        return
    recv = next((m for m, acc in plan.received[p] if not acc), None)
    ddw = (dim if plan.vec[dw] else 1) if dw else 0
    ddr = (dim if plan.vec[dr] else 1) if dr else 0
    dt = last["dt"] * u if last and last["dt"] < INF else 1.0
    pos = " ".join(["0.5"] * dim)
    zeros = lambda k: "%d %s" % (k, " ".join(["0.0"] * k))
    ids = lambda k: "%d %s" % (k, " ".join(map(str, range(k))))
    some = 1
    wd = lambda m, d, i, v: None if not m or not d else "wd %s %s %s %s" % (m, d, i, v)
    rd = lambda m, d, i, t, n: None if not m or not d else "rd %s %s %s %s %d" % (m, d, i, num(t), n)
    size = 0 if phase == "N0" else nv
    ri = any(y["from"] == p and y["init"] for y in plan.ex)
    # data known on another mesh of the participant only
    here = {d for d in plan.use[own]}
    od = next((d for m, acc in plan.received[p] for d in sorted(plan.use[m]) if d not in here), None)
    L = {
        "ddims-other-mesh": (od and "ddim %s %s" % (own, od),), "grad-other-mesh": (od and "rgrad %s %s" % (own, od),),
        "write-other-mesh": (wd(own, od, "0", "0"),), "read-other-mesh": (rd(own, od, "0", 0, 0),),
        "dims": ("mdim " + own, [dim]), "ddims-w": (dw and "ddim %s %s" % (own, dw), [ddw]), "ddims-r": (dr and "ddim %s %s" % (inm, dr), [ddr]),
        "conn": ("rconn " + own, [0]), "grad": (dw and "rgrad %s %s" % (own, dw), [0]), "size": ("msz " + own, [size]),
        "dims-recv": (recv and "mdim " + recv, [dim]), "size-recv": (recv and "msz " + recv, [nv]),
        "open": ("sp s%d" % plan.rng.randrange(3),), "close": ("ep",),
        "on": ("on", [last and last["on"]]), "complete": ("cp", [last and last["cp"]]), "dt": ("dt", None),
        "ckpt-w": ("wc", [last and last["wc"]]), "ckpt-r": ("rc", [last and last["rc"]]), "initdata": ("ri", [ri]),
        "vertex-bad-dims": ("mv1 %s %d %s 0.5" % (own, dim + 1, pos),), "vertices-bad-count": ("mv %s %d %s 2" % (own, dim, pos),),
        "vertex-recv": (recv and "mv1 %s %d %s" % (recv, dim, pos),), "vertex-unknown": ("mv1 Nope %d %s" % (dim, pos),),
        "vertex-none": ("mv %s 0 0" % own, []),
        "region-own": ("reg %s %s" % (own, zeros(2 * dim)),), "region-recv": (recv and "reg %s %s" % (recv, zeros(2 * dim)),),
        "region-unknown": ("reg Nope %s" % zeros(2 * dim),), "ids-own": ("gid %s %d %d" % (own, size, size * dim),),
        "ids-unknown": ("gid Nope 0 0",), "reset": ("rst " + own,), "dims-unknown": ("mdim Nope",),
        "ddims-unknown-mesh": (dw and "ddim Nope " + dw,), "ddims-unknown-data": ("ddim %s Nope" % own,), "conn-unknown": ("rconn Nope",),
        "grad-unknown": ("rgrad %s Nope" % own,), "grad-unknown-mesh": (dw and "rgrad Nope %s" % dw,), "size-unknown": ("msz Nope",), "section-slash": ("sp a/b",),
        "edge-ok": (nv > 1 and "edge %s 0 1" % own, []), "tri-ok": (nv > 2 and "tri %s 0 1 2" % own, []),
        "edge-bad-id": ("edge %s 0 %d" % (own, nv),), "tri-repeat": ("tri %s 0 0 1" % own,), "tri-bad-id": ("tri %s 0 1 -1" % own,),
        "edges-odd": ("edges %s 3 0 1 0" % own,), "quad-repeat": ("quad %s 0 1 1 0" % own,), "tet-bad-id": ("tet %s 0 1 2 %d" % (own, nv),),
        "write-zero": (wd(own, dw, ids(some), zeros(some * ddw)), []), "write-none": (wd(own, dw, "0", "0"), []),
        "write-unknown-mesh": (wd("Nope", dw, "0", "0"),), "write-unknown-data": (wd(own, "Nope", "0", "0"),),
        "write-readdata": (wd(inm, dr, ids(1), zeros(ddr)),), "write-recv": (wd(recv, dw, ids(1), zeros(ddw)),),
        "write-count": (wd(own, dw, ids(1), zeros(ddw + 1)),), "write-id": (wd(own, dw, "1 %d" % nv, zeros(ddw)),),
        "write-negative-id": (wd(own, dw, "1 -1", zeros(ddw)),),
        "read-now": (rd(inm, dr, ids(1), 0, ddr), None), "read-unknown-mesh": (rd("Nope", dr, "0", 0, 0),),
        "read-unknown-data": (rd(inm, "Nope", "0", 0, 0),), "read-writedata": (rd(own, dw, ids(1), 0, ddw),),
        "read-recv": (rd(recv, dr, ids(1), 0, ddr),), "read-count": (rd(inm, dr, ids(1), 0, ddr + 1),),
        "read-id": (rd(inm, dr, "1 %d" % nv, 0, ddr),), "read-late": (rd(inm, dr, ids(1), dt * 1.5 + (0 if last and last["on"] else 1), ddr),),
        "read-negative": (rd(inm, dr, ids(1), -0.5 * u, ddr),),
        "gradient": (dw and "wg %s %s %s %s" % (own, dw, ids(1), zeros(ddw * dim)),),
        "mapread": (dr and "rm %s %s %d %s 0.0 %d" % (inm, dr, dim, pos, ddr),), "mapwrite": (dw and "wm %s %s %d %s %s" % (own, dw, dim, pos, zeros(ddw)),),
        "adv-zero": ("adv 0.0",), "adv-negative": ("adv " + num(-u),), "adv-nan": ("adv nan",), "adv-inf": ("adv inf",),
        "adv-long": ("adv " + num(dt * 1.25),), "init": ("init",), "adv": ("adv " + num(u),), "fin": ("fin",),
        "init-forgot": ("init",), "ckpt-forgot": ("adv " + num(dt),), "init-open": ("init",), "adv-open": ("adv " + num(dt),),
    }[c]
    if not L[0]:
        return
    if x["ok"]:
        exp = L[1] if len(L) > 1 else None
        if c == "read-now" or c == "dt":
            exp = None
        chk = soften(None if exp is None else eq([int(v) for v in exp]))
        if c == "dt" and last["dt"] < INF:
            chk = soften(near([last["dt"] * u], 1e-9, 1.0))
        elif c in ("read-now", "dt"):
            chk = soften(lambda state, pay: None if state == "ok" else "%s %s" % (state, pay[:200]))
        pr.add(L[0], chk)
    elif pr.backend == "cpp":
        pr.add(L[0], fails if x["fatal"] else rejected)
    else:
        pr.add(L[0], aborts)


def fails(state, pay):
    return None if state == "err" else "state %s, an error was expected" % state


def anyway(state, pay):
    return None if state in ("ok", "err") else state + " " + pay[:200]


def _mesh_read(self, e, p):
    v = self.var[(e["from"], e["to"])]
    return self.pm(e["from"]) if v == "rdirect" else self.pin(p)


Plan.mesh_read = _mesh_read


def judge(s):
    """Line by line comparison; tolerates the termination of peers of a failed participant."""
    from .common import judge_lines
    return judge_lines(s)


def _sets_size(self, p):
    # the first participant dictates the window size: repeated iterations have to use exactly the same step
    return any(s["meth"] == "first" and s["a"] == p for s in self.sch)


Plan.sets_size = _sets_size


# --------------------------------------------------------------------------- checks

GEN = dict(Record=True, Cap=0, Topos={"bi"}, BiKinds={"SE", "PE", "SI", "PI"}, MaxWin=3, MaxIt=3, Sizes={1, 2, 3},
           Degs={0, 1, 2}, NData={0, 1, 2}, InitP={True, False}, SubP={True, False}, AccP={True, False},
           FirstP={False, True}, ConvTypes={"abs", "rel", "res", "aor"}, NConv={0, 1, 2}, NReads=2, Scale=3072,
           Partial=True, Share=False, SharedSubs=False)
MC = dict(Record=False, Cap=0, Topo="bi", KindSets={"SE", "PE", "SI", "PI"}, MaxWin=2, MaxIt=2, MinIt=1, Size=2, Cut=1,
          X={0, 1}, Init0={True, False}, Sub0={True, False}, Meth={"fixed"}, DtAny=True, HasConv=True, NoDie=True, Reduce=True)
INVS = ["StepInv", "TogetherInv", "EndInv", "Drained", "CheckpointInv", "IterInv", "AgreeInv", "SeenInv"]


def mc(name, invs=INVS, props=(), workers=2, timeout=700, **consts):
    """Exhaustive run of CouplingMC."""
    return name, dict(module="CouplingMC", consts=dict(MC, **consts), spec="FairSpec" if props else "MSpec", invs=invs,
                      props=props, workers=workers, timeout=timeout, deadlock=True, heap="6g")


def describe(b):
    c = b["cfg"]
    return {"schemes": ["%s %s-%s size %d%s W%d T%d" % (s["kind"], s["a"] or "".join(s["oth"]), s["b"], s["size"],
                                                        "" if s["meth"] == "fixed" else " first", s["maxW"], s["maxT"]) for s in c["sch"]],
            "data": ["%s %s->%s%s%s deg%d" % (e["d"], e["from"], e["to"], " init" if e["init"] else "", " substeps" if e["sub"] else "", e["deg"])
                     for e in c["ex"]],
            "calls": {p: [x["op"] for x in t] for p, t in b["tr"].items()}}


def conformance(c, sims, mcs=(), extra=lambda: [], chunk=480, module="CouplingGen", spec="GSpec", gen=GEN):
    """sims: list of (number of behaviours, constants, scenario options)."""
    from .common import Background, SEED, InfraError, Sim, build, log, rng
    bg = Background(list(mcs), 3)
    runs = []
    for k, (n, consts, opts) in enumerate(sims):
        parts = max(1, min(4, n // 40))
        runs.append((Sim(module, [(dict(gen, **consts), -(-n // parts), SEED * 1000 + 17 * k + j) for j in range(parts)], spec=spec), consts, opts, k))
    runner = build()
    scs = []
    for sim, consts, opts, k in runs:
        behs, states = sim.collect()
        c.states += states
        for i, b in enumerate(behs):
            if "stuck" in b:
                if "tri" not in dict(gen, **consts)["Topos"] or len(b["cfg"]["sch"]) != 3:
                    raise InfraError("the specification deadlocks: %s" % b)
                c.count("compositions that cannot proceed")
                continue
            for s in b["cfg"]["sch"]:
                c.count("scheme " + s["kind"])
            scs.append(scenario(b, rng(c.pid, k, i), opts))
            c.sample(describe(b)) if i < 2 else None
    log("%d behaviours" % len(scs))
    if not scs:
        raise InfraError("no behaviours")
    c.replay(list(extra()) + scs, runner, chunk)
    bg.collect(c)
    return ["behaviours are sampled by TLC simulation (seeded), the exhaustive part is bounded as given in the notes",
            "values are exact multiples of a unit; comparison up to rounding (1e-9 relative, 1e-7 for splines)"]
