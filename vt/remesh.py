"""Binds behaviours of RemeshGen.tla: participants redefine their meshes between windows."""
import math

from . import coupling
from .common import eq, near
from .coupling import Plan, num, rejected

KINDS = ["nearest-neighbor", "nearest-projection", "linear-cell-interpolation", "rbf-global-direct"]
RADIUS = 1e-3


class RemeshPlan(Plan):
    """All meshes consist of points of one pool; every definition of a mesh is a distribution of some points over the ranks."""

    def __init__(self, beh, rng, opts):
        self.POOL = rng.randint(4, 11)
        o = dict(experimental='true" allow-remeshing="true', only=["read", "write", "rdirect"], split=beh["cfg"]["rm"] == "two",
                 filters=["no-filter"], minv=self.POOL, maxv=self.POOL)
        o.update(opts or {})
        super().__init__(beh, rng, o)
        while True:
            pts = [[round(rng.uniform(0, 10), 3) for _ in range(self.dim)] for _ in range(self.POOL)]
            D = [[math.dist(x, y) for y in pts] for x in pts]
            flat = sorted(D[i][j] for i in range(self.POOL) for j in range(i))
            if flat[0] > 0.05 and all(b - a > 1e-4 for a, b in zip(flat, flat[1:])):
                break
        self.coords, self.D = pts, D
        for d in self.names:       # sums of values must not vanish
            self.wgt[d] = [[abs(x) for x in v] for v in self.wgt[d]]
        # every definition of every mesh: lists of points per rank, and the ranks that have redefined it
        self.defs, self.who = {}, {}
        count = {p: [0, 0] for p in self.parts}
        for p in self.parts:
            for x in beh["tr"][p]:
                if x["op"] == "reset" and x["ok"]:
                    for m in x["m"]:
                        count[p][m - 1] += 1
        for p in self.parts:
            for k, m in enumerate(self.meshes(p)):
                self.defs[m] = [self.spread(p, rng.sample(range(self.POOL), rng.randint(1, self.POOL)))]
                self.who[m] = [None]
                for _ in range(count[p][k]):
                    old = self.defs[m][-1]
                    ranks = [r for r in range(self.size[p]) if rng.random() < .7] or [rng.randrange(self.size[p])]
                    kept = [c for r in range(self.size[p]) if r not in ranks for c in old[r]]
                    free = [c for c in range(self.POOL) if c not in kept]
                    n = rng.randint(0 if kept else 1, len(free))
                    if rng.random() < .15:          # the same again
                        new = old
                    else:
                        new = self.spread(p, rng.sample(free, n), ranks)
                        for r in range(self.size[p]):
                            if r not in ranks:
                                new[r] = old[r]
                    self.defs[m].append(new)
                    self.who[m].append(ranks)
        self.mapkind = {}
        self.cons = {}

    def spread(self, p, pts, ranks=None):
        ranks = ranks or list(range(self.size[p]))
        res = [[] for _ in range(self.size[p])]
        for c in pts:
            res[self.rng.choice(ranks)].append(c)
        return res

    def mapping_tag(self, p, direction, a, b):
        cons = "consistent"
        if direction == "write" and (self.size[p] > 1 or self.rng.random() < .5):
            cons = "conservative"
        measured = {m["i"] - 1 for s in self.sch for m in s["conv"]}
        # the measured values must not vanish when they are mapped
        lost = direction == "write" and any(self.mesh[i] == b and self.pm(self.ex[i]["from"]) == a for i in measured)
        kind = self.rng.choice(KINDS[:3] if lost or self.size[p] > 1 else KINDS)
        self.mapkind[(a, b)], self.cons[(a, b)] = kind, cons
        at = 'direction="%s" from="%s" to="%s" constraint="%s"' % (direction, a, b, cons)
        if kind.startswith("rbf"):
            return '<mapping:%s %s polynomial="off"><basis-function:compact-polynomial-c2 support-radius="%s"/></mapping:%s>' % (kind, at, num(RADIUS), kind)
        return "<mapping:%s %s/>" % (kind, at)

    # -- state while a script is written
    def slot(self, m):
        return 1 if self.split and m.endswith("-In") else 0

    def begin(self, p, rank):
        self.gen = {m: 0 for m in self.defs}
        self.order = {m: [c for l in self.defs[m][0] for c in l] for m in self.defs}

    def verts(self, mesh, p, rank):
        return list(self.defs[mesh][0][rank])

    def redefine(self, p, rank, x, pr, meshes, wd):
        r = self.rng
        for k in x["m"]:
            m = self.meshes(p)[k - 1]
            if not x["ok"]:
                if self.size[p] == 1 and pr.backend == "cpp":
                    pr.add("cont 1")
                    pr.add("rst " + m, rejected)
                    pr.add("cont 0")
                continue
            g = self.gen[m] + 1
            self.gen[m] = g
            if rank not in self.who[m][g]:
                continue
            old, new = meshes[m], list(self.defs[m][g][rank])
            if r.random() < .3 and old:      # written to the old mesh
                for d, mm in self.written[p]:
                    if mm == m:
                        wd(m, d, list(enumerate(old)), [7, 9])
            pr.add("rst " + m)
            pr.add("msz " + m, eq([0]))
            if r.random() < .3 and pr.backend == "cpp":
                n = 1 if old else 0
                for d, mm in self.reads[p]:
                    if mm == m and n:
                        pr.add("cont 1")
                        pr.add("rd %s %s 1 0 0.0 %d" % (m, d, self.dim if self.vec[d] else 1), rejected)
                        pr.add("cont 0")
            if r.random() < .2:              # a definition that is discarded as well
                xs = [t for c in old for t in self.coords[c]]
                pr.add("mv %s %d %s %d" % (m, len(xs), " ".join(map(num, xs)), len(old)), eq(list(range(len(old)))))
                pr.add("rst " + m)
            if r.random() < .5:
                xs = [t for c in new for t in self.coords[c]]
                pr.add("mv %s %d %s %d" % (m, len(xs), " ".join(map(num, xs)), len(new)), eq(list(range(len(new)))))
            else:
                for i, c in enumerate(new):
                    pr.add("mv1 %s %d %s" % (m, self.dim, " ".join(map(num, self.coords[c]))), eq(i))
            pr.add("msz " + m, eq([len(new)]))
            meshes[m] = new

    def returned(self, p, rank, x, pr):
        # what the partner's meshes look like now
        for q in self.parts:
            if q != p:
                for k, m in enumerate(self.meshes(q)):
                    if self.gen[m] == x["pg"][k]:
                        continue
                    self.gen[m] = x["pg"][k]
                    self.order[m] = [c for l in self.defs[m][self.gen[m]] for c in l]
                    if (m, True) in self.received[p]:
                        vs = self.order[m]
                        pr.add("acc %s" % m, near([len(vs)] + list(range(len(vs))) + [t for c in vs for t in self.coords[c]]))

    # -- values
    def at(self, m):
        return [c for l in self.defs[m][self.gen[m]] for c in l]

    def nearest(self, c, cand):
        return min(cand, key=lambda x: self.D[c][x])

    def expected(self, e, v, verts):
        a, b, d = e["from"], e["to"], e["d"]
        var = self.var[(a, b)]
        if var == "rdirect":
            return super().expected(e, v, verts)
        om, im = self.pm(a), self.pin(b)
        src, dst = self.at(om), self.at(im)
        n = self.dim if self.vec[d] else 1
        kind, cons = self.mapkind[(om, im)], self.cons[(om, im)]
        rows = {c: [] for c in dst}
        if kind.startswith("rbf"):
            for c in dst:
                rows[c] = [c] if c in src else []
        elif cons == "consistent":
            for c in dst:
                rows[c] = [self.nearest(c, src)]
        else:
            for c in src:
                rows[self.nearest(c, dst)].append(c)
        vals = super().expected(e, v, src)
        val = {c: vals[i * n:(i + 1) * n] for i, c in enumerate(src)}
        return [sum(val[x][j] for x in rows[c]) for c in verts for j in range(n)]


class Files:
    """The files of a run: logs of iterations, watch points on serial participants, exported meshes."""

    def __init__(self, beh, rng):
        self.beh, self.rng = beh, rng
        self.points, self.exports = {}, {}

    def inpart(self, plan):
        r, res = self.rng, {}
        for p in plan.parts:
            l = []
            if plan.size[p] == 1 and r.random() < .5:
                m = r.choice(plan.meshes(p))
                x = [r.uniform(0, 10) for _ in range(plan.dim)]
                self.points[p] = (m, x)
                l.append('<watch-point name="W" mesh="%s" coordinate="%s"/>' % (m, ";".join(map(num, x))))
            if r.random() < .4:
                self.exports[p] = True
                l.append('<export:csv directory="out"/>')
            res[p] = l
        return res

    def seek(self, p, pos):
        """sets the plan to the meshes participant p knows at position pos of its trace"""
        plan, tr = self.plan, self.beh["tr"][p]
        plan.gen = {m: 0 for m in plan.defs}
        for x in tr[:pos + 1]:
            if x["op"] == "reset" and x["ok"]:
                for k in x["m"]:
                    plan.gen[plan.meshes(p)[k - 1]] += 1
        for q in plan.parts:
            if q != p:
                for k, m in enumerate(plan.meshes(q)):
                    plan.gen[m] = tr[pos]["pg"][k]
        plan.order = {m: plan.at(m) for m in plan.defs}

    def written(self, p, d, pos):
        hist, t = [], 0
        j = coupling.wlist(self.beh["cfg"], p).index(d)
        for x in self.beh["tr"][p][:pos + 1]:
            if x["op"] == "init":
                hist.append((0, x["w"][j]))
            elif x["op"] == "adv":
                hist.append((t + x["dt"], x["w"][j]))
            elif x["op"] == "ret":
                t = x["obs"]["t"]
                if x["obs"]["cp"] or x["obs"]["rc"]:
                    hist = [h for h in hist if h[0] <= t]
        return hist[-1][1]

    def value(self, p, m, d, pos, c, now):
        plan, x = self.plan, self.beh["tr"][p][pos]
        for i, e in enumerate(plan.ex):
            v = plan.var[(e["from"], e["to"])]
            if e["d"] == d and p == e["from"] and v == "write" and m == plan.pm(p) or e["d"] == d and p == e["from"] and v == "read" and m == plan.mesh[i]:
                return plan.vals(d, self.written(p, d, pos), [c])
            if e["d"] == d and p == e["to"] and v != "rdirect" and m == plan.pin(p):
                if now:
                    return None if x["now"][i]["k"] == "out" else plan.expected(e, x["now"][i], [c])
                a = x["last"][i]
                return plan.expected(e, dict(k="v", a=a[0], b=a[1], den=1), [c])
        return None

    def judge(self, sc):
        from .output import table, close, read_csv
        plan, out = self.plan, []
        s = plan.sch[0]
        for p in plan.parts:
            tr = self.beh["tr"][p]
            if any(x["op"] == "err" for t in self.beh["tr"].values() for x in t):
                return []
            rets = [i for i, x in enumerate(tr) if x["op"] == "ret"]
            try:
                if s["kind"] == "PI":
                    its = []
                    for a, b in zip(rets, rets[1:]):
                        y, z = tr[a]["its"][0], tr[b]["its"][0]
                        if y["tot"] != z["tot"]:
                            its.append((y["tw"], y["tot"], y["it"], y["tw"] != z["tw"]))
                    head, rows = table("%s/precice-%s-iterations.log" % (sc.dir, p))
                    if [tuple(map(int, r[:3])) for r in rows] != [x[:3] for x in its if x[3]]:
                        out.append("%s: iteration log has rows %s, expected %s" % (p, [r[:3] for r in rows], [x[:3] for x in its if x[3]]))
                    if p == s["b"]:
                        head, rows = table("%s/precice-%s-convergence.log" % (sc.dir, p))
                        if [tuple(map(int, r[:2])) for r in rows] != [(x[0], x[2]) for x in its]:
                            out.append("%s: convergence log has rows %s, expected %s" % (p, [r[:2] for r in rows], its))
                due = [rets[0]] + [i for i in rets[1:] if tr[i]["obs"]["cp"]]
                if p in self.points:
                    m, x = self.points[p]
                    head, rows = table("%s/precice-%s-watchpoint-W.log" % (sc.dir, p))
                    if len(rows) != len(due):
                        out.append("%s: watch point has %d rows, expected %d" % (p, len(rows), len(due)))
                    for r, pos in zip(rows, due):
                        self.seek(p, pos)
                        c = min(plan.at(m), key=lambda c: math.dist(x, plan.coords[c]))
                        want = [tr[pos]["obs"]["t"] * plan.unit] + list(plan.coords[c])
                        for d in sorted(plan.use[m]):
                            v = self.value(p, m, d, pos, c, True)
                            want += v if v is not None else [None] * (plan.dim if plan.vec[d] else 1)
                        if len(r) != len(want) or any(b is not None and not close(a, b, 1e-6) for a, b in zip(r, want)):
                            out.append("%s: row of the watch point on %s is %s, expected %s" % (p, m, r, want))
                            break
                if p in self.exports:
                    for k, pos in enumerate(due):
                        self.seek(p, pos)
                        for m in plan.meshes(p):
                            for rank in range(plan.size[p]):
                                idx = "dt%d" % k if k else "init"
                                f = "%s/out/%s-%s.%s%s.csv" % (sc.dir, m, p, "%d_" % rank if plan.size[p] > 1 else "", idx)
                                pts, data = read_csv(f)
                                vs = plan.defs[m][plan.gen[m]][rank]
                                if [list(x[:plan.dim]) for x in pts] != [list(plan.coords[c]) for c in vs]:
                                    out.append("%s: export %s has vertices %s, expected %s" % (p, idx, pts, [plan.coords[c] for c in vs]))
                                    continue
                                for d in plan.use[m]:
                                    n = plan.dim if plan.vec[d] else 1
                                    for c, h in zip(vs, data.get(d, [])):
                                        v = self.value(p, m, d, pos, c, False)
                                        if v is not None and any(not close(a, b, 2e-5) for a, b in zip(h, v)):
                                            out.append("%s: export %s of %s at vertex %d is %s, expected %s" % (p, idx, d, c, h, v))
                                            break
            except (OSError, ValueError, IndexError, KeyError) as err:
                out.append("%s: unreadable result file: %s: %s" % (p, type(err).__name__, err))
        return out


class FiledPlan(RemeshPlan):
    def extend(self, use, wr, rd):
        self.files = Files(self.beh, self.rng)
        self.o["inpart"] = self.files.inpart(self)
        return super().extend(use, wr, rd)


def scenario(beh, rng, opts=None):
    sc = coupling.scenario(beh, rng, dict(opts or {}, plan=FiledPlan))
    sc.plan.files.plan = sc.plan
    sc.post = sc.plan.files.judge
    return sc
