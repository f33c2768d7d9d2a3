"""Binds behaviours of ActGen.tla: data actions on coupled data."""
import math

from . import coupling
from .coupling import Plan, num

PYTHON = """
def performAction(time, %s):
    for i in range(len(target)):
        target[i] = %s
"""


def shape(c, dim):
    """No three vertices in a line."""
    return [1.0 * c, 0.25 * c * c, 0.5 * c][:dim]


class ActPlan(Plan):
    def __init__(self, beh, rng, opts):
        o = dict(opts or {}, shape=shape, minv=3)
        super().__init__(beh, rng, o)
        acts = beh["acts"]
        # what is summed up has one kind of time grid and one dimension
        self.group = {}
        for i, e in enumerate(self.ex):
            if acts[i]["sum"]:
                k = (e["from"], e["to"], e["s"], e["sub"], e["deg"], acts[i]["sum"])
                self.group.setdefault(k, []).append(i)
        for l in self.group.values():
            for i in l[1:]:
                self.vec[self.ex[i]["d"]] = self.vec[self.ex[l[0]]["d"]]
        for d in self.names:
            w = self.dim if self.vec[d] else 1
            if any(len(v) != w for v in self.wgt[d]):
                self.wgt[d] = [[1 + ((c * 2 + j) % 3) for j in range(w)] for c in range(self.nv)]
                self.K[d] = math.sqrt(sum(x * x for v in self.wgt[d] for x in v))
        # data that is summed up in several groups can only have one dimension
        self.group = {k: l for k, l in self.group.items() if len({self.vec[self.ex[i]["d"]] for i in l}) == 1}

    def extend(self, use, wr, rd):
        r, acts = self.rng, self.beh["acts"]
        self.inp = {p: [] for p in self.parts}
        self.scaled = set()                  # meshes whose areas are needed
        self.fw, self.fr = {}, {}            # (participant, mesh, data) -> exponent of the area
        self.base_of, self.share, self.sums = {}, {}, []
        several = any(n > 1 for n in self.size.values())
        extra = []

        def tag(p, kind, mesh, write, target, sources=()):
            return '<action:%s mesh="%s" timing="%s-mapping-post">%s<target-data name="%s"/></action:%s>' % (
                kind, mesh, "write" if write else "read", "".join('<source-data name="%s"/>' % s for s in sources), target, kind)

        def scalings(p, mesh, d, l, write, f):
            if several or (p, mesh, d) in f:
                return []
            f[(p, mesh, d)] = sum(1 if x == "mul" else -1 for x in l)
            if l:
                self.scaled.add(mesh)
            return [tag(p, "multiply-by-area" if x == "mul" else "divide-by-area", mesh, write, d) for x in l]

        # the writer's side: summands first, then scalings
        split = {}
        for i, e in enumerate(self.ex):
            split.setdefault((e["from"], e["d"]), acts[i]["split"])
        for (p, d), s in split.items():
            if not s:
                continue
            names = ["%s_%d" % (d, k + 1) for k in range(r.choice([1, 2, 2, 3]))]
            for n in names:
                self.base_of[n] = d
                extra.append('<data:%s name="%s" waveform-degree="%d"/>' % ("vector" if self.vec[d] else "scalar", n, self.deg[d]))
            parts = [[r.randint(-3, 3) for _ in range(self.nv)] for _ in names[1:]]
            self.share[d] = dict(zip(names, [None] + parts))
            for x, m in [z for z in wr[p] if z[0] == d]:
                wr[p].remove((x, m))
                wr[p] += [(n, m) for n in names]
                use[m] |= set(names)
            for m in {self.mesh[i] for i, e in enumerate(self.ex) if e["from"] == p and e["d"] == d}:
                use[m] |= set(names) | {d}
                self.inp[p].append(tag(p, "summation", m, True, d, r.sample(names, len(names))))
        for i, e in enumerate(self.ex):
            self.inp[e["from"]] += scalings(e["from"], self.mesh[i], e["d"], acts[i]["w"], True, self.fw)
        # the reader's side
        before, after, scale = {}, {}, {}
        for k, l in self.group.items():
            p = k[1]
            m = self.mesh_read(self.ex[l[0]], p)
            name = "T%d" % len(extra)
            d0 = self.ex[l[0]]["d"]
            extra.append('<data:%s name="%s" waveform-degree="%d"/>' % ("vector" if self.vec[d0] else "scalar", name, self.deg[d0]))
            use[m].add(name)
            rd[p].append((name, m))
            first = acts[l[0]]["order"] == "before"
            (before if first else after).setdefault(p, []).append(
                tag(p, "summation", m, False, name, [self.ex[i]["d"] for i in r.sample(l, len(l))]))
            self.sums.append((p, m, name, l, first))
        for i, e in enumerate(self.ex):
            p = e["to"]
            scale.setdefault(p, []).extend(scalings(p, self.mesh_read(e, p), e["d"], acts[i]["r"], False, self.fr))
        for p in self.parts:
            self.inp[p] += before.get(p, []) + scale.get(p, []) + after.get(p, [])
            w = [x for x in self.inp[p] if "write-" in x]
            q = [x for x in self.inp[p] if "read-" in x]
            self.inp[p] = w + q if r.random() < .5 else q + w
        self.o["inpart"] = self.inp
        # connectivity of the scaled meshes
        self.elems, self.area = {}, {}
        for m in sorted(self.scaled):
            n = self.nv
            l = r.sample(range(n), n)
            size = min(n, self.dim)
            el = [tuple(l[k:k + size]) for k in range(n - size + 1)]
            el += [tuple(r.sample(range(n), size)) for _ in range(r.choice([0, 0, 1]))]
            self.elems[m] = sorted(set(tuple(sorted(x)) for x in el))
            area = [0.0] * n
            for x in self.elems[m]:
                for c in x:
                    area[c] += measure([self.coords[y] for y in x]) / size
            self.area[m] = area
        return extra

    def base(self, d):
        return self.base_of.get(d, d)

    def elements(self, mesh, verts):
        if mesh not in self.elems:
            return []
        at = {c: i for i, c in enumerate(verts)}
        l = [[str(at[c]) for c in self.rng.sample(x, len(x))] for x in self.elems[mesh]]
        one, many = ("edge", "edges") if self.dim == 2 else ("tri", "tris")
        if self.rng.random() < .5:
            return ["%s %s %s" % (one, mesh, " ".join(x)) for x in l]
        return ["%s %s %d %s" % (many, mesh, sum(len(x) for x in l), " ".join(" ".join(x) for x in l))]

    def vals(self, d, ab, verts):
        b = self.base_of.get(d)
        if b is None:
            return super().vals(d, ab, verts)
        parts = self.share[b]
        n = self.dim if self.vec[b] else 1
        if parts[d] is not None:
            return [parts[d][c] * self.scale * (1 if ab[c % 2] else 0) for c in verts for _ in range(n)]
        full = super().vals(b, ab, verts)
        rest = [sum(x[c] for x in parts.values() if x is not None) * self.scale * (1 if ab[c % 2] else 0) for c in verts for _ in range(n)]
        return [x - y for x, y in zip(full, rest)]

    def factor(self, e, p, c, writer=True, reader=True):
        i = next(k for k, x in enumerate(self.ex) if x is e)
        f = 1.0
        if writer:
            m = self.mesh[i]
            k = self.fw.get((e["from"], m, e["d"]), 0)
            f *= self.area[m][c] ** k if k else 1.0
        if reader:
            m = self.mesh_read(e, e["to"])
            k = self.fr.get((e["to"], m, e["d"]), 0)
            f *= self.area[m][c] ** k if k else 1.0
        return f

    def expected(self, e, v, verts, reader=True):
        x = super().expected(e, v, verts)
        n = self.dim if self.vec[e["d"]] else 1
        return [x[k * n + j] * self.factor(e, e["to"], c, reader=reader) for k, c in enumerate(verts) for j in range(n)]

    def more_reads(self, p, ins):
        res = []
        for q, m, name, l, first in self.sums:
            if q != p:
                continue
            vs = [(e, v) for e, v in ins if any(self.ex[i] is e for i in l)]
            if any(v["k"] == "out" for e, v in vs):
                continue

            def total(verts, vs=vs, first=first):
                return [sum(t) for t in zip(*[self.expected(e, v, verts, not first) for e, v in vs])]
            res.append((dict(mesh=m, d=name), total))
        return res


def measure(P):
    d = [[b - a for a, b in zip(P[0], q)] for q in P[1:]]
    if len(d) == 1:
        return math.sqrt(sum(x * x for x in d[0]))
    u, v = d
    uu, vv, uv = (sum(x * x for x in u), sum(x * x for x in v), sum(x * y for x, y in zip(u, v)))
    return math.sqrt(max(uu * vv - uv * uv, 0.0)) / 2


def scenario(beh, rng, opts=None):
    return coupling.scenario(beh, rng, dict(opts or {}, plan=ActPlan))
