"""Binds behaviours of OutputGen.tla: the files a coupled run leaves behind."""
import glob
import json
import math
import os
import re
import xml.etree.ElementTree as ET

import numpy as np

from . import coupling, mapping
from .coupling import num, wlist

PARALLEL = ["csv", "vtu", "vtp"]
SERIAL = PARALLEL + ["vtk"]


# -- readers: (points, {name: list of tuples}, number of cells)
def read_csv(path):
    lines = open(path).read().splitlines()
    head = lines[0].split(";")
    dim = 3 if "PosZ" in head else 2
    pts, cols = [], []
    for l in lines[1:]:
        v = [float(x) for x in l.split(";")]
        if len(v) != len(head):
            raise ValueError("row with %d entries below %d columns" % (len(v), len(head)))
        pts.append(tuple(v[:dim]))
        cols.append(v[dim:])
    data, k = {}, 0
    names = head[dim:]
    while k < len(names):
        n, w = names[k], 1
        if n != "Rank" and n.endswith("X") and k + 1 < len(names) and names[k + 1] == n[:-1] + "Y":
            w = 3 if k + 2 < len(names) and names[k + 2] == n[:-1] + "Z" else 2
            n = n[:-1]
        data[n] = [tuple(c[k:k + w]) for c in cols]
        k += w
    return pts, data


def read_xml(path):
    root = ET.parse(path).getroot()
    piece = root.find(".//Piece")
    n = int(piece.get("NumberOfPoints"))

    def arr(a):
        v = [float(x) for x in (a.text or "").split()]
        w = int(a.get("NumberOfComponents", "1"))
        if len(v) != n * w:
            raise ValueError("%s has %d values for %d points" % (a.get("Name"), len(v), n))
        return [tuple(v[i * w:(i + 1) * w]) for i in range(n)]
    pts = arr(piece.find("Points/DataArray"))
    return pts, {a.get("Name"): arr(a) for a in piece.findall("PointData/DataArray")}


def read_vtk(path):
    tok = open(path).read().split()
    i = tok.index("POINTS")
    n = int(tok[i + 1])
    v = [float(x) for x in tok[i + 3:i + 3 + 3 * n]]
    pts = [tuple(v[3 * k:3 * k + 3]) for k in range(n)]
    data = {}
    i = tok.index("POINT_DATA")
    if int(tok[i + 1]) != n:
        raise ValueError("POINT_DATA for %s of %d points" % (tok[i + 1], n))
    i += 2
    while i < len(tok):
        if tok[i] == "SCALARS":
            name, w, i = tok[i + 1], 1, i + 5
        elif tok[i] == "VECTORS":
            name, w, i = tok[i + 1], 3, i + 3
        else:
            raise ValueError("unexpected " + tok[i])
        v = [float(x) for x in tok[i:i + n * w]]
        data[name] = [tuple(v[k * w:(k + 1) * w]) for k in range(n)]
        i += n * w
    return pts, data


READ = {"csv": read_csv, "vtu": read_xml, "vtp": read_xml, "vtk": read_vtk}


def cells(path, kind):
    res = []
    if kind == "vtk":
        tok = open(path).read().split()
        i = tok.index("CELLS")
        n, size = int(tok[i + 1]), int(tok[i + 2])
        v = [int(x) for x in tok[i + 3:i + 3 + size]]
        while v:
            res.append((v[0], v[1:1 + v[0]]))
            v = v[1 + v[0]:]
        i = tok.index("CELL_TYPES")
        types = [{"3": 2, "5": 3, "10": 4}[x] for x in tok[i + 2:i + 2 + n]]
        if len(res) != n or int(tok[i + 1]) != n or types != [a for a, _ in res] or any(a != len(b) for a, b in res):
            raise ValueError("cells %s of types %s" % (res, types))
        return [tuple(sorted(b)) for _, b in res]
    piece = ET.parse(path).getroot().find(".//Piece")
    for tag, count in (("Cells", "NumberOfCells"),) if kind == "vtu" else (("Lines", "NumberOfLines"), ("Polys", "NumberOfPolys")):
        arr = {a.get("Name"): [int(x) for x in (a.text or "").split()] for a in piece.find(tag).findall("DataArray")}
        off = [0] + arr["offsets"]
        if int(piece.get(count)) != len(off) - 1 or off[-1] != len(arr["connectivity"]):
            raise ValueError("%s %s with offsets %s of %d" % (piece.get(count), tag, off, len(arr["connectivity"])))
        l = [tuple(sorted(arr["connectivity"][a:b])) for a, b in zip(off, off[1:])]
        sizes = [{3: 2, 5: 3, 10: 4}[t] for t in arr["types"]] if kind == "vtu" else [2 if tag == "Lines" else 3] * len(l)
        if sizes != [len(e) for e in l]:
            raise ValueError("types %s of cells %s" % (sizes, l))
        res += l
    return res


def faces(elems):
    import itertools
    return {tuple(sorted(f)) for e in elems for k in range(2, len(e) + 1) for f in itertools.combinations(e, k)}


def table(path):
    lines = [l.split() for l in open(path).read().splitlines()]
    return lines[0], [[float(x) for x in l] for l in lines[1:]]


def close(a, b, tol):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(b)) + 1e-14 or abs(a - b) <= tol * abs(b)


class Output:
    def __init__(self, beh, rng, opts):
        self.beh, self.rng, self.opts = beh, rng, opts
        self.exports, self.points, self.integrals = {}, {}, {}

    def inpart(self, parts, dims, ranks, split):
        rng, res = self.rng, {}
        self.dim = dims
        for p in parts:
            l = []
            ex, seen = [], set()
            for k in range(rng.choice([0, 1, 1, 2])):
                e = dict(type=rng.choice(PARALLEL if max(ranks) > 1 else SERIAL), dir=rng.choice([".", "out", "out/" + p]),
                         n=rng.choice([1, 1, 2, 3, -1]), it=rng.random() < .3, update=rng.random() < .3)
                if (e["type"], e["dir"]) in seen:
                    continue
                seen.add((e["type"], e["dir"]))
                at = '' if e["dir"] == "." and rng.random() < .5 else ' directory="%s"' % e["dir"]
                at += '' if e["n"] == 1 and rng.random() < .5 else ' every-n-time-windows="%d"' % e["n"]
                at += ' every-iteration="true"' if e["it"] else ''
                at += ' update-series="true"' if e["update"] else ''
                l.append("<export:%s%s/>" % (e["type"], at))
                ex.append(e)
            self.exports[p] = ex
            ms = [p + "-Mesh"] + ([p + "-In"] if split else [])
            self.points[p] = [(rng.choice(ms), [rng.uniform(-1, 7)] + [rng.uniform(-.5, 2.5) for _ in range(dims - 1)]) for _ in range(rng.choice([0, 1, 2]))]
            for k, (m, x) in enumerate(self.points[p]):
                l.append('<watch-point name="W%d" mesh="%s" coordinate="%s"/>' % (k, m, ";".join(map(num, x))))
            self.integrals[p] = [(rng.choice(ms), rng.random() < .5) for _ in range(rng.choice([0, 1, 2]))]
            for k, (m, s) in enumerate(self.integrals[p]):
                l.append('<watch-integral name="I%d" mesh="%s" scale-with-connectivity="%s"/>' % (k, m, "true" if s else "false"))
            res[p] = l
        return res

    # -- expectations
    def raw(self, p, d, k):
        """last value written by p at the return k (counted from one), as far as it was accepted"""
        tr = self.beh["tr"][p]
        hist, r, t = [], 0, 0
        j = wlist(self.beh["cfg"], p).index(d)
        for x in tr:
            if x["op"] == "init":
                hist.append((0, x["w"][j]))
            elif x["op"] == "adv":
                hist.append((t + x["dt"], x["w"][j]))
            elif x["op"] == "ret":
                r += 1
                t = x["obs"]["t"]
                if x["obs"]["cp"] or x["obs"]["rc"]:
                    hist = [h for h in hist if h[0] <= t]
                if r == k:
                    return hist[-1][1]
        return None

    def ret(self, p, k):
        return self.beh["tr"][p][self.files[p]["rets"][k - 1] - 1]

    def value(self, p, m, d, k, now):
        """expected: function of vertex classes -> values, None if the participant does not know the data"""
        plan = self.plan
        for i, e in enumerate(plan.ex):
            if e["d"] != d or p not in (e["from"], e["to"]):
                continue
            v = plan.var[(e["from"], e["to"])]
            om, im = plan.pm(e["from"]), plan.pin(e["to"])
            if m not in ((om, im) if p == e["from"] and v == "write" or p == e["to"] and v == "read" else (plan.mesh[i],)):
                continue
            x = self.ret(p, k)
            if p == e["from"] and v == "write" and m == om:
                return lambda vs, ab=self.raw(p, d, k): plan.vals(d, ab, vs)
            if now:
                if x["now"][i]["k"] == "out":
                    return "any"
                return lambda vs, e=e, z=x["now"][i]: plan.expected(e, z, vs)
            return lambda vs, ab=x["last"][i]: plan.vals(d, ab, vs)
        return None

    def judge(self, sc):
        self.files = self.beh["files"]
        probs = []
        for p in self.plan.parts:
            if any(x["op"] == "err" or x.get("fatal") for t in self.beh["tr"].values() for x in t):
                return []       # a run that was aborted
            for f in (self.judge_exports, self.judge_points, self.judge_integrals, self.judge_logs):
                try:
                    x = f(sc, p)
                except (OSError, ValueError, IndexError, KeyError, ET.ParseError, AttributeError, json.JSONDecodeError) as err:
                    x = "unreadable result file: %s: %s" % (type(err).__name__, err)
                if x:
                    probs.append("%s: %s" % (p, x))
        return probs

    def used(self, p, m):
        return sorted(self.plan.use[m])

    def judge_exports(self, sc, p):
        plan, size = self.plan, self.plan.size[p]
        own = plan.meshes(p)
        meshes = own + [m for m, _ in plan.received[p]]
        for e in self.exports[p]:
            F = self.files[p]
            due = {1: F["wins"], 2: F["wins2"], 3: F["wins3"]}.get(e["n"], [])
            if e["it"]:
                due = [x for x in F["iters"] if x["i"] or e["n"] > 0]
            for m in meshes:
                name = "%s-%s" % (m, p)
                base = os.path.join(sc.dir, e["dir"], name)
                there = glob.glob(base + ".*." + e["type"])
                want = {}
                for x in due:
                    idx = "init" if x["i"] == 0 else "%s%d" % ("it" if e["it"] else "dt", x["i"])
                    for r in range(size):
                        if size == 1:
                            want["%s.%s.%s" % (base, idx, e["type"])] = (x, r)
                        elif e["type"] == "csv":
                            want["%s.%d_%s.csv" % (base, r, idx)] = (x, r)
                        elif m in own:
                            if any(o == r for o in plan.owner[p]):
                                want["%s.%s_%d.%s" % (base, idx, r, e["type"])] = (x, r)
                        else:
                            f = "%s.%s_%d.%s" % (base, idx, r, e["type"])
                            if f in there:
                                want[f] = (x, r)
                if set(want) != set(there):
                    return "exports of %s to %s differ from those due: missing %s, not due %s" % (
                        m, e["dir"], sorted(map(os.path.basename, set(want) - set(there)))[:4], sorted(map(os.path.basename, set(there) - set(want)))[:4])
                seen = {}
                for f, (x, r) in want.items():
                    pr = self.content(f, e["type"], p, m, x["k"], r if m in own else None, seen.setdefault(x["k"], set()))
                    if pr:
                        return "%s: %s" % (os.path.basename(f), pr)
                if size > 1 and e["type"] != "csv":
                    for x in due:
                        idx = "init" if x["i"] == 0 else "%s%d" % ("it" if e["it"] else "dt", x["i"])
                        f = "%s.%s.p%s" % (base, idx, e["type"])
                        src = {q.get("Source") for q in ET.parse(f).getroot().iter("Piece")}
                        pieces = {os.path.basename(q) for q, (y, r) in want.items() if y is x}
                        if src != pieces:
                            return "%s lists %s instead of %s" % (os.path.basename(f), sorted(src), sorted(pieces))
                        names = {q.get("Name") for q in ET.parse(f).getroot().iter("PDataArray")}
                        for d in self.used(p, m):
                            if self.value(p, m, d, x["k"], False) and d not in names:
                                return "%s does not list %s" % (os.path.basename(f), d)
                if e["type"] != "csv" and not e["it"]:
                    ext = ("p" if size > 1 else "") + e["type"]
                    f = "%s.%s.series" % (base, ext)
                    want = [("%s.%s.%s" % (name, "init" if x["i"] == 0 else "dt%d" % x["i"], ext), self.ret(p, x["k"])["obs"]["t"] * plan.unit) for x in due]
                    if not want:
                        if os.path.exists(f):
                            return "a series file without exports: %s" % os.path.basename(f)
                        continue
                    s = [(y["name"], y["time"]) for y in json.load(open(f))["files"]]
                    if [y[0] for y in s] != [y[0] for y in want] or any(not close(a[1], b[1], 1e-9) for a, b in zip(s, want)):
                        return "series of %s lists %s, expected %s" % (m, s, want)
        return ""

    def content(self, f, kind, p, m, k, rank, seen):
        plan = self.plan
        pts, data = READ[kind](f)
        at = {tuple(c): i for i, c in enumerate(plan.coords)}
        try:
            vs = [at[tuple(x[:plan.dim])] for x in pts]
        except KeyError:
            return "unknown vertex among %s" % pts
        if len(set(vs)) != len(vs):
            return "vertex twice"
        q = p if rank is not None else next(a for a in plan.parts if m in plan.meshes(a))
        order = plan.order[m]
        if rank is not None:
            if vs != [c for c in order if plan.owner[p][c] == rank]:
                return "vertices %s differ from the mesh" % vs
        elif plan.size[p] == 1:
            if sorted(vs) != sorted(order):
                return "vertices %s differ from the received mesh %s" % (vs, order)
        if [x[0] for x in data["Rank"]] != [rank or 0] * len(vs) and rank is not None:
            return "wrong ranks"
        for d in self.used(p, m):
            want = self.value(p, m, d, k, False)
            if want is None:
                if d in data:
                    return "contains %s, which the participant neither writes nor reads" % d
                continue
            if d not in data:
                return "%s is missing" % d
            w = plan.dim if plan.vec[d] else 1
            have = [x[:w] for x in data[d]]
            if any(any(x[w:]) for x in data[d]):
                return "padding of %s is not zero" % d
            if rank is None and plan.size[p] > 1:
                # vertices of others may be in the local part of a received mesh
                continue
            exp = want(vs)
            for i in range(len(vs)):
                for j in range(w):
                    if not close(have[i][j], exp[i * w + j], 2e-5):
                        return "%s at vertex %d is %s, expected %s" % (d, vs[i], have[i], exp[i * w:(i + 1) * w])
        return ""

    def header(self, p, m, head, first):
        want = list(first)
        for d in self.used(p, m):
            want += ["%s%d" % (d, j) for j in range(self.plan.dim)] if self.plan.vec[d] else [d]
        return "" if head == want else "columns %s, expected %s" % (head, want)

    def judge_points(self, sc, p):
        plan = self.plan
        for k, (m, x) in enumerate(self.points[p]):
            head, rows = table(os.path.join(sc.dir, "precice-%s-watchpoint-W%d.log" % (p, k)))
            pr = self.header(p, m, head, ["Time"] + ["Coordinate%d" % j for j in range(plan.dim)])
            if pr:
                return "watch point: " + pr
            dist = sorted((sum((a - b) ** 2 for a, b in zip(plan.coords[c], x)), c) for c in plan.order[m])
            if len(dist) > 1 and dist[1][0] - dist[0][0] < 1e-6:
                continue
            c = dist[0][1]
            due = self.files[p]["wins"]
            if len(rows) != len(due):
                return "watch point has %d rows, expected %d" % (len(rows), len(due))
            for r, z in zip(rows, due):
                exp = [self.ret(p, z["k"])["obs"]["t"] * plan.unit] + list(plan.coords[c])
                for d in self.used(p, m):
                    v = self.value(p, m, d, z["k"], True)
                    n = plan.dim if plan.vec[d] else 1
                    exp += [None] * n if v == "any" else v([c])
                if len(r) != len(exp) or any(b is not None and not close(a, b, 1e-6) for a, b in zip(r, exp)):
                    return "row of watch point W%d (vertex %d) is %s, expected %s" % (k, c, r, exp)
        return ""

    def judge_integrals(self, sc, p):
        plan = self.plan
        for k, (m, s) in enumerate(self.integrals[p]):
            head, rows = table(os.path.join(sc.dir, "precice-%s-watchintegral-I%d.log" % (p, k)))
            pr = self.header(p, m, head, ["Time"])
            if pr:
                return "watch integral: " + pr
            due = self.files[p]["wins"]
            if len(rows) != len(due):
                return "watch integral has %d rows, expected %d" % (len(rows), len(due))
            for r, z in zip(rows, due):
                exp = [self.ret(p, z["k"])["obs"]["t"] * plan.unit]
                for d in self.used(p, m):
                    v = self.value(p, m, d, z["k"], True)
                    n = plan.dim if plan.vec[d] else 1
                    if v == "any":
                        exp += [None] * n
                    else:
                        a = v(plan.order[m])
                        exp += [sum(a[j::n]) for j in range(n)]
                big = max([1.0] + [abs(y) for y in exp if y is not None])
                if len(r) != len(exp) or any(b is not None and abs(a - b) > 1e-6 * big for a, b in zip(r, exp)):
                    return "row of watch integral I%d is %s, expected %s" % (k, r, exp)
        return ""

    def judge_logs(self, sc, p):
        plan, its = self.plan, self.files[p]["its"]
        f = os.path.join(sc.dir, "precice-%s-iterations.log" % p)
        g = os.path.join(sc.dir, "precice-%s-convergence.log" % p)
        s = [x for x in plan.sch if x["kind"] in ("SI", "PI", "MI") and (p in (x["a"], x["b"]) or p in x["oth"])]
        if not s:
            if os.path.exists(f) or os.path.exists(g):
                return "log of iterations without an implicit scheme"
            return ""
        s = s[0]
        head, rows = table(f)
        if head[:4] != ["TimeWindow", "TotalIterations", "Iterations", "Convergence"]:
            return "iteration log has columns %s" % head
        want = [(x["tw"], x["tot"], x["it"]) for x in its if x["conv"]]
        if [tuple(map(int, r[:3])) for r in rows] != want:
            return "iteration log has rows %s, expected %s" % ([r[:3] for r in rows], want)
        for r in rows:
            if (not s["maxI"] or r[2] < s["maxI"]) and r[3] != 1 or s["maxI"] and not s["conv"] and r[3] != 0:
                return "iteration log: Convergence is %s after %s of %s iterations" % (r[3], r[2], s["maxI"])
        if p != s["b"]:
            return "unexpected convergence log" if os.path.exists(g) else ""
        head, rows = table(g)
        n = len(s["conv"])
        name = {"abs": "Abs", "rel": "Rel", "res": "Drop", "aor": "AbsOrRel"}
        want = ["TimeWindow", "Iteration"] + ["Res%s(%s:%s)" % (name[m["type"]], plan.mesh[m["i"] - 1], plan.ex[m["i"] - 1]["d"]) for m in s["conv"]]
        if head != want:
            return "convergence log has columns %s, expected %s" % (head, want)
        if [tuple(map(int, r[:2])) for r in rows] != [(x["tw"], x["it"]) for x in its]:
            return "convergence log has rows %s, expected %s" % ([r[:2] for r in rows], [(x["tw"], x["it"]) for x in its])
        for r, x in zip(rows, its):
            for j, m in enumerate(s["conv"]):
                z = x["res"][j]
                a = z["r"] * plan.scale * plan.K[plan.ex[m["i"] - 1]["d"]]
                rel = z["r"] / z["n"] if z["n"] else math.inf
                exp = {"abs": [a], "rel": [rel], "res": [z["r"] / z["f"] if z["f"] else math.inf], "aor": [a, rel]}[m["type"]]
                if not any(close(r[2 + j], y, 1e-6) for y in exp):
                    return "convergence log: %s of iteration %d in window %d is %s, expected %s" % (head[2 + j], x["it"], x["tw"], r[2 + j], exp)
        return ""


def scenario(beh, rng, opts=None):
    o = dict(opts or {})
    out = Output(beh, rng, o)
    dim = rng.choice([2, 3])
    split = rng.random() < .4
    o.update(dims=(dim,), split=split, only=["read", "write"])
    o["inpart"] = out.inpart(beh["cfg"]["parts"], dim, o.get("ranks", (1,)), split)
    sc = coupling.scenario(beh, rng, o)
    out.plan = sc.plan
    sc.post = out.judge
    return sc


# -- meshes with connectivity: watch points are interpolated like mapped values, integrals are weighted, elements are exported
def mapped(beh, rng, opts=None):
    o = dict(opts or {})
    ra = o.get("ranks", (1, 1))[0]
    coords = mapping.transform(beh, rng, False)
    o["coords"] = coords
    P, T = coords
    if beh["mode"] == "nn":
        o["noscaled"] = True
    pts = rng.sample(range(len(T)), min(len(T), 3)) if ra == 1 or beh["dim"] == 2 and beh["mode"] == "np" else []
    kinds = rng.sample(PARALLEL if ra > 1 else SERIAL, rng.choice([0, 1, 2]))
    lines = ['<watch-point name="W%d" mesh="MA" coordinate="%s"/>' % (j, ";".join(map(num, T[j]))) for j in pts]
    lines += ['<watch-integral name="I%d" mesh="MA" scale-with-connectivity="%s"/>' % (s, "true" if s else "false") for s in (0, 1)]
    lines += ['<export:%s directory="%s"/>' % (k, k) for k in kinds]
    rng.shuffle(lines)
    o["inpart"] = {"A": lines}
    sc = mapping.project(beh, rng, o)
    before = sc.post

    def post(s):
        probs = before(s)
        if probs:
            return probs
        try:
            return connected(sc, beh, P, pts, kinds, ra)
        except (OSError, ValueError, IndexError, KeyError, ET.ParseError, AttributeError) as err:
            return ["unreadable result file: %s: %s" % (type(err).__name__, err)]
    sc.post = post
    return sc


def connected(sc, beh, P, pts, kinds, ra):
    mesh, d = sc.meshes["A"], beh["dim"]
    full = beh["mode"] != "nn"
    elems = [[tuple(o[v] for v in e) for e in es] if full else [] for o, es in mesh.parts]
    has = any(elems)
    times = [0.0] + [w + 1.0 for w in range(sc.windows)]
    val = lambda n, k: (lambda w: np.zeros((len(P), k)) if w == 0 else sc.written[n, w - 1, sc.steps - 1])
    cols = {n: (k, val(n, k)) for n, k in sc.data}

    def column(head, n, k):
        i = head.index(n if k == 1 else n + "0")
        return list(range(i, i + k))
    for j in pts:
        head, rows = table(os.path.join(sc.dir, "precice-A-watchpoint-W%d.log" % j))
        if [r[0] for r in rows] != times:
            return ["watch point at times %s, expected %s" % ([r[0] for r in rows], times)]
        options = mapping.rows_of(beh)[j]
        for w, r in enumerate(rows):
            fits = []
            for c in options:
                foot = sum(x * P[i] for i, x in c.items())
                e = [abs(r[1 + q] - foot[q]) for q in range(d)]
                for n, (k, f) in cols.items():
                    v = sum(x * f(w)[i] for i, x in c.items())
                    e += [abs(r[q] - v[z]) for z, q in enumerate(column(head, n, k))]
                fits.append(max(e))
            if min(fits) > 1e-6 * max(1.0, np.abs(P).max()):
                return ["row of a watch point at target %d is %s %s, expected %s" % (j, head, r, options)]
    for s in (0, 1):
        head, rows = table(os.path.join(sc.dir, "precice-A-watchintegral-I%d.log" % s))
        if [r[0] for r in rows] != times:
            return ["watch integral at times %s, expected %s" % ([r[0] for r in rows], times)]
        if ("SurfaceArea" in head) != has:
            return ["columns %s with%s connectivity" % (head, "" if has else "out")]
        for w, r in enumerate(rows):
            for n, (k, f) in list(cols.items()) + ([("SurfaceArea", (1, lambda w: np.ones((len(P), 1))))] if has else []):
                v = f(w)
                if has and (s or n == "SurfaceArea"):
                    want = sum(mapping.integral(P, es, d, v) for es in elems)
                else:
                    want = sum(v[o].sum(0) for o, _ in mesh.parts)
                got = np.array([r[q] for q in column(head, n, k)])
                if np.abs(got - want).max() > 1e-6 * max(1.0, np.abs(v).sum() * max(1.0, np.abs(want).max())):
                    return ["watch integral (scaled %d) of %s is %s, expected %s" % (s, n, got, want)]
    for kind in kinds:
        for w in range(len(times)):
            idx = "dt%d" % w if w else "init"
            for r, (o, _) in enumerate(mesh.parts):
                if not o and kind != "csv":
                    continue
                f = os.path.join(sc.dir, kind, "MA-A.%s.%s" % (idx, kind) if ra == 1 else "MA-A.%d_%s.csv" % (r, idx) if kind == "csv" else "MA-A.%s_%d.%s" % (idx, r, kind))
                points, data = READ[kind](f)
                if len(points) != len(o) or o and np.abs(np.array(points)[:, :d] - P[o]).max() > 0:
                    return ["%s: points %s, expected %s" % (f, points, P[o])]
                for n, (k, g) in cols.items():
                    if o and np.abs(np.array(data[n])[:, :k] - g(w)[o]).max() > 2e-5 * max(1.0, np.abs(g(w)).max()):
                        return ["%s: %s is %s, expected %s" % (f, n, data[n], g(w)[o])]
                if kind == "csv":
                    continue
                loc = {v: i for i, v in enumerate(o)}
                want = faces([tuple(loc[v] for v in e) for e in elems[r]])
                if kind == "vtp":
                    want = {e for e in want if len(e) < 4}
                if kind == "vtk" and d == 2:
                    want = {e for e in want if len(e) < 3}
                got = cells(f, kind)
                if sorted(got) != sorted(want):
                    return ["%s: elements %s, expected %s" % (os.path.basename(f), sorted(got), sorted(want))]
    return []
