"""Binds behaviours of Mesh.tla: sequences of mesh definition calls and the mesh that is coupled and exported."""
import itertools
import os
import xml.etree.ElementTree as ET

import numpy as np

from .access import illegal
from .common import Proc, Scenario, any_state, eq
from .coupling import PROLOGUE, num
from .mapping import Skip
from .output import READ, cells, faces

PLURAL = {"edge": "edges", "tri": "tris", "quad": "quads", "tet": "tets"}


def usable(beh):
    return bool(beh["verts"])


def plain(beh):
    return all(c.get("ok", "yes") == "yes" for c in beh["calls"])


def area(behs):
    """can all ranks compute areas? are there collapsed elements, which cannot be projected on?"""
    scaled, flat = True, False
    for b in behs:
        X = [np.array(v, float) for v in b["verts"]]
        es, ts, hs = ([tuple(e) for e in b[k]] for k in ("edges", "tris", "tets"))
        ts += [tuple(t) for q in b["quads"] for a in q["alts"] for t in a]
        sure = [1 for q in b["quads"] if b["calls"][q["call"] - 1]["ok"] == "yes"]
        es += [e for t in ts for e in itertools.combinations(t, 2)]
        scaled = scaled and bool(sure or (b["edges"] if b["dim"] == 2 else b["tris"]))
        rank = lambda e: np.linalg.matrix_rank(np.array([X[i] - X[e[0]] for i in e[1:]]))
        flat = flat or any(rank(e) < len(e) - 1 for e in es + ts + hs)
    return scaled, flat


def either(store, key):
    def chk(state, pay):
        store[key] = state == "ok"
        if state not in ("ok", "err"):
            return "ended with " + state + " " + pay[:300]
    chk.illegal = True
    return chk


def scenario(behs, rng, opts=None):
    """behs: the calls of each rank of the participant A, for meshes of the same dimension and need"""
    dim, need, na = behs[0]["dim"], behs[0]["need"], len(behs)
    g = np.random.default_rng(rng.getrandbits(60))
    scale = rng.choice([1.0, 2.0 ** rng.randint(-8, 8), 10 ** rng.uniform(-3, 3)])
    rot = np.eye(3)
    if rng.random() < .6:
        rot[:dim, :dim] = np.linalg.qr(g.normal(size=(dim, dim)))[0]
    off = np.zeros(3)
    if rng.random() < .5:
        off = g.integers(-5, 6, 3) * scale
    at = lambda p: ((rot @ np.array(p, float)) * scale + off)[:dim]
    write = rng.random() < .3 and na == 1
    scaled, flat = area(behs)
    if need and flat and not scaled:
        raise Skip("collapsed edges only")
    act = '<action:multiply-by-area mesh="MA" timing="write-mapping-post"><target-data name="F"/></action:multiply-by-area>' if need and scaled and (flat or rng.random() < .2) else ""
    kind = "nearest-neighbor" if act else rng.choice(["nearest-projection", "nearest-projection", "linear-cell-interpolation"]) if need else "nearest-neighbor"
    own, rec = (rng.sample(["vtu", "vtk", "vtp", "csv"], 2) if na == 1 else rng.sample(["vtu", "vtp", "csv"], 2)), rng.choice(["vtu", "vtk", "vtp"])
    L = [PROLOGUE % ("false", '<profiling mode="off"/>')]
    L += ['<data:scalar name="F"/>', '<data:scalar name="G"/>']
    L += ['<mesh name="MA" dimensions="%d"><use-data name="F"/></mesh>' % dim, '<mesh name="MB" dimensions="%d"><use-data name="%s"/></mesh>' % (dim, "F")]
    tag = '<mapping:%s direction="%s" from="MA" to="MB" constraint="consistent"/>' % (kind, "write" if write else "read")
    L.append('<participant name="A"><provide-mesh name="MA"/>' + ('<receive-mesh name="MB" from="B"/>' if write else ""))
    L.append('<write-data name="F" mesh="MA"/>' + (tag if write else "") + act)
    L += ['<export:%s directory="A%s"/>' % (k, k) for k in own] + (["<intra-comm:sockets/>"] if na > 1 else []) + ["</participant>"]
    L.append('<participant name="B"><provide-mesh name="MB"/>' + ("" if write else '<receive-mesh name="MA" from="A"/>'))
    L.append('<read-data name="F" mesh="MB"/>' + ("" if write else tag))
    L += ['<export:%s directory="B"/>' % rec, "</participant>", '<m2n:sockets acceptor="A" connector="B"/>']
    L.append('<coupling-scheme:%s><participants first="A" second="B"/><time-window-size value="1.0"/><max-time-windows value="1"/>' % rng.choice(["serial-explicit", "parallel-explicit"]))
    L.append('<exchange data="F" mesh="%s" from="A" to="B"/></coupling-scheme:serial-explicit></precice-configuration>\n' % ("MB" if write else "MA"))
    kindof = L[-2].split(":")[1].split(">")[0]
    L[-1] = L[-1].replace("serial-explicit", kindof)
    backends = ["cpp", "c", "f"] if all(map(plain, behs)) else ["cpp"]
    sc = Scenario("\n".join(L), 20.0, info=dict(behaviours=behs))
    sc.soft = True
    A = [Proc("A", r, na, backend=rng.choice(backends)) for r in range(na)]
    B = Proc("B", 0, 1)
    sc.procs = A + [B]
    chosen = {}
    for p, beh in zip(A, behs):
        P = [at(v) for v in beh["verts"]]
        p.add("new c.xml")
        p.add("rconn MA", eq(1 if need else 0))
        for k, c in enumerate(beh["calls"]):
            if c["op"] == "v":
                if c["one"]:
                    p.add("mv1 MA %d %s" % (dim, " ".join(num(x) for x in P[c["ids"][0]])), eq(c["ids"][0]))
                else:
                    p.add("mv MA %d %s %d" % (dim * len(c["ids"]), " ".join(num(x) for i in c["ids"] for x in P[i]), len(c["ids"])), eq(c["ids"]))
                if rng.random() < .3:
                    p.add("msz MA", eq(c["ids"][-1] + 1) if c["ids"] else None)
                continue
            ids = [i for e in c["es"] for i in e]
            line = "%s MA %d %s" % (PLURAL[c["op"]], len(ids), " ".join(map(str, ids))) if c["bulk"] else "%s MA %s" % (c["op"], " ".join(map(str, ids)))
            if c["ok"] == "yes":
                p.add(line)
            else:
                p.add("cont 1")
                p.add(line, illegal() if c["ok"] == "no" else either(chosen, (p.rank, k + 1)))
                p.add("cont 0")
        p.add("msz MA", eq(len(P)))
        n = len(P)
        p.add("init")
        p.add("wd MA F %d %s %d %s" % (n, " ".join(map(str, range(n))), n, " ".join(num(x) for x in g.uniform(-1, 1, n))) if n else "msz MA")
        p.add("adv 1")
        p.add("fin")
    B.add("new c.xml")
    B.add("mv MB %d %s 1" % (dim, " ".join(num(x) for x in at([1, 1, 1]))))
    for l in ("init", "adv 1", "fin"):
        B.add(l)

    def post(s):
        try:
            return files(s)
        except (OSError, ValueError, IndexError, KeyError, ET.ParseError, AttributeError) as err:
            return ["unreadable result file: %s: %s" % (type(err).__name__, err)]

    def possible(r, beh):
        """the possible element sets of a rank"""
        base = [tuple(e) for e in beh["edges"] + beh["tris"] + beh["tets"]]
        alts = []
        for q in beh["quads"]:
            c = beh["calls"][q["call"] - 1]
            if c["ok"] == "any" and not chosen.get((r, q["call"])):
                continue
            alts.append([[tuple(t) for t in a] for a in q["alts"]])
        seen = {frozenset(faces(base))}
        for a in alts:
            seen = {o | faces(x) for o in seen for x in a}
        return seen

    def compare(f, k, points, options):
        pts, _ = READ[k](f)
        if len(pts) != len(points) or len(points) and np.abs(np.array(pts)[:, :dim] - np.array(points)).max() > 1e-5 * (scale + np.abs(points).max()):
            return ["%s: points %s, expected %s" % (os.path.basename(f), pts, points)]
        if k == "csv":
            return []
        keep = lambda e: len(e) < (3 if k == "vtk" and dim == 2 else 4 if k == "vtp" else 5)
        want = {frozenset(e for e in o if keep(e)) for o in options}
        got = cells(f, k)
        if len(set(got)) != len(got) or frozenset(got) not in want:
            return ["%s: elements %s, expected %s" % (os.path.basename(f), sorted(got), sorted(sorted(map(tuple, o)) for o in want)[:3])]
        return []

    def files(s):
        opts = [possible(r, b) for r, b in enumerate(behs)]
        pts = [[at(v) for v in b["verts"]] for b in behs]
        for w in ("init", "dt1"):
            for k in own:
                for r in range(na):
                    if na > 1 and k != "csv" and not pts[r]:
                        continue
                    f = "MA-A.%s.%s" % (w, k) if na == 1 else "MA-A.%d_%s.csv" % (r, w) if k == "csv" else "MA-A.%s_%d.%s" % (w, r, k)
                    x = compare(os.path.join(s.dir, "A" + k, f), k, pts[r], opts[r])
                    if x:
                        return x
            if not write:
                start = [sum(len(q) for q in pts[:r]) for r in range(na)]
                whole = {frozenset(tuple(i + start[r] for i in e) for r, o in enumerate(c) for e in o) for c in itertools.product(*opts)}
                if not need:
                    whole = {frozenset()}
                x = compare(os.path.join(s.dir, "B", "MA-B.%s.%s" % (w, rec)), rec, [x for q in pts for x in q], whole)
                if x:
                    return x
        return []
    sc.post = post
    return sc
