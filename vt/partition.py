"""Binds behaviours of Partition.tla to the real library."""
import numpy as np

from .common import Proc, Scenario, eq, must_fail
from .coupling import PROLOGUE, num
from .mapping import recorder


def scenario(beh, rng, opts=None):
    o = dict(opts or {})
    cfg = beh["cfg"]
    d = rng.choice([2, 3])
    ax = rng.sample(range(d), 2)
    f = 2.0 ** rng.randint(-3, 3)
    off = rng.randint(-5, 5)

    def point(p):
        x = [rng_const] * d
        x[ax[0]], x[ax[1]] = (p[0] + off) * f, p[1] * f
        return x
    rng_const = float(rng.randint(-2, 2))
    prov, loc, near = beh["prov"], beh["loc"], beh["near"]
    P = np.array([point(v["pos"]) for v in prov])
    R = np.array([point(v["pos"]) for v in loc])
    given = [[k for k, v in enumerate(prov) if v["rank"] == r + 1] for r in range(cfg["pr"])]
    mine = [[k for k, v in enumerate(loc) if v["rank"] == r + 1] for r in range(cfg["rr"])]
    for m in mine:
        rng.shuffle(m)
    filt = {"none": "no-filter", "primary": "on-primary-rank", "secondary": "on-secondary-ranks"}[cfg["filter"]]
    attr = ' geometric-filter="%s"' % filt if filt != "on-secondary-ranks" or rng.random() < .5 else ""
    attr += ' safety-factor="%s"' % num(cfg["safety"] / 2) if cfg["safety"] != 1 or rng.random() < .5 else ""
    m2n = ' use-two-level-initialization="true"' if cfg["level"] == 2 else rng.choice(["", ' enforce-gather-scatter="true"', ' enforce-gather-scatter="false"'])
    both = rng.choice(["both", "both", "F", "G"])
    F = [("F1", 1)] + ([("F2", d)] if rng.random() < .5 else []) if both != "G" else []
    G = [("G1", 1)] + ([("G2", d)] if rng.random() < .5 else []) if both != "F" else []
    win = rng.choice([1, 2])
    kind = rng.choice(["serial-explicit", "parallel-explicit"])
    ns = rng.choice([1, 1, 2])
    L = [PROLOGUE % ("false", '<profiling mode="off"/>')]
    L += ['<data:%s name="%s" waveform-degree="1"/>' % ("scalar" if n[1] == "1" else "vector", n) for n, _ in F + G]
    use = "".join('<use-data name="%s"/>' % n for n, _ in F + G)
    L += ['<mesh name="%s" dimensions="%d">%s</mesh>' % (m, d, use) for m in ("MP", "ML")]
    L += ['<participant name="P"><provide-mesh name="MP"/>']
    L += ['<write-data name="%s" mesh="MP"/>' % n for n, _ in F] + ['<read-data name="%s" mesh="MP"/>' % n for n, _ in G]
    L += (["<intra-comm:sockets/>"] if cfg["pr"] > 1 else []) + ["</participant>"]
    L += ['<participant name="R"><provide-mesh name="ML"/><receive-mesh name="MP" from="P"%s/>' % attr]
    L += ['<read-data name="%s" mesh="ML"/>' % n for n, _ in F] + ['<write-data name="%s" mesh="ML"/>' % n for n, _ in G]
    if F:
        L.append('<mapping:nearest-neighbor direction="read" from="MP" to="ML" constraint="consistent"/>')
    if G:
        L.append('<mapping:nearest-neighbor direction="write" from="ML" to="MP" constraint="conservative"/>')
    L += (["<intra-comm:sockets/>"] if cfg["rr"] > 1 else []) + ["</participant>"]
    L.append('<m2n:sockets acceptor="%s" connector="%s"%s/>' % (*rng.sample("PR", 2), m2n))
    first = rng.sample("PR", 2)
    L.append('<coupling-scheme:%s><participants first="%s" second="%s"/><time-window-size value="1.0"/><max-time-windows value="%d"/>' % (kind, *first, win))
    L += ['<exchange data="%s" mesh="MP" from="P" to="R" substeps="true"/>' % n for n, _ in F]
    L += ['<exchange data="%s" mesh="MP" from="R" to="P"/>' % n for n, _ in G]
    L.append("</coupling-scheme:%s></precice-configuration>\n" % kind)
    sc = Scenario("\n".join(L), 20.0, info=dict(behaviour=beh))
    procs = {"P": [Proc("P", r, cfg["pr"]) for r in range(cfg["pr"])], "R": [Proc("R", r, cfg["rr"]) for r in range(cfg["rr"])]}
    sc.procs = procs["P"] + procs["R"]
    own = {"P": given, "R": mine}
    pts = {"P": P, "R": R}
    mesh = {"P": "MP", "R": "ML"}
    for q in "PR":
        for p in procs[q]:
            ks = own[q][p.rank]
            p.add("new c.xml")
            if ks:
                p.add("mv %s %d %s %d" % (mesh[q], len(ks) * d, " ".join(num(x) for k in ks for x in pts[q][k]), len(ks)), eq(list(range(len(ks)))))
            if not beh["lost"]:
                p.add("init")
            elif q == "R" and p.rank + 1 in beh["lost"]:
                p.add("init", must_fail)
            else:
                # may wait for the lost ranks to connect, which they never do
                p.unjudged = True
                p.lines.insert(1, "alarm 5")
                p.expect.insert(1, None)
                p.add("init")
    if beh["lost"]:
        return sc
    ids = lambda n: "%d %s" % (n, " ".join(map(str, range(n))))
    g = np.random.default_rng(rng.getrandbits(60))
    written, store = {}, {}

    def write(q, n, k, w, s):
        v = g.uniform(-2, 2, (len(pts[q]), k))
        if rng.random() < .1:
            v[:] = 0
        written[n, w, s] = v
        for p in procs[q]:
            ks = own[q][p.rank]
            vals = v[ks].ravel()
            p.add("wd %s %s %s %d %s" % (mesh[q], n, ids(len(ks)), len(vals), " ".join(map(num, vals))))

    def read(q, n, k, w, s):
        for p in procs[q]:
            m = len(own[q][p.rank]) * k
            p.add("rd %s %s %s %s %d" % (mesh[q], n, ids(len(own[q][p.rank])), num(1 / ns), m), recorder(store, (n, w, s, p.rank), m))

    def pay(q, n, w):
        """what q reads in its w-th window: (window written, or None for the initial zero)"""
        sender = "P" if n[0] == "F" else "R"
        if kind == "serial-explicit" and sender == first[0]:
            return w
        return w - 1 if w else None
    for w in range(win):
        for s in range(ns):
            for q, wr, rd in (("P", F, G), ("R", G, F)):
                for n, k in rd:
                    read(q, n, k, w, s)
                for n, k in wr:
                    write(q, n, k, w, s)
                for p in procs[q]:
                    p.add("adv %s" % num(1 / ns))
    for p in sc.procs:
        p.add("on", eq(0))
        p.add("fin")

    def post(_):
        for q, lst in (("R", F), ("P", G)):
            for n, k in lst:
                for w in range(win):
                    for s in range(ns):
                        got = np.full((len(pts[q]), k), np.nan)
                        for p in procs[q]:
                            ks = own[q][p.rank]
                            got[ks] = np.array(store[n, w, s, p.rank]).reshape(len(ks), k)
                        src = pay(q, n, w)
                        if src is None:
                            if np.any(got != 0):
                                return ["%s window %d step %d: %s before anything was written" % (n, w, s, got.ravel()[:6])]
                            continue
                        if n[0] == "F":
                            # in a serial scheme the second reads the samples of the first, otherwise the last value
                            val = written[n, src, s if kind == "serial-explicit" and first[0] == "P" else ns - 1]
                            for j, c in enumerate(near):
                                if not any(np.abs(got[j] - val[i - 1]).max() <= 1e-9 for i in c):
                                    return ["%s window %d step %d: local vertex %d (rank %d) reads %s, its nearest vertices %s have %s"
                                            % (n, w, s, j + 1, loc[j]["rank"], got[j], c, [val[i - 1].tolist() for i in c])]
                        else:
                            val = written[n, src, ns - 1]
                            mag = np.abs(val).sum() + 1
                            # constant over the window only if a serial second reads the end of the first's window
                            if kind == "serial-explicit" and first[0] == "R" and s < ns - 1:
                                continue
                            if np.abs(got.sum(0) - val.sum(0)).max() > 1e-10 * mag:
                                return ["%s window %d step %d: sum of loads is %s instead of %s" % (n, w, s, got.sum(0), val.sum(0))]
                            open_ = {i for c in near if len(c) > 1 for i in c}
                            for i in range(1, len(prov) + 1):
                                if i not in open_:
                                    e = sum((val[j] for j, c in enumerate(near) if c == [i]), np.zeros(k))
                                    if np.abs(got[i - 1] - e).max() > 1e-10 * mag:
                                        return ["%s window %d step %d: provided vertex %d (rank %d) reads %s instead of %s" % (n, w, s, i, prov[i - 1]["rank"], got[i - 1], e)]
        return []
    sc.post = post
    return sc
