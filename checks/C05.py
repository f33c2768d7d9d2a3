"""C05: several coupling schemes and multi coupling compose."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling

FORK = {"parts": ["A", "B", "C"], "scale": 3072,
        "sch": [{"kind": k, "a": a, "b": b, "oth": [], "meth": "fixed", "size": 2, "maxT": 0, "maxW": 2, "minI": 1,
                 "maxI": 2 if k == "SI" else 0, "conv": [], "acc": {"on": 1, "od": 1, "ex": []}}
                for k, a, b in (("SI", "C", "A"), ("SE", "A", "B"), ("SE", "C", "B"))],
        "ex": [{"d": "D%d" % (n + 1), "s": s, "from": f, "to": t, "init": False, "sub": False, "deg": 1}
               for n, (s, f, t) in enumerate(((1, "C", "A"), (1, "A", "C"), (2, "A", "B"), (2, "B", "A"), (3, "C", "B"), (3, "B", "C")))]}


def known():
    res = []
    d = os.path.join(common.SPEC, "known")
    for f in ("C05-shared-1.json", "C05-shared-2.json"):
        b = json.load(open(os.path.join(d, f)))
        s = coupling.scenario(b, common.rng(f), dict(split=True, only=["read"], units=[1.0], dims=(2,), maxv=1))
        s.label = "C05-shared"
        res.append(s)
    # both participants of an implicit scheme exchange data with a third one afterwards
    tr = {p: [{"op": "init", "ri": False, "w": [[0, 0]] * 2}] for p in FORK["parts"]}
    s = coupling.scenario({"cfg": FORK, "tr": tr}, common.rng("fork"), dict(split=False, only=["read"], units=[1.0], dims=(2,), maxv=1), timeout=6)
    for p in s.procs:
        for k in range(2 if p.part == "B" else 4):
            if p.part != "B":
                p.add("wc", common.any_state)
            p.add("adv 2.0")
            if p.part != "B":
                p.add("rc", common.any_state)
        p.add("on", common.eq(0))
        p.add("fin")
    s.label = "C05-order"
    return res + [s]


def run(c):
    n = 8 if c.thorough else 1
    sims = [(240 * n, dict(Topos={"chain", "tri", "star"}, Degs={0, 1}, NData={1, 2}, NReads=1), None),
            (160 * n, dict(Topos={"multi", "multi+"}, Degs={1}, NData={1}), None),
            (120 * n, dict(Topos={"chain", "star", "multi+"}, Degs={1}, NData={1}, MaxWin=4, Partial=False), None),
            (80 * n, dict(Topos={"chain", "star", "multi"}, Degs={1}, NData={1, 2}, Share=True, MaxWin=2), dict(split=True, only=["read"]))]
    tri = ["StepInv", "TogetherInv", "EndInv", "Drained", "CheckpointInv", "AgreeInv"]
    small = dict(Sub0={False}, Init0={False}, Cut=0)
    mcs = [coupling.mc("chain", tri + ["SeenInv"], Topo="chain", Size=1, MaxWin=2, **small),
           coupling.mc("multi", tri + ["SeenInv"], Topo="multi", KindSets={"MI"}, Size=1, MaxWin=2, DtAny=False, **small)]
    if c.thorough:
        mcs += [coupling.mc("chain, substeps and truncated end", tri + ["SeenInv"], Topo="chain", Size=2, MaxWin=2, Sub0={False}, Init0={True, False}, workers=4),
                coupling.mc("multi, substeps and initial data", tri + ["SeenInv"], Topo="multi", KindSets={"MI"}, workers=4)]
    return coupling.conformance(c, sims, mcs, extra=known)


common.main("C05", run)
