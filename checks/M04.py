"""M04: direct access and just-in-time mapping see exactly the accessible vertices."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import access, common, mapping
from vt.common import SEED, Background, Sim, build, log, rng

INVS = ["OnceInv", "LastInv", "SeenInv"]
GEN = dict(Gen=True, Dims={2, 3}, Jits={"none", "nn", "pum", "cg"}, L=4, NV={1, 3, 6, 9}, NR={1, 2, 3}, NA=4, NStep=6, Filters={False, True})


def mc(name, workers=3, **consts):
    k = dict(Gen=False, Dims={2}, Jits={"none", "nn"}, L=1, NV={2}, NR={1, 2}, NA=1, NStep=1, Filters={False})
    k.update(consts)
    return (name, dict(module="Access", consts=k, spec="Spec", invs=INVS, workers=workers, timeout=5000))


def run(c):
    n = 12 if c.thorough else 1
    mcs = [mc("two ranks"), mc("two actions", NR={1}, NA=2)]
    if c.thorough:
        mcs += [mc("two ranks, two actions", NV={1, 2}, NA=2), mc("two steps", NV={2}, NR={1}, NStep=2), mc("3D", Dims={3}, NV={1, 2}, NR={1})]
    bg = Background(mcs, 1)
    groups = [(GEN, 130), (dict(GEN, Jits={"pum", "cg"}, NV={3, 6, 9}, NR={1}), 100), (dict(GEN, Jits={"nn", "cg"}, NR={2, 3}), 120),
              (dict(GEN, L=2, NV={4, 6}), 80), (dict(GEN, NR={1}, NV={8, 14}, NA=6), 60), (dict(GEN, Jits={"none"}, NR={2, 3}), 60)]
    sims = [Sim("Access", [(k, q * n, SEED * 100 + i)], spec="Spec") for i, (k, q) in enumerate(groups)]
    runner = build()
    scs = []
    for i, s in enumerate(sims):
        behs, states = s.collect(timeout=3000 if c.thorough else 300)
        c.states += states
        c.sample({"kind": "access", "behaviour": behs[0]})
        for k, b in enumerate(behs):
            try:
                scs.append(access.scenario(b, rng("M04", i, k)))
            except mapping.Skip:
                c.count("ill-conditioned or undetermined interpolations, not replayed")
                continue
            c.count("%s, %s" % ({"none": "direct access only", "nn": "nearest-neighbor", "pum": "partition of unity", "cg": "coarse graining"}[b["jit"]],
                                "one rank" if len(b["reg"]) == 1 else "several ranks"))
    log("%d scenarios" % len(scs))
    c.replay(scs, runner)
    d = sum(getattr(s, "declined", False) for s in scs)
    if d:
        c.count("coordinates outside of the reach of the partition of unity, declined", d)
    bg.collect(c)
    return ["access regions and local meshes that restrict the mesh have a positive extent, at least one rank sees a vertex",
            "a data is not written both directly and just-in-time in one step",
            "filtered meshes: what matters for a coordinate lies inside of the access region",
            "partition of unity in parallel uses the vertices of the rank's region: constants and sums are judged"]


common.main("M04", run)
