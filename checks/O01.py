"""O01: result files contain what was coupled, when it was coupled."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling, mapping, output
from vt.common import SEED, Background, Sim, build, log, rng

INVS = ["UniqueInv", "RowsInv"]
MAPGEN = dict(Gen=True, Dims={2, 3}, Modes={"nn", "np", "cell"}, Shapes={"soup", "flat", "grid"}, L=4, NS={1, 3, 4, 6, 7}, NE={0, 1, 2, 3, 4}, NT={3, 4})


def mc(name, workers=2, **consts):
    return (name, dict(module="OutputMC", consts=dict(coupling.MC, Record=True, **consts), spec="OMSpec", invs=INVS, workers=workers, timeout=3000))


def run(c):
    n = 12 if c.thorough else 1
    mcs = [mc("two participants", Size=1, MaxWin=2)]
    if c.thorough:
        mcs += [mc("two participants, three windows", Size=1, MaxWin=3, workers=3), mc("chain", Topo="chain", Size=1, MaxWin=2, workers=3)]
    bg = Background(mcs, 1)
    g = dict(coupling.GEN, Degs={0, 1}, NData={1, 2})
    groups = [(dict(g, Topos={"bi"}), 220, dict()),
              (dict(g, Topos={"chain", "star", "multi", "multi+"}), 150, dict()),
              (dict(g, Topos={"bi", "chain", "star"}), 130, dict(ranks=(1, 2, 3)))]
    maps = [(MAPGEN, 180, (1,)), (dict(MAPGEN, NE={1, 3, 4}), 120, (2, 3))]
    sims = [Sim("OutputGen", [(k, q * n, SEED * 100 + i)], spec="OSpec") for i, (k, q, o) in enumerate(groups)]
    msims = [Sim("Mapping", [(k, q * n, SEED * 100 + 50 + i)], spec="Spec") for i, (k, q, o) in enumerate(maps)]
    runner = build()
    scs = []
    for i, s in enumerate(sims):
        behs, states = s.collect()
        c.states += states
        for k, b in enumerate(behs):
            r = rng("O01", i, k)
            if "stuck" in b:
                c.count("stuck configurations, not replayed")
                continue
            if any(x["op"] == "err" for t in b["tr"].values() for x in t):
                c.count("aborted runs, not replayed")
                continue
            if k % 60 == 0:
                c.sample(coupling.describe(b))
            c.count("coupled runs on %s" % ("several ranks" if groups[i][2] else "one rank each"))
            scs.append(output.scenario(b, r, groups[i][2]))
    for i, s in enumerate(msims):
        behs, states = s.collect()
        c.states += states
        c.sample({"kind": "mesh with connectivity", "behaviour": behs[0]})
        for k, b in enumerate(behs):
            r = rng("O01m", i, k)
            a = r.choice(maps[i][2])
            try:
                scs.append(output.mapped(b, r, dict(ranks=(a, 1), where=("B", "B"), noscaled=True) if a > 1 else {}))
            except mapping.Skip:
                continue
            c.count("meshes with connectivity")
    log("%d scenarios" % len(scs))
    c.replay(scs, runner)
    bg.collect(c)
    return ["files of runs that end with an error are not judged",
            "the order and the exact text of files are not specified: files are parsed",
            "series files are demanded for exports of time windows only",
            "the Convergence column at the maximum number of iterations is not judged",
            "in parallel, watch points on connectivity are judged for two-dimensional projections only (other stages depend on the partition)"]


common.main("O01", run)
