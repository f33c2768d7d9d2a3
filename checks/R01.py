"""R01: redefined meshes are used by everybody from the next time step on; nothing else changes."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling, remesh
from vt.common import SEED, Background, InfraError, Sim, build, log, rng

INVS = ["StepInv", "TogetherInv", "Drained", "CheckpointInv", "IterInv", "MsgInv", "KnowInv", "ErrInv", "ReadInv", "EndValues"]


def mc(name, workers=2, spec="RSpec", props=(), **consts):
    return (name, dict(module="Remesh", consts=dict(dict(coupling.MC, MaxReset=2), **consts), spec=spec, invs=INVS, props=list(props), workers=workers, timeout=6000))


def run(c):
    n = 10 if c.thorough else 1
    mcs = [mc("explicit, three windows", KindSets={"PE"}, MaxWin=3),
           mc("implicit", KindSets={"PI"}, Cut=0, Init0={True}, Sub0={True})]
    if c.thorough:
        mcs += [mc("implicit, all options", workers=4, KindSets={"PI"}),
                mc("explicit, four windows", workers=2, KindSets={"PE"}, MaxWin=4, MaxReset=3)]
    bg = Background(mcs, 1)
    g = dict(coupling.GEN, Topos={"bi"}, NData={1, 2}, BiKinds={"PE", "PI"}, FirstP={False}, ConvTypes={"rel", "res"}, MaxWin=4, ResetOdds={True, False}, Errors=False)
    groups = [(g, 200, dict()),
              (dict(g, Errors=True), 80, dict()),
              (dict(g, BiKinds={"PI"}, MaxIt=3, SubP={True}, ResetOdds={True}), 80, dict(only=["read", "write"])),
              (g, 200, dict(ranks=(1, 2, 3), only=["read", "write"])),
              (dict(g, MaxWin=6, BiKinds={"PE"}, ResetOdds={True}), 60, dict(ranks=(2, 3), only=["read", "write"]))]
    sims = [Sim("RemeshGen", [(k, q * n, SEED * 100 + i)], spec="RSpec") for i, (k, q, o) in enumerate(groups)]
    runner = build()
    scs = []
    for i, s in enumerate(sims):
        behs, states = s.collect()
        c.states += states
        for k, b in enumerate(behs):
            if "stuck" in b:
                raise InfraError("the specification deadlocks: %s" % str(b)[:500])
            if "ranks" in groups[i][2] and any(x["op"] == "err" for t in b["tr"].values() for x in t):
                continue
            scs.append(remesh.scenario(b, rng("R01", i, k), groups[i][2]))
            m = sum(1 for t in b["tr"].values() for x in t if x["op"] == "reset" and x["ok"])
            c.count("redefinitions on %s" % ("several ranks" if "ranks" in groups[i][2] else "one rank each"), m)
            c.count("runs without a redefinition", 0 if m else 1)
            c.count("steps that must be rejected after a redefinition", sum(1 for t in b["tr"].values() for x in t if x["op"] == "err"))
            c.count("files judged", len(scs[-1].plan.files.points) + len(scs[-1].plan.files.exports))
            if k % 60 == 0:
                c.sample(dict(coupling.describe(b), redefinitions=m))
    log("%d scenarios" % len(scs))
    c.replay(scs, runner)
    bg.collect(c)
    return ["behaviours are sampled by TLC simulation (seeded); redefinitions are explored exhaustively for up to three windows",
            "parallel schemes between two participants, the only ones that allow remeshing",
            "within a window of new meshes only values at its end are compared; watch points on serial participants"]


if __name__ == "__main__":
    common.main("R01", run)
