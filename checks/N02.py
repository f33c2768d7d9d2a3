"""N02: the end of a participant is reported to everybody who depends on it."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling, dead
from vt.common import SEED, Background, Sim, build, log, rng

INVS = ["DeadInv", "StepInv", "AgreeInv", "Drained"]


def run(c):
    n = 12 if c.thorough else 1
    small = dict(Sub0={False}, Init0={False}, NoDie=False, DtAny=False, Size=1)
    mcs = [coupling.mc("two participants", INVS, Topo="bi", MaxWin=2, Cut=0, **small),
           coupling.mc("chain", INVS, Topo="chain", MaxWin=1, Cut=0, **small)]
    if c.thorough:
        mcs += [coupling.mc("chain, two windows", INVS, Topo="chain", MaxWin=2, Cut=0, workers=4, **small),
                coupling.mc("multi", INVS, Topo="multi", KindSets={"MI"}, MaxWin=2, Cut=0, workers=4, **small)]
    bg = Background(mcs, 2)
    g = dict(coupling.GEN, Degs={0, 1})
    groups = [(dict(g, Topos={"bi"}, Rate=14), 170, {}),
              (dict(g, Topos={"chain", "star", "multi", "multi+"}, NData={1, 2}, Rate=25), 200, {}),
              (dict(g, Topos={"bi", "chain", "star"}, NData={1, 2}, Rate=16), 160, dict(ranks=(1, 2, 3), only=["read", "write"])),
              (dict(g, Topos={"bi"}, Rate=14), 60, dict(ranks=(1, 2), only=["read", "write"], gs=False, m2n=' enforce-gather-scatter="true"'))]
    sims = [Sim("DeadGen", [(k, q * n, SEED * 100 + i)], spec="DSpec") for i, (k, q, o) in enumerate(groups)]
    runner = build()
    scs = []
    for i, s in enumerate(sims):
        behs, states = s.collect()
        c.states += states
        for k, b in enumerate(behs):
            r = rng("N02", i, k)
            if "stuck" in b:
                c.count("stuck configurations, not replayed")
                continue
            x = dead.scenario(b, r, dict(groups[i][2], backend=r.choice(["cpp", "cpp", "cpp", "c", "f"]) if not groups[i][2] else "cpp"))
            if x is None:
                c.count("behaviours in which nobody died, not replayed")
                continue
            if not scs or len(scs) % 150 == 0:
                c.sample(coupling.describe(b))
            c.count("death: " + x.kind)
            scs.append(x)
    log("%d scenarios" % len(scs))
    c.replay(scs, runner)
    bg.collect(c)
    return ["a death is the SIGKILL or the silent exit of a process, an early finalize() or the destruction of the participant",
            "calls issued after a death may fail earlier than the specification demands, never later",
            "only sockets between participants and between ranks (no multi-rank MPI)"]


common.main("N02", run)
