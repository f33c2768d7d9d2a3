"""C02: implicit coupling iterates, demands checkpoints and ends windows exactly as its criteria say."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling


def run(c):
    n = 8 if c.thorough else 1
    imp = dict(BiKinds={"SI", "PI"}, Degs={1}, NData={1, 2}, NReads=1)
    sims = [(300 * n, dict(imp, NConv={1, 2, 3}, MaxIt=4, AccP={False}, SubP={False}), None),
            (120 * n, dict(imp, NConv={0, 1, 2}, AccP={True}, FirstP={False}), None),
            (120 * n, dict(imp, Topos={"multi"}, NConv={1, 2, 3}, NData={1}), None),
            (60 * n, dict(imp, Topos={"chain", "multi+"}, NData={1}), None)]
    mcs = [coupling.mc("implicit schemes", ["CheckpointInv", "IterInv", "AgreeInv", "StepInv"], KindSets={"SI", "PI"}, MaxIt=3, Sub0={False}, Init0={False}),
           coupling.mc("minimum of iterations", ["CheckpointInv", "IterInv", "AgreeInv"], KindSets={"SI", "PI"}, MaxIt=3, MinIt=2,
                       Sub0={False}, Init0={False}, DtAny=False)]
    if c.thorough:
        mcs += [coupling.mc("multi", coupling.INVS, Topo="multi", KindSets={"MI"}, Init0={False}, workers=4),
                coupling.mc("larger", ["CheckpointInv", "IterInv", "AgreeInv", "StepInv"], KindSets={"SI", "PI"}, MaxIt=4, MaxWin=3, X={0, 1, 2},
                            Sub0={False}, Init0={False}, DtAny=False)]
    return coupling.conformance(c, sims, mcs)


common.main("C02", run)
