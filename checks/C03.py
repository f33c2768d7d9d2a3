"""C03: a read returns what the partner wrote for that window, iteration and time."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling


def run(c):
    n = 8 if c.thorough else 1
    sims = [(240 * n, dict(Degs={0, 1}, NData={0, 1, 2}), None),
            (120 * n, dict(Degs={1}, NData={1}, SubP={True}, MaxWin=4, Sizes={2, 3, 4}, AccP={False}), dict(maxv=9)),
            (60 * n, dict(Topos={"chain", "multi", "star"}, Degs={1}, NData={1, 2}, MaxWin=2), None),
            (80 * n, dict(Topos={"chain", "star", "multi"}, Degs={1}, NData={1, 2}, Share=True, MaxWin=2), dict(split=True, only=["read"]))]
    mcs = [coupling.mc("which writes are seen", ["SeenInv"])]
    if c.thorough:
        mcs += [coupling.mc("all interleavings", ["SeenInv", "Drained"], Reduce=False),
                coupling.mc("multi", ["SeenInv", "Drained"], Topo="multi", KindSets={"MI"}, workers=4),
                coupling.mc("chain", ["SeenInv", "Drained"], Topo="chain", Sub0={False}, Init0={False}, workers=4)]
    return coupling.conformance(c, sims, mcs)


common.main("C03", run)
