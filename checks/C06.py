"""C06: initial data."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling


def run(c):
    n = 8 if c.thorough else 1
    sims = [(200 * n, dict(Degs={0, 1, 2}, NData={1, 2}, MaxWin=2, MaxIt=2, InitP={True, False}, NReads=3), None),
            (120 * n, dict(Degs={1}, NData={1}, MaxWin=2, MaxIt=2, InitP={True}, NReads=3, Partial=True), None),
            (100 * n, dict(Topos={"chain", "star", "multi", "multi+"}, Degs={1}, NData={1, 2}, MaxWin=2, MaxIt=2, InitP={True, False}), None)]
    mcs = [coupling.mc("initial samples", ["SeenInv", "Drained"], MaxWin=1),
           coupling.mc("initial samples, first participant", ["EndInv", "Drained"], KindSets={"SE", "SI"}, Meth={"first"}, MaxWin=1)]
    if c.thorough:
        mcs += [coupling.mc("two windows", ["SeenInv", "Drained"], Reduce=False),
                coupling.mc("multi", ["SeenInv", "Drained"], Topo="multi", KindSets={"MI"}, workers=4)]
    return coupling.conformance(c, sims, mcs)


common.main("C06", run)
