"""C07: reading between samples follows the configured waveform degree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling


def run(c):
    n = 8 if c.thorough else 1
    sims = [(200 * n, dict(Degs={0, 1, 2, 3}, NData={1}, SubP={True, False}, Sizes={2, 3, 4}, NReads=5, AccP={False}), None),
            (120 * n, dict(Degs={2, 3, 4}, NData={1}, SubP={True}, Sizes={3, 4, 5, 6}, NReads=5, MaxWin=2, AccP={True, False}), None),
            (60 * n, dict(Degs={1, 3}, NData={1}, BiKinds={"SE", "SI"}, FirstP={True}, SubP={True}, NReads=5, MaxWin=2), None),
            (60 * n, dict(Topos={"chain", "multi"}, Degs={0, 1, 3}, NData={1}, SubP={True, False}, NReads=4, MaxWin=2), None)]
    mcs = [coupling.mc("samples of a window", ["SeenInv"], Size=3, Cut=2, MaxWin=1, X={0}, MaxIt=2)]
    if c.thorough:
        mcs += [coupling.mc("samples of two windows", ["SeenInv"], Size=3, Cut=2, MaxWin=2, MaxIt=2, workers=4)]
    return coupling.conformance(c, sims, mcs)


common.main("C07", run)
