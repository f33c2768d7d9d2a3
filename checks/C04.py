"""C04: illegal API use is rejected, legal use accepted, through all language interfaces."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling

GEN = dict(coupling.GEN, MaxWin=2, MaxIt=2, Degs={1}, NData={0, 1}, SubP={False}, AccP={False}, Partial=False, NReads=1, ConvTypes={"abs"},
           NConv={0, 1}, Solo=False, Soft=True, Counts=True, NCalls=2, NIllegal=8)


def run(c):
    n = 8 if c.thorough else 1
    cpp = dict(backend="cpp", variants=("read", "write"))
    bind = dict(backend=["c", "f"], variants=("read", "write"))
    sims = [(240 * n, dict(Soft=True, NCalls=3, NIllegal=12), cpp),
            (160 * n, dict(Soft=False, Counts=False, NCalls=2, NIllegal=1), bind),
            (60 * n, dict(Solo=True, Soft=True, NCalls=6, NIllegal=10), cpp),
            (60 * n, dict(Solo=True, Soft=False, Counts=False, NCalls=3, NIllegal=1, InitP={True}), bind),
            (60 * n, dict(Soft=False, NCalls=0, NIllegal=0, NReads=2), dict(backend=["c", "f"]))]
    return coupling.conformance(c, sims, [], module="ApiGen", spec="GASpec", gen=GEN)


common.main("C04", run)
