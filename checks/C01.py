"""C01: all participants of a coupling agree on windows, step sizes and the end of the simulation."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling


def run(c):
    one = dict(NData={0, 1}, Degs={1}, NReads=1, Partial=False, AccP={False})
    n = 8 if c.thorough else 1
    sims = [(240 * n, dict(one, MaxWin=5, Sizes={1, 2, 3, 4}, FirstP={False, True}), None),
            (120 * n, dict(one, BiKinds={"SE", "SI"}, FirstP={True}, MaxWin=3), None),
            (80 * n, dict(one, Topos={"chain", "star", "multi"}), None)]
    mcs = [coupling.mc("two participants, all schemes", ["StepInv", "TogetherInv", "EndInv", "Drained"], Sub0={False}, Init0={False}),
           coupling.mc("first participant dictates the step", ["StepInv", "EndInv", "Drained"], KindSets={"SE", "SI"}, Meth={"first"},
                       Sub0={False}, Init0={False}, Cut=1),
           coupling.mc("termination", [], ["Terminates"], Sub0={False}, Init0={False}, MaxWin=1, Size=2)]
    if c.thorough:
        mcs += [coupling.mc("all interleavings", coupling.INVS, Reduce=False),
                coupling.mc("three windows", ["StepInv", "TogetherInv", "EndInv", "Drained"], MaxWin=3, Size=3, Cut=2, Sub0={False}, Init0={False}),
                coupling.mc("termination, two windows", [], ["Terminates"], Sub0={False}, Init0={False}, MaxWin=2, Size=2)]
    return coupling.conformance(c, sims, mcs)


common.main("C01", run)
