"""M01: every mapping applies the operator its method promises, in both directions."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, mapping
from vt.common import SEED, Background, Sim, build, log, rng

INVS = ["SomeInv", "UnityInv", "FootInv", "NearInv", "ClosestInv", "StageInv", "CellInv", "VertexInv", "AxisInv"]
MC = dict(Gen=False, Modes={"nn", "np", "cell"}, Shapes={"soup"}, L=1, NT={1})
GEN = dict(Gen=True, Dims={2, 3}, Modes={"nn", "np", "cell"}, Shapes={"soup", "flat", "grid"}, L=4, NS={1, 3, 4, 6, 7}, NE={0, 1, 2, 3, 4}, NT={3, 4})
ITERATIVE = {"solver": "rbf-global-iterative"}


def run(c):
    n = 12 if c.thorough else 1
    mcs = [("plane elements", dict(module="Mapping", consts=dict(MC, Dims={2}, NS={3, 4}, NE={1, 2}), invs=INVS, workers=2)),
           ("grids", dict(module="Mapping", consts=dict(MC, Dims={2, 3}, Shapes={"grid"}, NS={0, 1, 2}, NE={0, 1}), invs=INVS, workers=2)),
           ("axis", dict(module="Mapping", consts=dict(MC, Dims={3}, Modes={"axis"}, NS={2, 3}, NE={0}), invs=INVS, workers=2))]
    if c.thorough:
        mcs += [("elements in space", dict(module="Mapping", consts=dict(MC, Dims={3}, Modes={"np", "cell"}, NS={3}, NE={1, 2}), invs=INVS, workers=3, timeout=1800)),
                ("axis, wider", dict(module="Mapping", consts=dict(MC, Dims={3}, Modes={"axis"}, L=2, NS={2, 3}, NE={0}), invs=INVS, workers=3, timeout=1800)),
                ("plane elements, wider", dict(module="Mapping", consts=dict(MC, Dims={2}, L=2, NS={3}, NE={1, 2}), invs=INVS, workers=3, timeout=1800))]
    bg = Background(mcs, 2)
    parts = [("projection", mapping.project, GEN, 260, None),
             ("radial", mapping.radial, dict(GEN, Dims={3}, Modes={"axis"}, L=6, NS={2, 3, 5}, NT={6, 7, 9}), 70, None),
             ("axial", mapping.axial, dict(GEN, Dims={3}, Modes={"nn"}, NS={1, 2, 3, 4}, NE={0}, NT={4, 6}), 90, None),
             ("radial basis functions", mapping.rbf, dict(GEN, Modes={"nn"}, NS={3, 4, 6, 7, 9, 11, 14}, NT={5}), 450, None),
             ("iterative radial basis functions", mapping.rbf, dict(GEN, Modes={"nn"}, NS={3, 4, 6, 7, 9, 11, 14}, NT={5}), 130, ITERATIVE)]
    sims = [Sim("Mapping", [(g, m * n, SEED * 100 + k)], spec="Spec") for k, (_, _, g, m, _) in enumerate(parts)]
    runner = build()
    full = build(True)
    normal, petsc = [], []
    for k, ((name, fn, _, _, o), s) in enumerate(zip(parts, sims)):
        behs, states = s.collect()
        c.states += states
        c.sample({"kind": name, "behaviour": behs[0]})
        for i, b in enumerate(behs):
            try:
                sc = fn(b, rng("M01", k, i), dict(o) if o else None)
            except mapping.Skip as e:
                c.count("%s: skipped (%s)" % (name, e))
                continue
            c.count(name)
            (petsc if o else normal).append(sc)
    log("%d + %d scenarios" % (len(normal), len(petsc)))
    c.replay(normal, runner)
    if not c.violations:
        c.replay(petsc, full)
    c.count("meshes declined by the partition of unity", sum(bool(getattr(s, "declined", False)) for s in normal))
    bg.collect(c)
    return ["radial basis functions, weights of shapes and integrals are decided by an independent reference in floating point; the specification decides matches, weights and stages of all other methods exactly",
            "points closer than the tolerance of the library to a tie are specified to have several admissible matches",
            "systems with a condition above 1e8 are redrawn; partition of unity with several clusters is decided by its promises (interpolation, constants, sums, transposes), not by its values",
            "a 1D vertex without any assigned 3D vertex is excluded from radial collect"]


common.main("M01", run)
