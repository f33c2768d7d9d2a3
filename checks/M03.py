"""M03: mesh definition calls build exactly the mesh they describe."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, meshdef
from vt.common import SEED, Background, Sim, build, log, rng

INVS = ["IdInv", "ShapeInv", "ExactInv", "NoneInv", "SplitInv", "OrderInv"]
ALL = {"v", "edge", "tri", "quad", "tet"}
GEN = dict(Gen=True, Dims={2, 3}, L=3, NV={4, 6, 9}, NC=14, Needs={True, False}, Ops=ALL, KV={0, 1, 2, 3}, KB={0, 1, 2, 3})


def mc(name, workers=2, **consts):
    return (name, dict(module="Mesh", consts=dict(dict(Gen=False, Needs={True, False}), **consts), spec="Spec", invs=INVS, workers=workers, timeout=3000))


def run(c):
    n = 12 if c.thorough else 1
    mcs = [mc("edges", Dims={2}, L=0, NV={3}, NC=3, Ops={"v", "edge"}, KV={0, 1, 2, 3}, KB={0, 1, 2}),
           mc("edges and triangles", Dims={2}, L=0, NV={3}, NC=3, Ops={"v", "edge", "tri"}, KV={1, 3}, KB={1}),
           mc("quads", Dims={2}, L=1, NV={4}, NC=2, Needs={True}, Ops={"v", "quad"}, KV={4}, KB={1}),
           mc("tetrahedra", Dims={2, 3}, L=0, NV={4}, NC=2, Ops={"v", "tet"}, KV={2, 4}, KB={0, 1})]
    if c.thorough:
        mcs += [mc("four calls", workers=3, Dims={2}, L=0, NV={3}, NC=4, Ops={"v", "edge"}, KV={0, 1, 2}, KB={0, 1}),
                mc("larger quads", workers=3, Dims={2}, L=2, NV={4}, NC=2, Needs={True}, Ops={"v", "quad"}, KV={4}, KB={0}),
                mc("quads in space", workers=3, Dims={3}, L=1, NV={4}, NC=2, Needs={True}, Ops={"v", "quad"}, KV={4}, KB={0})]
    bg = Background(mcs, 1)
    groups = [(GEN, 420), (dict(GEN, Ops={"v", "quad", "edge"}, Needs={True}, L=2), 150), (dict(GEN, Dims={3}, Ops={"v", "tri", "tet"}, Needs={True}, L=2, NC=20), 60)]
    sims = [Sim("Mesh", [(k, q * n, SEED * 100 + i)], spec="Spec") for i, (k, q) in enumerate(groups)]
    runner = build()
    scs = []
    for i, s in enumerate(sims):
        behs, states = s.collect()
        c.states += states
        c.sample({"kind": "mesh definition", "behaviour": behs[0]})
        for k, b in enumerate(behs):
            if not meshdef.usable(b):
                continue
            r = rng("M03", i, k)
            o = [x for x in behs if x["dim"] == b["dim"] and x["need"] == b["need"] and x is not b]
            team = [b] + r.sample(o, min(len(o), r.choice([0, 0, 0, 1, 2])))
            try:
                scs.append(meshdef.scenario(team, r))
            except meshdef.Skip:
                continue
            c.count("connectivity %s, %s" % ("required" if b["need"] else "ignored", "one rank" if len(team) == 1 else "several ranks"))
            for x in team:
                for y in x["calls"]:
                    if y["op"] != "v":
                        c.count("%s calls, %s" % (y["op"], {"yes": "valid", "no": "invalid", "any": "three collinear vertices"}[y["ok"]]))
    log("%d scenarios" % len(scs))
    c.replay(scs, runner)
    bg.collect(c)
    return ["for quads with three collinear vertices, only an answer is demanded",
            "of several quads in one call, only the first may be invalid (previous ones may have been added)",
            "a diagonal of equal length may be chosen either way",
            "meshes with collapsed elements are not projected on",
            "if connectivity is not required, calls are only rejected for tetrahedra in two dimensions",
            "the Fortran and C bindings end the process with errors, they are used with valid calls only"]


common.main("M03", run)
