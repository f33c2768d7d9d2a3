"""A01: acceleration computes the configured method from exactly the iterations it may use."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import accel, common
from vt.common import SEED, Background, Sim, build, judge_lines, log, rng, run_scenarios

BASE = dict(Gen=True, Kinds={"SI", "PI", "MI"}, MaxWin=4, MaxIt=5, Reused={0, 1, 2}, MaxUsed={2, 3, 9}, Force={True, False}, Rows=20)
INVS = ["StartInv", "BoundInv", "OrderInv", "PastInv", "ReuseInv", "AllInv"]
# the situation in which IQN-IMVJ uses the last update of the previous window again (A01-imvj)
KNOWN = {"cfg": {"kind": "PI", "acc": "imvj", "reused": 0, "maxused": 9, "force": False, "win": 3}, "its": [3, 3, 3],
         "log": [{"w": 1, "it": 1, "how": "relax", "cols": []}, {"w": 1, "it": 2, "how": "qn", "cols": [[1, 2]]},
                 {"w": 1, "it": 3, "how": "converged", "cols": [[1, 3], [1, 2]]},
                 {"w": 2, "it": 1, "how": "qn", "cols": [[1, 3], [1, 2]]}, {"w": 2, "it": 2, "how": "qn", "cols": [[2, 2]]},
                 {"w": 2, "it": 3, "how": "converged", "cols": [[2, 3], [2, 2]]},
                 {"w": 3, "it": 1, "how": "qn", "cols": [[2, 3], [2, 2]]}, {"w": 3, "it": 2, "how": "qn", "cols": [[3, 2]]},
                 {"w": 3, "it": 3, "how": "converged", "cols": [[3, 3], [3, 2]]}]}


def doubled(b):
    return b["cfg"]["acc"] == "imvj" and b["cfg"]["reused"] == 0 and not b["cfg"]["force"]


def pair(b, key):
    """the scenario with the reference as promised and as it behaves (A01-imvj), same configuration"""
    for a in range(4):
        try:
            o = {"imvj": rng("A01", "mode", *key).choice([None, "no-restart", "RS-0", "RS-SVD"]), "chunk": 8}
            return accel.scenario(b, rng("A01", *key, a), dict(o, reuse=True)), accel.scenario(b, rng("A01", *key, a), o)
        except accel.Skip:
            continue
    return None


def run(c):
    n = 10 if c.thorough else 1
    small = dict(Gen=False, Kinds={"PI"}, Accs={"ils", "aitken"}, MaxWin=3, MaxIt=4, Reused={0, 1, 2}, MaxUsed={1, 2, 3, 5}, Force={True, False}, Rows=20)
    mcs = [("bookkeeping", dict(module="Accel", consts=small, invs=INVS, workers=2))]
    if c.thorough:
        mcs += [("bookkeeping, more windows", dict(module="Accel", consts=dict(small, MaxWin=5, MaxIt=5, Reused={0, 1, 2, 3}), invs=INVS, workers=4, timeout=1800)),
                ("bookkeeping, long windows", dict(module="Accel", consts=dict(small, MaxWin=3, MaxIt=8, MaxUsed={2, 4, 6}), invs=INVS, workers=4))]
    bg = Background(mcs, 2)
    sims = [(k, a, Sim("Accel", [(dict(BASE, Accs={a}), m * n, SEED * 100 + k)], spec="Spec"))
            for k, (a, m) in enumerate([("relax", 40), ("aitken", 150), ("ils", 350), ("imvj", 350)])]
    runner = build()
    full = build(True)
    normal, imvj, pairs = [], [], []
    for k, a, s in sims:
        behs, states = s.collect()
        c.states += states
        for b in behs[:1]:
            c.sample({"cfg": b["cfg"], "log": b["log"]})
        for i, b in enumerate(behs):
            if doubled(b) and i % 7:
                p = pair(b, (k, i))
                if p:
                    pairs.append(p)
        # where the Jacobian is always built, the known finding does not apply
        rest, counts = accel.scenarios([b for i, b in enumerate(behs) if not (doubled(b) and i % 7)],
                                       lambda *x, k=k: rng("A01", k, *x), None)
        rest2 = []
        for s2 in rest:
            b = s2.info["behaviour"]
            if doubled(b) and "always-build-jacobian" not in s2.xml:
                continue
            rest2.append(s2)
        (imvj if a == "imvj" else normal).extend(rest2)
        c.count("behaviours " + a, len(rest2))
        for x, y in counts.items():
            c.count("redrawn or skipped: " + x, y)
    for s in normal + imvj:
        if "on-bound-violation" in s.xml:
            c.count("with bounds")
    log("%d + %d scenarios, %d of the known finding" % (len(normal), len(imvj), len(pairs)))
    c.replay(normal, runner)
    if not c.violations:
        c.replay(imvj, full)
    if not c.violations:
        # what the known finding does not explain is a violation
        todo = pairs
        for rep in range(2):
            run_scenarios([p[0] for p in todo], full)
            bad = [p for p in todo if judge_lines(p[0]) != []]
            c.traces += len(todo) - len(bad)
            todo = bad
        c.count("behaviours of the known finding", len(pairs))
        c.replay([p[1] for p in todo], full)
    s = accel.scenario(KNOWN, rng("A01", "known"), {"imvj": None, "onbound": "ignore", "bounds": {}, "lower": {}, "upper": {}})
    s.label = "A01-imvj"
    c.replay([s], full)
    bg.collect(c)
    return ["the arithmetic (least squares, relaxation, preconditioner weights) is decided by an independent reference in floating point, compared to 1e-6 relative",
            "configurations in which a filter may drop a column or the system is badly conditioned are redrawn",
            "IQN-IMVJ restarts RS-LS and RS-SLIDE, and RS-SVD after its first restart, are not specified"]


common.main("A01", run)
