"""A02: configured data actions are applied exactly once at their configured moment."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import actions, common, coupling
from vt.common import SEED, Background, InfraError, Sim, build, log, rng

INVS = ["SentOnce", "ReadOnce", "SumOnce", "OrderInv"]
BOTH = {True, False}


def mc(win, it, length):
    return ("life of samples, %d windows" % win, dict(module="Action", consts=dict(
        MaxWin=win, MaxIt=it, L=length, Subs=BOTH, Impls=BOTH, Whens={"now", "end"}, Maps=BOTH, Orders={"sum-scale", "scale-sum"}, Fresh=True),
        spec="Spec", invs=INVS, workers=2, timeout=3000))


def run(c):
    n = 10 if c.thorough else 1
    bg = Background([mc(3, 3, 3)] + ([mc(4, 4, 4)] if c.thorough else []), 1)
    g = dict(coupling.GEN, NData={1, 2})
    groups = [(dict(g, Topos={"bi"}), 260, dict()),
              (dict(g, Topos={"bi"}, SubP={True}, BiKinds={"SI", "PI"}, MaxIt=3), 120, dict()),
              (dict(g, Topos={"chain", "star", "multi", "multi+"}, Share=False), 160, dict()),
              (dict(g, Topos={"bi", "chain"}, Degs={0, 1}), 80, dict(ranks=(1, 2, 3), only=["read", "write"]))]
    sims = [Sim("ActGen", [(k, q * n, SEED * 100 + i)], spec="ASpec") for i, (k, q, o) in enumerate(groups)]
    runner = build()
    scs = []
    for i, s in enumerate(sims):
        behs, states = s.collect()
        c.states += states
        for k, b in enumerate(behs):
            if "stuck" in b:
                raise InfraError("the specification deadlocks: %s" % b)
            if len(groups[i][2]) and any(x["op"] == "err" for t in b["tr"].values() for x in t):
                continue
            sc = actions.scenario(b, rng("A02", i, k), groups[i][2])
            p = sc.plan
            c.count("scalings of written data", sum(1 for v in p.fw.values() if v))
            c.count("scalings of read data", sum(1 for v in p.fr.values() if v))
            c.count("sums of read data", len(p.sums))
            c.count("sums that are sent", len(p.share))
            scs.append(sc)
            if k % 80 == 0:
                c.sample(dict(coupling.describe(b), actions=b["acts"]))
    log("%d scenarios" % len(scs))
    c.replay(scs, runner)
    bg.collect(c)
    return ["behaviours are sampled by TLC simulation (seeded); the life of samples is explored exhaustively for up to three windows",
            "actions on data without convergence criterion; area scalings on serial participants, sums also in parallel"]


if __name__ == "__main__":
    common.main("A02", run)
