"""N01: participants connect in any order of starts and steps, and only to matching peers of the same run."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, connect
from vt.common import SEED, Background, Sim, build, log, rng

INVS = ["PeerInv", "ConnectInv", "RefuseInv", "StaleInv", "AgainInv"]
F = frozenset
NONE = {F()}


def mc(name, workers=2, **consts):
    k = dict(NParts=2, Sizes={1, 2}, Dirs={True, False}, GS={False, True}, Diffs=NONE, Crashes=False)
    return (name, dict(module="ConnectMC", consts=dict(k, **consts), spec="MSpec", invs=INVS, workers=workers, timeout=6000, extra="VIEW View\n"))


def run(c):
    n = 10 if c.thorough else 1
    mcs = [mc("two participants, killed once", Crashes=True),
           mc("two participants with different configurations", Sizes={1, 2, 3}, Diffs={F({"A"})}),
           mc("three participants", NParts=3, Sizes={1}, Diffs={F(), F({"A"}), F({"B"}), F({"C"})})]
    if c.thorough:
        mcs += [mc("two participants, up to three ranks, killed once", Sizes={2, 3}, GS={False}, Crashes=True, workers=4),
                mc("three participants, killed once", NParts=3, Sizes={1}, GS={False}, Crashes=True),
                mc("three participants with up to two ranks", NParts=3, Dirs={True}, GS={True}),
                mc("four participants", NParts=4, Sizes={1}, GS={True}, Dirs={True})]
    bg = Background(mcs, 1)
    g = dict(Sizes={1, 2, 3}, NParts={2, 3, 4}, Faults={"none"})
    groups = [(g, 90, "gate"), (g, 70, "jitter"),
              (dict(g, NParts={2}, Sizes={2, 3}), 40, "gate"),
              (dict(g, NParts={2, 3}, Faults={"crash"}), 50, "gate"),
              (dict(g, NParts={2}, Sizes={1, 2}, Faults={"crash"}), 50, "gate"),
              (dict(g, NParts={2, 3}, Faults={"differ"}), 40, "gate"),
              (dict(g, NParts={2}, Faults={"differ"}), 30, "jitter")]
    sims = [Sim("ConnectGen", [(k, q * n, SEED * 100 + i)], spec="GSpec") for i, (k, q, m) in enumerate(groups)]
    runner = build()
    scs = []
    for i, s in enumerate(sims):
        behs, states = s.collect()
        c.states += states
        for k, b in enumerate(behs):
            sc = connect.scenario(b, rng("N01", i, k), groups[i][2])
            out = [o for l in b["out"].values() for o in l]
            c.count("%s: %s" % (b["cfg"]["fault"], "all connect" if set(out) == {"ok"} else "some must refuse" if "err" in out else "others"))
            scs.append(sc)
            if k % 20 == 0:
                c.sample(dict(size=b["cfg"]["size"], links=b["cfg"]["links"], steps=["%s%d %s" % tuple(x) for x in b["log"]], outcome=b["out"]))
    log("%d scenarios" % len(scs))
    c.replay(scs, runner)
    gated = [s for s in scs if s.mode == "gate"]
    c.count("schedules that were followed exactly", sum(1 for s in gated if s.followed))
    c.count("schedules", len(gated))
    bg.collect(c)
    return ["schedules are sampled by TLC simulation (seeded) and enforced at the calls that create, publish, read and remove connection files and connect sockets",
            "all processes are killed together; runs after that are judged if the schedule was followed; processes that wait for a failed one are not judged",
            "socket communication without two-level initialization"]


if __name__ == "__main__":
    common.main("N01", run)
