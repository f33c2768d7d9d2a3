"""O02: every rank records its sections completely and properly nested, and recording changes nothing."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import common, coupling, profile
from vt.common import SEED, Background, Sim, build, log, rng

INVS = ["NestInv", "BalanceInv", "NamesInv", "CompleteInv", "SubsetInv", "DeathInv"]
M = {"off", "fundamental", "api", "all"}


def mc(name, workers=2, **consts):
    k = dict(Modes=M, Limits={0, 1, 2, 5}, Sections={"s", "t"}, Depth=2, MaxOps=3, Advances={0, 1, 2}, Deaths=True)
    return (name, dict(module="Profile", consts=dict(k, **consts), spec="Spec", invs=INVS, workers=workers, timeout=6000, extra="VIEW View\n"))


def run(c):
    n = 8 if c.thorough else 1
    mcs = [mc("four modes, four queue limits")]
    if c.thorough:
        mcs += [mc("six calls", MaxOps=6, Sections={"s"}, Limits={1, 3}), mc("four calls", MaxOps=4, Limits={0, 1, 2, 3, 4, 7}, Advances={0, 1, 2, 3}),
                mc("deep sections", MaxOps=6, Sections={"s"}, Limits={2}, Depth=3, Modes={"api", "all"})]
    bg = Background(mcs, 1)
    g = dict(Modes={"all"}, Limits={1}, Sections={"s", "t", "u"}, Depth=4, MaxOps=25, Advances={0, 1, 2, 3, 4}, Deaths=False)
    sims = [Sim("ProfileGen", [(g, 1100 * n, SEED * 10)], spec="GSpec"), Sim("ProfileGen", [(dict(g, MaxOps=90, Depth=6, Sections={"s", "t", "u", "v", "w"}), 150 * n, SEED * 10 + 1)], spec="GSpec"),
            Sim("ProfileGen", [(dict(g, Deaths=True), 60 * n, SEED * 10 + 2)], spec="GSpec"),
            Sim("CouplingGen", [(dict(coupling.GEN, Sizes={2, 3}, Topos={"bi", "chain", "multi"}, NData={1}, Degs={1}), 90 * n, SEED * 10 + 3)], spec="GSpec")]
    runner = build()
    behs = []
    for s in sims:
        b, states = s.collect()
        behs.append(b)
        c.states += states
    scs = profile.scenarios(behs[0], [], rng("O02", 0), 400 * n) + profile.scenarios(behs[1], [], rng("O02", 1), 50 * n)
    scs += profile.scenarios(behs[0], [b for b in behs[2] if b["dead"]], rng("O02", 2), 30 * n)
    for b in behs[0][:2]:
        c.sample([o["op"] + " " + o["x"] for o in b["ops"]])
    cpl = []
    for i, b in enumerate(behs[3]):
        if "stuck" in b or any(x["op"] == "err" for t in b["tr"].values() for x in t):
            continue
        cross = profile.crossing(b["cfg"])
        hangs = cross and not any(x.label for x in cpl)
        s = coupling.scenario(b, rng("O02", 3, i), dict(dict(ranks=(1, 2, 3), filters=True, only=["read", "write"]) if i % 2 and not hangs else {}, profiling=lambda r: profile.tags(r, hangs if cross else None)), 12.0 if hangs else 40.0)
        s.label = "O02-sync" if hangs else None
        cpl.append(profile.wellformed(s))
    log("%d scenarios" % len(scs + cpl))
    c.replay(scs + cpl, runner)
    for s in scs:
        c.count("deaths" if s.dead else "runs of calls and sections")
    c.count("record files judged against the specification", sum(s.complete for s in scs))
    c.count("coupled runs with profiling", len(cpl))
    c.count("record files of coupled runs", sum(s.complete for s in cpl))
    bg.collect(c)
    return ["behaviours are sampled by TLC simulation (seeded), the exhaustive part is bounded as given in the notes",
            "section names without line breaks; one participant at a time per process"]


if __name__ == "__main__":
    common.main("O02", run)
