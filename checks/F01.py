"""F01: a configuration is accepted exactly if it follows the documented structure and rules; what is accepted runs."""
import json
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor

from vt import config
from vt.common import SEED, Sim, build, log, rng, tlc_exhaustive

TEMPLATES = ["aitken", "chain", "direct", "ils", "multi", "remesh", "serial"]


def behaviours(out):
    return [json.loads(l[3:-1].replace('\\"', '"').replace('\\\\', '\\')) for l in out.splitlines() if l.startswith('"@@')]


def all_edits(t):
    x = tlc_exhaustive("ConfigGen", dict(Which={t}, Edits=1, Random=False), spec="GSpec", workers=1, timeout=1500)
    return behaviours(x["out"]), x["distinct"]


def runnable(r):
    v = r["verdict"]
    return not (v["rule"] or v["own"] or v["start"] or config.fixed_port(r["tree"]))


def run(c):
    n = 8 if c.thorough else 1
    runner = build()
    sims = [Sim("ConfigGen", [(dict(Which=set(TEMPLATES), Edits=e, Random=True), k * n, SEED * 10 + e)], depth=400, spec="GSpec") for e, k in ((2, 350), (3, 250), (4, 150), (6, 60))]
    with ThreadPoolExecutor(4) as ex:
        one = list(ex.map(all_edits, TEMPLATES))
    c.states += sum(x[1] for x in one)
    rs = [r for b, _ in one for r in b]
    for s in sims:
        b, states = s.collect()
        rs += [r for r in b if len(r["what"]) > 1]
        c.states += states
    log("%d configurations" % len(rs))
    for r in rs:
        c.count("rejected: " + r["verdict"]["rule"] if r["verdict"]["rule"] else "accepted")
    for r in rs[5:4000:997]:
        c.sample(config.describe(r))
    config.check_tool(c, rs)
    log("checked by the tool")
    if c.violations:
        return []

    # constructing participants: everything accepted, and of the rejected every kind of edit
    g = rng("F01", 1)
    acc = [r for r in rs if not r["verdict"]["rule"]]
    rej = [r for r in rs if r["verdict"]["rule"]]
    if not c.thorough:
        rej = [r for r in rej if r["verdict"]["rule"] == "structure" and g.random() < 0.12 or r["verdict"]["rule"] != "structure" and g.random() < 0.6]
    scs = [config.acceptance(r) for r in rej + [r for r in acc if not runnable(r)]]
    c.count("configurations loaded by every participant", len(scs))
    c.replay(scs, runner)
    log("loaded")
    if c.violations:
        return []

    # what is accepted runs; the unedited configurations first
    base = {}
    first = [r for r in acc if len(r["what"]) == 1]
    scs = [config.run(r) for r in first]
    c.replay(scs, runner)
    for r, s in zip(first, scs):
        base[r["what"][0]] = s.digest
    scs, odd = [], {}
    for r in acc:
        if len(r["what"]) == 1 or not runnable(r):
            continue
        o = r["verdict"]["odd"]
        if o and len(r["what"]) > 2:
            odd[o] = odd.get(o, 0) + 1
            if odd[o] > 2:
                continue
        scs.append(config.run(r, base[r["what"][0]] if len(r["what"]) == 2 and r["what"][1].startswith("default ") else None))
    c.replay(scs, runner)
    c.count("accepted configurations run", len(scs))
    c.count("completed runs", sum(s.complete for s in scs))
    c.count("runs cut off", sum(getattr(s, "capped", 0) for s in scs))
    return ["configurations one edit away from seven templates exhaustively, two to six edits sampled by TLC simulation (seeded)",
            "build without MPI, PETSc, Python and Ginkgo; every participant has one rank; spellings of booleans not judged",
            "runs are cut off after %d advances and then not judged" % config.CAP]


if __name__ == "__main__":
    from vt import common
    common.main("F01", run)
