"""M02: the results do not depend on how participants distribute their meshes over ranks."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import accel, common, coupling, mapping, partition
from vt.common import SEED, Background, Proc, Scenario, Sim, build, eq, log, rng

INVS = ["ValueInv", "TransparentInv", "SumInv", "LoadInv", "OwnInv", "ErrorInv", "NoErrorInv"]
MC = dict(Gen=False, Xs={0, 1, 3}, Ys={0}, Filters={"none", "primary", "secondary"}, Safeties={0, 1, 2}, Levels={1, 2})
GEN = dict(Gen=True, Xs={0, 1, 2, 3, 4, 5}, Ys={0, 1, 2, 3}, NP={3, 5, 8}, NR={2, 4, 7}, PR={1, 2, 3}, RR={1, 2, 3, 4},
           Filters={"none", "primary", "secondary"}, Safeties={0, 1, 2, 20}, Levels={1})
TWO = dict(GEN, Levels={2}, NP={8}, NR={7, 9}, PR={2, 3}, RR={2})
MAP = dict(Gen=True, Dims={2, 3}, Modes={"nn", "np", "cell"}, Shapes={"soup", "flat", "grid"}, L=4, NS={1, 3, 4, 6, 7}, NE={0, 1, 2, 3, 4}, NT={3, 4})
RBF = dict(MAP, Modes={"nn"}, NS={3, 4, 6, 7, 9, 11, 14}, NT={5})
ACC = dict(Gen=True, Kinds={"SI", "PI", "MI"}, MaxWin=4, MaxIt=5, Reused={0, 1, 2}, MaxUsed={2, 3, 9}, Force={True, False}, Rows=20)


def shared(kind):
    """Two ranks use the same received vertex: its value is measured twice (known finding)."""
    one, two = kind == "serial", kind != "serial"
    sc = Scenario("\n".join([
        coupling.PROLOGUE % ("false", '<profiling mode="off"/>'),
        '<data:scalar name="F"/><data:scalar name="G"/>' + "".join('<mesh name="M%s" dimensions="2"><use-data name="F"/><use-data name="G"/></mesh>' % q for q in "AB"),
        '<participant name="A"><provide-mesh name="MA"/><write-data name="F" mesh="MA"/><read-data name="G" mesh="MA"/></participant>',
        '<participant name="B"><provide-mesh name="MB"/><receive-mesh name="MA" from="A" geometric-filter="no-filter"/><read-data name="F" mesh="MB"/><write-data name="G" mesh="MB"/>',
        '<mapping:nearest-neighbor direction="read" from="MA" to="MB" constraint="consistent"/>',
        '<mapping:nearest-neighbor direction="write" from="MB" to="MA" constraint="conservative"/>' + ("<intra-comm:sockets/>" if two else ""),
        '</participant><m2n:sockets acceptor="A" connector="B"/>',
        '<coupling-scheme:serial-implicit><participants first="A" second="B"/><time-window-size value="1"/><max-time-windows value="1"/>',
        '<max-iterations value="2"/><exchange data="F" mesh="MA" from="A" to="B" substeps="false"/><exchange data="G" mesh="MA" from="B" to="A"/><absolute-convergence-measure data="F" mesh="MA" limit="4"/>',
        "</coupling-scheme:serial-implicit></precice-configuration>", ""]), 15.0, info={"shared": kind})
    a = Proc("A", 0, 1)
    bs = [Proc("B", r, 2 if two else 1) for r in range(2 if two else 1)]
    sc.procs = [a] + bs
    for p in sc.procs:
        p.add("new c.xml")
        if p is a:
            p.add("mv1 MA 2 0.0 0.0")
        else:
            for x in ((0.0, 0.5) if one else (0.5 * p.rank,)):
                p.add("mv1 MB 2 %s 0.0" % x)
        p.add("init")
        p.add("wc", eq(1))
        if p is a:
            p.add("wd MA F 1 0 1 3.0")
        p.add("adv 1.0")
        p.add("rc", eq(0))
        p.add("on", eq(0))
        p.add("fin")
    return sc


def run(c):
    n = 12 if c.thorough else 1
    mcs = [("repartitioning", dict(module="Partition", consts=dict(MC, NP={2}, NR={2}, PR={2}, RR={2}), spec="Spec", invs=INVS, workers=3))]
    if c.thorough:
        mcs += [("repartitioning, more ranks", dict(module="Partition", consts=dict(MC, NP={2, 3}, NR={3}, PR={1, 2}, RR={1, 2}), spec="Spec", invs=INVS, workers=4, timeout=1800))]
    bg = Background(mcs, 1)
    gens = [("Partition", GEN, 220), ("Partition", TWO, 50), ("Mapping", MAP, 130), ("Mapping", RBF, 50)]
    sims = [Sim(m, [(k, q * n, SEED * 100 + i)], spec="Spec") for i, (m, k, q) in enumerate(gens)]
    accs = [(a, Sim("Accel", [(dict(ACC, Accs={a}), q * n, SEED * 100 + 50 + k)], spec="Spec")) for k, (a, q) in enumerate([("relax", 15), ("aitken", 30), ("ils", 60)])]
    runner = build()
    scs, lost = [], []
    for i, s in enumerate(sims):
        behs, states = s.collect()
        c.states += states
        c.sample({"module": gens[i][0], "behaviour": behs[0]})
        for k, b in enumerate(behs):
            r = rng("M02", i, k)
            if i < 2:
                if b["lost"] and (i == 1 or len(lost) >= 20 * n):
                    c.count("behaviours with ranks without any vertex, not replayed")
                    continue
                x = partition.scenario(b, r)
                (lost if b["lost"] else scs).append(x)
                c.count("repartitioning" + (", lost ranks" if b["lost"] else ", two-level" if i else ""))
                continue
            ra, rb = r.choice([(1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (1, 3), (3, 1)])
            o = dict(ranks=(ra, rb), noscaled=True, m2n=r.choice(["", ' enforce-gather-scatter="true"']))
            if ra > 1:
                o["where"] = ("B", "B")
            if i == 3:
                b["elems"], b["telems"] = [], []
            try:
                scs.append((mapping.project if i == 2 else mapping.rbf)(b, r, o))
                c.count(gens[i][0] + (" projection" if i == 2 else " radial basis functions"))
            except mapping.Skip as e:
                c.count("skipped (%s)" % e)
    for a, s in accs:
        behs, states = s.collect()
        c.states += states
        res, counts = accel.scenarios(behs, lambda *x, a=a: rng("M02", a, *x), {"ranks": (1, 2, 3)})
        c.count("acceleration " + a, len(res))
        scs += res
    log("%d scenarios" % (len(scs) + len(lost)))
    c.replay(scs + lost, runner)
    if not c.violations:
        k = shared("parallel")
        k.label = "M02-shared-norm"
        c.replay([shared("serial"), k], runner)
    bg.collect(c)
    notes = coupling.conformance(c, [(110 * n, dict(Degs={0, 1}, NData={1, 2}), dict(ranks=(1, 2, 3), filters=True, only=["read", "write"]))], [])
    return notes + ["boxes, filters and safety factors are specified on a lattice; connections are sockets (no multi-rank MPI)",
                    "two-level initialization is replayed with two ranks that receive (documented as beta; more of them cannot use sockets between ranks)",
                    "the partner of a rank that fails while repartitioning may wait for it to connect and is not judged"]


common.main("M02", run)
