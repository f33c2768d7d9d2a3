"""Binds behaviours of ConnectGen.tla: processes that connect in given orders, are killed, started again or differ in their configuration."""
import os
import struct

from .common import Proc, Scenario, eq, judge_lines, near
from .coupling import PROLOGUE


def fails(last):
    """the process must end with an error: at the latest in its line last"""
    def chk(state, pay):
        if state not in ("ok", "err"):
            return "state %s %s, expected an error" % (state, pay[:200])
        if state == "ok" and last:
            return "succeeded, expected an error"
        return None
    return chk


class Plan:
    def __init__(self, beh, rng):
        self.cfg, self.rng = beh["cfg"], rng
        r = rng
        self.links = []
        tags = sorted(r.sample("KLMNOPQR", len(self.cfg["links"])))
        tags = {i: tags[n] for n, i in enumerate(self.cfg["order"])}
        for i, l in enumerate(self.cfg["links"]):
            prov, recv = l["p"], l["r" if l["p"] == l["a"] else "a"]
            self.links.append(dict(l, prov=prov, recv=recv, src=tags[i + 1] + "-Src", dst=tags[i + 1] + "-Dst", data="V" + tags[i + 1], n=r.randint(3, 6), base=1000.0 * (i + 1),
                                   dir=r.choice([None, None, ".", "ex", "deep/x%d" % i])))
        self.intra = {p: r.choice([None, "ex", "deep/in"]) for p in self.cfg["parts"]}

    def xml(self, time):
        x = [PROLOGUE % ("false", "")]
        for l in self.links:
            x.append('<data:scalar name="%s"/>' % l["data"])
        for l in self.links:
            for m in ("src", "dst"):
                x.append('<mesh name="%s" dimensions="2"><use-data name="%s"/></mesh>' % (l[m], l["data"]))
        for p in self.cfg["parts"]:
            x.append('<participant name="%s">' % p)
            mine = [l for l in self.links if p in (l["a"], l["r"])]
            for l in mine:
                x.append('<provide-mesh name="%s"/>' % l["src" if l["prov"] == p else "dst"])
            for l in mine:
                if l["recv"] == p:
                    x.append('<receive-mesh name="%s" from="%s"/>' % (l["src"], l["prov"]))
            for l in mine:
                x.append('<write-data name="%s" mesh="%s"/>' % (l["data"], l["src"]) if l["prov"] == p else '<read-data name="%s" mesh="%s"/>' % (l["data"], l["dst"]))
            for l in mine:
                if l["recv"] == p:
                    x.append('<mapping:nearest-neighbor direction="read" from="%s" to="%s" constraint="consistent"/>' % (l["src"], l["dst"]))
            if self.cfg["size"][p] > 1:
                d = self.intra[p]
                x.append("<intra-comm:sockets%s/>" % (' exchange-directory="%s"' % d if d else ""))
            x.append("</participant>")
        for l in self.links:
            at = ' exchange-directory="%s"' % l["dir"] if l["dir"] else ""
            at += ' enforce-gather-scatter="true"' if l["gs"] else ""
            x.append('<m2n:sockets acceptor="%s" connector="%s"%s/>' % (l["r"], l["a"], at))     # the participant called acceptor requests the connection
        for l in self.links:
            x.append('<coupling-scheme:parallel-explicit><participants first="%s" second="%s"/><max-time value="%d"/><time-window-size value="1"/>'
                     '<exchange data="%s" mesh="%s" from="%s" to="%s"/></coupling-scheme:parallel-explicit>' % (
                         *sorted([l["a"], l["r"]]), time, l["data"], l["src"], l["prov"], l["recv"]))
        x.append("</precice-configuration>")
        return "\n".join(x)

    def script(self, pr, kind, cfg, data):
        """kind: ok, err or any"""
        def add(line, check=None, last=False):
            pr.add(line, fails(last) if kind == "err" else check)
        p, k = pr.part, pr.rank
        n = self.cfg["size"][p]
        if kind == "any":
            pr.unjudged = True
            pr.add("alarm 3")
        add("new " + cfg)
        for l in self.links:
            if l["prov"] == p:
                l.setdefault("at", {})[k] = vs = [i for i in range(l["n"]) if i % n == k or n == 1]
            elif l["recv"] == p:
                vs = list(range(l["n"]))
            else:
                continue
            m = l["src"] if l["prov"] == p else l["dst"]
            add("mv %s %d %s %d" % (m, 2 * len(vs), " ".join("%d 0" % i for i in vs), len(vs)), eq(list(range(len(vs)))))
        add("init", None, True)
        if kind == "err":
            return
        for w in range(1, 3):
            for l in self.links:
                if l["prov"] == p:
                    vs = l["at"][k]
                    pr.add("wd %s %s %d %s %d %s" % (l["src"], l["data"], len(vs), " ".join(map(str, range(len(vs)))), len(vs), " ".join(str(l["base"] + 100 * w + i) for i in vs)))
            pr.add("adv 1")
            for l in self.links:
                if l["recv"] == p and w < 2:
                    pr.add("rd %s %s %d %s 0 %d" % (l["dst"], l["data"], l["n"], " ".join(map(str, range(l["n"]))), l["n"]),
                           near([l["base"] + 100 * w + i for i in range(l["n"])]))
        pr.add("on", eq(0))
        pr.add("fin")


def left(d):
    """connection files in a directory"""
    return [os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) if "precice-run" in r for f in fs]


def scenario(beh, rng, mode):
    """mode: gate (the steps of the behaviour in their order) or jitter (random delays at all steps)"""
    plan = Plan(beh, rng)
    cfg, log = beh["cfg"], beh["log"]
    sc = Scenario(plan.xml(2), 40.0, info=beh)
    sc.plan, sc.mode = plan, mode
    if cfg["diff"]:
        sc.xmls["c2.xml"] = plan.xml(3)
    cut = next((i for i, x in enumerate(log) if x[2] == "X"), None)
    crashed = cut is not None
    steps = log[:cut] if crashed else log
    sc.files["steps"] = "".join("%s%d %s\n" % tuple(x) for x in steps)
    names = [(p, k) for p in cfg["parts"] for k in range(cfg["size"][p])]
    everybody = all(o == "ok" for l in beh["out"].values() for o in l)
    if crashed:
        for p, k in names:
            pr = Proc(p, k, cfg["size"][p], name="%s%dx" % (p, k))
            pr.unjudged = True
            pr.add("pid %s%d.pid" % (p, k))
            pr.add("gate steps %s%d 1" % (p, k))
            plan.script(pr, "ok", "c.xml", 0)
            sc.procs.append(pr)
    for p, k in names:
        o = beh["out"][p][k]
        kind = "ok" if everybody else "err" if o == "err" or o == "lost" and len(cfg["links"]) == 1 and cfg["diff"] else "any"
        pr = Proc(p, k, cfg["size"][p], delay=0 if mode == "gate" or crashed else rng.choice([0, 0, 5, 30, 80]))
        if crashed:
            pr.add("gone %d %s" % (len(names), " ".join("%s%d.pid" % x for x in names)))
        if mode == "jitter" or crashed:
            pr.add("jitter %d" % rng.randint(1, 10 ** 6))
        else:
            pr.add("gate steps %s%d 0" % (p, k))
        plan.script(pr, kind, "c2.xml" if p in cfg["diff"] else "c.xml", 0)
        sc.procs.append(pr)
    sc.crashed = crashed
    if everybody:
        sc.post = lambda s: ["connection files are left over: %s" % left(s.dir)] if left(s.dir) else []
    sc.followed = False

    def judge(s):
        s.followed = followed(s)
        if crashed and not s.followed:
            return []
        s.judge = None
        try:
            return judge_lines(s)
        finally:
            s.judge = judge
    sc.judge = judge
    return sc


def followed(sc):
    """whether the processes took the steps of the behaviour in their order"""
    try:
        with open(os.path.join(sc.dir, "steps.mem"), "rb") as f:
            counter, broken = struct.unpack("ii", f.read(8))
    except OSError:
        return False
    return not broken and counter >= sum(1 for _ in open(os.path.join(sc.dir, "steps")))
