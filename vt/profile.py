"""Binds behaviours of ProfileGen.tla: sequences of calls and user sections, and the record files they leave."""
import json
import os
import re

from .common import Proc, Scenario, eq, near
from .coupling import PROLOGUE

NAMES = ["s", "a:b", "", "two words", "advance", "N0:x", "solver.advance", "_GLOBAL", "E5:7", "\u00fcn\u00ef", "{\"x\":1}", "initialize", "section.with.dots", "7"]
FIXED = {"_GLOBAL", "construction", "solver.initialize", "initialize", "solver.advance", "advance", "finalize", "configure", "readConfiguration"}
T = 6
MODES = ["off", "fundamental", "api", "all"]


def esc(s):
    return "".join("%%%02x" % b if b <= 32 or b in b"%" else chr(b) for b in s.encode()) if s.isascii() else "".join(
        "%%%02x" % b if b <= 32 or b >= 127 or b == 37 else chr(b) for b in s.encode())


def rejected(state, pay):
    return None if state == "err" else "state %s %s, expected an error" % (state, pay[:100])


rejected.illegal = True


class Setting:
    def __init__(self, i, mode, rng):
        self.i, self.mode = i, mode
        self.limit = rng.choice([0, 1, 1, 2, 3, 5, 10, 50, None])
        self.dir = rng.choice([None, ".", "prof", "deep/prof"]) if i == 0 else rng.choice(["p%d", "deep/q%d"]) % i
        self.sync = rng.random() < 0.35
        self.explicit = mode != "fundamental" or rng.random() < 0.5

    def tag(self):
        a = ' mode="%s"' % self.mode if self.explicit else ""
        a += ' flush-every="%d"' % self.limit if self.limit is not None else ""
        a += ' directory="%s"' % self.dir if self.dir is not None else ""
        a += ' synchronize="true"' if self.sync else ""
        return "<profiling%s/>" % a if a or self.i % 2 else ""

    def path(self, base):
        return os.path.normpath(os.path.join(base, self.dir or ".", "precice-profiling"))


def xml(st, sizes):
    x = [PROLOGUE % ("false", st.tag())]
    x += ['<data:scalar name="%s"/>' % d for d in ("DA", "DB")]
    x += ['<mesh name="M%s" dimensions="2"><use-data name="DA"/><use-data name="DB"/></mesh>' % p for p in "AB"]
    ic = {p: "<intra-comm:sockets exchange-directory=\"i%d\"/>" % st.i if sizes[p] > 1 else "" for p in "AB"}
    x.append('<participant name="A"><provide-mesh name="MA"/><write-data name="DA" mesh="MA"/><read-data name="DB" mesh="MA"/>%s</participant>' % ic["A"])
    x.append('<participant name="B"><provide-mesh name="MB"/><receive-mesh name="MA" from="A"/><write-data name="DB" mesh="MB"/><read-data name="DA" mesh="MB"/>'
             '<mapping:nearest-neighbor direction="read" from="MA" to="MB" constraint="consistent"/>'
             '<mapping:nearest-neighbor direction="write" from="MB" to="MA" constraint="conservative"/>%s</participant>' % ic["B"])
    x.append('<m2n:sockets acceptor="B" connector="A" exchange-directory="x%d"/>' % st.i)
    x.append('<coupling-scheme:parallel-explicit><participants first="A" second="B"/><max-time-windows value="%d"/><time-window-size value="1"/>'
             '<exchange data="DA" mesh="MA" from="A" to="B"/><exchange data="DB" mesh="MA" from="B" to="A"/></coupling-scheme:parallel-explicit></precice-configuration>' % st.windows)
    return "\n".join(x)


class Run:
    """One behaviour of one process under one setting."""

    def __init__(self, beh, part, rank, size, st, names, rng):
        self.beh, self.part, self.rank, self.size, self.st = beh, part, rank, size, st
        self.mine = [i for i in range(T) if i % size == rank]
        self.names = names
        self.rng = rng
        self.sent = {}        # window -> base of the values
        n, on = 0, False
        for o in beh["ops"]:
            on = on or o["op"] == "init" and o["ok"]
            if o["op"] == "call" and o["x"].startswith("writeData"):
                n += 1
                if on:
                    self.sent[o["adv"]] = (1000 if part == "A" else 5000) + 10 * n + 100 * rank
        self.dead = beh["dead"]

    def mesh(self):
        return "M" + self.part

    def real(self, n):
        """name of the section or call that the behaviour calls n"""
        if n in self.names:
            return self.names[n]
        r = "B" if self.part == "A" else "A"
        return n.replace(".M", "." + self.mesh()).replace("_W", "_D" + self.part).replace("_R", "_D" + r) + (self.mesh() if n == "meshSize" else "")

    def expected(self):
        """records of this run: (kind, name)"""
        out = []
        for v in self.beh["vis"][self.st.mode]:
            if v["n"] == "internal":
                continue
            out.append((v["k"], self.real(v["n"])))
            if out[-1] == ("B", "solver.initialize") and self.st.mode in ("api", "all") and len(out) < 9:
                out += [("B", self.real("setMeshVertices.M")), ("E", self.real("setMeshVertices.M"))]
        return out

    def script(self, pr, runs):
        m, st, r = self.mesh(), self.st, self.rng
        other = "B" if self.part == "A" else "A"
        partners = {q.rank: q for q in runs if q.part == other}
        pr.add("new c%d.xml" % st.i)
        pr.add("cont 1")
        self.nv = len(self.mine)
        pr.add("mv %s %d %s %d" % (m, 2 * self.nv, " ".join("%d 0" % i for i in self.mine), self.nv), eq(list(range(self.nv))))
        n, sleeps = 0, []
        for o in self.beh["ops"]:
            k, x = o["op"], o["x"]
            if k == "start":
                pr.add("sp " + (esc(self.names[x]) or "%"))
                if r.random() < 0.2:
                    pr.add("slp 4")
            elif k == "stop":
                pr.add("ep", None if o["ok"] else rejected)
            elif k == "slash":
                pr.add("sp " + r.choice(["a/b", "/", "a/", "/b"]), rejected)
            elif k in ("init", "adv"):
                pr.add("init" if k == "init" else "adv 1", None if o["ok"] else rejected)
            elif k == "late":
                pr.add("wd %s D%s %d %s %d %s" % (m, self.part, len(self.mine), " ".join(map(str, range(len(self.mine)))), len(self.mine), " ".join("1" for i in self.mine)), rejected)
            elif k == "fin":
                pr.add("fin")
            elif k == "die":
                pr.add("touch died%d" % st.i)
                pr.add("die")
                return
            elif x.startswith("setMeshVertex."):
                pr.add("mv1 %s 2 %d %d" % (m, r.randint(0, 9), r.randint(1000, 1010)), eq([self.nv]))
                self.nv += 1
            elif x.startswith("setMeshVertices."):
                q = r.randint(0, 3)
                pr.add("mv %s %d %s %d" % (m, 2 * q, " ".join("%d %d" % (r.randint(0, 9), r.randint(1000, 1010)) for _ in range(q)), q), eq(list(range(self.nv, self.nv + q))))
                self.nv += q
            elif x.startswith("writeData"):
                n += 1
                b = (1000 if self.part == "A" else 5000) + 10 * n + 100 * self.rank
                pr.add("wd %s D%s %d %s %d %s" % (m, self.part, len(self.mine), " ".join(map(str, range(len(self.mine)))), len(self.mine), " ".join(str(b + i) for i in self.mine)))
            elif x.startswith("readData"):
                w = o["adv"] - 1
                v = [0.0 if w < 0 or w not in partners[i % len(partners)].sent else partners[i % len(partners)].sent[w] + i for i in self.mine]
                last = o["adv"] == self.beh["todo"]
                pr.add("rd %s D%s %d %s 0 %d" % (m, other, len(self.mine), " ".join(map(str, range(len(self.mine)))), len(self.mine)), near(v))
        pr.add("del")

    def where(self, base):
        return os.path.join(self.st.path(base), "%s-%d-%d.txt" % (self.part, self.rank, self.size))

    def judge(self, base, keep):
        f = self.where(base)
        at = "%s rank %d of %d, setting %d (mode %s, flush-every %s): " % (self.part, self.rank, self.size, self.st.i, self.st.mode, self.st.limit)
        if self.st.mode == "off":
            return [at + "there is a file although profiling is off"] if os.path.exists(self.st.path(base)) else []
        if not os.path.exists(f):
            return [at + "there is no file %s" % os.path.relpath(f, base)]
        try:
            recs = parse(f, self)
        except ValueError as e:
            return [at + str(e)]
        want = self.expected()
        vis = FIXED | {n for k, n in want if k != "D"} | {self.real(v["n"]) for v in self.beh["vis"]["api"] if v["k"] != "D"} | {self.real("setMeshVertices.M")} | set(self.names.values())
        got = [(k, n) for k, n, t, d in recs if n.startswith("meshSize") or n in vis and k != "D"]
        keep[self.st.mode] = [(k, n) for k, n, t, d in recs if not n.endswith(".sync")]
        sizes = [d for k, n, t, d in recs if k == "D" and n == "meshSize" + self.mesh()]
        if not self.dead:
            if got != want:
                i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                return [at + "record %d is %s, expected %s" % (i, got[i:i + 1], want[i:i + 1])]
            if self.beh["todo"] >= 0 and sizes != [self.nv]:
                return [at + "mesh size %s recorded, expected %d" % (sizes, self.nv)]
            return []
        if got != want[:len(got)]:
            i = next(i for i in range(len(got)) if got[i:i + 1] != want[i:i + 1])
            return [at + "record %d is %s, expected %s" % (i, got[i:i + 1], want[i:i + 1])]
        limit = 50 if self.st.limit is None else self.st.limit
        tail = 0
        while tail < len(want) and want[-1 - tail][0] == "B":
            tail += 1
        if limit > 0 and len(want) - len(got) > limit + tail:
            return [at + "%d of %d records are missing after the process died" % (len(want) - len(got), len(want))]
        if limit == 0 and recs:
            return [at + "records were written before the end"]
        return []


LINE = re.compile(r"N(\d+):(.*)|([BE])(\d+):(\d+)|D(\d+):(\d+):(\d+):(-?\d+)")


def parse(f, run):
    """records (kind, name, time, value) of a file; checks everything a reader relies on"""
    with open(f, encoding="utf-8") as h:
        text = h.read()
    head, _, body = text.partition("\n")
    try:
        meta = json.loads(head)
    except ValueError:
        raise ValueError("the first line is no JSON object: %s" % head[:80])
    want = run.st and {"name": run.part, "rank": run.rank, "size": run.size, "mode": run.st.mode, "compression": False}
    for k, v in (want or {}).items():
        if meta.get(k) != v:
            raise ValueError("%s is %r in the header, expected %r" % (k, meta.get(k), v))
    for k in ("unix_us", "tinit", "file_version"):
        if k not in meta:
            raise ValueError("no %s in the header" % k)
    names, out, stack, now = {}, [], [], 0
    lines = body.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    for l in lines:
        m = LINE.fullmatch(l)
        if not m:
            raise ValueError("unknown record %s" % l[:60])
        if m.group(1) is not None:
            if m.group(1) in names or m.group(2) in names.values():
                raise ValueError("name %s is defined twice" % l)
            names[m.group(1)] = m.group(2)
            continue
        k, e, t = (m.group(3), m.group(4), int(m.group(5))) if m.group(3) else ("D", m.group(6), int(m.group(7)))
        if e not in names or k == "D" and m.group(8) not in names:
            raise ValueError("record %s uses a name that is not defined" % l)
        if t < now:
            raise ValueError("record %s is before its predecessor (%d)" % (l, now))
        now = t
        if k == "D":
            if not stack or stack[-1] != e:
                raise ValueError("data %s outside of its section" % l)
            out.append(("D", names[m.group(8)], t, int(m.group(9))))
            continue
        if k == "B":
            stack.append(e)
        elif not stack or stack[-1] != e:
            raise ValueError("%s ends but %s is open" % (names[e], names[stack[-1]] if stack else "nothing"))
        else:
            stack.pop()
        out.append((k, names[e], t, None))
    if stack and not run.dead:
        raise ValueError("not ended: %s" % ", ".join(names[e] for e in stack))
    return out


def part_of(a, b):
    it = iter(b)
    return all(x in it for x in a)


def scenario(behs, sizes, rng, modes=None, chain=None):
    """behs: {(participant, rank): behaviour} with the same number of windows"""
    todo = next(iter(behs.values()))["todo"]
    dead = [k for k, b in behs.items() if b["dead"]]
    modes = modes or rng.sample(MODES, rng.choice([1, 2, 3, 4]))
    chain = (rng.random() < 0.5 if chain is None else chain) and not dead
    sets = [Setting(i, m, rng) for i, m in enumerate(modes)]
    for s in sets:
        s.windows = max(todo, 1)
        # without a common window no partner is needed
    secs = sorted({o["x"] for b in behs.values() for o in b["ops"] if o["op"] == "start"})
    names = dict(zip(secs, rng.sample(NAMES, len(secs))))
    sc = Scenario("", 40.0, info=dict(todo=todo, sizes=sizes, settings=[s.tag() for s in sets], behaviours={"%s%d" % k: [o["op"] + " " + o["x"] for o in b["ops"]] for k, b in behs.items()}))
    for s in sets:
        sc.xmls["c%d.xml" % s.i] = xml(s, sizes)
    runs = [[Run(b, p, k, sizes[p], s, names, rng) for (p, k), b in sorted(behs.items())] for s in sets]
    procs = {}
    for s, rs in zip(sets, runs):
        for r in rs:
            key = (r.part, r.rank) if chain else (r.part, r.rank, s.i)
            if key not in procs:
                procs[key] = Proc(r.part, r.rank, r.size, name="%s%d_%d" % (r.part, r.rank, 0 if chain else s.i))
                sc.procs.append(procs[key])
                if dead:
                    procs[key].unjudged = True
                    if (r.part, r.rank) not in dead:
                        procs[key].add("alarm 4")
            r.script(procs[key], rs)
    sc.soft = True
    sc.dead, sc.runs, sc.complete = dead, runs, 0

    def post(s):
        bad, logs = [], {}
        for rs in runs:
            for r in rs:
                if r.dead != bool(dead):
                    continue
                if r.dead and not os.path.exists(os.path.join(s.dir, "died%d" % r.st.i)):
                    continue
                bad += r.judge(s.dir, logs.setdefault((r.part, r.rank, r.st.sync), {}))
                sc.complete += 1
        for (p, k, y), d in logs.items():
            order = [m for m in MODES[1:] if m in d]
            for a, b in zip(order, order[1:]):
                if not dead and not part_of(d[a], d[b]):
                    bad.append("%s rank %d: the records of mode %s are no part of those of mode %s" % (p, k, a, b))
        return bad
    sc.post = post
    return sc


def scenarios(behs, deaths, rng, n):
    """up to n scenarios that combine behaviours with the same number of windows"""
    groups = {}
    for b in behs:
        groups.setdefault(b["todo"], []).append(b)
    out = []
    deaths = list(deaths)
    while len(out) < n:
        d = deaths.pop() if deaths else None
        todo = d["todo"] if d else rng.choice(sorted(groups))
        if not groups.get(todo):
            groups.pop(todo, None)
            if not groups:
                break
            continue
        sizes = {p: rng.choice([1, 1, 2, 3]) for p in "AB"}
        keys = [(p, k) for p in "AB" for k in range(sizes[p])]
        if len(groups[todo]) < len(keys):
            groups.pop(todo)
            if not groups:
                break
            continue
        chosen = {k: groups[todo].pop() for k in keys}
        if d:
            chosen[rng.choice(keys)] = d
        out.append(scenario(chosen, sizes, rng))
    return out


def tags(rng, sync=None):
    s = Setting(1, rng.choice(["fundamental", "api", "all", "all"]), rng)
    s.dir = None
    s.sync = rng.random() < 0.5 if sync is None else sync
    return s.tag()


def crossing(cfg):
    """data goes between two participants of a multi coupling that are both not its controller"""
    return any(s["kind"] == "MI" and any(e["s"] == i + 1 and s["b"] not in (e["from"], e["to"]) for e in cfg["ex"]) for i, s in enumerate(cfg["sch"]))


class Any:
    st, dead = None, False


def wellformed(sc):
    """adds the judgement of all record files to a scenario of another specification"""
    def post(s):
        d = os.path.join(s.dir, "precice-profiling")
        bad = old(s) if old else []
        for p in s.procs:
            f = os.path.join(d, "%s-%d-%d.txt" % (p.part, p.rank, p.size))
            if not os.path.exists(f):
                bad = bad + ["no file %s" % os.path.basename(f)]
                continue
            try:
                if not parse(f, Any):
                    bad = bad + ["no records in %s" % os.path.basename(f)]
            except ValueError as e:
                bad = bad + ["%s: %s" % (os.path.basename(f), e)]
        sc.complete = len(s.procs)
        return bad
    old, sc.complete = sc.post, 0
    sc.post = post
    return sc
