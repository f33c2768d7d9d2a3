"""Binds behaviours of DeadGen.tla: one participant (or one of its ranks) ends before the coupling does."""
from . import coupling
from .common import Proc, any_state, eq

WAIT = 15000


class Dead:
    def __init__(self, beh, rng):
        self.rng = rng
        self.part = next(p for p, t in beh["tr"].items() if any(x["op"] == "die" for x in t))
        t = [x["op"] for x in beh["tr"][self.part]]
        # inside of a call
        self.mid = t[t.index("die") - 1] == "adv"
        self.alive = [p for p, t in beh["tr"].items() if p != self.part]
        self.lines = {}     # participant -> calls that have to fail on one rank at least

    def start(self, plan):
        n = plan.size[self.part]
        self.plan = plan
        self.ranks = list(range(n)) if self.rng.random() < .5 else [self.rng.randrange(n)]
        kinds = ["die", "quit"] + (["fin", "del"] if len(self.ranks) == n else [])
        self.kind = "die" if self.mid else self.rng.choice(kinds)
        # participants that were not told about the death because they had ended are not waited for
        self.ready = []

    def prepare(self, plan, p, rank, tr):
        """places the marks such that they precede the call during which the death happens"""
        ops = [x["op"] for x in tr]
        if "die" in ops:
            k = ops.index("die")
            if self.mid:
                return tr[:k - 1] + [{"op": "killed"}, tr[k - 1]]
            return tr[:k + 1]
        k = ops.index("dead")
        if ops[k - 1] in ("init", "adv"):
            at = k - 1
            return tr[:at] + [{"op": "blocked"}, tr[at]] + tr[k + 1:]
        return tr

    def survivors(self):
        return [(q, r) for q in self.alive for r in range(self.plan.size[q])]

    def mark(self, plan, p, rank, pr, op, last, nxt):
        rng = self.rng
        if op == "dead":
            pr.add("touch ready.%s%d" % (p, rank))
            pr.add("waitfor dead %d" % WAIT, eq(1))
            return True
        if op == "blocked":
            pr.add("touch ready.%s%d" % (p, rank))
            return True
        here = rank in self.ranks
        if op == "killed":
            pr.add("pid pid.%d" % rank)
            if here:
                pr.ends = (len(pr.lines), "sig:9")
            return True
        # dies between two calls
        for q, r in self.survivors():
            pr.add("waitfor ready.%s%d %d" % (q, r, WAIT), eq(1))
        if not here:
            pr.add("waitfor dead %d" % WAIT, eq(1))
            pr.add("on", eq(last["on"]))
            pr.add("advmax" if last["on"] else "fin", any_state)
            return True
        others = [r for r in range(plan.size[p]) if r not in self.ranks]
        if self.kind in ("fin", "del"):
            pr.add("touch dead")
            pr.add(self.kind, any_state)
        elif self.kind == "quit":
            pr.add("touch dead")
            pr.ends = (len(pr.lines), "exit:0")
            pr.add("quit")
        else:
            pr.add("touch dead")
            pr.ends = (len(pr.lines), "sig:9")
            pr.add("die")
        return True

    def partial(self):
        return len(self.ranks) < self.plan.size[self.part]

    def must(self, p, rank, pr):
        if self.plan.size[p] == 1:
            return coupling.fails
        self.lines.setdefault(p, []).append((pr, len(pr.lines)))
        return any_state

    def more(self, p, rank, pr):
        """the other ranks of the victim may have sent everything of the pending call before they noticed"""
        if self.partial():
            if self.plan.size[p] == 1:
                self.lines.setdefault(p, []).append((pr, len(pr.lines) - 1))
                pr.expect[-1] = any_state
            for k in range(3):
                pr.add("advmax", any_state)

    def helper(self):
        """ends a process inside of a call"""
        h = Proc("X", 0, 1)
        for r in range(self.plan.size[self.part]):
            h.add("waitfor pid.%d %d" % (r, WAIT), eq(1))
        for q, r in self.survivors():
            h.add("waitfor ready.%s%d %d" % (q, r, WAIT), eq(1))
        h.add("slp 250")
        for r in self.ranks:
            h.add("killpid pid.%d" % r)
        h.add("touch dead")
        return h

    def post(self, sc):
        for p, l in self.lines.items():
            states = []
            for pr, k in l:
                res = sc.results(pr)
                states.append("ok" if len(res) > k and all(x[1] == "ok" for x in res[k:]) else "err")
            if len(states) == self.plan.size[p] and all(s == "ok" for s in states):
                return ["%s: no rank reported the end of its partner (line %d)" % (p, l[0][1])]
        return []


def scenario(beh, rng, opts=None):
    """None if nobody died"""
    if not any(x["op"] == "die" for t in beh["tr"].values() for x in t):
        return None
    d = Dead(beh, rng)
    b = dict(beh, dead=d)
    sc = coupling.scenario(b, rng, opts, timeout=25.0)
    for pr in sc.procs:
        if not getattr(pr, "ends", None):
            pr.ends = "abort"   # errors in destructors
    if d.mid:
        sc.procs.append(d.helper())
    sc.info = beh
    sc.post = d.post
    sc.kind = ("inside of a call" if d.mid else d.kind) + (", one rank" if d.partial() else "")
    return sc
