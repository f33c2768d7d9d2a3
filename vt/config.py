"""Binds ConfigGen.tla: configurations and the verdict on each of them."""
import collections
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import common
from .common import JOBS, Proc, Scenario, near, scratch, tail

CAP = 60


def render(tree):
    kids = collections.defaultdict(list)
    for i, n in enumerate(tree):
        kids[n["up"]].append(i + 1)

    def go(i):
        n = tree[i - 1]
        a = "".join(' %s="%s"' % (k, v.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")) for k, v in (n["at"] or {}).items())
        k = kids[i]
        return "<%s%s/>\n" % (n["tag"], a) if not k else "<%s%s>\n%s</%s>\n" % (n["tag"], a, "".join(map(go, k)), n["tag"])
    return "".join(map(go, kids[0]))


def attr(n, a, d=""):
    return (n["at"] or {}).get(a, d)


def participants(tree):
    return [i for i, n in enumerate(tree) if n["tag"] == "participant" and n["up"] == 1]


def names(tree):
    return list(dict.fromkeys(attr(tree[i], "name") for i in participants(tree)))


TRUE = ("true", "on", "1", "yes")


def drive(tree, i):
    """What participant i of an accepted configuration does: the arguments of the runner's loop."""
    kids = [n for n in tree if n["up"] == i + 1]
    own = [attr(n, "name") for n in kids if n["tag"] == "provide-mesh"]
    api = [attr(n, "name") for n in kids if n["tag"] == "receive-mesh" and (attr(n, "api-access") in TRUE or attr(n, "direct-access") in TRUE)]
    maps = [n for n in kids if n["tag"].startswith("mapping:")]
    jr = {attr(n, "from") for n in maps if not attr(n, "to")}
    jw = {attr(n, "to") for n in maps if not attr(n, "from")}
    kind = {m: "own" for m in own}
    for m in api:
        kind[m] = "jit" if m in jr | jw else "access"
    acc = {"write-data": [], "read-data": []}
    for n in kids:
        m = attr(n, "mesh")
        if n["tag"] in acc and m in kind and (kind[m] != "jit" or m in (jw if n["tag"] == "write-data" else jr)):
            acc[n["tag"]].append("%s %s" % (m, attr(n, "name")))
    return "loop %d %d %s %s %s" % (CAP, len(kind), " ".join("%s %s" % x for x in kind.items()), *("%d %s" % (len(v), " ".join(v)) for v in (acc["write-data"], acc["read-data"])))


def fixed_port(tree):
    return any(n["tag"] == "m2n:sockets" and attr(n, "port", "0") not in ("0", "", "-1") for n in tree)


def short(x):
    return " ".join(x.split())[-260:]


def why(s, p):
    return short(s.logtext(p)) or "no message"


def describe(r):
    return "%s: %s" % (" | ".join(r["what"]), "rejected (%s)" % r["verdict"]["rule"] if r["verdict"]["rule"] else "accepted")


def acceptance(r):
    """Constructing every participant: rejected with an error, or accepted."""
    v, tree = r["verdict"], r["tree"]
    s = Scenario(render(tree), timeout=20.0)
    s.complete = 0
    who = names(tree) if not v["rule"] else [n for n in names(tree) if n in ("A", "B", "C")] or ["A"]
    for n in who:
        p = Proc(n, 0, 1, "cpp", 0, n)
        p.add("new c.xml")
        s.procs.append(p)

    def judge(s):
        out = []
        for p, st in zip(s.procs, s.status):
            bad = v["rule"] or (p.part in v["own"] and "a watch point or integral") or (p.part in v["start"] and "participant %s itself" % p.part)
            res = s.results(p)
            state = res[0][1] if res else "nothing"
            if state != ("err" if bad else "ok") or st.startswith("sig") or st == "timeout":
                out.append("%s: participant %s: expected %s, got %s (%s): %s" % (" | ".join(r["what"]), p.part, "an error about %s" % bad if bad else "acceptance", state, st, why(s, p)))
        return out
    s.judge = judge
    s.info = describe(r)
    return s


def run(r, base=None):
    """An accepted configuration is run by all its participants to the end; nobody crashes, hangs or meets an error.
    base: digest of the run of the same configuration with its defaults left out."""
    v, tree = r["verdict"], r["tree"]
    # the mappings of the configurations edited fit their vertices
    touched = any(w.split()[2].startswith(("precice", "mapping", "basis", "executor", "mesh", "provide", "data", "use-data")) or "mapping" in w or "basis" in w for w in r["what"][1:])
    s = Scenario(render(tree), timeout=8.0 if v["odd"] == "F01-same-exchange" else 25.0)
    s.digest, s.capped, s.complete = {}, False, 0
    for i in participants(tree):
        n = attr(tree[i], "name")
        p = Proc(n, 0, 1, "cpp", 0, n)
        p.add("new c.xml")
        p.add(drive(tree, i))
        p.add("fin")
        s.procs.append(p)

    def judge(s):
        out = []
        s.capped = "exit:77" in s.status
        free = s.capped or v["late"] or v["delicate"] and touched
        for p, st in zip(s.procs, s.status):
            res = s.results(p)
            if st.startswith("sig"):
                out.append("%s: participant %s crashed (%s): %s" % (" | ".join(r["what"]), p.part, st, why(s, p)))
            elif not free and st == "timeout":
                out.append("%s: participant %s hangs" % (" | ".join(r["what"]), p.part))
            elif not free and (len(res) < 3 or any(x[1] != "ok" for x in res)):
                out.append("%s: participant %s of an accepted configuration meets an error: %s" % (" | ".join(r["what"]), p.part, why(s, p)))
            elif len(res) == 3 and all(x[1] == "ok" for x in res):
                s.digest[p.part] = [float(x) for x in res[1][2].split()]
        if not out and not free:
            s.complete = 1
        if base is not None and not out and not s.capped:
            for n, d in base.items():
                e = s.digest.get(n)
                if e is None or not all(abs(x - y) <= 1e-7 * max(1, abs(x), abs(y)) or x != x and y != y for x, y in zip(d, e)):
                    out.append("%s: writing down a documented default changes the run of %s: %s instead of %s" % (" | ".join(r["what"]), n, e, d))
        return out
    s.judge = judge
    s.info = describe(r)
    s.label = v["odd"]
    return s


def check_tool(c, rs):
    """precice-tools check on every configuration."""
    base = tempfile.mkdtemp(prefix="tool", dir=scratch())

    def one(k):
        r = rs[k]
        f = os.path.join(base, "%d.xml" % k)
        with open(f, "w") as o:
            o.write(render(r["tree"]))
        v = r["verdict"]
        out = []
        asked = [""] + (sorted(v["own"]) + [n for n in names(r["tree"]) if n not in v["own"] and n][:1] if not v["rule"] else [])
        for p in asked:
            for again in (60, 120):
                try:
                    x = subprocess.run([common.TOOLS, "check", f, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=base, timeout=again)
                    code, text = x.returncode, x.stdout
                except subprocess.TimeoutExpired:
                    code, text = "a timeout", ""
                exp = 2 if v["rule"] or p in v["own"] else 0
                if code == exp:
                    break
            else:
                out.append("%s: precice-tools check FILE %s returned %s, expected %s%s: %s" % (
                    " | ".join(r["what"]), p, code, exp, " (%s)" % v["rule"] if v["rule"] else "", short(text)))
        os.unlink(f)
        return len(asked), out
    n = 0
    with ThreadPoolExecutor(JOBS) as ex:
        for k, (m, out) in enumerate(ex.map(one, range(len(rs)))):
            n += m
            if out and len(c.violations) < 3:
                s = Scenario(render(rs[k]["tree"]))
                s.status = []
                c.violation("; ".join(out), s)
    c.traces += len(rs)
    c.count("configurations checked by precice-tools", n)
