"""Writes spec/ConfigInput.tla from spec/configs/*.xml and spec/Schema.tla: the accepted configurations to start from, the
attribute values used when editing them, and what each value spells (an empty number is a zero)."""
import glob
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
UNIT = 10000


def tree(path):
    """Nodes in document order (tag, parent, attributes)."""
    nodes, stack = [], [0]
    for m in re.finditer(r"<(/?)([\w:.-]+)((?:\s+[\w-]+=\"[^\"]*\")*)\s*(/?)>", open(path).read()):
        if m.group(1):
            stack.pop()
            continue
        nodes.append((m.group(2), stack[-1], dict(re.findall(r"([\w-]+)=\"([^\"]*)\"", m.group(3)))))
        if not m.group(4):
            stack.append(len(nodes))
    return nodes


def schema():
    res = {}
    for m in re.finditer(r'^  "([^"]+)" :> \[occurs \|-> "([^"]+)", attributes \|-> (.*?)\](?: @@)?$', open(os.path.join(SPEC, "Schema.tla")).read(), re.M):
        res[m.group(1)] = {a: (t, d, re.findall(r'"([^"]*)"', o)) for a, t, d, o in re.findall(
            r'"([\w-]+)" :> \[type \|-> "(\w+)", optional \|-> \w+, default \|-> "((?:[^"\\]|\\.)*)", options \|-> \{(.*?)\}\]', m.group(3))}
    return res


INTS = ["-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"]
FLOATS = ["-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"]
VECTORS = ["0.5;0", "0.5;0;0", "0.5", "a;b"]
MESHES = ["MA", "MB", "MC", "Nope", ""]
DATA = ["DA", "DB", "DC", "Nope"]
PARTS = ["A", "B", "C", "Nope", ""]
REF = {"mesh": MESHES, "data": DATA, "first": PARTS, "second": PARTS, "acceptor": PARTS, "connector": PARTS}


def pool(path, a, t, opts):
    tag = path.split("/")[-1]
    if opts:
        return opts + ["Nope"]
    if t == "boolean":
        return ["true", "false", "on", "0"]
    if t == "integer":
        return INTS
    if t == "float":
        return FLOATS
    if t == "vector":
        return VECTORS
    if a in ("from", "to"):
        return PARTS if tag in ("receive-mesh", "exchange") else MESHES
    if a in REF:
        return REF[a]
    if a == "name":
        if tag in ("mesh", "provide-mesh", "receive-mesh"):
            return MESHES[:4]
        if tag in ("write-data", "read-data", "use-data", "target-data", "source-data", "data") or tag.startswith("data:"):
            return DATA
        if tag == "participant":
            return PARTS[:4]
    return []


def number(v):
    """In 1/UNIT, keeping apart from 0 and 1 what is not 0 or 1; none if it is not a number."""
    try:
        x = float(v.split("/")[0]) / float(v.split("/")[1]) if "/" in v else float(v)
    except (ValueError, ZeroDivisionError, IndexError):
        return None
    if x != x:
        return 0
    x = max(-200000.0, min(200000.0, x))
    n = round(x * UNIT)
    if n == 0 and x:
        n = 1 if x > 0 else -1
    return n


def is_int(v):
    return v == "" or re.fullmatch(r"[+-]?\d+", v) is not None and abs(int(v)) < 2 ** 31


def is_float(v):
    return v == "" or re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?(/[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)?", v) is not None


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def fun(pairs):
    return "(" + " @@\n   ".join(pairs) + ")"


def cat(pairs):
    """A function as a record-free literal; TLC builds long @@ chains slowly, so they are balanced."""
    if len(pairs) == 1:
        return "(%s)" % pairs[0]
    h = len(pairs) // 2
    return "(%s @@\n %s)" % (cat(pairs[:h]), cat(pairs[h:]))


def main():
    tags = schema()
    out = ["---------------------------- MODULE ConfigInput ----------------------------",
           "(* Written by tools/mkconfigs.py from configs/*.xml and Schema.tla.           *)",
           "EXTENDS TLC, Integers, Sequences", ""]
    names = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(SPEC, "configs", "*.xml")))
    values, rows = set(), []
    for n in names:
        nodes = tree(os.path.join(SPEC, "configs", n + ".xml"))
        for _, _, at in nodes:
            values |= set(at.values())
        rows.append("%s |-> <<\n%s>>" % (n, ",\n".join("  [tag |-> %s, up |-> %d, at |-> %s]" % (q(t), u, "(" + " @@ ".join("%s :> %s" % (q(a), q(v)) for a, v in at.items()) + ")" if at else "<<>>") for t, u, at in nodes)))
    out.append("Templates == [\n%s]\n" % ",\n".join(rows))
    pools, samples = [], []
    for p, at in tags.items():
        for a, (t, d, opts) in at.items():
            values.add(d)
            v = pool(p, a, t, opts)
            if v:
                values |= set(v)
                samples.append("<<%s, %s>> :> %s" % (q(p), q(a), q("1" if t == "integer" and not opts else "0.5" if t == "float" else "true" if t == "boolean" else v[0])))
                pools.append("<<%s, %s>> :> {%s}" % (q(p), q(a), ", ".join(map(q, v))))
    out.append("Pool ==\n" + cat(pools) + "\n")
    out.append("(* one value for every attribute *)\nSample ==\n" + cat(samples) + "\n")
    values = sorted(v for v in values if "%" not in v)
    out.append("Values ==\n" + cat(["%s :> [int |-> %s, float |-> %s, vector |-> %s, num |-> %d]" % (
        q(v), str(is_int(v)).upper(), str(is_float(v)).upper(), str(all(is_float(x) for x in v.split(";"))).upper(), number(v) or 0) for v in values]) + "\n")
    out.append("NotFinite == {%s}\n" % ", ".join(q(v) for v in values if v in ("inf", "-inf", "nan", "-nan")))
    out.append("Components(v) ==\n  LET f == %s IN f[v]\n" % cat(["%s :> %d" % (q(v), v.count(";") + 1) for v in values if all(is_float(x) for x in v.split(";"))]))
    below, spaces = {}, set()
    for p in tags:
        up, _, t = p.rpartition("/")
        below.setdefault(up, []).append(t)
        if ":" in t:
            spaces.add(t)
    out.append("Spaces ==\n" + cat(["%s :> %s" % (q(t), q(t.split(":")[0])) for t in sorted(spaces)]) + "\n")
    known = cat(["%s :> {%s}" % (q(p), ", ".join(q(t) for t in sorted(below[p]))) for p in sorted(below) if p])
    out.append("SubTags ==\n%s\nBelow(p) == IF p \\in DOMAIN SubTags THEN SubTags[p] ELSE {}\n" % known)
    out.append("=" * 77)
    with open(os.path.join(SPEC, "ConfigInput.tla"), "w") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
