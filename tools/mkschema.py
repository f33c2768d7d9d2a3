"""Turns `precice-config-doc xml` (stdin) into Schema.tla: the documented tags, occurrences, attributes, defaults and options.

Run once on the pinned tree; the result is committed and is what the configuration rules are judged against."""
import re
import sys


def parse(text):
    occ = {}
    pos = 0
    stack, table = [], {}
    pend = None
    token = re.compile(r"<!-- TAG (\S+)(.*?)-->|<(/?)([A-Za-z0-9:_-]+)((?:\s+[^\s=/>]+=\"(?:\{.*?\}(?:\(default:'.*?'\))?|[^\"]*)\")*)\s*(/?)>", re.S)
    for m in token.finditer(text):
        if m.group(1):
            pend = re.search(r"\(can occur (\S+) times\)", m.group(2)).group(1)
            continue
        name = m.group(4)
        if m.group(3):
            assert stack.pop() == name, name
            continue
        path = "/".join(stack + [name])
        at = {}
        for a, spec in re.findall(r"([^\s=]+)=\"(\{.*?\}(?:\(default:'.*?'\))?|[^\"]*)\"(?=\s|/|$)", m.group(5) + " ", re.S):
            k = re.match(r"\{(\w+)(?::(.*?))?\}(?:\(default:'(.*)'\))?$", spec, re.S)
            if not k:
                continue
            kind, opts, dflt = k.groups()
            at[a] = (kind, dflt, re.findall(r"'([^']*)'", opts) if opts and kind == "string" else ([] if not opts else re.findall(r"-?\d+", opts)))
        table[path] = (pend, at)
        if not m.group(6):
            stack.append(name)
    return table


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def module(table):
    rows = []
    for p, (o, at) in table.items():
        if p.endswith("/log") or "/log/" in p:
            continue
        cells = []
        for a, (k, d, opts) in at.items():
            if k == "boolean" and d is not None:
                d = {"0": "false", "1": "true"}[d]
            cells.append("%s :> [type |-> %s, optional |-> %s, default |-> %s, options |-> {%s}]" % (q(a), q(k), "TRUE" if d is not None else "FALSE", q(d or ""), ", ".join(map(q, opts))))
        rows.append("  %s :> [occurs |-> %s, attributes |-> %s]" % (q(p), q(o), "(" + " @@ ".join(cells) + ")" if cells else "<<>>"))
    return ("------------------------------- MODULE Schema -------------------------------\n"
            "(* The tags of a configuration, how often each may occur in its parent, and   *)\n"
            "(* their attributes with type, default and options: the reference             *)\n"
            "(* documentation of the pinned release, transcribed by tools/mkschema.py.      *)\n"
            "EXTENDS TLC\n\nTags ==\n" + " @@\n".join(rows) + "\n\n=============================================================================\n")


if __name__ == "__main__":
    sys.stdout.write(module(parse(sys.stdin.read())))
