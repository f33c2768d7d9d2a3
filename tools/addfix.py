#!/usr/bin/env python3
"""tools/addfix.py PROPERTY ID COMMIT WHAT: records a repaired defect"""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(f))
p, i, commit, what = sys.argv[1:]
k.append({"property": p, "id": i, "status": "fixed", "what": "fixed: property=%s %s %s" % (p, commit, what)})
with open(f, "w") as o:
    json.dump(k, o, indent=1)
    o.write("\n")
