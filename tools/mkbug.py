"""mkbug.py NAME FILE META-JSON < (old text, a line with only ====, new text): writes seeded/NAME/{patch.diff,meta.json} from /tmp/trybug"""
import json, subprocess, sys
name, f, meta = sys.argv[1:4]
a, b = sys.stdin.read().split("\n====\n")
b = b.rstrip("\n"); R = "/tmp/trybug/"
s = open(R + f).read(); assert s.count(a) == 1, (name, s.count(a))
more = len(sys.argv) > 4
open(R + f, "w").write(s.replace(a, b))
d = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout
open("/verif/seeded/%s/patch.diff" % name, "w").write(d)
json.dump(json.loads(meta), open("/verif/seeded/%s/meta.json" % name, "w"), indent=1)
if not more:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
