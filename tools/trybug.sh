#!/bin/bash
# trybug.sh DIR...: for every planted bug, in a copy of /repo mounted over /repo in a namespace of its own: demo on the
# unchanged tree, patch, build, tests, demo with the patch.
set -u
base=${TRYBUG_COPY:-/tmp/trybug}
if [ ! -d $base ]; then cp -a /repo $base || exit 2; fi
git -C $base checkout -q -- . ; git -C $base fetch -q /repo HEAD && git -C $base reset -q --hard FETCH_HEAD
for d in "$@"; do
  d=$(realpath $d)
  work=$(mktemp -d)
  cp -r $d $work/demo; rm -f $work/demo/*.diff $work/demo/meta.json
  unshare -Urm bash -c "
    mount --bind $base /repo || exit 9
    cd /repo
    bash /opt/vp/build.sh > $work/build0.log 2>&1 || { echo '$d: build of the unchanged tree failed'; exit 1; }
    timeout 300 bash $work/demo/demo.sh > $work/demo0.log 2>&1; r0=\$?
    git apply $d/patch.diff || { echo '$d: patch does not apply'; exit 1; }
    bash /opt/vp/build.sh > $work/build.log 2>&1 || { echo '$d: build failed'; grep -m3 error $work/build.log; }
    timeout 300 bash $work/demo/demo.sh > $work/demo1.log 2>&1; r1=\$?
    if [ -z \"\${NOTEST:-}\" ]; then bash /opt/vp/test.sh $work/out.json > $work/test.log 2>&1; t=\$(tail -1 $work/test.log); else t='tests not run'; fi
    git checkout -q -- .
    echo \"\$(basename $d): demo unchanged=\$r0 patched=\$r1; \$t\"
    [ \$r0 = 0 ] || tail -3 $work/demo0.log
    [ \$r1 != 0 ] || tail -3 $work/demo1.log
    [ -n \"\${NOTEST:-}\" ] || python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$work/out.json'))
s=b.get('stable') or b.get('passed') or b.get('tests')
bad=[t for t in s if t not in set(o['passed'])]
print('  stable tests failing:', len(bad), bad[:4])
P
  "
  rm -rf $work
done
