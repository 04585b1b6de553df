#!/bin/bash
# tryseed.sh ID : demo on the clean tree, then patched build, tests, demo (all in copies bind-mounted at /repo via unshare)
# Needs the built /repo. Prints a summary.
H=$(cd "$(dirname "$0")" && pwd); D=$(cd $H/../../seeded/$1 && pwd); T=${T:-/tmp/try.$1}; mkdir -p $T
[ -d $T/repo ] && /bin/rm -rf "$T/repo"; cp -a /repo $T/repo
unshare -m bash -c "mount --bind $T/repo /repo; cp -r $D $T/demo; cd /repo
 bash /tmp/try.$1/demo/demo.sh > $T/clean.log 2>&1; echo clean demo rc=\$?
 git apply $D/patch.diff || exit 1
 bash /opt/vp/build.sh > $T/build.log 2>&1 || { echo build failed; tail -20 $T/build.log; exit 1; }
 bash /opt/vp/test.sh $T/test.json > $T/test.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$T/test.json')); 
g=lambda d: d if isinstance(d,list) else d
st=b.get('stable') or b.get('passed') or b; ps=set(t.get('passed') or [k for k,v in t.items() if v in('pass','passed')])
print('tests: missing', [x for x in st if x not in ps][:5], len(ps))
P
 for i in 1 2 3; do bash /tmp/try.$1/demo/demo.sh > $T/bad.log 2>&1; echo patched demo rc=\$?; tail -1 $T/bad.log; done"
/bin/rm -rf "$T/repo" "$T/demo"
