#!/bin/bash
# run.sh NAME...: builds each mutant of muts.py on a copy of /repo and runs the quick check's scenarios of its property
V=$(cd "$(dirname "$0")/../.." && pwd); T=${T:-/tmp/scratch/mut}; S=${SECS:-25}; mkdir -p $T
[ -d $T/repo ] || cp -a ${SRC:-/repo} $T/repo
for n in "$@"; do
 git -C $T/repo checkout -q -- . ; p=$(python3 - $n $T/repo $V <<'P'
import sys; sys.path.insert(0,sys.argv[3]+'/tools/mut')
from muts import M
m=[x for x in M if x[0]==sys.argv[1]][0]
f=sys.argv[2]+'/src/sofa/pbrpc/'+m[2]; s=open(f).read()
if m[3] is None or m[3] not in s: print('NOTFOUND'); sys.exit()
open(f,'w').write(s.replace(m[3],m[4],1)); print(m[1])
P
)
 [ "$p" = NOTFOUND ] && { echo "$n: text not found"; continue; }
 [ -n "$CHECK" ] && p=$CHECK
 make -C $V/sim -j8 REPO=$T/repo OUT=$T/build >$T/make.log 2>&1 || { echo "$n $p: does not build"; grep -m2 error $T/make.log; continue; }
 out=$(python3 - $p $V $T $S <<'P'
import sys,subprocess,os
sys.path.insert(0,sys.argv[2]+'/sim'); from checks import CHECKS
p,V,T,S=sys.argv[1:5]; c=CHECKS[p]; tot=sum(w for _,w in c['scenarios']); ign=set(c.get('ignore',[])); r=[]
for sc,w in c['scenarios']:
    e=dict(os.environ,SIMRUN=T+'/build/simrun',BASE='1',MIN='1'); o=subprocess.run([V+'/tools/sweep.sh',sc,str(max(3,int(float(S)*w/tot)))],env=e,capture_output=True,text=True).stdout
    v=[l.split('|') for l in o.split('\n') if l.startswith('violation')]; v=[x for x in v if x[1] not in ign]
    if v: r.append('%s x%d %s: %s'%(sc,len(v),v[0][1],v[0][2][:110]))
    elif 'internal' in o: r.append('internal '+o[:200])
print('CAUGHT '+' ; '.join(r) if r else 'MISSED')
P
)
 echo "$n $p: $out"
done
git -C $T/repo checkout -q -- .
