#!/usr/bin/env python3
# symbolises the "bt 0x..." lines of stdin
import sys,subprocess,re
L=sys.stdin.read().splitlines(); a=[l.split()[1] for l in L if re.match(r'\s*bt 0x',l)]
out=subprocess.run(['addr2line','-Cfpe','/verif/.build/simrun']+a,capture_output=True,text=True).stdout.splitlines() if a else []
m=dict(zip(a,out))
for l in L:
    if re.match(r'\s*bt 0x',l):
        s=m.get(l.split()[1],'?'); 
        if s.startswith('??'): continue
        s=s.replace('/repo/src/sofa/pbrpc/','').replace('sofa::pbrpc::','').replace('google::protobuf::','gp::')
        print('  at',s[:220])
    else: print(l)
