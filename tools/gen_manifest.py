#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sim/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, os.path.join(V, 'sim'))
from checks import CHECKS
NA = {
 'C30': 'a pure function of its input: no schedule, clock, fault or other party takes part (conversion inside HTTP calls is exercised in C21, and hostile JSON in C06)',
 'C31': 'pure functions of their input: no schedule, clock, fault or other party takes part',
 'C32': 'generated single-threaded template code: no schedule, clock, fault or other party takes part',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 sim/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 sim/check.py ' + i, evidence_file='evidence/%s.json' % i,
            technique='deterministic simulation with fault injection (seeded schedules and faults over the real library, history oracles, minimised replay)', level='exploration',
            level_note='Seeded search, not exhaustive: no violation in the explored simulated executions of the real code. ' + c.get('note', 'Trusts the simulated kernel (TCP, epoll, threads, clocks), sequentially consistent memory and the workload generator; see DESIGN.md.')))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
m = dict(version=1, setup_cmd='make -C sim -j8 OUT=/verif/.build >/dev/null && /verif/.build/simrun list >/dev/null',
    hooks=dict(guard='SOFA_PBRPC_SIM_HOOKS', enable='sim/Makefile compiles /repo/src with -DSOFA_PBRPC_SIM_HOOKS', source_commits=['04fc829']),
    checks=checks, not_applicable=na, notes='See DESIGN.md; known findings and fixed defects in known_findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks', len(na), 'not applicable')
