#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and decides one property by seeded simulation.

  check.py C01                 quick or thorough by VERIF_TIER, seeds from VERIF_SEED
  check.py --replay FILE       replays a violation; exit 1 if it shows exactly the same one
Exit 0: held on everything explored; 1: violation (with its replay file); 2: the check itself failed.
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, RULES, ASSUMPTIONS, STUBS, REAL, IGNORE
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, '.build'); SIM = os.path.join(BUILD, 'simrun')
NCPU = max(2, min(8, os.cpu_count() or 2))

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['make', '-C', HERE, '-j%d' % NCPU, 'OUT=' + BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            # a stale dependency on a file that is gone: once more from nothing
            for d in ('repo', 'gen', 'core', 'scen', 'pch', 'pchs'): shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            r = subprocess.run(['make', '-C', HERE, '-j%d' % NCPU, 'OUT=' + BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:]); print('ERROR: the simulator does not build'); sys.exit(2)

def known_findings(prop):
    """lines: finding: property=ID scenario=S class=C match=TEXT :: description   |   fixed: property=ID COMMIT what"""
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) scenario=(\S+) class=(\S+) match=(.*?) :: (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def run_scenario(prop, scen, secs, base, known, ignore, work):
    """all cores on one scenario; returns list of per-worker records"""
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    kf = os.path.join(work, 'known')
    with open(kf, 'w') as f:
        for k in known: f.write('%s|%s|%s\n' % (k[1], k[2], k[3]))
    stop = os.path.join(work, 'stop'); ps = []
    for w in range(NCPU):
        ps.append(subprocess.Popen([SIM, 'run', '--scenario=' + scen, '--start=%d' % w, '--stride=%d' % NCPU, '--count=1000000000', '--base=%d' % base,
            '--wall=%d' % secs, '--out=%s/out%d' % (work, w), '--replaydir=' + work, '--known=' + kf, '--ignore=' + ','.join(ignore), '--stopfile=' + stop, '--minimise=20'],
            stdout=subprocess.DEVNULL, stderr=open('%s/err%d' % (work, w), 'w')))
    end = time.time() + secs + 240; rcs = [None] * NCPU
    while any(r is None for r in rcs):
        for i, p in enumerate(ps):
            if rcs[i] is None and p.poll() is not None:
                rcs[i] = p.returncode
                if p.returncode != 0 and not os.path.exists(stop): open(stop, 'w').close()
        if time.time() > end:
            for p in ps:
                if p.poll() is None: p.kill()
        time.sleep(0.02)
    recs = []
    for w in range(NCPU):
        r = dict(rc=rcs[w], lines=[], err=open('%s/err%d' % (work, w)).read()[-500:])
        try: r['lines'] = open('%s/out%d' % (work, w), errors='replace').read().splitlines()
        except OSError: pass
        recs.append(r)
    return recs

def main():
    if sys.argv[1] == '--replay':
        build(); r = subprocess.run([SIM, 'replay', sys.argv[2]] + sys.argv[3:]); sys.exit(r.returncode)
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if tier == 'thorough' else 'quick'
    spec = CHECKS[prop]; t0 = time.time()
    build(); t1 = time.time()
    known = [k for k in known_findings(prop)]
    mine = [k for k in known if k[0] == prop]
    total = spec[tier] if not os.environ.get('SIM_SECONDS') else int(os.environ['SIM_SECONDS']); weights = spec['scenarios']; wsum = sum(x[1] for x in weights)
    work = os.path.join(BUILD, 'work', prop + '-' + str(os.getpid()))
    rdir = os.path.join(VERIF, 'out'); os.makedirs(rdir, exist_ok=True)
    agg = dict(runs=0, steps=0, switches=0, nontrivial=0, scheds=0, logs=0, overflow=0, choices=0); sim_s = 0.0; faults = {}; probes = {}; samples = []; ignored = {}; per = {}
    violation = None; internal = None; khits = {}
    budget_left = float(total)
    for n, (scen, weight) in enumerate(weights):
        secs = max(2, int(round(total * weight / wsum)))
        recs = run_scenario(prop, scen, secs, seed, known, spec.get('ignore', IGNORE.get(prop, [])), work)
        sruns = 0; sw = 0.0
        for r in recs:
            got = False
            for l in r['lines']:
                k, _, v = l.partition(' ')
                if k in agg: agg[k] += int(v); got = True
                if k == 'runs': sruns += int(v)
                elif k == 'sim_s': sim_s += float(v); sw += float(v)
                elif k == 'fault':
                    a, b, c = v.rsplit(' ', 2); f = faults.setdefault(a, [0, 0]); f[0] += int(b); f[1] += int(c)
                elif k == 'probe':
                    a, b, c = v.rsplit(' ', 2); f = probes.setdefault(a, [0, 0]); f[0] += int(b); f[1] += int(c)
                elif k == 'sample' and len([s for s in samples if s['scenario'] == scen]) < 2: samples.append(json.loads(v))
                elif k == 'ignored':
                    a, b, c = v.split('|', 2); ignored.setdefault(a, [0, c])[0] += int(b)
                elif k == 'known':
                    khits[v.rsplit('|', 1)[0]] = khits.get(v.rsplit('|', 1)[0], 0) + int(v.rsplit('|', 1)[1])
                elif k == 'violation' and violation is None: violation = v
                elif k == 'internal' and internal is None: internal = v
            if r['rc'] not in (0, 1, 2) or (r['rc'] == 2 and internal is None): internal = internal or 'worker of %s ended with %s %s' % (scen, r['rc'], r['err'])
        per[scen] = dict(runs=sruns, seconds=secs, simulated_seconds=round(sw, 1))
        if violation or internal: break
    t2 = time.time(); explore = max(t2 - t1, 0.001)
    nviol = 0
    if violation:
        path, cls, msg, info = violation.split('|', 3)
        dst = os.path.join(rdir, '%s-%s' % (prop, os.path.basename(path))); shutil.copyfile(path, dst)
        # a fresh process must show exactly the same violation
        rp = subprocess.run([SIM, 'replay', dst], stdout=subprocess.PIPE, text=True)
        if rp.returncode != 1: internal = 'the violation does not reproduce from its replay file: ' + rp.stdout
        else: nviol = 1; internal = None
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 1), violations=nviol,
        assumptions=ASSUMPTIONS,
        coverage=dict(evaluations=agg['runs'], distinct_nontrivial=agg['nontrivial'],
            rule='One evaluation is one simulated run of the whole system from one seed. ' + RULES + ' Workload and oracle: ' + spec['what'],
            samples=samples, per_scenario=per,
            simulated_runs=agg['runs'], seeds_per_hour=int(agg['runs'] * 3600 / explore), simulated_hours=round(sim_s / 3600, 2),
            build_seconds=round(t1 - t0, 1), exploration_seconds=round(explore, 1), workers=NCPU,
            scheduling_points=agg['steps'], context_switches=agg['switches'], random_decisions=agg['choices'],
            distinct_interleavings=agg['scheds'], interleaving_measure='distinct hashes of the sequence of (scheduling point, thread chosen) of a run', distinct_event_logs=agg['logs'],
            faults_injected={k: dict(times=v[0], in_runs=v[1]) for k, v in sorted(faults.items())},
            reached={k: dict(times=v[0], in_runs=v[1]) for k, v in sorted(probes.items())},
            runs_violating_only_other_properties={k: v[0] for k, v in ignored.items()},
            real_components=REAL, stub_components=STUBS))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    shutil.rmtree(work, ignore_errors=True)
    for k in mine: print('KNOWN-FINDING: property=%s %s' % (prop, k[4]))
    for k, v in ignored.items(): print('note: %d runs show a violation of another property (%s), e.g. %s' % (v[0], k, v[1][:300]))
    print('%s: %d runs of %s, %.1f simulated hours, %d scheduling points, %d distinct interleavings, %d faults; build %.0f s, exploration %.0f s' % (
        prop, agg['runs'], '+'.join(s for s, _ in weights), sim_s / 3600, agg['steps'], agg['scheds'], sum(v[0] for v in faults.values()), t1 - t0, explore))
    if internal: print('ERROR: ' + internal); sys.exit(2)
    if violation:
        print('%s in scenario run, %s' % (cls, info)); print(msg.replace('\\n', '\n'))
        print('replay with: python3 sim/check.py --replay %s [--trace]' % dst)
        print('VIOLATION property=%s replay=%s' % (prop, dst)); sys.exit(1)
    if agg['runs'] == 0: print('ERROR: nothing was explored'); sys.exit(2)
    sys.exit(0)
main()
