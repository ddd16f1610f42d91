#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: build the explorer for a property
from /repo's working tree, run it, write evidence/<property>.json."""
import json, os, subprocess, sys, time, re

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
JOBS = os.cpu_count() or 4

sys.path.insert(0, V)
from checks import CHECKS

CAP = {'quick': 420, 'thorough': 3600}

def known(prop):
    keys = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys

def build(variant, h):
    cmd = ['make', '-s', '-j%d' % JOBS, '-f', os.path.join(V, 'mk', 'build.mk'), 'REPO=' + REPO,
           'OUT=' + OUT, 'VARIANT=' + variant, 'H=' + h]
    r = subprocess.run(cmd, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-8000:])
        print('BUILD FAILED: %s %s' % (variant, h))
        sys.exit(2)
    return os.path.join(OUT, variant, 'h_' + h)

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in CAP:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    kn = known(prop)
    tot = dict(states=0, transitions=0, executions=0)
    scen, samples, viols, complete = [], [], [], True
    seen_known = set()
    if '--replay' in sys.argv:
        f = sys.argv[sys.argv.index('--replay') + 1]
        hh = [l.split()[1:] for l in open(f) if l.startswith('harness ')][0]
        exe = build(hh[0], hh[1])
        sys.exit(subprocess.call([exe, '--replay', f], env=env()))
    for part in c['parts']:
        variant, h = part['variant'], part['h']
        exe = build(variant, h)
        outf = os.path.join(OUT, 'out_%s_%s.json' % (prop, h))
        if os.path.exists(outf):
            os.unlink(outf)
        cmd = [exe, '--tier', tier, '--jobs', str(JOBS), '--out', outf, '--seconds', str(part.get('cap', CAP)[tier]),
               '--hang', str(part.get('hang', 30))]
        for k in kn:
            cmd += ['--known', k]
        log = os.path.join(OUT, 'log_%s_%s.txt' % (prop, h))
        with open(log, 'w') as lf:
            r = subprocess.run(cmd, cwd=V, stdout=lf, stderr=subprocess.STDOUT, env=env())
        if not os.path.exists(outf):
            print(open(log).read()[-4000:])
            print('explorer did not finish (exit %d)' % r.returncode)
            sys.exit(2)
        d = json.load(open(outf))
        for k in ('states', 'transitions', 'executions'):
            tot[k] += d[k]
        complete = complete and d['complete'] and not d['state_table_full']
        for s in d['scenarios']:
            smp = s.pop('sample', None)
            if smp and len(samples) < 12:
                samples.append({'scenario': s['name'], 'trace': smp})
            s['harness'] = h
            scen.append(s)
        for v in d['violations']:
            v['h'], v['variant'] = h, variant
            if v['key'] in kn:
                seen_known.add(v['key'])
                continue
            viols.append(v)
        tail = open(log).read()[-6000:]
    for k in sorted(kn):
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
    rc = 0
    n = 0
    for v in viols:
        if v['key'].startswith('divergence:'):
            print('explorer diverged while replaying a prefix: ' + v['msg'])
        n += 1
        path = os.path.join(V, 'replays', '%s-%d.txt' % (prop, n))
        with open(path, 'w') as f:
            f.write('harness %s %s\nscenario %s\ntier %d\nchoices %s\n' % (v['variant'], v['h'], v['scenario'],
                    1 if tier == 'thorough' else 0, ' '.join(map(str, v['choices']))))
            f.write('\nkey %s\nconfirmed-by-replay %s\n%s\n\ntrace:\n%s\n' % (v['key'], v['confirmed'], v['msg'], v['trace']))
            if v['key'].startswith(('crash:', 'hang:')):
                f.write('\nlog tail:\n' + tail + '\n')
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  scenario %s key %s: %s' % (v['scenario'], v['key'], v['msg'].strip()[:600]))
        if not v['confirmed']:
            print('  (replaying the choices alone did not reproduce it: the effect needs the executions before it)')
        rc = 1
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': tot['states'], 'transitions': tot['transitions'],
                       'traces_validated_against_impl': tot['executions'], 'samples': samples,
                       'exhaustive': bool(complete and rc == 0),
                       'scenarios': scen,
                       'note': 'states: distinct observed implementation states (hash); transitions: operations executed on the '
                               'implementation; traces: complete executions of the real code, each compared step by step with the reference model. '
                               'Every sequence of choices within the bounds of each scenario was executed when exhaustive is true.'},
          'assumptions': c.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(viols)}
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: states=%d transitions=%d executions=%d exhaustive=%s violations=%d wall=%.1fs' % (
        prop, tier, tot['states'], tot['transitions'], tot['executions'], ev['coverage']['exhaustive'], len(viols), wall))
    for s in scen:
        print('   %-34s exec=%-9d steps=%-10d distinct outcomes=%d%s' % (s['name'], s['executions'], s['transitions'], s['distinct_outcomes'],
              '' if s['complete'] else '  (NOT COMPLETE)'))
    sys.exit(rc)

def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:quarantine_size_mb=16:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77'
    e['EPICS_TZ'] = e.get('EPICS_TZ', '')
    e['TZ'] = 'UTC'
    e['LC_ALL'] = 'C'
    return e

main()
