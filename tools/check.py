#!/usr/bin/env python3
"""check.py <property> [--thorough]: rebuilds what the property's check needs from /repo's working tree, runs it,
writes evidence/<property>.json. Exit 0: held on everything explored; 1: VIOLATION; 2: the check could not run."""
import json, os, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, checks

V = vbuild.VERIF

def load_known():
    p = V + '/known_findings.json'
    return json.load(open(p))['findings'] if os.path.exists(p) else []

def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv or (os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in sys.argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rdir = V + '/replay/' + prop
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    known = [k for k in load_known() if k['property'] == prop and k.get('status', 'open') == 'open']
    results, rc = [], 0
    os.environ['VERIF_SEED'] = str(seed)
    violations = []
    try:
        for step in checks.CHECKS[prop]:
            with vbuild.Lock():
                exe = step['build']()
            cmd = [exe] + step['args'](prop, thorough, rdir, known)
            limit = 850 - (time.time() - t0) if not thorough else 4 * 3600
            env = dict(os.environ)
            env.update(step.get('env', {}))
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=max(limit, 30), errors='replace', env=env, cwd=V)
            if os.environ.get('VERBOSE'):
                sys.stderr.write(r.stdout[-6000:] + r.stderr[-3000:])
            got = 0
            for line in r.stdout.splitlines():
                if line.startswith('{'):
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    o['exe'] = os.path.basename(exe)
                    results.append(o)
                    got += 1
                    if o.get('violation'):
                        violations.append(o)
            if r.returncode not in (0, 1) or not got:
                if r.returncode < 0 or 'AddressSanitizer' in r.stderr or 'runtime error' in r.stderr:
                    path = rdir + '/crash.txt'
                    open(path, 'w').write(' '.join(cmd) + '\n' + r.stdout[-4000:] + r.stderr[-8000:])
                    violations.append(dict(scenario='(crash)', violation='exit %d: %s' % (r.returncode, r.stderr[-600:]), replay=path))
                else:
                    print(r.stdout[-3000:], r.stderr[-3000:])
                    print('check error: %s exited with %d' % (' '.join(cmd), r.returncode))
                    return 2
            if violations:
                break
    except vbuild.BuildError as e:
        print('check error: ' + str(e)[-6000:])
        return 2
    for o in results:
        for k in o.get('known', []):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for v in violations:
        if not v.get('replay'):
            p = '%s/%s.txt' % (rdir, v['scenario'])
            open(p, 'w').write(json.dumps(v, indent=1))
            v['replay'] = p
        print('scenario %s: %s' % (v['scenario'], v['violation']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        rc = 1
    wall = time.time() - t0
    meta = checks.META.get(prop, {})
    def tot(k):
        return sum(int(o.get(k, 0) or 0) for o in results)
    samples = []
    for o in results:
        for s in (o.get('samples') or o.get('outcomes') or [])[:2]:
            if s:
                samples.append('%s: %s' % (o['scenario'], s))
    cov = dict(states=tot('states'), transitions=tot('transitions'), 
               traces_validated_against_impl=sum(int(o.get('completed', o.get('executions', 0)) or 0) for o in results),
               samples=samples[:12] or [o['scenario'] for o in results][:12],
               exhaustive=all(o.get('bound_completed', 0) == o.get('bound_requested', 0) and not o.get('cap_hit') for o in results),
               explanation='every execution ran the code of /repo itself (there is no separate model of the code), so each explored trace is a trace of the implementation; '
                           'states = distinct program states reached (happens-before fingerprints, or configurations of the reference model for sequence enumeration)',
               scenarios=[{k: v for k, v in o.items() if k not in ('counters', 'replay', 'outcomes', 'samples')} for o in results])
    ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level=meta.get('level', 'model_checking'), coverage=cov,
              assumptions=meta.get('assumptions', checks.ASSUME_MC), wall_s=round(wall, 2), violations=len(violations))
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    if not violations:
        print('%s held: %d scenarios, %d executions, %d states, %.1fs' % (prop, len(results), tot('executions'), tot('states'), wall))
        for o in results:
            if o.get('bound_completed', 0) != o.get('bound_requested', 0):
                print('  note: %s completed bound %s of %s' % (o['scenario'], o['bound_completed'], o['bound_requested']))
            if o.get('unconfirmed') or o.get('diverged'):
                print('  note: %s unconfirmed=%s diverged=%s' % (o['scenario'], o.get('unconfirmed'), o.get('diverged')))
    return rc

if __name__ == '__main__':
    try:
        sys.exit(main())
    except subprocess.TimeoutExpired as e:
        print('check error: timeout %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
