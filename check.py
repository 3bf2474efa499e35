#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property of /repo's current source: every proof obligation of the property's tasks (cdv/) has to be
discharged, and the run-time form of the same contracts (runtime/) has to hold on generated inputs. Writes
evidence/PROP.json. Exit 0: held. Exit 1 and a VIOLATION line: broken."""
import sys, os, json, time, subprocess, argparse, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('CDV_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.path.insert(0, HERE)
import meta

PYVT = 'python3-vt'
PYRT = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


STOP = [float('inf')]       # proofs are not waited for any longer when a failing input is known


def sh(cmd, timeout, stoppable=False):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, cwd=HERE)
    while True:
        try:
            out, err = p.communicate(timeout=2)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            if time.time() - t0 > timeout or (stoppable and time.time() > STOP[0]):
                p.kill()
                p.communicate()
                return -1, '', 'stopped after %d s' % (time.time() - t0)


def prove(prop, name, limit):
    rc, out, err = sh([PYVT, os.path.join(HERE, 'cdv', 'prove.py'), '--json', prop, name, str(limit)], limit + 90, True)
    try:
        return json.loads(out.strip().splitlines()[-1])
    except Exception:
        return dict(task=name, funcs=[], obls=[], error='engine: no answer (%s) %s' % (rc, err[-800:]), called=[], vac=[], notes=[], time=0.0)


def runtime(prop, seed, seconds, worker, known):
    cmd = [PYRT, os.path.join(HERE, 'runtime', 'rt.py'), prop, '--seed', str(seed), '--seconds', str(seconds),
           '--worker', str(worker), '--known', ','.join(known)]
    rc, out, err = sh(cmd, seconds * 3 + 120)
    try:
        return json.loads(out.strip().splitlines()[-1])
    except Exception:
        return dict(error='%s %s' % (rc, err[-1500:]), evaluations=0, distinct_nontrivial=0, samples=[], failure=None, known={}, seconds=0)


def known_findings():
    """-> {property: {key: text}} of the findings that are recorded and not repaired"""
    r = {}
    for l in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
        l = l.strip()
        if l.startswith('finding:'):
            p, key, text = [x.strip() for x in l[len('finding:'):].split('|', 2)]
            r.setdefault(p.split('=')[1], {})[key.split('=')[1]] = text
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true', help='both interpreters start')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    if a.selftest:
        rc, out, err = sh([PYVT, os.path.join(HERE, 'cdv', 'prove.py'), '--list', 'all'], 120)
        rc2, out2, err2 = sh([PYRT, '-c', 'import sys; sys.path.insert(0, %r); import common; common.mod("US")' % os.path.join(HERE, 'runtime')], 120)
        print(out.strip(), err[-500:], err2[-500:])
        sys.exit(rc or rc2)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    M = meta.PROPS[prop]
    known = known_findings().get(prop, {})
    rc, out, err = sh([PYVT, os.path.join(HERE, 'cdv', 'prove.py'), '--list', prop], 120)
    if rc != 0:
        print('the verifier does not start:', err[-2000:])
        sys.exit(3)
    tasks = sorted(json.loads(out.strip().splitlines()[-1]), key=lambda n: not n.startswith(meta.LONG))
    secs = (20 if tier == 'quick' else 240)
    nrt = 3 if tasks else 6
    limit = 420 if tier == 'quick' else 3000
    pool = cf.ThreadPoolExecutor(8)
    fr = [pool.submit(runtime, prop, seed, secs, w, list(known)) for w in range(nrt)]
    fp = [pool.submit(prove, prop, n, limit) for n in tasks]
    R = [f.result() for f in fr]
    if any(r.get('failure') for r in R):
        STOP[0] = time.time() + (150 if tier == 'quick' else 600)
    P = [f.result() for f in fp]
    stand_in = [p['task'] for p in P if p['error']]
    failed = [(p['task'], o) for p in P for o in p['obls'] if not o['ok']]
    if (stand_in or failed) and not any(r.get('failure') for r in R):
        # undecided or undischarged obligations: look harder for a failing input
        more = 60 if tier == 'quick' else 300
        R += [f.result() for f in [pool.submit(runtime, prop, seed + 1, more, 10 + w, list(known)) for w in range(8)]]
    failures = [r['failure'] for r in R if r.get('failure')]
    rterr = [r['error'] for r in R if r.get('error')]
    for key in sorted(set(k for r in R for k in r.get('known', {}))):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))

    rdir = os.path.join(EVID, 'replays')
    os.makedirs(rdir, exist_ok=True)
    violation = None
    if failures:
        path = os.path.join(rdir, prop + '.json')
        f = failures[0]
        json.dump(dict(property=prop, case=f['case'], message=f['message'], flaky=f.get('flaky', False),
                       obligations=[dict(o, task=t) for t, o in failed],
                       replay='%s %s --replay %s' % (PYRT, os.path.join(HERE, 'runtime', 'rt.py'), path)), open(path, 'w'), indent=1)
        print('%s: the contract fails on the real code: %s' % (prop, f['message'][:600]))
        violation = 'VIOLATION property=%s replay=%s' % (prop, path)
    elif failed:
        path = os.path.join(rdir, prop + '.json')
        json.dump(dict(property=prop, case=None, obligations=[dict(o, task=t) for t, o in failed]), open(path, 'w'), indent=1)
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)
    for t, o in failed:
        print('%s: undischarged obligation [%s] %s:%s %s (%s)' % (prop, t, o['func'], o['line'], o['msg'], o['how']))

    obls = [o for p in P for o in p['obls']]
    done = [o for o in obls if o['ok']]
    level = M['level']
    ev = sum(r['evaluations'] for r in R)
    nt = sum(r['distinct_nontrivial'] for r in R)
    cov = dict(evaluations=ev, distinct_nontrivial=nt,
               rule='generated by runtime/ for the property; a case counts when the contract was exercised on it (a non-empty result), and no two equal cases of a worker are counted twice',
               samples=[s for r in R[:2] for s in r['samples'][:1]])
    if level == 'proof':
        by = {}
        for o in done:
            b = 'cvc5' if 'cvc5' in o['how'] else 'z3' if 'z3' in o['how'] or o['how'] in ('unsat',) else 'rewriting with z3 side conditions'
            by[b] = by.get(b, 0) + 1
        cov.update(obligations=len(obls), discharged=len(done), discharged_by=by,
                   checker_cmd='python3-vt %s %s' % (os.path.join(HERE, 'cdv', 'prove.py'), prop),
                   trusted_base=meta.TRUSTED + M.get('trusted', []),
                   solver_s=round(sum(o['t'] for o in obls), 2),
                   tasks={p['task']: dict(obligations=len(p['obls']), discharged=len([o for o in p['obls'] if o['ok']]),
                                          functions=p['funcs'], executed=p['called'], seconds=round(p['time'], 1),
                                          undecided=p['error'], notes=p['notes']) for p in P},
                   functions_under_contract=sorted(set(f for p in P for f in p['funcs'])),
                   preconditions_satisfiable=[list(v) for p in P for v in p['vac']],
                   bounded=dict(what='run-time form of the contracts on the real code (not counted as proved)',
                                bound='%d inputs' % ev, stands_in_for=stand_in))
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=meta.ASSUME + M.get('assume', []),
                   wall_s=round(time.time() - t0, 1), violations=1 if violation else 0),
              open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations, %d run-time evaluations (%d non-trivial), %.1f s%s' % (
        prop, len(done), len(obls), ev, nt, time.time() - t0, '; undecided, bounded stand-in: %s' % stand_in if stand_in else ''))
    for p in P:
        if p['error']:
            print('   %s: %s' % (p['task'], p['error'].splitlines()[0]))
    if violation:
        print(violation)
        sys.exit(1)
    if rterr and not any(r['evaluations'] for r in R) and not done:
        print('the run-time checks do not start:', rterr[0])
        sys.exit(3)
    if level == 'proof' and not obls and not stand_in:
        print('no obligations were generated')
        sys.exit(3)
    sys.exit(0)


main()
