#!/usr/bin/env python3
"""Run-time contract checks on the real code.   rt.py PROP --seed N --seconds S --cases N | rt.py --replay FILE"""
import sys, os, json, time, argparse, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import io, contextlib

def table():
    import props_kernels
    t = dict(props_kernels.PROPS)
    try:
        import props_api
        t.update(props_api.PROPS)
    except ModuleNotFoundError as e:
        if 'props_api' not in str(e): raise
    return t

def run_case(run, c):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return run(c)
        except Bad:
            raise
        except Exception as e:
            # an exception that left the code under test is a failure of the code; one of this harness alone
            # (a private name or a signature that is no longer there) leaves the case undecided
            import traceback
            fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(os.path.join(REPO, 'convst'))]
            if fr:
                bad('unexpected {}: {} at {}:{} {}', type(e).__name__, str(e)[:200], os.path.relpath(fr[-1].filename, REPO), fr[-1].lineno, fr[-1].line)
            raise Inapplicable('%s: %s at %s' % (type(e).__name__, str(e)[:200], traceback.format_exc(limit=-1)[-300:]))


class Inapplicable(Exception):
    pass

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--seconds', type=float, default=20)
    ap.add_argument('--cases', type=int, default=100000)
    ap.add_argument('--worker', type=int, default=0)
    ap.add_argument('--known', default='')
    ap.add_argument('--replay')
    a = ap.parse_args()
    T = table()
    if a.replay:
        r = json.load(open(a.replay))
        try:
            run_case(T[r['property']][1], r['case'])
        except Bad as e:
            print('FAILS:', e)
            return 1
        print('holds on this input')
        return 0
    gen, run, fixed = T[a.prop]
    rng = np.random.RandomState((a.seed * 1000003 + a.worker * 7919 + int(hashlib.sha1(a.prop.encode()).hexdigest()[:6], 16)) % (2**32))
    t0 = time.time()
    n = nt = skipped = 0
    why = ''
    known = {}
    seen = set(); samples = []; fail = None
    def cases():
        if fixed and a.worker == 0:
            for c in fixed(): yield c
        while True:
            yield gen(rng)
    for c in cases():
        if n >= a.cases or (time.time() - t0 > a.seconds and n + skipped >= 3):
            break
        key = json.dumps(c, sort_keys=True)
        try:
            r = run_case(run, c)
        except Inapplicable as e:
            skipped += 1
            why = str(e)
            if skipped > 50 and not n:
                break
            continue
        except Bad as e:
            n += 1
            key = getattr(e, 'key', None)
            if key is not None and key in a.known.split(','):
                known[key] = str(e)
                continue
            fail = dict(case=c, message=str(e), key=key)
            try:
                run_case(run, c)
                fail['flaky'] = True
            except (Bad, Inapplicable):
                pass
            break
        n += 1
        if r and key not in seen:
            nt += 1
            seen.add(key)
            if len(samples) < 3: samples.append(c)
    print(json.dumps(dict(evaluations=n, distinct_nontrivial=nt, samples=samples, failure=fail, known=known, seconds=time.time() - t0, skipped=skipped, error=('the contract does not apply: ' + why) if skipped and not n else None, why=why)))
    return 0
if __name__ == '__main__':
    sys.exit(main())
