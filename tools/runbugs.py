#!/usr/bin/env python3
"""runbugs.py [NAME...]: applies each seeded change to a scratch copy and runs the check of its property against it."""
import os, sys, json, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for n in sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded')):
    d = os.path.join(ROOT, 'seeded', n)
    p = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='runbug')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/repo'], check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/repo', check=True)
        r = subprocess.run(['python3', ROOT + '/check.py', p], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, CDV_REPO=w + '/repo', CDV_EVIDENCE=w, VERIF_TIER='quick', VERIF_SEED='1'))
        ob = [l for l in r.stdout.splitlines() if 'undischarged' in l]
        rt = [l for l in r.stdout.splitlines() if 'fails on the real code' in l]
        last = [l for l in r.stdout.splitlines() if 'run-time evaluations' in l]
        print('%-24s %s exit=%d obligations failed=%d run-time=%s %s' % (n, p, r.returncode, len(ob), bool(rt), last[0][:150] if last else r.stdout[-300:] + r.stderr[-300:]))
        for l in ob[:2] + rt[:1]:
            print('      ', l[:220])
        sys.stdout.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)
