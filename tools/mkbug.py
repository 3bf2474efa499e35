#!/usr/bin/env python3
"""mkbug.py NAME...: builds and confirms /verif/seeded/NAME from tools/bugs.py (patch against /repo's HEAD in a scratch copy)."""
import os, sys, shutil, subprocess, json, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
ROOT = os.path.dirname(HERE)
PRE = '''import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(H, 'stubs'), os.getcwd()]
import warnings; warnings.simplefilter('ignore')
import numpy as np
def check(ok, msg):
    if not ok:
        print('FAIL:', msg); sys.exit(1)
'''
SH = '''#!/bin/bash
# run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300)


def main():
    for name in sys.argv[1:] or BUGS:
        b = BUGS[name]
        d = os.path.join(ROOT, 'seeded', name)
        os.makedirs(d, exist_ok=True)
        shutil.rmtree(os.path.join(d, 'stubs'), ignore_errors=True)
        shutil.copytree(os.path.join(ROOT, 'runtime', 'stubs'), os.path.join(d, 'stubs'), ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(d, 'demo.py'), 'w').write(PRE + b['demo'].strip() + '\nprint("ok")\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        w = tempfile.mkdtemp(prefix='mkbug')
        try:
            r = os.path.join(w, 'repo')
            sh(['git', 'clone', '-q', '/repo', r], '/')
            c = sh(['bash', os.path.join(d, 'demo.sh')], r)
            for path, subs in b['edits'].items():
                p = os.path.join(r, path)
                s = open(p, newline='').read()
                for e in subs:
                    old, new = e[0], e[1]
                    nth = e[2] if len(e) > 2 else None
                    if '\r\n' in s:
                        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                    n = s.count(old)
                    if n == 0 or (n > 1 and nth is None):
                        print(name, 'edit matches %d times: %r' % (n, old[:80])); break
                    if nth is None or n == 1:
                        s = s.replace(old, new)
                    else:
                        parts = s.split(old)
                        s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
                open(p, 'w', newline='').write(s)
            diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True).stdout
            open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
            sh(['git', 'checkout', '-q', '.'], r)
            a = sh(['git', 'apply', os.path.join(d, 'patch.diff')], r)
            m = sh(['bash', os.path.join(d, 'demo.sh')], r)
            t = sh(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests/test_checks_utils.py'], r)
            okk = c.returncode == 0 and m.returncode != 0 and t.returncode == 0 and a.returncode == 0 and diff
            print('%-28s %s clean=%d patched=%d apply=%d tests=%s | %s %s' % (name, 'OK ' if okk else 'BAD', c.returncode, m.returncode, a.returncode,
                  t.stdout.strip().splitlines()[-1][:40] if t.stdout else t.stderr[-200:], (m.stdout.strip().splitlines() or [m.stderr[-300:]])[-1][:120],
                  '' if c.returncode == 0 else 'CLEAN: ' + (c.stdout + c.stderr)[-600:]))
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
