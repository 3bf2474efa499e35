"""CLI: python3-vt cdv/prove.py PROP|all [task...]         -> report on stdout
        python3-vt cdv/prove.py --json PROP task           -> one JSON object on stdout
        python3-vt cdv/prove.py --list PROP                -> names of the tasks that decide PROP"""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import importlib

SPECS = ('specs_commons', 'specs_init', 'specs_apply', 'specs_generate', 'specs_api', 'specs_est', 'specs_utils')


def load():
    import task
    for m in SPECS:
        if os.path.exists(os.path.join(HERE, m + '.py')):
            importlib.import_module(m)
    return task


def main():
    task = load()
    if sys.argv[1] == '--list':
        print(json.dumps([t.name for t in task.TASKS if sys.argv[2] == 'all' or sys.argv[2] in t.props]))
        return
    if sys.argv[1] == '--json':
        t = [t for t in task.TASKS if t.name == sys.argv[3]][0]
        if len(sys.argv) > 4:
            task.alarm(float(sys.argv[4]))
        print(json.dumps(task.run_task(t, list(t.props) if sys.argv[2] == "all" else [sys.argv[2]])))
        return
    prop = sys.argv[1]
    names = sys.argv[2:]
    for t in task.TASKS:
        if names and t.name not in names:
            continue
        ps = list(t.props) if prop == 'all' else [prop] if prop in t.props else []
        if not ps:
            continue
        r = task.run_task(t, ps)
        bad = [o for o in r['obls'] if not o['ok']]
        print('%-22s %4d obligations, %d failed, %.1f s %s' % (t.name, len(r['obls']), len(bad), r['time'], r['error'] or ''))
        for o in bad:
            print('   FAIL', o['kind'], o['func'], o['line'], o['msg'], '|', o['how'], '\n       ', o.get('model', '')[:int(os.environ.get('CDV_MODEL', 900))].replace('\n', '\n        '))
        sys.stdout.flush()


if __name__ == '__main__':
    main()
