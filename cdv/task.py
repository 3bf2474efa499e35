"""Proof tasks: a function of the repository against its contract."""
import time, signal, traceback
import z3
import core
from core import *
from vals import *
from interp import Interp, Repo, Obl
import contracts as C

SAFETY = {'bounds', 'slice', 'shape', 'div', 'noerror'}
TASKS = []


class Task:
    def __init__(self, name, props, fn, funcs):
        self.name, self.props, self.fn, self.funcs = name, props, fn, funcs


def task(name, props, funcs):
    """props: {property: set of obligation kinds}"""
    def deco(fn):
        TASKS.append(Task(name, props, fn, funcs))
        return fn
    return deco


class Enough(Exception):
    pass


class Obls(list):
    """Obligations; a task stops after a few that are not discharged."""
    def __init__(self, budget):
        self.t0, self.budget, self.bad = time.time(), budget, 0

    def append(self, o):
        list.append(self, o)
        if not o.ok:
            self.bad += 1
        if self.bad and (self.bad >= 4 or time.time() - self.t0 > self.budget):
            raise Enough()


class OutOfTime(BaseException):
    pass


def alarm(seconds):
    """Ends the task after some time; the obligations decided so far are kept."""
    def f(*a):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, f)
    signal.setitimer(signal.ITIMER_REAL, seconds, 2.0)       # again and again: one may get lost in a destructor


class Ctx:
    """What a task function gets."""
    def __init__(self, repo, kinds, timeout=10.0, budget=240):
        self.repo, self.kinds, self.timeout = repo, kinds, timeout
        self.obls = Obls(budget)
        self.called = set()
        self.notes = []
        self.vac = []

    def interp(self, contracts=None):
        ip = Interp(self.repo, contracts or {}, self.kinds, self.timeout)
        ip.obls = self.obls
        return ip

    def run(self, ip, name, args, st, kw=None):
        f = self.repo.find(name)
        if f is None:
            raise Unsupported('function %s not found' % name)
        self.called.add(name)
        r = sat_check(st.pc)
        self.vac.append((name, r))
        if r == 'unsat':
            self.obls.append(Obl('vacuity', name, 0, 'the precondition of %s is satisfiable' % name, False, 'unsat', 0.0))
        outs, _ = ip.run_function(f, args, kw or {}, st)
        self.called |= ip.called
        rets = []
        self.raising = [o for o in outs if o.kind == 'raise']
        for o in outs:
            if o.kind == 'raise':
                if self.kinds is None or 'noerror' in self.kinds:
                    p = prove(z3.BoolVal(False), o.st.pc, ip.cands, self.timeout)
                    self.obls.append(Obl('noerror', name, 0, 'no %s is raised' % o.value, bool(p), p.how, p.t, p.model))
            else:
                rets.append(o)
        if not rets:
            raise Unsupported('%s never returns' % name)
        return rets

    def post(self, prop, ip, goal, st, msg, func='', cands=(), timeout=None):
        kind = 'post:' + prop
        if self.kinds is not None and kind not in self.kinds:
            return
        t = time.time()
        with deadline(240):
            r = prove(goal, st.pc, list(cands) + ip.cands, timeout or self.timeout)
        self.obls.append(Obl(kind, func, 0, msg, bool(r), r.how, time.time() - t, '' if r else ('goal: %s' % str(goal)[:1500]) + '\n' + r.model))
        return bool(r)

    def post_eq(self, prop, ip, a, b, st, msg, func='', cands=()):
        kind = 'post:' + prop
        if self.kinds is not None and kind not in self.kinds:
            return
        t = time.time()
        a, b = unify2(a, b) if to_z3(a).sort() != to_z3(b).sort() else (to_z3(a), to_z3(b))
        with deadline(240):
            r = prove_eq(a, b, st.pc, list(cands) + ip.cands, self.timeout)
        self.obls.append(Obl(kind, func, 0, msg, bool(r), r.how, time.time() - t,
                             '' if r else 'code: %s\nspec: %s\n%s' % (str(simp(a))[:2000], str(simp(b))[:2000], r.model)))
        return bool(r)

    def post_exists(self, prop, ip, goal, st, seeds, msg, func=''):
        """A post made of existential statements, proved with witnesses built from the seeds."""
        kind = 'post:' + prop
        if self.kinds is not None and kind not in self.kinds:
            return
        t = time.time()
        with deadline(240):
            ok = prove_exists(goal, st.pc, seeds)
        self.obls.append(Obl(kind, func, 0, msg, ok, 'witness' if ok else 'no witness', time.time() - t, '' if ok else 'goal: %s' % str(goal)[:1500]))
        return ok

    def lemma(self, prop, ip, goal, st, msg, func='', cands=(), timeout=None):
        """An intermediate assertion: an obligation of its own, then a hypothesis of what follows."""
        n0 = len(self.obls)
        self.post(prop, ip, goal, st, msg, func, cands, timeout)
        if len(self.obls) > n0:
            st.pc.append(goal)

    def same_value(self, props, ip, st, got, want_st, want, msg, func):
        """The returned value equals the value given by the contract (arrays: same shape, same content)."""
        props = props if isinstance(props, (list, tuple)) else [props]
        for prop in props:
            if self.kinds is not None and 'post:' + prop not in self.kinds:
                continue
            if isinstance(want, tuple):
                if not isinstance(got, tuple) or len(got) != len(want):
                    self.obls.append(Obl('post:' + prop, func, 0, msg + ': a tuple of %d values' % len(want), False, 'shape', 0.0))
                    continue
                for k, (g, w) in enumerate(zip(got, want)):
                    self.same_value(prop, ip, st, g, want_st, w, '%s, item %d' % (msg, k), func)
            elif isinstance(want, Arr):
                if not isinstance(got, Arr) or got.ndim != want.ndim:
                    self.obls.append(Obl('post:' + prop, func, 0, msg + ': an array of rank %d' % want.ndim, False, 'shape', 0.0))
                    continue
                for k in range(want.ndim):
                    self.post_eq(prop, ip, got.shape[k], want.shape[k], st, '%s: size of axis %d' % (msg, k), func)
                bs = [z3.Const('!z%d' % uid(), I) for _ in want.shape]
                s2 = st.copy()
                s2.pc += [c for b, d in zip(bs, want.shape) for c in (0 <= b, b < to_z3(d))]
                ip.quiet += 1
                g = ip.elem(st, got)(*bs)
                w = ip.elem(want_st, want)(*bs)
                ip.quiet -= 1
                self.post_eq(prop, ip, g, w, s2, msg + ': content at every index', func)
            else:
                if not is_num(got):
                    self.obls.append(Obl('post:' + prop, func, 0, msg + ': a number', False, 'type', 0.0))
                    continue
                self.post_eq(prop, ip, got, want, st, msg, func)


def run_task(t, props, timeout=10.0, repo=None, budget=240):
    """-> dict(obls, error, called, notes)"""
    kinds = set()
    for p in props:
        kinds |= set(t.props.get(p, ()))
    cx = Ctx(repo or Repo(), kinds, timeout, budget)
    err = None
    t0 = time.time()
    try:
        t.fn(cx)
    except OutOfTime:
        err = 'undecided: out of time'
    except Enough:
        cx.notes.append('stopped after undischarged obligations')
    except Unsupported as e:
        err = 'unsupported: %s' % e
    except C.Mismatch as e:
        err = 'unsupported: contract mismatch: %s' % e
    except z3.Z3Exception as e:
        err = 'unsupported: z3: %s' % e
    except RecursionError:
        err = 'unsupported: recursion'
    except Exception as e:
        err = 'engine: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip() + '\n' + traceback.format_exc()[-1500:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(task=t.name, funcs=t.funcs, obls=[o.d() for o in cx.obls], error=err, called=sorted(cx.called),
                vac=cx.vac, notes=cx.notes, time=time.time() - t0)
