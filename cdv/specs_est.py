"""Proof tasks of the argument checks, the input transformations, the scalers and the classifiers."""
import ast
from task import *
from contracts import *
from api import *
from vals import Outcome
from specs_api import api, hold, fail, Frame_

CU = ['check_array_3D', 'check_array_2D', 'check_array_1D', 'check_is_numpy', 'check_is_numpy_or_pd', 'check_is_numeric', 'check_is_boolean', 'check_n_jobs']


# ------------------------------------------------------------------------------------------------ C11
def outcomes(cx, ip, name, args, st, kw=None):
    f = cx.repo.find(name)
    if f is None:
        raise Unsupported('%s not found' % name)
    cx.called.add(name)
    outs, _ = ip.run_function(f, args, kw or {}, st)
    outs = outs + [Outcome('raise', s, v) for s, v in ip.raised]
    del ip.raised[:]
    cx.called |= ip.called
    return outs


def exactly(cx, ip, outs, good, same, lab, fn):
    """A value is returned exactly when good holds, and then it is the argument; ValueError is raised otherwise."""
    good = to_z3(good)
    for o in outs:
        if o.kind == 'return':
            cx.post('C11', ip, good, o.st, '%s: accepted only when well formed' % lab, fn)
            if str(sat_check(o.st.pc + [good])) != 'unsat':
                same(o)
        else:
            if str(sat_check(o.st.pc)) == 'unsat':
                continue
            cx.post('C11', ip, z3.Not(good), o.st, '%s: refused only when not well formed' % lab, fn)
            hold(cx, 'C11', o.value == 'ValueError', '%s: the error raised is ValueError, not %s' % (lab, o.value), fn)


def scalar_of(ip, kind):
    return {'int': lambda: z3.Int('x'), 'bool': lambda: z3.Bool('x'), 'float': lambda: z3.Real('x'),
            'np.int64': lambda: ip.tag(z3.Int('xn'), 'np.int64'), 'np.float64': lambda: ip.tag(z3.Real('xn'), 'np.float64'),
            'np.float32': lambda: ip.tag(z3.Real('xs'), 'np.float32'), 'np.bool': lambda: ip.tag(z3.Bool('xb'), 'np.bool'),
            'str': lambda: 'abc', 'none': lambda: None, 'tuple': lambda: (z3.Int('x'), z3.Int('x2'))}.get(kind, lambda: Opq(z3.Const('x', OBJ), kind))()


def array_of(ip, st, rank, dt='real'):
    sh = [z3.Int('d%d' % k) for k in range(rank)]
    st.pc += [d >= 0 for d in sh]
    return ip.input_array(st, 'A', sh, dt)


def list_of(ip, st, rank):
    """A nested list of numbers: a list of arrays of rank - 1 of one shape"""
    n = z3.Int('d0')
    sh = [z3.Int('d%d' % k) for k in range(1, rank)]
    st.pc += [n >= 1] + [d >= 0 for d in sh]
    f = z3.Function('A', *([I] * rank + [R]))
    if rank == 1:
        return SeqV(n, lambda s, i: f(i)), [n], f
    b = ip.alloc(st, [n] + sh, 'real', lambda *i: f(*i), name='A').buf
    return SeqV(n, lambda s, i: Arr(b, sh, 'real', [('fix', i)] + [('dim', k, 0) for k in range(rank - 1)])), [n] + sh, f


def empty(d):
    return z3.Or(*[x == 0 for x in d]) if d else z3.BoolVal(False)


def same_array(cx, ip, arg, sh, f):
    def same(o):
        r = o.value
        lab, fn = same.lab, same.fn
        if not hold(cx, 'C11', isinstance(r, Arr) and r.ndim == len(sh), '%s: an array of the same rank is returned' % lab, fn):
            return
        idx = [z3.Int('!a%d' % k) for k in range(len(sh))]
        s2 = o.st.copy()
        s2.pc += [z3.And(0 <= i, i < to_z3(d)) for i, d in zip(idx, sh)]
        for k, d in enumerate(sh):
            cx.post_eq('C11', ip, r.shape[k], d, o.st, '%s: same shape, dimension %d' % (lab, k), fn)
        cx.post_eq('C11', ip, ip.elem(s2, r)(*idx), f(*idx), s2, '%s: same values' % lab, fn)
        if isinstance(arg, Arr):
            hold(cx, 'C11', o.st.heap[arg.buf] is same.heap[arg.buf], '%s: the argument is not modified' % lab, fn)
    return same


@task('checks_arrays', {'C11': {'post:C11', 'vacuity'}}, CU[:5])
def t_check_arrays(cx):
    mt, uni = z3.Int('min_timestamps'), z3.Bool('is_univariate')
    fns = [('check_array_3D', {}, 3, lambda sh: sh[2] > 2), ('check_array_3D', dict(min_timestamps=mt, is_univariate=uni), 3, lambda sh: z3.And(sh[2] > mt, z3.Implies(uni, sh[1] == 1))),
           ('check_array_2D', {}, 2, lambda sh: z3.BoolVal(True)), ('check_array_1D', {}, 1, lambda sh: z3.BoolVal(True)),
           ('check_is_numpy', {}, None, None), ('check_is_numpy_or_pd', {}, None, None)]
    for fn, kw, rank, cond in fns:
        for src in ('array', 'intarray', 'list'):
            for r in (1, 2, 3, 4):
                ip = api(cx)
                st = State()
                if src == 'list':
                    arg, sh, f = list_of(ip, st, r)
                else:
                    arg = array_of(ip, st, r, 'real' if src == 'array' else 'int')
                    sh, f = arg.shape, ip.elem(st, arg)
                good = z3.BoolVal(True) if rank is None else z3.And(z3.Not(empty(sh)), cond(sh)) if r == rank else z3.BoolVal(False)
                same = same_array(cx, ip, arg, sh, f)
                same.lab, same.fn = '%s(%s of rank %d%s)' % (fn, src, r, ', options' if kw else ''), fn
                same.heap = dict(st.heap)
                exactly(cx, ip, outcomes(cx, ip, fn, [arg], st, kw), good, same, same.lab, fn)
        for kind in ('int', 'float', 'bool', 'str', 'none', 'tuple', 'dict', 'np.float64'):
            ip = api(cx)
            st = State()
            exactly(cx, ip, outcomes(cx, ip, fn, [scalar_of(ip, kind)], st, kw), z3.BoolVal(False), None, '%s(%s)' % (fn, kind), fn)
        ip = api(cx)
        st = State()
        df = Opq(z3.Const('df', OBJ), 'DataFrame')
        sh = ip.getattr(df, 'shape', st, None)
        outs = outcomes(cx, ip, fn, [df], st, kw)
        lab = '%s(DataFrame)' % fn
        if fn in ('check_array_2D',):
            g = ip.elem(st, ip.getattr(df, 'values', st, None))
            same = same_array(cx, ip, None, list(sh), g)
            same.lab, same.fn = lab, fn
            exactly(cx, ip, outs, z3.Not(empty(sh)), same, lab, fn)
        elif fn == 'check_is_numpy_or_pd':
            exactly(cx, ip, outs, z3.BoolVal(True), lambda o: hold(cx, 'C11', o.value is df, lab + ': returned as given', fn), lab, fn)
        else:
            exactly(cx, ip, outs, z3.BoolVal(False), None, lab, fn)


def same_scalar(cx, ip, v, lab, fn, to=lambda x: x):
    def same(o):
        r = o.value
        if isinstance(v, Opq) or v is None or isinstance(v, (str, tuple)):
            hold(cx, 'C11', r is v, '%s: returned as given' % lab, fn)
        elif hold(cx, 'C11', is_num(r), '%s: a number is returned' % lab, fn):
            x, y = to_z3(r), to_z3(to(v))
            if B in (x.sort(), y.sort()):
                x, y = boolean(x), boolean(y)
            else:
                x, y = real(x), real(y)
            cx.post('C11', ip, x == y, o.st, '%s: the value is unchanged' % lab, fn)
    return same


NUMERIC = ('int', 'float', 'np.int64', 'np.float64', 'np.float32')
ANY = NUMERIC + ('bool', 'str', 'none', 'tuple', 'list', 'dict', 'ndarray')


@task('checks_scalars', {'C11': {'post:C11', 'vacuity'}}, CU[5:])
def t_check_scalars(cx):
    for fn, ok in (('check_is_numeric', NUMERIC), ('check_is_boolean', ('bool',))):
        for kind in ANY:
            ip = api(cx)
            st = State()
            v = scalar_of(ip, kind)
            lab = '%s(%s)' % (fn, kind)
            exactly(cx, ip, outcomes(cx, ip, fn, [v], st), z3.BoolVal(kind in ok), same_scalar(cx, ip, v, lab, fn), lab, fn)
    fn, cpu = 'check_n_jobs', z3.Int('cpu_count')
    for kind in ANY:
        ip = api(cx)
        st = State()
        v = scalar_of(ip, kind)
        lab = '%s(%s)' % (fn, kind)
        to = lambda x: z3.IntVal(1) if x is None else z3.If(x < 0, cpu + x + 1, z3.If(x < cpu, x, cpu))

        def same(o, v=v, lab=lab, to=to):
            if hold(cx, 'C11', is_num(o.value), '%s: a number is returned' % lab, fn):
                cx.post('C11', ip, to_z3(o.value) == to(v), o.st, '%s: 1, at most the number of CPUs, or counted down from it' % lab, fn)
        exactly(cx, ip, outcomes(cx, ip, fn, [v], st), z3.BoolVal(kind in ('int', 'np.int64', 'none')), same, lab, fn)


@task('checks_options', {'C11': {'post:C11', 'vacuity'}}, ['R_DST.__init__', 'R_DST._validate_transform_type', 'R_DST._validate_percentiles'])
def t_check_options(cx):
    def one(kw, good, lab, extra=(), attr=None, want=None, setup=None):
        """R_DST(**kw): built exactly when good; the option is stored with its value."""
        ip = api(cx)
        st = State()
        kw = {k: (v(ip, st) if callable(v) else v) for k, v in dict(dict(n_jobs=False), **kw).items()}
        st.pc += list(extra)
        good = good(kw, st, ip) if callable(good) else z3.BoolVal(good)
        m = ip.repo.modules.get('convst.transformers.rdst')
        c = m and m.classes.get('R_DST')
        if c is None:
            raise Unsupported('R_DST not found')
        init = cx.repo.find('R_DST.__init__')
        cx.called.add('R_DST.__init__')
        o = ObjV(RepoClass(m, c), 'R%d' % uid())
        st.heap[o.id] = {}
        outs, _ = ip.run_function(init, [o], kw, st)
        outs = outs + [Outcome('raise', s, v) for s, v in ip.raised]
        del ip.raised[:]
        cx.called |= ip.called

        def same(out):
            if attr is None:
                return
            v = out.st.heap[o.id].get(attr)
            w = want(kw, out.st) if want else kw[attr]
            if isinstance(w, Arr):
                s = same_array(cx, ip, None, list(w.shape), ip.elem(out.st, w))
                s.lab, s.fn = lab, 'R_DST.__init__'
                s(Outcome('return', out.st, v))
            elif isinstance(w, (str, ListV)) or w is None:
                hold(cx, 'C11', v is w or isinstance(w, str) and v == w, '%s: stored as given' % lab, 'R_DST.__init__')
            else:
                same_scalar(cx, ip, w, lab, 'R_DST.__init__')(Outcome('return', out.st, v))
        exactly(cx, ip, outs, good, same, lab, 'R_DST.__init__')
    for tt in ('auto', 'univariate', 'multivariate', 'univariate_variable', 'multivariate_variable', 'AUTO', 'Multivariate'):
        one(dict(transform_type=tt), True, 'transform_type=%r' % tt, attr='transform_type', want=lambda kw, s, tt=tt: tt.lower())
    for tt in ('', 'uni', 'variable', 'multivariate variable', 'autos'):
        one(dict(transform_type=tt), False, 'transform_type=%r' % tt)
    sc = lambda kind: (lambda ip, st: scalar_of(ip, kind))
    for opt in ('phase_invariance', 'normalize_output', 'prime_dilations'):
        for kind in ('bool', 'int', 'float', 'str', 'none', 'tuple', 'dict'):
            one({opt: sc(kind)}, kind == 'bool', '%s: %s' % (opt, kind), attr=opt)
    for opt in ('alpha', 'proba_norm', 'n_samples', 'n_shapelets', 'lengths_bounds_reduction'):
        for kind in NUMERIC + ('bool', 'str', 'none', 'tuple', 'dict'):
            ok = kind in NUMERIC or kind == 'none' and opt == 'n_samples'
            g = (lambda kw, st, ip: real(kw['lengths_bounds_reduction']) < 1) if ok and opt == 'lengths_bounds_reduction' else ok
            w = (lambda kw, s: trunc(real(kw['n_shapelets']))) if opt == 'n_shapelets' and ok else None
            one({opt: sc(kind)}, g, '%s: %s' % (opt, kind), attr=opt, want=w)
    for r in (1, 2, 3):
        for dt in ('int', 'real'):
            one(dict(shapelet_lengths=lambda ip, st: array_of(ip, st, r, dt)), lambda kw, st, ip: z3.Not(empty(kw['shapelet_lengths'].shape)) if r == 1 else z3.BoolVal(False),
                'shapelet_lengths: %s array of rank %d' % (dt, r), attr='shapelet_lengths')
            one(dict(percentiles=lambda ip, st: array_of(ip, st, r, dt)),
                lambda kw, st, ip: z3.And(kw['percentiles'].shape[0] == 2, (lambda e: e(z3.IntVal(0)) <= e(z3.IntVal(1)))(ip.elem(st, kw['percentiles']))) if r == 1 else z3.BoolVal(False),
                'percentiles: %s array of rank %d' % (dt, r), attr='percentiles')
    for kind in ('int', 'str', 'none', 'dict'):
        one(dict(shapelet_lengths=sc(kind)), False, 'shapelet_lengths: %s' % kind)
        one(dict(percentiles=sc(kind)), False, 'percentiles: %s' % kind)
    for k in (1, 2, 3):
        one(dict(shapelet_lengths_bounds=lambda ip, st: ip.new_list([z3.Int('b%d' % q) for q in range(k)], st)), k == 2, 'shapelet_lengths_bounds: %d values' % k, attr='shapelet_lengths_bounds')
    one(dict(shapelet_lengths_bounds=None), True, 'shapelet_lengths_bounds=None', attr='shapelet_lengths_bounds')
    for kind in ('bool', 'int', 'np.int64', 'none', 'float', 'str', 'dict'):
        one(dict(n_jobs=sc(kind)), kind in ('bool', 'int', 'np.int64', 'none'), 'n_jobs: %s' % kind)


# ------------------------------------------------------------------------------------------------ C12
N_, F_, T_ = z3.Ints('n_samples n_features n_timestamps')
EPS = z3.RealVal('1/100000000')


def normed(n, f):
    """x -> (x - mean) / (std + 1e-8) over one channel of n values"""
    return lambda t: DIV(real(f(t)) - Mean(n, f), Std(n, f) + EPS)


def content_is(cx, prop, ip, st, r, shape, f, lab, fn, pre=()):
    if not hold(cx, prop, isinstance(r, Arr) and r.ndim == len(shape), '%s: an array of rank %d is returned' % (lab, len(shape)), fn):
        return
    for k, d in enumerate(shape):
        cx.post_eq(prop, ip, r.shape[k], d, st, '%s: dimension %d' % (lab, k), fn)
    idx = [z3.Int('!i%d' % k) for k in range(len(shape))]
    s2 = st.copy()
    s2.pc += [z3.And(0 <= i, i < to_z3(d)) for i, d in zip(idx, shape)] + list(pre)
    ip.quiet += 1
    x = ip.elem(s2, r)(*idx)
    ip.quiet -= 1
    cx.post_eq(prop, ip, x, f(*idx), s2, '%s: every value' % lab, fn)


class Rebind:
    """A loop that rebinds arrays, by an annotated invariant. roles: name -> (test of the variable, q -> (shape, dtype, content));
    step: name -> q -> content after iteration q by the definition of the specification (default: content at q+1).
    The variables are found by what they hold at the start of the loop, not by their names."""

    def __init__(self, cx, ip, prop, fn, roles, step=None, depth=0, prove_eq=None, after=None):
        self.cx, self.ip, self.prop, self.fn, self.roles, self.stepf, self.after = cx, ip, prop, fn, roles, step or {}, after
        self.busy = False

    def check(self, st, v, sh, f, msg):
        content_is(self.cx, self.prop, self.ip, st, v, sh, f, msg, self.fn)

    def __call__(self, node, st, cnt, item):
        cx, ip = self.cx, self.ip
        if self.busy:
            return None
        changed = {t.id for x in ast.walk(node) for t in ([x] if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) else [])}
        vars_ = {}
        for r, (test, _) in self.roles.items():
            c = [k for k in changed if isinstance(st.locals.get(k), Arr) and test(st.locals[k])]
            if len(c) != 1:
                return None
            vars_[r] = c[0]
        if len(set(vars_.values())) != len(vars_) or node.orelse:
            return None
        n = to_z3(cnt)
        for r, k in vars_.items():
            sh, dt, f = self.roles[r][1](z3.IntVal(0))
            self.check(st, st.locals[k], sh, f, 'loop invariant (%s) at the start' % r)
        q = z3.Int('!q%d' % uid())
        s = st.copy()
        s.heap = dict(st.heap)
        s.pc += [0 <= q, q < n]
        for k in changed:
            s.locals.pop(k, None)
        for r, k in vars_.items():
            sh, dt, f = self.roles[r][1](q)
            s.locals[k] = ip.alloc(s, sh, dt, f)
        h = dict(s.heap)
        ip.assign(node.target, item(s, q), s)
        self.busy = True
        try:
            outs = ip.exec_block(node.body, s)
        finally:
            self.busy = False
        for o in outs:
            if o.kind not in ('next', 'continue'):
                raise Unsupported('a loop under contract that is left')
            if any(o.st.heap[b] is not h[b] for b in h):
                raise Unsupported('a loop under contract that modifies an array')
            for r, k in vars_.items():
                sh, dt, f = self.roles[r][1](simp(q + 1))
                g = self.stepf[r](q) if r in self.stepf else f
                self.check(o.st, o.st.locals[k], sh, g, 'loop invariant (%s) is kept by an iteration' % r)
            if self.after:
                self.after(o.st, q)
        for k in changed:
            st.locals[k] = Poison('assigned in a loop under contract')
        ip.oblige('inv', n >= 0, st, node, 'the number of iterations is not negative')
        for r, k in vars_.items():
            sh, dt, f = self.roles[r][1](n)
            st.locals[k] = ip.alloc(st, sh, dt, f)
        return [Outcome('next', st)]


@task('z_norm', {'C12': {'post:C12', 'vacuity'}}, ['z_norm_one_sample', 'z_norm_all_samples', 'Z_normalizer.transform', 'z_norm_3D', 'z_norm_3D_list'])
def t_znorm(cx):
    for dt in ('real', 'int'):
        ip = api(cx)
        st = State()
        st.pc = [F_ >= 1, T_ >= 1]
        x = ip.input_array(st, 'x', [F_, T_], dt)
        f = ip.elem(st, x)
        h0 = st.heap[x.buf]
        for o in cx.run(ip, 'z_norm_one_sample', [x], st):
            content_is(cx, 'C12', ip, o.st, o.value, [F_, T_], lambda c, t: normed(T_, lambda k: f(c, k))(t), 'one sample, %s' % dt, 'z_norm_one_sample')
            hold(cx, 'C12', o.st.heap[x.buf] is h0, 'one sample, %s: the input is not modified' % dt, 'z_norm_one_sample')
        for fn in ('z_norm_all_samples', 'Z_normalizer.transform') + (('z_norm_3D',) if dt == 'real' else ()):
            ip = api(cx)
            st = State()
            st.pc = [N_ >= 1, F_ >= 1, T_ >= 3]
            x = ip.input_array(st, 'X', [N_, F_, T_], dt)
            g = ip.elem(st, x)
            h0 = st.heap[x.buf]
            args = [x]
            if '.' in fn:
                m = ip.repo.modules['convst.transformers._input_transformers']
                ip.frames.append(Frame_(ip, m.name))
                args = [ip.construct(RepoClass(m, m.classes['Z_normalizer']), [], {}, st, None), x]
                ip.frames.pop()
            for o in cx.run(ip, fn, args, st):
                content_is(cx, 'C12', ip, o.st, o.value, [N_, F_, T_], lambda s, c, t: normed(T_, lambda k: g(s, c, k))(t), '%s, %s' % (fn, dt), fn)
                if fn != 'z_norm_3D':
                    hold(cx, 'C12', o.st.heap[x.buf] is h0, '%s, %s: the input is not modified' % (fn, dt), fn)


def series_list(ip, st, nm):
    """A list of 2D arrays of their own shapes"""
    n = z3.Int('n_' + nm)
    ff, lf = z3.Function(nm + '_ft', I, I), z3.Function(nm + '_t', I, I)
    f = z3.Function(nm, I, I, I, R)
    for g in (ff, lf):
        TH.rules.pop(g.get_id(), None)
        TH.rule(g, lambda a: [a >= 1])
    b = ip.alloc(st, [n, z3.Int('any_ft_' + nm), z3.Int('any_t_' + nm)], 'real', lambda *i: f(*i), name=nm).buf
    st.pc += [n >= 1]
    v = SeqV(n, lambda s, i: Arr(b, [ff(i), lf(i)], 'real', [('fix', i), ('dim', 0, 0), ('dim', 1, 0)]), 'list')
    return v, n, ff, lf, f, b


def list_is(cx, prop, ip, st, r, v, n, ff, lf, want, lab, fn):
    if not hold(cx, prop, isinstance(r, SeqV), '%s: a list is returned' % lab, fn):
        return
    cx.post_eq(prop, ip, to_z3(r.n), n, st, '%s: as many series' % lab, fn)
    s, c, t = z3.Ints('!s !c !t')
    s2 = st.copy()
    s2.pc += [0 <= s, s < n, 0 <= c, c < ff(s), 0 <= t, t < lf(s)]
    ip.quiet += 1
    a = r.item(s2, s)
    if hold(cx, prop, isinstance(a, Arr) and a.ndim == 2, '%s: of 2D arrays' % lab, fn):
        cx.post_eq(prop, ip, a.shape[0], ff(s), s2, '%s: same channels' % lab, fn)
        cx.post_eq(prop, ip, a.shape[1], lf(s), s2, '%s: same lengths' % lab, fn)
        cx.post_eq(prop, ip, ip.elem(s2, a)(c, t), want(s, c, t), s2, '%s: every value' % lab, fn)
    ip.quiet -= 1


@task('z_norm_list', {'C12': {'post:C12', 'vacuity'}}, ['z_norm_3D_list'])
def t_znl(cx):
    ip = api(cx)
    st = State()
    v, n, ff, lf, f, b = series_list(ip, st, 'X')
    for o in cx.run(ip, 'z_norm_3D_list', [v], st):
        list_is(cx, 'C12', ip, o.st, o.value, v, n, ff, lf, lambda s, c, t: normed(lf(s), lambda k: f(s, c, k))(t), 'z_norm_3D_list', 'z_norm_3D_list')


@task('load_split', {'C12': {'post:C12', 'vacuity'}}, ['load_UCR_UEA_dataset_split', 'load_UCR_UEA_dataset', 'z_norm_3D', 'z_norm_3D_list'])
def t_load(cx):
    for fn, kind in (('load_UCR_UEA_dataset_split', 'array'), ('load_UCR_UEA_dataset_split', 'list'), ('load_UCR_UEA_dataset', 'array')):
        whole = fn == 'load_UCR_UEA_dataset'
        for norm in (False, True):
            ip = api(cx)
            st = State()
            lab = '%s, %s, normalize=%s' % (fn, kind, norm)
            if whole:
                st.pc += [z3.Int('T_train') == z3.Int('T_test')]
            D = {}
            for sp in ('train', 'test'):
                if kind == 'list':
                    v, n, ff, lf, f, b = series_list(ip, st, sp)
                else:
                    n, F, T = z3.Ints('n_%s F T_%s' % (sp, sp))
                    st.pc += [n >= 1, F >= 1, T >= 1]
                    v = ip.input_array(st, sp, [n, F, T], 'real')
                    ff, lf, f = (lambda i, F=F: F), (lambda i, T=T: T), ip.elem(st, v)
                D[sp] = (v, n, ff, lf, f, ip.input_array(st, 'y_' + sp, [n], 'int'))

            def load(st_, a, kw, n_):
                if not set(kw) <= {'return_metadata', 'split'} or len(a) != 1 or a[0] is not name or kw.get('split') not in D or kw.get('return_metadata', False) is not False:
                    raise Unsupported('load_classification')
                return (D[kw['split']][0], D[kw['split']][5])
            name = Opq(z3.Const('dataset', OBJ), 'str')
            ip.models['aeon.datasets.load_classification'] = load
            for o in cx.run(ip, fn, [name, norm], st):
                if whole:
                    a, b = D['train'], D['test']
                    N1 = a[1]

                    def want(s, c, t):
                        x, y = a[4](s, c, t), b[4](simp(s - N1), c, t)
                        if norm:
                            x, y = normed(a[3](s), lambda k: a[4](s, c, k))(t), normed(b[3](s), lambda k: b[4](simp(s - N1), c, k))(t)
                        return ite(s < N1, x, y)
                    if hold(cx, 'C12', isinstance(o.value, tuple) and len(o.value) == 2, '%s: the series and the labels are returned' % lab, fn):
                        content_is(cx, 'C12', ip, o.st, o.value[0], [simp(N1 + b[1]), z3.Int('F'), z3.Int('T_train')], want, lab, fn)
                    continue
                if not hold(cx, 'C12', isinstance(o.value, tuple) and len(o.value) >= 2, '%s: train and test are returned' % lab, fn):
                    continue
                for r, sp in zip(o.value, ('train', 'test')):
                    v, n, ff, lf, f, y = D[sp]
                    want = (lambda s, c, t, lf=lf, f=f: normed(lf(s), lambda k: f(s, c, k))(t)) if norm else f
                    if kind == 'list':
                        list_is(cx, 'C12', ip, o.st, r, v, n, ff, lf, want, '%s, %s' % (lab, sp), fn)
                    else:
                        content_is(cx, 'C12', ip, o.st, r, v.shape, want, '%s, %s' % (lab, sp), fn)


# ------------------------------------------------------------------------------------------------ C22
@task('input_transformers', {'C22': {'post:C22', 'vacuity'}}, ['Raw.transform', 'Derivate.transform', 'Periodigram.transform'])
def t_inputs(cx):
    def obj(ip, st, name, kw):
        m = ip.repo.modules['convst.transformers._input_transformers']
        ip.frames.append(Frame_(ip, m.name))
        o = ip.construct(RepoClass(m, m.classes[name]), [], kw, st, None)
        ip.frames.pop()
        return o
    for order in (None, 1, 2, 3, 4):
        ip = api(cx)
        st = State()
        st.pc = [N_ >= 1, F_ >= 1, T_ >= 6]
        x = ip.input_array(st, 'X', [N_, F_, T_], 'real')
        f = ip.elem(st, x)
        e = obj(ip, st, 'Derivate' if order else 'Raw', dict(order=order) if order else {})
        nm = 'Derivate' if order else 'Raw'

        def d(k):
            return f if k == 0 else (lambda s, c, t: d(k - 1)(s, c, to_z3(t) + 1) - d(k - 1)(s, c, t))
        h0 = st.heap[x.buf]
        for o in cx.run(ip, nm + '.transform', [e, x], st):
            content_is(cx, 'C22', ip, o.st, o.value, [N_, F_, T_ - (order or 0)], d(order or 0), '%s of order %s' % (nm, order), nm + '.transform')
            hold(cx, 'C22', o.st.heap[x.buf] is h0, '%s: the input is not modified' % nm, nm + '.transform')
    # any order: the array after q passes is the difference of order q (loop invariant)
    ip = api(cx)
    st = State()
    K = z3.Int('order')
    st.pc = [N_ >= 1, F_ >= 1, K >= 1, T_ > K]
    x = ip.input_array(st, 'X', [N_, F_, T_], 'real')
    f = ip.elem(st, x)
    DIFF = z3.Function('diff', I, I, I, I, R)        # diff(0) = X, diff(q+1)(t) = diff(q)(t+1) - diff(q)(t)

    def d(q, s, c, t):
        return f(s, c, t) if conc(q) == 0 else DIFF(q, s, c, t)
    e = obj(ip, st, 'Derivate', dict(order=K))
    h0 = st.heap[x.buf]
    inv = Rebind(cx, ip, 'C22', 'Derivate.transform', dict(X=(lambda v: v.ndim == 3, lambda q: ([N_, F_, T_ - q], 'real', lambda s, c, t: d(q, s, c, t)))),
                 step=dict(X=lambda q: lambda s, c, t: d(q, s, c, simp(to_z3(t) + 1)) - d(q, s, c, t)))
    ip.for_contract = inv
    for o in cx.run(ip, 'Derivate.transform', [e, x], st):
        content_is(cx, 'C22', ip, o.st, o.value, [N_, F_, T_ - K], lambda s, c, t: d(K, s, c, t), 'Derivate of any order', 'Derivate.transform')
        hold(cx, 'C22', o.st.heap[x.buf] is h0, 'Derivate of any order: the input is not modified', 'Derivate.transform')
    # the periodogram of one channel is an uninterpreted function of its values, its length and the options
    ip = api(cx)
    st = State()
    st.pc = [N_ >= 1, F_ >= 1, T_ >= 3]
    x = ip.input_array(st, 'X', [N_, F_, T_], 'real')
    f = ip.elem(st, x)
    w = Opq(z3.Const('window', OBJ), 'str')

    def psd(T, g, win, detrend, k=None):
        L = TH.lam(lambda t: real(g(t)), 1)
        if k is None:
            return z3.Function('psd_size', I, I)(to_z3(T))
        return L.app('psd:%s' % detrend, [to_z3(T), win, to_z3(k)], R)

    def periodogram(st_, a, kw, n_):
        a0 = a[0]
        if len(a) != 1 or not isinstance(a0, Arr) or a0.ndim != 1 or not set(kw) <= {'detrend', 'window'} or 'window' not in kw:
            raise Unsupported('periodogram')
        g = ip.elem(st_, a0, n_)
        win = ip.to_obj(kw['window'], st_)
        sz = psd(a0.shape[0], g, win, kw.get('detrend', 'constant'))
        ip.assume(st_, sz >= 1)
        out = ip.alloc(st_, [sz], 'real', lambda k: psd(a0.shape[0], g, win, kw.get('detrend', 'constant'), k))
        return (Opq(z3.Const('!freqs%d' % uid(), OBJ)), out)
    ip.models['scipy.signal.periodogram'] = periodogram
    e = obj(ip, st, 'Periodigram', dict(window_type=w))
    h0 = st.heap[x.buf]
    for o in cx.run(ip, 'Periodigram.transform', [e, x], st):
        sz = z3.Function('psd_size', I, I)(T_)
        content_is(cx, 'C22', ip, o.st, o.value, [N_, F_, sz], lambda s, c, k: psd(T_, lambda t: f(s, c, t), ip.to_obj(w, st), False, k), 'Periodigram', 'Periodigram.transform')
        hold(cx, 'C22', o.st.heap[x.buf] is h0, 'Periodigram: the input is not modified', 'Periodigram.transform')


# ------------------------------------------------------------------------------------------------ C15
M_ = z3.Int('n_columns')


def varies(n, col):
    return Any(n, lambda i: to_z3(col(i)) != to_z3(col(z3.IntVal(0))))


def std_axiom(n, col):
    """contract of np.std over n >= 1 values: not negative, zero exactly when the values are all equal"""
    s = Std(n, col)
    return z3.And(s >= 0, (s == 0) == z3.Not(varies(n, col)))


@task('scalers', {'C15': {'post:C15', 'vacuity'}}, ['c_StandardScaler.fit', 'c_StandardScaler.transform', 'c_MinMaxScaler.fit', 'c_MinMaxScaler.transform'])
def t_scalers(cx):
    m = None
    for nm in ('c_StandardScaler', 'c_MinMaxScaler'):
        fn = nm + '.fit'
        ip = api(cx)
        m = ip.repo.modules['convst.transformers._input_transformers']
        if nm not in m.classes:
            raise Unsupported(nm + ' not found')
        log = []

        def super_call(o, name, args, kw, st, n):
            d = dict(zip(('X', 'y'), args), **kw)
            if name not in ('fit', 'transform') or not set(d) <= {'X', 'y'} or not isinstance(d.get('X'), Arr):
                raise Unsupported('super().%s' % name)
            r = o.obj if name == 'fit' else ip.alloc(st, list(d['X'].shape), 'real', ip.fresh_fn('scaled', [I, I], R))
            log.append((name, d, st.copy(), r))
            return r
        ip.super_call = super_call
        st = State()
        obj = ObjV(RepoClass(m, m.classes[nm]), 'S%d' % uid())
        st.heap[obj.id] = {}
        st.pc = [N_ >= 1, M_ >= 0]
        X = ip.input_array(st, 'X', [N_, M_], 'real')
        y = ip.input_array(st, 'y', [N_], 'int')
        f = ip.elem(st, X)
        n2 = z3.Int('n_rows')
        k, a, j, i = z3.Ints('!k !a !j !i')
        for o in cx.run(ip, fn, [obj, X, y], st):
            calls = [c for c in log if c[0] == 'fit']
            if not hold(cx, 'C15', len(calls) == 1 and len(log) == 1, '%s: the scaler of scikit-learn is fitted once' % fn, fn):
                return
            _, d, s1, r = calls[0]
            A = d['X']
            hold(cx, 'C15', A.ndim == 2, '%s: on a matrix' % fn, fn)
            cx.post_eq('C15', ip, A.shape[0], N_, s1, '%s: on every row' % fn, fn)
            cnt = to_z3(A.shape[1])
            g = ip.elem(s1, A)
            at = o.st.heap[obj.id]
            sel = [v for v in at.values() if isinstance(v, Arr) and v.ndim == 1 and v.dtype == 'int']
            if len(sel) != 1:
                raise Unsupported('%s: the selected columns are not kept as one array of positions' % fn)
            sel = sel[0]
            u = ip.elem(o.st, sel)
            cx.post_eq('C15', ip, sel.shape[0], cnt, o.st, '%s: as many columns as positions kept' % fn, fn)
            s2 = o.st.copy()
            s2.pc += [0 <= k, k < cnt, 0 <= i, i < N_]
            uk = to_z3(u(k))
            cx.post('C15', ip, z3.And(0 <= uk, uk < M_), s2, '%s: positions of columns' % fn, fn)
            cx.post_eq('C15', ip, g(i, k), f(i, uk), s2, '%s: fitted on the selected columns, in that order' % fn, fn)
            s3 = o.st.copy()
            s3.pc += [0 <= k, k < a, a < cnt]
            cx.post('C15', ip, u(k) < u(a), s3, '%s: every column at most once' % fn, fn, cands=[k, a])
            col = lambda c: (lambda t: f(t, c))
            s4 = o.st.copy()
            s4.pc += [0 <= k, k < cnt, j == uk, std_axiom(N_, col(j)), 0 <= j, j < M_]
            cx.post('C15', ip, varies(N_, col(j)), s4, '%s: only columns that vary' % fn, fn, cands=[k, uk])
            s5 = o.st.copy()
            s5.pc += [0 <= j, j < M_, varies(N_, col(j)), std_axiom(N_, col(j))]
            ranks = []
            for w in collect(uk)[0]:
                dd = agg_of(w)
                if dd is not None and dd.kind == 'where':
                    _, args, ex = agg_parts(w, dd)
                    ranks.append(related(dd, args, 'rank', [ex[0], j], I))
            if not ranks:
                raise Unsupported('%s: selection not recognised' % fn)
            rk = ranks[0]
            cx.post('C15', ip, z3.And(0 <= rk, rk < cnt, z3.substitute(uk, (k, rk)) == j), s5, '%s: every column that varies' % fn, fn, cands=[j, rk])
            hold(cx, 'C15', d.get('y') is y or d.get('y') is None, '%s: labels passed on' % fn, fn)
            hold(cx, 'C15', o.value is obj, '%s: returns itself' % fn, fn)
            # transform
            fn2 = nm + '.transform'
            st2 = o.st.copy()
            st2.pc += [n2 >= 0]
            Z = ip.input_array(st2, 'Z', [n2, M_], 'real')
            z = ip.elem(st2, Z)
            at0 = dict(st2.heap[obj.id])
            del log[:]
            for o2 in cx.run(ip, fn2, [obj, Z], st2):
                if not hold(cx, 'C15', len(log) == 1 and log[0][0] == 'transform', '%s: the statistics of the fitting data are used, nothing is fitted again' % fn2, fn2):
                    return
                B2 = log[0][1]['X']
                content_is(cx, 'C15', ip, log[0][2], B2, [n2, cnt], lambda i, c: z(i, u(c)), '%s: the columns selected at fit, in the same order' % fn2, fn2)
                hold(cx, 'C15', o2.value is log[0][3], '%s: the scaled columns are returned' % fn2, fn2)
                new = o2.st.heap[obj.id]
                hold(cx, 'C15', all(new.get(q) is at0.get(q) for q in set(new) | set(at0)), '%s: the selection is not changed' % fn2, fn2)


RIDGE_ROLES = ['transform_type', 'phase_invariance', 'alpha', 'normalize_output', 'n_samples', 'n_shapelets', 'shapelet_lengths', 'shapelet_lengths_bounds',
               'lengths_bounds_reduction', 'prime_dilations', 'proba_norm', 'percentiles', 'random_state', 'min_len']


def named(ip, st, cls, args, kw, n):
    """The arguments of a constructor of the repository by their names (defaults included)."""
    f = ip.repo.find(cls.name + '.__init__')
    loc = ip.bind(f, [None] + list(args), kw, st)
    first = f.node.args.args[0].arg
    return {k: v for k, v in loc.items() if k != first}


def by_state(ip, *classes):
    """Construct these classes of the repository as estimators whose state is a term."""
    def c(ip_, st, cls, args, kw, n):
        return ip.new_ext(cls.name, [], named(ip, st, cls, args, kw, n) if ip.repo.find(cls.name + '.__init__') else dict(kw, **{'arg%d' % k: a for k, a in enumerate(args)}), st)
    for x in classes:
        ip.cls_contracts[x] = c


def options(kinds=()):
    return lambda names: {k: Opq(z3.Const('opt_' + k, OBJ), 'given') for k in names}


def fitted(s, X, y):
    return z3.Function('fitted', OBJ, OBJ, OBJ, OBJ)(s, X, y)


def est(name, s, *a):
    return z3.Function('est:' + name, *([OBJ] * (len(a) + 2)))(s, *a)


@task('ridge', {'C15': {'post:C15', 'vacuity'}, 'C16': {'post:C16', 'vacuity'}, 'C17': {'post:C17', 'vacuity'}, 'C19': {'post:C19', 'vacuity'}},
      ['R_DST_Ridge.__init__', 'R_DST_Ridge.fit', 'R_DST_Ridge.predict', 'R_DST_Ridge.score', 'R_DST_Ridge._init_components'])
def t_ridge(cx):
    ip = api(cx)
    by_state(ip, 'R_DST', 'c_StandardScaler', 'c_MinMaxScaler')
    st = State()
    m = ip.repo.modules['convst.classifiers.rdst_ridge']
    if 'R_DST_Ridge' not in m.classes:
        raise Unsupported('R_DST_Ridge not found')
    opt = {k: Opq(z3.Const('opt_' + k, OBJ), 'given') for k in RIDGE_ROLES + ['class_weight', 'fit_intercept', 'alphas_ridge']}
    ip.frames.append(Frame_(ip, m.name))
    obj = ip.construct(RepoClass(m, m.classes['R_DST_Ridge']), [], dict(opt, n_jobs=1), st, None)
    ip.frames.pop()
    X, y, X2, y2 = [Opq(z3.Const(k, OBJ), 'data') for k in ('X', 'y', 'X2', 'y2')]
    fn = 'R_DST_Ridge.fit'
    before = dict(st.heap[obj.id])
    for o in cx.run(ip, fn, [obj, X, y], st):
        at = o.st.heap[obj.id]
        T, Cl = at.get('transformer'), at.get('classifier')
        hold(cx, 'C15', o.value is obj, 'fit returns the estimator', fn)
        if not (isinstance(T, ExtObj) and T.cls == 'R_DST' and isinstance(Cl, ExtObj) and Cl.cls == 'sklearn.pipeline.Pipeline'):
            raise Unsupported('R_DST_Ridge: transformer and classifier not recognised')
        for k in RIDGE_ROLES:
            hold(cx, 'C19', T.kw.get(k) is opt[k], 'R_DST_Ridge: option %s reaches the transformer under its own role' % k, fn)
        hold(cx, 'C16', T.kw.get('random_state') is opt['random_state'], 'R_DST_Ridge: the random state is given to the transformer', fn)
        hold(cx, 'C16', not ip.rng_events and not [e for e in ip.events if e[0] in ('draw', 'seed')], 'R_DST_Ridge.fit draws nothing itself', fn)
        ch = [q for q in before if q not in ('transformer', 'classifier') and at.get(q) is not before[q]]
        hold(cx, 'C17', not ch, 'R_DST_Ridge.fit changes no option', fn)
        s0 = st.copy()
        sT = fitted(ip.state_of(ip.new_ext(T.cls, T.args, T.kw, s0), s0), X.term, y.term)
        cx.post('C15', ip, o.st.heap[T.id] == sT, o.st, 'the transformer kept is fitted on the training series and labels, nothing else', fn)
        steps = [s if isinstance(s, ExtObj) else None for s in Cl.args]
        hold(cx, 'C15', [s and s.cls for s in steps] in (['c_StandardScaler', 'sklearn.linear_model.RidgeClassifierCV'], ['c_MinMaxScaler', 'sklearn.linear_model.RidgeClassifierCV']),
             'the classifier is a scaler followed by the ridge classifier', fn)
        if all(steps):
            s1 = o.st.copy()
            st_ = [ip.state_of(ip.new_ext(s.cls, s.args, s.kw, s1), s1) for s in steps]
            f = z3.Function('new:sklearn.pipeline.Pipeline(%d)' % len(st_), *([OBJ] * (len(st_) + 1)))
            sC = fitted(f(*st_), est('transform', sT, X.term), y.term)
            cx.post('C15', ip, o.st.heap[Cl.id] == sC, o.st, 'scaler and classifier are fitted on the transform of the training series', fn)
            fn2 = 'R_DST_Ridge.predict'
            st2 = o.st.copy()
            for o2 in cx.run(ip, fn2, [obj, X2], st2):
                want = est('predict', sC, est('transform', sT, X2.term))
                if hold(cx, 'C15', isinstance(o2.value, Opq), 'predict returns the predictions', fn2):
                    cx.post('C15', ip, o2.value.term == want, o2.st, 'predictions of the fitted scaler and classifier on the transform of the series', fn2)
                hold(cx, 'C17', all(o2.st.heap[k] is v or is_z(v) and o2.st.heap[k].eq(v) for k, v in o.st.heap.items() if k in (T.id, Cl.id)) and o2.st.heap[obj.id] == at, 'predict changes nothing', fn2)
            fn3 = 'R_DST_Ridge.score'
            st3 = o.st.copy()
            for o3 in cx.run(ip, fn3, [obj, X2, y2], st3):
                if hold(cx, 'C15', isinstance(o3.value, Opq) or is_num(o3.value), 'score returns a value', fn3):
                    v = o3.value.term if isinstance(o3.value, Opq) else to_z3(o3.value)
                    cs = [c for c in ip.calls if c[0] == 'sklearn.metrics.accuracy_score' and (c[3] is o3.value or isinstance(c[3], Opq) and c[3].term.eq(v))]
                    ok = len(cs) == 1 and not cs[0][2] and len(cs[0][1]) == 2 and any(
                        q is y2 and isinstance(p, Opq) and prove(p.term == want, o3.st.pc, quick=True) for p, q in (cs[0][1], cs[0][1][::-1]))
                    hold(cx, 'C15', ok, 'score is the accuracy of the predictions', fn3)


# ------------------------------------------------------------------------------------------------ C14
NM, NR, NC = z3.Ints('n_models n_rows n_classes')


@task('ensemble_predict', {'C14': {'post:C14', 'vacuity'}, 'C17': {'post:C17', 'vacuity'}, 'C16': {'post:C16', 'vacuity'}}, ['R_DST_Ensemble.predict', '_parallel_predict'])
def t_epredict(cx):
    ip = api(cx)
    m = ip.repo.modules['convst.classifiers.rdst_ensemble']
    fn = 'R_DST_Ensemble.predict'
    st = State()
    st.pc = [NM >= 1, NR >= 0, NC >= 1]
    X = Opq(z3.Const('X', OBJ), 'data')
    P = z3.Function('proba', I, I, I, R)
    w = z3.Function('weight', I, R)
    lab = z3.Function('label', I, I)

    class Model:
        def __init__(self, i):
            self.i = i
    old = ip.getattr

    def getattr_(o, name, s, node):
        if isinstance(o, Model):
            if name != 'predict_proba':
                raise Unsupported('model.%s' % name)
            return OpqMethod(o, name)
        return old(o, name, s, node)
    ip.getattr = getattr_
    oldm = ip.method_call

    def method_call(f, args, kw, s, n):
        if isinstance(f.obj, Model):
            if len(args) != 1 or args[0] is not X or kw:
                raise Unsupported('predict_proba of other data')
            return ip.alloc(s, [NR, NC], 'real', lambda r, c, i=f.obj.i: P(i, to_z3(r), to_z3(c)))
        return oldm(f, args, kw, s, n)
    ip.method_call = method_call
    obj = ObjV(RepoClass(m, m.classes['R_DST_Ensemble']), 'E%d' % uid())
    cl = ip.alloc(st, [NC], 'int', lambda k: lab(to_z3(k)), name='classes_')
    st.heap[obj.id] = dict(models=SeqV(NM, lambda s, i: Model(to_z3(i))), model_weights=SeqV(NM, lambda s, i: w(to_z3(i))), classes_=cl,
                           n_jobs=z3.Int('n_jobs'), prefer=None, require='sharedmem', a_w=z3.Real('a_w'))
    at0 = dict(st.heap[obj.id])
    for o in cx.run(ip, fn, [obj, X], st):
        content_is(cx, 'C14', ip, o.st, o.value, [NR], lambda r: lab(ArgMax(NC, lambda c: Sum(NM, lambda i: P(i, r, c) * w(i)))),
                   'the label with the largest sum over the models of probability times weight', fn)
        if isinstance(o.value, Arr) and o.value.ndim == 1:
            r, k = z3.Int('!r'), z3.Int('!k')
            s2 = o.st.copy()
            x = ip.elem(s2, o.value)(r)
            am = ArgMax(NC, lambda c: Sum(NM, lambda i: P(i, r, c) * w(i)))
            s2.pc += [0 <= r, r < NR]
            cx.post('C14', ip, z3.And(0 <= am, am < NC, x == lab(am)), s2, 'every prediction is one of the training labels', fn)
        hold(cx, 'C17', o.st.heap[obj.id] == at0, 'predict changes nothing', fn)
        hold(cx, 'C16', not ip.rng_events and not [e for e in ip.events if e[0] in ('draw', 'seed')], 'predict draws nothing', fn)


@task('ensemble_weight', {'C14': {'post:C14', 'vacuity'}}, ['_internalRidgeCV.get_loocv_train_acc'])
def t_eweight(cx):
    fn = '_internalRidgeCV.get_loocv_train_acc'
    for k in ('binary', 'multiclass'):
        ip = api(cx)
        m = ip.repo.modules['convst.classifiers.rdst_ensemble']
        st = State()
        NA = z3.Int('n_alphas')
        D = z3.IntVal(1) if k == 'binary' else NC
        st.pc = [NR >= 1, NA >= 1] + ([NC == 2] if k == 'binary' else [NC >= 3])
        cv, al, lab = z3.Function('loo', I, I, I, R), z3.Function('alphas', I, R), z3.Function('label', I, I)
        alpha = z3.Real('alpha_')
        best = ArgMax(NA, lambda i: z3.If(al(i) == alpha, z3.IntVal(1), z3.IntVal(0)))
        w = WhereOp(NA, lambda i: al(i) == alpha)
        st.pc += [Any(NA, lambda i: al(i) == alpha), w.count >= 1]
        obj = ObjV(RepoClass(m, m.classes['_internalRidgeCV']), 'W%d' % uid())
        y = ip.input_array(st, 'y', [NR], 'int')
        st.heap[obj.id] = dict(store_cv_values=True, alpha_=alpha, alphas=ip.alloc(st, [NA], 'real', lambda i: al(to_z3(i))),
                               cv_values_=ip.alloc(st, [NR, D, NA], 'real', lambda *i: cv(*[to_z3(q) for q in i])),
                               classes_=ip.alloc(st, [NC], 'int', lambda i: lab(to_z3(i))))
        seen = []

        def acc(s, a, kw, n):
            if len(a) != 2 or kw:
                raise Unsupported('accuracy_score')
            r = ip.fresh('acc', R)
            seen.append((a, s.copy(), r))
            return r
        ip.models['sklearn.metrics.accuracy_score'] = acc
        for o in cx.run(ip, fn, [obj, y], st):
            c = [q for q in seen if is_num(o.value) and prove(to_z3(o.value) == q[2], o.st.pc, quick=True)]
            if len(c) != 1:
                raise Unsupported('the weight is not one accuracy_score')
            a, s1, _ = c[0]
            s1 = s1.copy()
            if a[0] is y or a[1] is y:
                pred = a[1] if a[0] is y else a[0]
                hold(cx, 'C14', True, '%s: accuracy against the training labels' % k, fn)
            else:
                hold(cx, 'C14', False, '%s: accuracy against the training labels' % k, fn)
                continue
            first = w.at(z3.IntVal(0))
            dec = (lambda r: z3.If(cv(r, z3.IntVal(0), first) > 0, lab(z3.IntVal(1)), lab(z3.IntVal(0)))) if k == 'binary' else (
                lambda r: lab(ArgMax(NC, lambda c: cv(r, c, first))))
            content_is(cx, 'C14', ip, s1, pred, [NR], dec, '%s: leave-one-out predictions for the selected alpha, as labels' % k, fn)


ENS_ROLES = {'n_shapelets': 'n_shapelets_per_estimator', 'alpha': 'shp_alpha', 'n_samples': 'n_samples', 'shapelet_lengths': 'shapelet_lengths',
             'phase_invariance': 'phase_invariance', 'prime_dilations': 'prime_dilations', 'shapelet_lengths_bounds': 'shapelet_lengths_bounds',
             'lengths_bounds_reduction': 'lengths_bounds_reduction', 'transform_type': 'transform_type', 'percentiles': 'percentiles', 'min_len': 'min_len', 'max_channels': 'max_channels'}


@task('ensemble_fit', {p: {'post:' + p, 'vacuity'} for p in ('C14', 'C16', 'C17', 'C19')}, ['R_DST_Ensemble.__init__', 'R_DST_Ensemble.fit', '_parallel_fit'])
def t_efit(cx):
    ip = api(cx)
    by_state(ip, 'R_DST', '_internalRidgeCV')
    m = ip.repo.modules['convst.classifiers.rdst_ensemble']
    fn = 'R_DST_Ensemble.fit'
    st = State()
    st.pc = [NM >= 1]
    tr = z3.Function('input_transformer', I, OBJ)
    pn = ip.input_array(st, 'proba_norm', [NM], 'real')
    pnf = ip.elem(st, pn)

    def transformer(s, i):
        o = ExtObj('input_transformer', 'T' + str(to_z3(i)), [], {})
        s.heap.setdefault(o.id, tr(to_z3(i)))
        return o
    given = lambda k: Opq(z3.Const('opt_' + k, OBJ), 'given')
    opt = dict(n_shapelets_per_estimator=z3.Int('opt_n'), shp_alpha=z3.Real('opt_alpha'), n_samples=z3.Real('opt_ns'),
               shapelet_lengths=ip.input_array(st, 'lens', [z3.Int('n_lens')], 'int'), phase_invariance=z3.Bool('opt_phase'), prime_dilations=z3.Bool('opt_prime'),
               normalize_output=z3.Bool('opt_no'), a_w=z3.Real('opt_aw'),
               random_state=Opq(z3.Const('random_state', OBJ), 'other'), proba_norm=pn, input_transformers=SeqV(NM, transformer))
    for k in ('shapelet_lengths_bounds', 'lengths_bounds_reduction', 'transform_type', 'percentiles', 'min_len', 'max_channels', 'class_weight', 'fit_intercept', 'alphas_ridge', 'prefer', 'require'):
        opt[k] = given(k)
    st.pc += [z3.Int('n_lens') >= 1]
    ip.frames.append(Frame_(ip, m.name))
    obj = ip.construct(RepoClass(m, m.classes['R_DST_Ensemble']), [], dict(opt, n_jobs=z3.Int('n_jobs')), st, None)
    ip.frames.pop()
    del ip.raised[:], ip.rng_events[:], ip.calls[:], ip.events[:]
    X, y = Opq(z3.Const('X', OBJ), 'data'), Opq(z3.Const('y', OBJ), 'data')
    LOO = z3.Function('loo_accuracy', OBJ, OBJ, R)
    old_attr, old_call = ip.ext_attr, ip.ext_call

    def ext_attr(o, name, s, node):
        if o.cls == '_internalRidgeCV' and name == 'classes_' and hasattr(o, 'of'):
            return Opq(z3.Function('classes_of', OBJ, OBJ)(s.heap[o.of.id]), 'ndarray_')
        return old_attr(o, name, s, node)

    def ext_call(o, name, args, kw, s, n):
        if o.cls == '_internalRidgeCV' and name == 'get_loocv_train_acc' and hasattr(o, 'of') and len(args) == 1 and not kw:
            return LOO(s.heap[o.of.id], ip.to_obj(args[0], s))
        return old_call(o, name, args, kw, s, n)
    ip.ext_attr, ip.ext_call = ext_attr, ext_call
    before = dict(st.heap[obj.id])
    allowed = {'models', 'classes_', 'model_weights', 'n_jobs', 'n_jobs_rdst'}
    # the jobs are run when they are given to the runner: look at an arbitrary one
    jobs = []
    old_run = ip.run_jobs

    def run_jobs(j, s, n):
        q = z3.Int('!job')
        s1 = s.copy()
        k = len(ip.rng_events)
        s1.pc += [0 <= q, q < NM]
        if not isinstance(j, SeqV):
            raise Unsupported('jobs')
        t = j.item(s1, q)
        if not isinstance(t, Thunk):
            raise Unsupported('job')
        ip.injob += 1
        k2 = len(ip.rng_events)
        r = ip.call(t.f, t.args, t.kw, s1, n)
        inside = ip.rng_events[k2:]
        ip.injob -= 1
        jobs.append((q, s1, r, inside, j.n))
        return old_run(j, s, n)
    ip.run_jobs = run_jobs
    for o in cx.run(ip, fn, [obj, X, y], st):
        at = o.st.heap[obj.id]
        if len(jobs) != 1 or not isinstance(jobs[0][2], ExtObj) or jobs[0][2].cls != 'sklearn.pipeline.Pipeline' or len(jobs[0][2].args) != 3 or not all(isinstance(s, ExtObj) for s in jobs[0][2].args):
            raise Unsupported('the members of the ensemble are not recognised')
        q, s1, pipe, inside, nj = jobs[0]
        t0, rd, rc = pipe.args
        cx.post_eq('C14', ip, nj, NM, s1, 'one member per input transformer', fn)
        hold(cx, 'C14', is_z(s1.heap[t0.id]) and s1.heap[t0.id].eq(tr(q)), 'member i starts with input transformation i', fn)
        hold(cx, 'C14', rd.cls == 'R_DST' and rc.cls == '_internalRidgeCV', 'followed by the shapelet transform and the ridge classifier', fn)
        v = rd.kw.get('proba_norm')
        for p in ('C14', 'C19'):
            if hold(cx, p, is_num(v), 'the normalisation probability of member i is a number', fn):
                cx.post(p, ip, real(v) == real(pnf(q)), s1, 'member i has normalisation probability i', fn)
        for r, k in ENS_ROLES.items():
            a, b = rd.kw.get(r), opt[k]
            same = a is b or is_z(a) and is_z(b) and a.eq(b) or isinstance(a, Arr) and isinstance(b, Arr) and a.buf == b.buf
            if not same and is_num(a) and is_num(b):
                cx.post('C19', ip, real(a) == real(b) if B not in (to_z3(a).sort(), to_z3(b).sort()) else boolean(a) == boolean(b), s1, 'option %s reaches the members under its own role' % k, fn)
            else:
                hold(cx, 'C19', same, 'option %s reaches the members under its own role' % k, fn)
        s0 = s1.copy()
        f = z3.Function('new:sklearn.pipeline.Pipeline(3)', OBJ, OBJ, OBJ, OBJ)
        want = fitted(f(tr(q), ip.state_of(ip.new_ext(rd.cls, rd.args, rd.kw, s0), s0), ip.state_of(ip.new_ext(rc.cls, rc.args, rc.kw, s0), s0)), X.term, y.term)
        cx.post('C14', ip, s1.heap[pipe.id] == want, s1, 'member i is fitted on the training series and labels', fn)
        # C16: the seed of member i
        gen = z3.Function('check_random_state', OBJ, OBJ)(opt['random_state'].term)
        hold(cx, 'C16', all(e[1].eq(gen) for e in ip.rng_events), 'every draw of the ensemble uses the generator built from random_state', fn)
        hold(cx, 'C16', not inside and all(not e[4] for e in ip.rng_events), 'the seeds are drawn before the jobs run, in the order of the members', fn)
        hold(cx, 'C16', not [e for e in ip.events if e[0] in ('draw', 'seed')], 'nothing is drawn from the global generators', fn)
        sd = rd.kw.get('random_state')
        hold(cx, 'C16', is_z(sd) and sd.sort() == I and any(a.decl().name().startswith('rng_') for a in [sd]), 'every member gets a seed drawn from that generator', fn)
        # weights and classes
        ws = at.get('model_weights')
        if not isinstance(ws, (SeqV, Arr)) or not isinstance(at.get('models'), SeqV):
            raise Unsupported('the weights are not recognised')
        s2 = o.st.copy()
        s2.pc += [0 <= q, q < NM]
        mq = at['models'].item(s2, q)
        wq = ws.item(s2, q) if isinstance(ws, SeqV) else ip.elem(s2, ws)(q)
        import ast
        ip.quiet += 1
        ww = ip.scalar_op(ast.Pow(), LOO(s2.heap[mq.id], y.term), opt['a_w'], s2, None)
        ip.quiet -= 1
        cx.post_eq('C14', ip, ws.n if isinstance(ws, SeqV) else ws.shape[0], NM, s2, 'one weight per member', fn)
        cx.post_eq('C14', ip, wq, ww, s2, 'the weight of member i is its leave-one-out training accuracy to the power a_w', fn)
        c = at.get('classes_')
        hold(cx, 'C14', isinstance(c, Opq) and 'classes_of' in str(c.term), 'the labels are those of a fitted member', fn)
        ch = [k for k in before if k not in allowed and at.get(k) is not before[k] and not (is_z(at.get(k)) and is_z(before[k]) and at[k].eq(before[k]))]
        hold(cx, 'C17', not ch, 'fit changes no option (%s)' % ', '.join(ch) if ch else 'fit changes no option', fn)
        hold(cx, 'C14', o.value is obj, 'fit returns the estimator', fn)
