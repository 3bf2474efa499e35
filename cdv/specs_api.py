"""Proof tasks of the estimator layer: R_DST around the kernels, the classifiers, the helpers."""
from task import *
from contracts import *
from api import *
import specs_generate as SG
import specs_apply as SA

ROLES = {  # positional roles of the kernels, as their own contracts (specs_generate, specs_apply) use them
    'U_SL_generate_shapelet': ['X', 'y', 'n_shapelets', 'lengths', 'seed', 'p_norm', 'p_min', 'p_max', 'alpha', 'phase', 'prime'],
    'M_SL_generate_shapelet': ['X', 'y', 'n_shapelets', 'lengths', 'seed', 'p_norm', 'p_min', 'p_max', 'alpha', 'phase', 'max_channels', 'prime'],
    'U_VL_generate_shapelet': ['X', 'y', 'n_shapelets', 'lengths', 'seed', 'p_norm', 'p_min', 'p_max', 'alpha', 'phase', 'min_len', 'X_len', 'prime'],
    'M_VL_generate_shapelet': ['X', 'y', 'n_shapelets', 'lengths', 'seed', 'p_norm', 'p_min', 'p_max', 'alpha', 'phase', 'max_channels', 'min_len', 'X_len', 'prime'],
    'U_SL_apply_all_shapelets': ['X', 'shapelets', 'phase'], 'M_SL_apply_all_shapelets': ['X', 'shapelets', 'phase'],
    'U_VL_apply_all_shapelets': ['X', 'shapelets', 'phase', 'X_len'], 'M_VL_apply_all_shapelets': ['X', 'shapelets', 'phase', 'X_len'],
}
TYPES = {'univariate': 'U_SL', 'multivariate': 'M_SL', 'univariate_variable': 'U_VL', 'multivariate_variable': 'M_VL'}
UN = {'N': z3.Int('n_samples'), 'FT': z3.Int('n_ft'), 'T': z3.Int('n_timestamps')}
N, FT, T = UN['N'], UN['FT'], UN['T']


class Kernel(Contract):
    """Call of a kernel by an estimator: remembered; the precondition of the kernel becomes obligations."""
    def __init__(self, name, log, pre):
        self.name, self.log, self.pre = name, log, pre

    def apply(self, ip, st, loc, node):
        f = ip.repo.find(self.name)
        names = [a.arg for a in f.node.args.args]
        roles = ROLES[self.name]
        if len(names) != len(roles):
            raise Mismatch(self.name)
        d = {r: loc[n] for r, n in zip(roles, names)}
        self.log.append((self.name, d, st.copy(), ip.line(node)))
        if self.pre is not None and not ip.quiet:
            self.pre(ip, st, d, node, self.name)
        if 'generate' in self.name:
            r = Opq(z3.Const('!shapelets%d' % uid(), OBJ), 'tuple')
        else:
            X = d['X']
            r = ip.alloc(st, [X.shape[0], z3.Int('n_columns')], 'real', ip.fresh_fn('features', [I, I], R))
            ip.assume(st, z3.Int('n_columns') >= 0)
        self.log[-1] += (r,)
        return r


def kernels(log, pre):
    return {k: Kernel(k, log, pre) for k in ROLES}


# ------------------------------------------------------------------------------------------------ data of the user
class Data:
    """What the user gives to fit or transform: kind 'array', 'intarray' (3D arrays) or 'list', 'objarray' (one 2D array per series)"""
    def __init__(self, ip, st, kind, nm='X'):
        self.kind = kind
        self.n = N if nm == 'X' else z3.Int('n_samples_' + nm)
        self.var = kind in ('list', 'objarray')
        if not self.var:
            self.ft, self.t = (FT, T) if nm == 'X' else (z3.Int('n_ft_' + nm), z3.Int('n_timestamps_' + nm))
            self.value = ip.input_array(st, nm, [self.n, self.ft, self.t], 'int' if kind == 'intarray' else 'real')
            st.pc += [self.n >= 0, self.ft >= 0, self.t >= 0]
            e = ip.elem(st, self.value)
            self.x = lambda s, c, t: real(e(s, c, t))
            self.len = lambda s: self.t
            self.fts = lambda s: self.ft
            self.bufs = [self.value.buf]
        else:
            f = z3.Function(nm, I, I, I, R)
            self.lf, self.ff = z3.Function(nm + '_t', I, I), z3.Function(nm + '_ft', I, I)
            for g in (self.lf, self.ff):
                TH.rules.pop(g.get_id(), None)
                TH.rule(g, lambda a: [a >= 0])
            b = ip.alloc(st, [self.n, z3.Int('any_ft'), z3.Int('any_t')], 'real', lambda *i: f(*i), name=nm).buf
            self.value = SeqV(self.n, lambda s, i: Arr(b, [self.ff(i), self.lf(i)], 'real', [('fix', i), ('dim', 0, 0), ('dim', 1, 0)]),
                              'list' if kind == 'list' else 'ndarray')
            st.pc += [self.n >= 1]
            self.x = lambda s, c, t: f(s, c, t)
            self.len, self.fts = (lambda s: self.lf(s)), (lambda s: self.ff(s))
            self.bufs = [b]

    def untouched(self, st0, st):
        return all(st.heap[b] is st0.heap[b] for b in self.bufs)


# ------------------------------------------------------------------------------------------------ the estimator
class Est:
    """An R_DST with the options a user can give; every one is symbolic but for its kind."""
    def __init__(self, ip, st, tt, lengths='int', ns=None, max_channels=False, min_len=False):
        self.tt = tt
        self.alpha, self.pn, self.red = z3.Real('alpha'), z3.Real('p_norm'), z3.Real('lengths_bounds_reduction')
        self.phase, self.prime = z3.Bool('phase_invariance'), z3.Bool('prime_dilations')
        self.nshp, self.nl = z3.Int('n_shapelets'), z3.Int('n_lengths')
        self.nsamp = {None: None, 'less': z3.Real('n_samples_opt'), 'more': z3.Real('n_samples_opt'), 'all': z3.RealVal(1)}[ns]
        if ns == 'less':
            st.pc += [0 < self.nsamp, self.nsamp < 1]
        elif ns == 'more':
            st.pc += [self.nsamp > 1]
        self.percentiles = ip.input_array(st, 'percentiles', [2], 'real')
        pe = z3.Function('percentiles', I, R)
        self.pmin, self.pmax = pe(0), pe(1)
        self.kindl = lengths
        self.bounds = None
        if lengths in ('int', 'float'):
            self.lengths = ip.input_array(st, 'lengths_' + lengths, [self.nl], 'int' if lengths == 'int' else 'real')
            self.lf = z3.Function('lengths_' + lengths, I, I if lengths == 'int' else R)
        else:
            self.lengths = ip.input_array(st, 'lengths_int', [self.nl], 'int')
            self.lf = z3.Function('lengths_int', I, I)
            s0, s1 = [I if k == 'i' else R for k in lengths[-2:]]
            self.bounds = (z3.Const('b0', s0), z3.Const('b1', s1))
            st.pc += [b >= 0 for b in self.bounds] + [self.red >= 0]
        self.maxch = z3.Int('max_channels') if max_channels else None
        self.minlen = z3.Int('min_len') if min_len else None
        self.random_state = Opq(z3.Const('random_state', OBJ), 'other')
        kw = dict(transform_type=tt, phase_invariance=self.phase, alpha=self.alpha, n_samples=self.nsamp, n_shapelets=self.nshp,
                  shapelet_lengths=self.lengths, shapelet_lengths_bounds=self.bounds, lengths_bounds_reduction=self.red,
                  prime_dilations=self.prime, proba_norm=self.pn, percentiles=self.percentiles, random_state=self.random_state,
                  max_channels=self.maxch, min_len=self.minlen, n_jobs=False)
        st.pc += [self.nl >= 1]
        c = ip.repo.modules['convst.transformers.rdst'].classes.get('R_DST') if 'convst.transformers.rdst' in ip.repo.modules else None
        if c is None:
            raise Unsupported('R_DST not found')
        ip.frames.append(Frame_(ip, 'convst.transformers.rdst'))
        try:
            self.obj = ip.construct(RepoClass(ip.repo.modules['convst.transformers.rdst'], c), [], kw, st, None)
        finally:
            ip.frames.pop()
        self.raised = ip.raised[:]
        del ip.raised[:]


def Frame_(ip, mod):
    from interp import Frame
    return Frame(ip.repo.modules[mod], None)


def expected(tt, data):
    """The variant the statement asks for -> list of (condition, type)"""
    if tt != 'auto':
        return [(z3.BoolVal(True), tt)]
    ft = data.fts(z3.IntVal(0)) if data.var else data.ft
    v = '_variable' if data.var else ''
    return [(ft > 1, 'multivariate' + v), (z3.Not(ft > 1), 'univariate' + v)]


def try_run(ip, st, o, name, args, cx):
    f = ip.repo.find(name)
    if f is None:
        raise Unsupported('%s not found' % name)
    return cx.run(ip, name, args, st)


# ------------------------------------------------------------------------------------------------ R_DST.fit / transform
def fail(cx, prop, msg, func, how='structure'):
    if cx.kinds is None or 'post:' + prop in cx.kinds:
        cx.obls.append(Obl('post:' + prop, func, 0, msg, False, how, 0.0))


def hold(cx, prop, ok, msg, func, how='structure'):
    """An obligation decided by the shape of the result (which object, which name)."""
    if cx.kinds is None or 'post:' + prop in cx.kinds:
        cx.obls.append(Obl('post:' + prop, func, 0, msg, bool(ok), how, 0.0))
    return bool(ok)


def api(cx, contracts=None):
    ip = Api(cx.repo, contracts or {}, cx.kinds, cx.timeout)
    ip.obls = cx.obls
    return ip


LENS = ('int', 'float', 'bii', 'bff', 'bif', 'bfi')
KINDS_OF = {'univariate': ('array', 'intarray'), 'multivariate': ('array', 'intarray'),
            'univariate_variable': ('list', 'objarray', 'array'), 'multivariate_variable': ('list', 'objarray', 'array'),
            'auto': ('array', 'intarray', 'list', 'objarray')}


def data_pre(d, tt, nft):
    """Data as documented: not empty, the same number of features everywhere; nft: 1, 2 or 'n' (3 and more)"""
    ft = (lambda s: d.fts(s)) if d.var else None
    pre = [d.n >= 1]
    if d.var:
        TH.rules.pop(d.ff.get_id(), None)
        F = z3.Int('n_ft_all')
        TH.rule(d.ff, lambda a: [z3.Implies(z3.And(0 <= a.arg(0), a.arg(0) < d.n), a == F)])
        pre.append(d.ff(z3.IntVal(0)) == F)
    else:
        F = d.ft
    pre.append(F >= 3 if nft == 'n' else F == nft)
    return pre, F


def cases(tt):
    fts = {'univariate': (1,), 'univariate_variable': (1,), 'multivariate': (2, 'n'), 'multivariate_variable': (2, 'n'), 'auto': (1, 2, 'n')}[tt]
    for k in KINDS_OF[tt]:
        for f in fts:
            yield k, f


def min_term(ip, d):
    return Min(d.n, lambda s: d.len(s)) if d.var else d.t


def lengths_spec(e, M):
    """(count, i -> length) before the lengths that do not fit are replaced; the statement of C10"""
    if e.bounds is None:
        return e.nl, (lambda i: e.lf(i)) if e.kindl == 'int' else (lambda i: z3.ToInt(real(M) * e.lf(i)))
    b0, b1 = [b if b.sort() == I else trunc(real(M) * b) for b in e.bounds]
    mx = lambda *a: a[0] if len(a) == 1 else (lambda y: z3.If(a[0] >= y, a[0], y))(mx(*a[1:]))
    lo, hi = mx(b0, z3.IntVal(3)), mx(b0 + 1, b1 + 1, z3.IntVal(4))
    cnt = hi - lo
    k = trunc(real(cnt) * e.red)
    step = z3.If(z3.And(cnt > 3, k > 0), quo(cnt, z3.If(k > 0, k, z3.IntVal(1))), z3.IntVal(1))
    return quo(cnt + step - 1, step), lambda i: lo + to_z3(i) * step


def length_cases(e, M):
    if e.bounds is None:
        return [('', [])]
    b0, b1 = [b if b.sort() == I else trunc(real(M) * b) for b in e.bounds]
    out = []
    for n1, lo in (('3', z3.IntVal(3)), ('b0', b0)):
        h1 = [b0 <= 3] if n1 == '3' else [b0 > 3]
        for n2, hi, h2 in (('4', z3.IntVal(4), [b0 + 1 <= 4, b1 + 1 <= 4]), ('b0+1', b0 + 1, [b0 + 1 > 4, b1 <= b0]), ('b1+1', b1 + 1, [b1 + 1 > 4, b1 > b0])):
            cnt = hi - lo
            for n3, h3 in (('3 at most', [cnt <= 3]), ('kept', [cnt > 3, real(cnt) * e.red < 1]), ('thinned', [cnt > 3, real(cnt) * e.red >= 1])):
                out.append((', range(%s, %s) %s' % (n1, n2, n3), h1 + h2 + h3))
    return out


def any_at(e, i, hyps):
    """The axiom 'the body at place i implies some place' of the any operators of e, the body simplified."""
    out = []
    for x in collect(e)[0]:
        d = agg_of(x)
        if d is not None and d.kind == 'any' and len(d.bvs) == 1:
            _, args, ex = agg_parts(x, d)
            b = ctx_simplify(agg_body(d, args, i), hyps)
            out.append(z3.Implies(z3.And(0 <= i, i < ex[0], b), x))
    return out


def sat_quick(pc):
    return solve(pc, 2.0)[0] != z3.unsat


class FitRun:
    """One symbolic run of R_DST.fit on one kind of data and options."""
    def __init__(self, cx, tt, kind, nft, pre=None, **o):
        self.cx, self.tt, self.kind = cx, tt, kind
        self.log = []
        self.ip = ip = api(cx, kernels(self.log, pre))
        self.label = '%s, %s, %s features%s' % (tt, kind, nft, ''.join(', %s=%s' % (k, v) for k, v in o.items() if v))
        st = State()
        self.e = e = Est(ip, st, tt, **o)
        self.init_events = list(ip.rng_events), list(ip.events)
        del ip.rng_events[:], ip.events[:]
        self.d = d = Data(ip, st, kind)
        p, self.F = data_pre(d, tt, nft)
        st.pc += p
        self.y = ip.input_array(st, 'y', [d.n], 'int')
        self.opt = o
        self.M = e.minlen if e.minlen is not None else min_term(ip, d)
        self.st0 = st
        self.attrs0 = dict(st.heap[e.obj.id])

    def go(self):
        st = self.st0.copy()
        self.heap0 = dict(self.st0.heap)
        self.rets = self.cx.run(self.ip, 'R_DST.fit', [self.e.obj, self.d.value, self.y], st)
        self.raises = [o.st for o in self.cx.raising] + [s for s, _ in self.ip.raised]
        return self.rets

    def variant(self):
        v = '_variable' if self.kind in ('list', 'objarray') or 'variable' in self.tt else ''
        if self.tt != 'auto':
            return TYPES[self.tt]
        multi = not any(z3.is_true(simp(z3.substitute(c, (self.F, z3.IntVal(1))))) and c.eq(self.F == 1) for c in self.st0.pc)
        return TYPES[('multivariate' if multi else 'univariate') + v]

    def source(self):
        """position in the user's data of sample s given to the kernel, and the number of samples given"""
        if self.opt.get('ns') in ('less', 'more'):
            if len(self.ip.resamples) != 1:
                return None
            r = self.ip.resamples[0]
            return r[4], trunc(real(self.d.n) * self.e.nsamp)
        return (lambda s: s), self.d.n

    def call(self, what):
        c = [x for x in self.log if what in x[0]]
        return c[0] if len(c) == 1 else None


def post_data(cx, run, props, d, args, st, src, cnt, fn, label, X_len=True):
    """The array given to the kernel holds the user's series (true part), and X_len their true lengths."""
    ip = run.ip
    X = args['X']
    s, c, t = z3.Ints('!s !c !t')
    for p in props:
        if not hold(cx, p, isinstance(X, Arr) and X.ndim == 3 and X.dtype == 'real', '%s: the kernel gets a 3D float array' % label, fn):
            return
        cx.post_eq(p, ip, X.shape[0], cnt, st, '%s: one row per series' % label, fn)
        cx.post_eq(p, ip, X.shape[1], run.F, st, '%s: all the features' % label, fn)
        s2 = st.copy()
        s2.pc += [0 <= s, s < cnt, 0 <= c, c < run.F, 0 <= t, t < d.len(src(s))]
        cx.post(p, ip, d.len(src(s)) <= to_z3(X.shape[2]), s2, '%s: the array is as long as the longest series' % label, fn)
        ip.quiet += 1
        x = ip.elem(s2, X)(s, c, t)
        ip.quiet -= 1
        cx.post_eq(p, ip, x, d.x(src(s), c, t), s2, '%s: the values of the series, sample by sample and feature by feature' % label, fn)
        if 'X_len' in args:
            L = args['X_len']
            if hold(cx, p, isinstance(L, Arr) and L.ndim == 1 and L.dtype == 'int', '%s: lengths as an array of integers' % label, fn):
                s3 = st.copy()
                s3.pc += [0 <= s, s < cnt]
                cx.post_eq(p, ip, L.shape[0], cnt, s3, '%s: one length per series' % label, fn)
                cx.post_eq(p, ip, ip.elem(s3, L)(s), d.len(src(s)), s3, '%s: the true length of the same series' % label, fn)


def post_fit(cx, run):
    ip, e, d = run.ip, run.e, run.d
    fn = 'R_DST.fit'
    lab = run.label
    if not run.log and cx.kinds & {'post:C19', 'post:C10', 'post:C16', 'post:C03'}:
        raise Unsupported('no kernel is called')
    k = run.call('generate')
    if k is None:
        raise Unsupported('not one call of a kernel on %s' % lab)
    name, a, st, line, res = k
    st = st.copy()
    want = run.variant()
    okv = hold(cx, 'C19', name == want + '_generate_shapelet', '%s: the implementation that matches the data' % lab, fn)
    hold(cx, 'C19', len(run.log) == 1, '%s: one sampling, no transform' % lab, fn)
    src = run.source()
    if src is None:
        raise Unsupported('sub-sampling not recognised')
    src, cnt = src
    # --- data and options under their own role
    post_data(cx, run, [p for p in ('C19', 'C03') if 'post:' + p in cx.kinds], d, a, st, src, cnt, fn, lab)
    s = z3.Int('!s')
    ya = a['y']
    if hold(cx, 'C19', isinstance(ya, Arr) and ya.ndim == 1, '%s: labels as an array' % lab, fn):
        s2 = st.copy()
        s2.pc += [0 <= s, s < cnt]
        cx.post_eq('C19', ip, ya.shape[0], cnt, s2, '%s: one label per series' % lab, fn)
        cx.post_eq('C19', ip, ip.elem(s2, ya)(s), z3.Function('y', I, I)(src(s)), s2, '%s: the label of the same series' % lab, fn)
    if run.opt.get('ns') == 'less':
        hold(cx, 'C19', ip.resamples[0][0] is False, '%s: sub-sampling without replacement' % lab, fn)
    role = {'n_shapelets': e.nshp, 'p_norm': e.pn, 'p_min': e.pmin, 'p_max': e.pmax, 'alpha': e.alpha, 'phase': e.phase, 'prime': e.prime,
            'max_channels': e.maxch if e.maxch is not None else run.F, 'min_len': run.M}
    for r, v in role.items():
        if r in a:
            if hold(cx, 'C19', is_num(a[r]), '%s: %s is a number' % (lab, r), fn):
                x = to_z3(a[r])
                cx.post(  'C19', ip, (boolean(x) == boolean(v)) if B in (x.sort(), to_z3(v).sort()) else real(x) == real(v), st,
                        '%s: role %s gets the option %s' % (lab, r, r), fn)
    # --- C10
    L = a['lengths']
    if hold(cx, 'C10', isinstance(L, Arr) and L.ndim == 1 and L.dtype == 'int', '%s: integer lengths' % lab, fn):
        n0, f = lengths_spec(e, run.M)
        i = z3.Int('!i')
        half = run.M / 2
        for hl, H in length_cases(e, run.M):
            h = st.copy()
            h.pc += H
            if H and not sat_quick(h.pc):
                continue
            s2 = h.copy()
            s2.pc += [0 <= i, i < to_z3(L.shape[0])]
            x = to_z3(ip.elem(s2, L)(i))
            if H:
                x = ctx_simplify(x, s2.pc)
                s2.pc += any_at(x, i, s2.pc)
            cx.post_eq('C10', ip, L.shape[0], n0, h, '%s%s: the documented number of lengths' % (lab, hl), fn)
            want = z3.If(f(i) <= run.M, f(i), z3.If(half >= 2, half, z3.IntVal(2)))
            if H:
                want = ctx_simplify(want, s2.pc)
                if abstracted(x == want, s2.pc):
                    s2.pc.append(x == want)      # just proved
            if cx.post_eq('C10', ip, x, want, s2, '%s%s: lengths as documented, those that do not fit replaced by half the length' % (lab, hl), fn):
                s2.pc.append(x == want)
            cx.post('C10', ip, z3.And(2 <= x, x <= run.M), s2, '%s%s: every length is between 2 and the shortest length' % (lab, hl), fn, cands=[i])
    # --- C16
    gen = z3.Function('check_random_state', OBJ, OBJ)(e.random_state.term)
    ev = ip.rng_events
    hold(cx, 'C16', all(x[1].eq(gen) for x in ev), '%s: every draw of fit uses the generator built from random_state' % lab, fn)
    hold(cx, 'C16', not ip.events_of('draw'), '%s: fit draws nothing from the global generators' % lab, fn)
    hold(cx, 'C16', any(x[6] is not None and is_num(a['seed']) and bool(prove(to_z3(a['seed']) == x[6], st.pc)) for x in ev), '%s: the seed of the kernel is drawn from that generator' % lab, fn)
    # --- C17
    for o in run.rets:
        hold(cx, 'C17', all(o.st.heap[b] is run.heap0[b] for b in d.bufs + [run.y.buf]), "%s: fit leaves the user's series and labels alone" % lab, fn)
        hold(cx, 'C17', all(o.st.heap[b] is run.heap0[b] for b in (e.lengths.buf, e.percentiles.buf)), '%s: fit leaves the option arrays alone' % lab, fn)
        new = o.st.heap[e.obj.id]
        ch = {q for q in set(new) | set(run.attrs0) if new.get(q) is not run.attrs0.get(q)
              and not (is_z(new.get(q)) and is_z(run.attrs0.get(q)) and new[q].eq(run.attrs0[q]))}
        allowed = {'shapelets_', 'fitter', 'transformer'} | ({'transform_type'} if run.tt == 'auto' else set())
        ch = {q for q in ch if not (q in allowed) and (q in run.attrs0 or False)}
        hold(cx, 'C17', not ch, '%s: fit changes no option%s' % (lab, ' (%s)' % ', '.join(sorted(ch)) if ch else ''), fn)
        hold(cx, 'C19', isinstance(new.get('shapelets_'), Opq) and new['shapelets_'] is res, '%s: the shapelets kept are those sampled' % lab, fn)


def post_kernel_pre(cx, run):
    """The precondition of *_generate_shapelet (specs_generate.setup) at the call, for options and data as documented."""
    if not cx.kinds & {'post:C02'}:
        return
    ip, e, d, fn, lab = run.ip, run.e, run.d, 'R_DST.fit', run.label
    k = run.call('generate')
    if k is None:
        raise Unsupported('not one call of a kernel on %s' % lab)
    name, a, st, line, res = k
    st = st.copy()
    st.pc += [e.nshp >= 1, e.pmin >= 0, e.pmax <= 100, e.alpha >= 0, e.alpha <= 1]
    if e.maxch is not None:
        st.pc += [1 <= e.maxch, e.maxch <= run.F]
    if run.opt.get('ns') in ('less', 'more'):
        st.pc += [e.nsamp * real(d.n) >= 1]
    X, y, L = a['X'], a['y'], a['lengths']
    def P(c, msg, s2=st, cands=()):
        cx.post('C02', ip, c, s2, '%s: precondition of the kernel: %s' % (lab, msg), fn, cands=cands)
    def H(c, msg):
        return hold(cx, 'C02', c, '%s: precondition of the kernel: %s' % (lab, msg), fn)
    if not (H(isinstance(X, Arr) and X.ndim == 3 and X.dtype == 'real', 'X is a 3D float array') and H(isinstance(y, Arr) and y.ndim == 1, 'y is a 1D array')
            and H(isinstance(L, Arr) and L.ndim == 1 and L.dtype == 'int', 'lengths are integers') and H(all(is_num(a[r]) for r in a if r not in ('X', 'y', 'lengths', 'X_len')), 'numbers')):
        return
    n, F, T_ = [to_z3(q) for q in X.shape]
    i = z3.Int('!i')
    P(z3.And(n >= 1, F >= 1, T_ >= 2), 'X is not empty')
    P(to_z3(y.shape[0]) == n, 'one label per series')
    P(a['n_shapelets'] >= 1, 'at least one shapelet')
    P(z3.And(0 <= real(a['p_min']), real(a['p_min']) <= real(a['p_max']), real(a['p_max']) <= 100), 'the percentiles are in order')
    P(z3.And(0 <= real(a['alpha']), real(a['alpha']) <= 1), 'alpha is in [0, 1]')
    if 'max_channels' in a:
        P(z3.And(1 <= a['max_channels'], a['max_channels'] <= F), 'max_channels is between 1 and the number of features')
    low = a['min_len'] if 'min_len' in a else T_
    P(to_z3(L.shape[0]) >= 1, 'there is a length')
    s2 = st.copy()
    s2.pc += [0 <= i, i < to_z3(L.shape[0])]
    x = ip.elem(s2, L)(i)
    P(z3.And(2 <= x, x <= low), 'lengths between 2 and the length of the series', s2, [i])
    if 'X_len' in a:
        XL = a['X_len']
        if H(isinstance(XL, Arr) and XL.ndim == 1 and XL.dtype == 'int', 'X_len is an array of integers'):
            P(to_z3(XL.shape[0]) == n, 'one length per series')
            s3 = st.copy()
            s3.pc += [0 <= i, i < n]
            x = ip.elem(s3, XL)(i)
            src, _ = run.source() or (None, None)
            s3.pc += [e.minlen <= d.len(src(i)), d.len(src(i)) >= 0] if e.minlen is not None and src is not None else []
            P(z3.And(low <= x, x <= T_), 'true lengths between the minimum length and the size of the array', s3, [i] + ([src(i)] if src is not None else []))
    s4 = st.copy()
    if e.minlen is not None:
        z = z3.IntVal(0)
        s4.pc += [e.minlen <= d.len(z), e.minlen >= 2]
        P(low <= T_, 'the minimum length is inside the array', s4, [z])


def post_transform(cx, run):
    """R_DST.transform after that fit, on other data."""
    for o in run.rets:
        kinds = ['array', 'intarray'] if not run.d.var else ['list', 'objarray']
        for kind in kinds:
            transform_one(cx, run, o.st.copy(), kind)


def transform_one(cx, run, st, kind):
    ip, e = run.ip, run.e
    fn = 'R_DST.transform'
    lab = '%s, then transform of %s' % (run.label, kind)
    del run.log[:], ip.rng_events[:], ip.events[:], ip.raised[:]
    d = Data(ip, st, kind, 'Z')
    p, F2 = data_pre(d, run.tt, 1 if z3.is_int_value(simp(run.F)) else 'n')
    st.pc += p[:1] + [F2 == run.F] + p[1:-1]
    heap0, at0 = dict(st.heap), dict(st.heap[e.obj.id])
    shp = at0.get('shapelets_')
    rets = cx.run(ip, 'R_DST.transform', [e.obj, d.value], st)
    k = run.call('apply')
    if k is None:
        raise Unsupported('not one call of a kernel on %s' % lab)
    name, a, s1, line, res = k
    s1 = s1.copy()
    hold(cx, 'C19', name == run.variant() + '_apply_all_shapelets' and len(run.log) == 1, '%s: the counterpart of the implementation used by fit' % lab, fn)
    old, run.F = run.F, F2
    post_data(cx, run, [p for p in ('C19', 'C03') if 'post:' + p in cx.kinds], d, a, s1, lambda s: s, d.n, fn, lab)
    run.F = old
    for p in ('C19', 'C01'):
        hold(cx, p, a['shapelets'] is shp, '%s: the shapelets are the fitted ones' % lab, fn)
        if hold(cx, p, is_num(a['phase']), '%s: phase is a flag' % lab, fn):
            cx.post(p, ip, boolean(to_z3(a['phase'])) == e.phase, s1, '%s: role phase gets the option phase' % lab, fn)
    hold(cx, 'C16', not ip.rng_events and not ip.events_of('draw') and not ip.events_of('seed'), '%s: transform draws nothing' % lab, fn)
    for o in rets:
        new = o.st.heap[e.obj.id]
        ch = [q for q in set(new) | set(at0) if new.get(q) is not at0.get(q)]
        hold(cx, 'C17', not ch, '%s: transform changes no attribute' % lab, fn)
        hold(cx, 'C17', all(o.st.heap[b] is heap0[b] for b in d.bufs + [e.lengths.buf, e.percentiles.buf]), "%s: transform leaves the user's series and the options alone" % lab, fn)
        cx.same_value('C01', ip, o.st, o.value, o.st, res, '%s: the features returned are those of the kernel' % lab, fn)
    if 'post:C02' in cx.kinds:
        X = a['X']
        if hold(cx, 'C02', isinstance(X, Arr) and X.ndim == 3 and X.dtype == 'real', '%s: X is a 3D float array' % lab, fn):
            if 'X_len' in a:
                XL = a['X_len']
                if hold(cx, 'C02', isinstance(XL, Arr) and XL.ndim == 1 and XL.dtype == 'int', '%s: X_len is an array of integers' % lab, fn):
                    i = z3.Int('!i')
                    cx.post('C02', ip, to_z3(XL.shape[0]) == to_z3(X.shape[0]), s1, '%s: one length per series' % lab, fn)
                    s3 = s1.copy()
                    s3.pc += [0 <= i, i < to_z3(X.shape[0])]
                    cx.post('C02', ip, z3.And(0 <= ip.elem(s3, XL)(i), ip.elem(s3, XL)(i) <= to_z3(X.shape[2])), s3, '%s: true lengths inside the array' % lab, fn, cands=[i])


def _events_of(self, what):
    return [x for x in self.events if x[0] == what]


Api.events_of = _events_of

RP = {p: {'post:' + p, 'vacuity'} for p in ('C01', 'C03', 'C10', 'C16', 'C17', 'C19')}
RP['C02'] = {'post:C02', 'bounds', 'slice', 'shape', 'div', 'vacuity'}
RF = ['R_DST.__init__', 'R_DST.fit', 'R_DST._set_fit_transform', 'R_DST._format_uneven_timestamps', 'R_DST._set_lengths', 'R_DST._check_params', 'R_DST.transform', 'R_DST._auto_class']


def _mk_fit(tt):
    @task('fit_' + tt, RP, RF)
    def t_fit(cx):
        opts = [dict(), dict(lengths='float'), dict(max_channels=True, min_len='variable' in tt)]
        if cx.kinds & {'post:C19', 'post:C03', 'post:C16', 'post:C17', 'post:C02'}:
            opts += [dict(ns='less'), dict(ns='more'), dict(ns='all')]
        for o in opts:
            for kind, nft in cases(tt):
                run = FitRun(cx, tt, kind, nft, **o)
                run.go()
                post_fit(cx, run)
                post_kernel_pre(cx, run)
                if not o and cx.kinds & {'post:C01', 'post:C02', 'post:C03', 'post:C16', 'post:C17', 'post:C19'}:
                    post_transform(cx, run)


def _mk_lengths(l):
    @task('lengths_' + l, {'C10': {'post:C10', 'vacuity'}}, ['R_DST._set_lengths', 'R_DST._check_params', 'R_DST.fit'])
    def t_len(cx):
        runs = [('univariate', 'array', 1, {}), ('univariate_variable', 'list', 1, dict(min_len=True))]
        for tt, kind, nft, o in runs:
            run = FitRun(cx, tt, kind, nft, lengths=l, **o)
            run.go()
            post_fit(cx, run)
        # lengths of at least 2 on series of at least 3 timestamps: fit does not raise
        for tt, kind, nft, o in runs + ([('multivariate_variable', 'list', 2, {})] if l == 'int' else []):
            run = FitRun(cx, tt, kind, nft, lengths=l, **o)
            if run.d.var:
                TH.rule(run.d.lf, lambda a: [a >= 3])
            e = run.e
            if e.bounds is None:
                TH.rules.pop(e.lf.get_id(), None)
                M = run.M
                TH.rule(e.lf, (lambda a: [a >= 2]) if l == 'int' else (lambda a: [z3.ToInt(real(M) * a) >= 2]))
            run.st0.pc += [run.M >= 3]
            run.go()
            for s in run.raises:
                cx.post('C10', run.ip, z3.BoolVal(False), s, '%s: fit does not raise when every length is at least 2 and the series have at least 3 timestamps' % run.label, 'R_DST.fit')
            hold(cx, 'C10', True, '%s: %d raising paths' % (run.label, len(run.raises)), 'R_DST.fit')


for _t in KINDS_OF:
    _mk_fit(_t)
for _l in LENS:
    _mk_lengths(_l)
