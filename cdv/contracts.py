"""Contracts (pre- and postconditions) of the compiled kernels, written against the property statements.
A contract is used twice: the body of its function is proved against it, and callers see only the contract."""
import z3
import core
from core import *
from vals import *

EPS = 1e-8


# ------------------------------------------------------------------------------------------ spec functions
def s_get(X, n, i, j, d, phase):
    """element j of the subsequence of the series X (length n) starting at i with dilation d"""
    p = simp(to_z3(i) + to_z3(j) * to_z3(d))
    if phase is True:
        return X(mod(p, n))
    if phase is False:
        return X(p)
    return ite(phase, lambda: X(mod(p, n)), lambda: X(p))


def z_norm(f, w):
    """z-normalisation of the row f of length w"""
    m, s = Mean(w, f), Std(w, f)
    return lambda j: rdiv(real(f(j)) - m, s + real(EPS))


def row(X, n, w, i, d, norm, phase):
    f = lambda j: s_get(X, n, i, j, d, phase)
    if norm is False:
        return f
    g = z_norm(f, w)
    if norm is True:
        return g
    return lambda j: ite(norm, lambda: g(j), lambda: f(j))


def absdiff(a, b):
    d = simp(real(a) - real(b))
    return ite(d >= 0, d, lambda: simp(-d))


def manhattan(f, g, w):
    return Sum(w, lambda j: absdiff(f(j), g(j)))


def conv_len(n, w, d, phase):
    k = simp(to_z3(n) - (to_z3(w) - 1) * to_z3(d))
    return to_z3(n) if phase is True else k if phase is False else ite(phase, to_z3(n), k)


class Mismatch(Exception):
    pass


class Contract:
    name = ''
    params = ()

    def loc(self, loc):
        if set(loc) != set(self.params):
            raise Mismatch(self.name)
        return [loc[p] for p in self.params]

    def apply(self, ip, st, loc, node):
        """At a call site: the precondition becomes an obligation, the result is what the contract says."""
        a = self.loc(loc)
        for kind, c, msg in self.requires(ip, st, *a):
            ip.oblige(kind, c, st, node, 'precondition of %s: %s' % (self.name, msg))
        return self.result(ip, st, node, *a)

    def requires(self, ip, st, *a):
        return []


def arr_ok(v, nd):
    if not isinstance(v, Arr) or v.ndim != nd:
        raise Mismatch('array of rank %d expected' % nd)


def simple_bool(v):
    """python bool when decided, else a Boolean term (an integer flag is tested against zero)"""
    if isinstance(v, bool):
        return v
    b = simp(boolean(v))
    return conc(b) if conc(b) is not None else b


class Distance(Contract):
    params = ('x', 'y')

    def __init__(self, name):
        self.name = name

    def requires(self, ip, st, x, y):
        arr_ok(x, 1)
        arr_ok(y, 1)
        return [('shape', to_z3(x.shape[0]) <= to_z3(y.shape[0]), 'second series at least as long as the first')]

    def result(self, ip, st, node, x, y):
        f, g, w = ip.elem(st, x, node), ip.elem(st, y, node), x.shape[0]
        if self.name == 'manhattan':
            return manhattan(f, g, w)
        s = Sum(w, lambda i: (lambda d: d * d)(simp(real(f(i)) - real(g(i)))))
        return s if self.name == 'squared_euclidean' else SQRT(real(s))


class Strides(Contract):
    params = ('X', 'window_size', 'dilation', 'use_phase')

    def __init__(self, nd):
        self.nd = nd
        self.name = 'generate_strides_%dD' % nd

    def requires(self, ip, st, X, w, d, ph):
        arr_ok(X, self.nd)
        n = to_z3(X.shape[-1])
        ph = simple_bool(ph)
        r = [('shape', integer(w) >= 0, 'window size is not negative'), ('bounds', integer(d) >= 0, 'dilation is not negative')]
        if ph is True:
            return r + [('bounds', z3.Or(n > 0), 'the series is not empty')]
        return r + [('bounds', (to_z3(w) - 1) * to_z3(d) < n, 'the window fits in the series')]

    def result(self, ip, st, node, X, w, d, ph):
        ph = simple_bool(ph)
        n = X.shape[-1]
        f = ip.elem(st, X, node)
        L = conv_len(n, w, d, ph)
        if self.nd == 1:
            return ip.alloc(st, [L, w], 'real', lambda i, j: conv(s_get(f, n, i, j, d, ph), 'real'))
        return ip.alloc(st, [X.shape[0], L, w], 'real', lambda c, i, j: conv(s_get(lambda t: f(c, t), n, i, j, d, ph), 'real'))


class GetSubsequence(Contract):
    name = 'get_subsequence'
    params = ('X', 'index', 'length', 'd', 'normalize', 'use_phase')

    def requires(self, ip, st, X, i, w, d, norm, ph):
        arr_ok(X, 1)
        n = to_z3(X.shape[0])
        i, w, d = integer(i), integer(w), integer(d)
        ph = simple_bool(ph)
        r = [('shape', w >= 1, 'length is positive'), ('bounds', z3.And(0 <= i, i < n), 'the start is inside the series'),
             ('bounds', d >= 0, 'dilation is not negative')]
        if ph is True:
            return r
        return r + [('bounds', i + (w - 1) * d < n, 'the subsequence fits in the series')]

    def result(self, ip, st, node, X, i, w, d, norm, ph):
        f = ip.elem(st, X, node)
        g = row(f, X.shape[0], w, i, d, simple_bool(norm), simple_bool(ph))
        return ip.alloc(st, [integer(w)], 'real', lambda j: conv(g(j), 'real'))


class DistVector(Contract):
    name = 'compute_shapelet_dist_vector'
    params = ('x', 'values', 'length', 'dilation', 'normalize', 'use_phase')

    def requires(self, ip, st, x, v, w, d, norm, ph):
        arr_ok(x, 1)
        arr_ok(v, 1)
        n = to_z3(x.shape[0])
        w, d = integer(w), integer(d)
        ph = simple_bool(ph)
        r = [('shape', w >= 1, 'length is positive'), ('shape', to_z3(v.shape[0]) >= w, 'as many values as the length'),
             ('bounds', d >= 0, 'dilation is not negative'), ('bounds', n >= 1, 'the series is not empty')]
        if ph is True:
            return r
        return r + [('bounds', (w - 1) * d < n, 'the shapelet fits in the series')]

    def result(self, ip, st, node, x, v, w, d, norm, ph):
        f, g = ip.elem(st, x, node), ip.elem(st, v, node)
        n = x.shape[0]
        norm, ph = simple_bool(norm), simple_bool(ph)
        if isinstance(norm, bool):
            c = lambda i: real(manhattan(row(f, n, w, i, d, norm, ph), g, w))
        else:
            c = lambda i: ite(norm, lambda: real(manhattan(row(f, n, w, i, d, True, ph), g, w)),
                              lambda: real(manhattan(row(f, n, w, i, d, False, ph), g, w)))
        return ip.alloc(st, [conv_len(n, w, d, ph)], 'real', c)


def three(n, D, thr):
    """minimum, first position of the minimum, number of positions at or below the threshold"""
    return (real(Min(n, D)), real(ArgMin(n, D)), real(Sum(n, lambda i: z3.If(real(D(i)) <= real(thr), z3.IntVal(1), z3.IntVal(0)))))


class ApplyOne(Contract):
    params = ('x', 'values', 'threshold')

    def __init__(self, multi):
        self.multi = multi
        self.name = 'apply_one_shapelet_one_sample_' + ('multivariate' if multi else 'univariate')

    def requires(self, ip, st, x, v, thr):
        arr_ok(x, 3 if self.multi else 2)
        arr_ok(v, 2 if self.multi else 1)
        n, w = x.shape[-2], x.shape[-1]
        r = [('noerror', to_z3(n) >= 1, 'at least one position'),
             ('shape', to_z3(w) <= to_z3(v.shape[-1]), 'the shapelet has at least as many values as the window')]
        if self.multi:
            r.append(('shape', to_z3(x.shape[0]) <= to_z3(v.shape[0]), 'the shapelet has values for every channel'))
        return r

    def result(self, ip, st, node, x, v, thr):
        f, g = ip.elem(st, x, node), ip.elem(st, v, node)
        n, w = x.shape[-2], x.shape[-1]
        if self.multi:
            D = lambda i: real(Sum(x.shape[0], lambda c: real(manhattan(lambda j: f(c, i, j), lambda j: g(c, j), w))))
        else:
            D = lambda i: real(manhattan(lambda j: f(i, j), g, w))
        return three(n, D, thr)


class Combinations(Contract):
    """the distinct pairs (x[i], y[i]), each once"""
    name = '_combinations_1d'
    params = ('x', 'y')

    def requires(self, ip, st, x, y):
        arr_ok(x, 1)
        arr_ok(y, 1)
        return [('shape', to_z3(x.shape[0]) == to_z3(y.shape[0]), 'arrays of the same length')]

    def result(self, ip, st, node, x, y):
        f, g, n = ip.elem(st, x, node), ip.elem(st, y, node), to_z3(x.shape[0])
        k = uid()
        vs = list(ip.loopvars)
        m = len(vs)
        vss = [v.sort() for v in vs]
        K_ = z3.Function('ncomb!%d' % k, *(vss + [I]))
        src = z3.Function('csrc!%d' % k, *(vss + [I, I]))       # a position of the pair of row i
        idx = z3.Function('cidx!%d' % k, *(vss + [I, I, I]))    # the row of a pair
        K = K_(*vs)

        def inst(app, m):
            sub = list(zip(vs, app.children()[:m]))
            return lambda e: z3.substitute(e, *sub) if sub else e
        b = z3.Const('!c%d' % k, I)
        i_ = z3.Const('!ci%d' % k, I)
        fs, gs = integer(f(b)), integer(g(b))
        s = src(*(vs + [i_]))
        at = lambda e, t: z3.substitute(e, (b, t))
        rowf = z3.Implies(z3.And(0 <= i_, i_ < K), z3.And(0 <= s, s < n, idx(*(vs + [at(fs, s), at(gs, s)])) == i_))
        core._keep.extend([rowf, fs, gs])

        def rule_src(app):
            return [z3.substitute(inst(app, m)(rowf), (i_, app.children()[m]))]
        TH.rule(src, rule_src)

        def rule_idx(app):
            ins = inst(app, m)
            a0, a1 = app.children()[m:]
            out = []
            x_ = term_match(ins(fs), b, a0)
            y_ = term_match(ins(gs), b, a1)
            sa = src(*(app.children()[:m] + [app]))
            for t in ([x_] if x_ is not None else []) + ([y_] if y_ is not None and (x_ is None or not x_.eq(y_)) else []):
                out.append(z3.Implies(z3.And(0 <= t, t < ins(n), at(ins(fs), t) == a0, at(ins(gs), t) == a1),
                                      z3.And(0 <= app, app < ins(K), at(ins(fs), sa) == a0, at(ins(gs), sa) == a1)))
            return out
        TH.rule(idx, rule_idx)
        TH.rule(K_, lambda app: [z3.And(app >= 0, app <= inst(app, m)(n), z3.Implies(inst(app, m)(n) > 0, app > 0))])

        def content(i, j):
            x = src(*(vs + [to_z3(i)]))
            return ite(to_z3(j) == 0, lambda: at(fs, x), lambda: at(gs, x))
        r = ip.alloc(st, [K, 2], 'int', content)
        ip.ghost_comb = lambda x_: idx(*(vs + [at(fs, to_z3(x_)), at(gs, to_z3(x_))]))
        return r


def isp(t):
    """1 or a prime"""
    t = to_z3(t)
    return z3.And(t >= 1, z3.Not(Any(t, lambda i: z3.And(i >= 2, mod(t, i) == 0))))


class IsPrime(Contract):
    name = 'is_prime'
    params = ('n',)

    def requires(self, ip, st, n):
        return [('noerror', integer(n) >= 0, 'a number that is not negative')]

    def result(self, ip, st, node, n):
        return isp(integer(n))


class PrimeUpTo(Contract):
    name = 'prime_up_to'
    params = ('n',)

    def requires(self, ip, st, n):
        return [('shape', integer(n) >= -1, 'bound of at least -1')]

    def result(self, ip, st, node, n):
        w = WhereOp(integer(n) + 1, isp)
        st.pc.append(self.first(w.count, w.at, n))
        return ip.alloc(st, [w.count], 'int', w.at)

    @staticmethod
    def first(count, at, n):
        """the first number is 1"""
        return z3.Implies(integer(n) >= 1, z3.And(count >= 1, at(z3.IntVal(0)) == 1))


class ChoiceLog(Contract):
    """n_sample positions drawn in [0, n_choice)"""
    name = 'choice_log'
    params = ('n_choice', 'n_sample')

    def requires(self, ip, st, n, m):
        return [('shape', integer(m) >= 0, 'number of draws is not negative')]

    def result(self, ip, st, node, n, m):
        n = integer(n)
        ip.events.append(('draw', 'choice_log', list(st.pc), ip.line(node), ip.fname(), st.ghost.get('seeded')))
        vs = list(ip.loopvars)
        f = z3.Function('clog!%d' % uid(), *([v.sort() for v in vs] + [I, I]))
        core._keep.append(n)

        def rule(app):
            sub = list(zip(vs, app.children()))
            c = z3.substitute(n, *sub) if sub else n
            return [app >= 0, z3.Implies(c >= 1, app < c), z3.Implies(c < 1, app == 0)]
        TH.rule(f, rule)
        return ip.alloc(st, [integer(m)], 'int', lambda i: f(*(vs + [to_z3(i)])))


class InitParams(Contract):
    """Random parameters of the shapelets: lengths among the given sizes, dilations that fit the series."""
    def __init__(self, variant):
        self.variant = variant
        self.multi = variant[0] == 'M'
        self.name = {'US': 'U_SL', 'MS': 'M_SL', 'UV': 'U_VL', 'MV': 'M_VL'}[variant] + '_init_random_shapelet_params'
        self.params = ('n_shapelets', 'shapelet_sizes', 'n_timestamps', 'p_norm') + (('max_channels',) if self.multi else ()) + ('prime_scheme',)

    def split(self, a):
        return (a[0], a[1], a[2], a[3], a[4] if self.multi else None, a[-1])

    def requires(self, ip, st, *a):
        ns, sizes, nt, pn, mc, prime = self.split(a)
        arr_ok(sizes, 1)
        k = z3.Const('!sz%d' % uid(), I)
        f = ip.elem(st, sizes)
        r = [('noerror', integer(ns) >= 1, 'at least one shapelet'), ('noerror', to_z3(sizes.shape[0]) >= 1, 'at least one length'),
             ('bounds', z3.Implies(z3.And(0 <= k, k < to_z3(sizes.shape[0])), z3.And(f(k) >= 2, f(k) <= integer(nt))),
              'lengths between 2 and the length of the series')]
        if self.multi:
            r.append(('noerror', integer(mc) >= 1, 'at least one channel'))
        return r

    def result(self, ip, st, node, *a):
        ns, sizes, nt, pn, mc, prime = self.split(a)
        ns, nt = integer(ns), integer(nt)
        nsz = to_z3(sizes.shape[0])
        f = ip.elem(st, sizes, node)
        ip.events.append(('draw', self.name, list(st.pc), ip.line(node), ip.fname(), st.ghost.get('seeded')))
        vs = list(ip.loopvars)
        k = uid()
        P = z3.Function('lpos!%d' % k, *([v.sort() for v in vs] + [I, I]))
        Dl = z3.Function('dil!%d' % k, *([v.sort() for v in vs] + [I, I]))
        Nm = z3.Function('nrm!%d' % k, *([v.sort() for v in vs] + [I, B]))
        core._keep.extend([nsz, nt, ns])
        P_ = lambda i: P(*(vs + [to_z3(i)]))
        ln = lambda i: integer(f(P_(i)))
        i_ = z3.Const('!ii%d' % k, I)
        lnt, prm, pnt = ln(i_), boolean(prime), real(pn)
        core._keep.extend([lnt, prm, pnt])

        def at(e, app):
            return z3.substitute(e, *(list(zip(vs, app.children())) + [(i_, app.children()[-1])]))

        def rule_p(app):
            i = app.children()[-1]
            return [z3.And(0 <= app, app < at(nsz, app)),
                    # the precondition on the sizes, at the size taken
                    z3.And(at(lnt, app) >= 2, at(lnt, app) <= at(nt, app))]

        def rule_d(app):
            l, t = at(lnt, app), at(nt, app)
            return [app >= 1, (l - 1) * app <= t - 1, z3.Implies(at(prm, app), isp(app))]

        def rule_n(app):
            return [z3.Implies(at(pnt, app) >= 1, app), z3.Implies(at(pnt, app) <= 0, z3.Not(app))]
        TH.rule(P, rule_p)
        TH.rule(Dl, rule_d)
        TH.rule(Nm, rule_n)
        lengths = ip.alloc(st, [ns], 'int', ln)
        dil = ip.alloc(st, [ns], 'int', lambda i: Dl(*(vs + [to_z3(i)])))
        thr = ip.alloc(st, [ns], 'real', lambda i: z3.RealVal(0))
        nrm = ip.alloc(st, [ns], 'bool', lambda i: Nm(*(vs + [to_z3(i)])))
        if not self.multi:
            vals = ip.alloc(st, [ns, Max(nsz, f)], 'real', lambda i, j: z3.RealVal(0))
            return (vals, lengths, dil, thr, nrm)
        mc = integer(mc)
        Nc = z3.Function('nch!%d' % k, *([v.sort() for v in vs] + [I, I]))
        core._keep.append(mc)
        TH.rule(Nc, lambda app: [app >= 1, app <= at(mc, app)])
        nc = lambda i: Nc(*(vs + [to_z3(i)]))
        vals = ip.alloc(st, [Sum(ns, lambda i: ln(i) * nc(i))], 'real', lambda i: z3.RealVal(0))
        nch = ip.alloc(st, [ns], 'int', nc)
        ids = ip.alloc(st, [Sum(ns, nc)], 'int', lambda i: z3.IntVal(0))
        return (vals, lengths, dil, thr, nrm, nch, ids)


INITS = {v: InitParams(v) for v in ('US', 'UV', 'MS', 'MV')}


def term_match(p, b, t):
    """x such that p[b:=x] is syntactically t"""
    sub = {}

    def m(p, t):
        if p.eq(b):
            if 'x' in sub:
                return sub['x'].eq(t)
            sub['x'] = t
            return True
        if p.eq(t):
            return True
        return (z3.is_app(p) and z3.is_app(t) and p.decl().eq(t.decl()) and p.num_args() == t.num_args() and
                all(m(u, v) for u, v in zip(p.children(), t.children())))
    return sub.get('x') if m(p, t) else None


KERNELS = [Distance('manhattan'), Distance('euclidean'), Distance('squared_euclidean'), Strides(1), Strides(2),
           GetSubsequence(), DistVector(), ApplyOne(False), ApplyOne(True), Combinations(),
           IsPrime(), PrimeUpTo(), ChoiceLog()] + list(INITS.values())


def by_name(*exclude):
    return {c.name: c for c in KERNELS if c.name not in exclude}
