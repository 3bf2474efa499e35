"""Proof tasks of numba_utils.py (C20): nb_unique by loop invariant and lexicographic-order lemmas, np.all over an axis.

The rows (or columns) of the input are D(p, .), p < n. Definitions used in the statements, by recursion over the columns:
  EQ(i,p,q)  rows p and q agree in columns i..m-1       LX(i,p,q)  row p is lexicographically before row q in columns i..m-1
  ORD(i,p,q) LX(i,p,q) or EQ(i,p,q) and p < q
Contracts assumed: argsort(kind='mergesort') is the stable sorting permutation, nonzero gives the places in increasing order."""
from task import *
from api import *
from specs_api import api, hold
from specs_est import Rebind, content_is
import core
import time, z3

n, m = z3.Ints('n_slices width')
D = z3.Function('slice_value', I, I, R)
EQ = z3.Function('EQ', I, I, I, B)
LX = z3.Function('LX', I, I, I, B)
P = z3.Function('position', I, I, I)          # P(q, r): the original slice at row r after q sorting passes
PI = z3.Function('position_inverse', I, I, I)
a, b, c, i, k, l, p, q, r, r2 = z3.Ints('a b c i k l p q r r2')


def ORD(i, p, q):
    return z3.Or(LX(i, p, q), z3.And(EQ(i, p, q), p < q))


def defs(i, p, q):
    """the definitions at column i for slices p, q"""
    return [z3.Implies(i >= m, EQ(i, p, q)), z3.Implies(i >= m, z3.Not(LX(i, p, q))),
            z3.Implies(i < m, EQ(i, p, q) == z3.And(D(p, i) == D(q, i), EQ(i + 1, p, q))),
            z3.Implies(i < m, LX(i, p, q) == z3.Or(D(p, i) < D(q, i), z3.And(D(p, i) == D(q, i), LX(i + 1, p, q))))]


def men(*ts):
    """hypotheses that only mention terms (for the instantiation of quantifiers)"""
    return [z3.Const('!men%d' % uid(), t.sort()) == t for t in ts]


class Q:
    """Obligations over uninterpreted functions with quantified hypotheses, given to z3 directly (proof by refutation)."""
    def __init__(self, cx, fn):
        self.cx, self.fn = cx, fn

    def __call__(self, goal, hyps, msg):
        cx = self.cx
        if cx.kinds is not None and 'post:C20' not in cx.kinds:
            return
        t = time.time()
        how = 'unknown'
        for z in (0, 1):
            s = z3.Solver()
            s.set('timeout', 60000)
            if z:
                s.set('mbqi', False)
            s.add(*hyps)
            s.add(z3.Not(goal))
            how = str(s.check())
            if how != 'unknown':
                break
        if how == 'unsat':       # and not because the hypotheses are contradictory
            s = z3.Solver()
            s.set('timeout', 300)
            s.add(*hyps)
            if s.check() == z3.unsat:
                how = 'vacuous: the hypotheses are contradictory'
        mod = ''
        if how == 'sat':
            mod = str(s.model())[:600]
        cx.obls.append(Obl('post:C20', self.fn, 0, msg, how == 'unsat', 'z3 ' + how, time.time() - t, '' if how == 'unsat' else 'goal: %s\n%s' % (goal, mod)))


def lex_lemmas(cx):
    """Lemmas on the order, each by induction on the column (downwards from m): the step from i+1 to i."""
    ob = Q(cx, 'nb_unique')
    fa = lambda f: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= m), f(i)))
    def induct(name, f, pairs):
        ob(f(m), [m >= 1] + [d for x, y in pairs for d in defs(m, x, y)], 'lemma (base): ' + name)
        ob(f(i), [m >= 1, 0 <= i, i < m, f(i + 1)] + [d for x, y in pairs for d in defs(i, x, y)], 'lemma (step): ' + name)
    ab, bc, ac, ba, aa = (a, b), (b, c), (a, c), (b, a), (a, a)
    induct('equality is reflexive', lambda i: EQ(i, a, a), [aa])
    induct('equality is symmetric', lambda i: z3.Implies(EQ(i, a, b), EQ(i, b, a)), [ab, ba])
    induct('equality is transitive', lambda i: z3.Implies(z3.And(EQ(i, a, b), EQ(i, b, c)), EQ(i, a, c)), [ab, bc, ac])
    induct('the order is transitive', lambda i: z3.Implies(z3.And(LX(i, a, b), LX(i, b, c)), LX(i, a, c)), [ab, bc, ac])
    induct('the order respects equality on the right', lambda i: z3.Implies(z3.And(LX(i, a, b), EQ(i, b, c)), LX(i, a, c)), [ab, bc, ac])
    induct('the order respects equality on the left', lambda i: z3.Implies(z3.And(EQ(i, a, b), LX(i, b, c)), LX(i, a, c)), [ab, bc, ac])
    induct('the order is strict', lambda i: z3.Not(z3.And(LX(i, a, b), EQ(i, a, b))), [ab])
    # equality of all the values and EQ(0) are the same
    allv = lambda i: z3.ForAll([l], z3.Implies(z3.And(i <= l, l < m), D(a, l) == D(b, l)))
    induct('EQ is equality of the values, one way', lambda i: z3.Implies(EQ(i, a, b), allv(i)), [ab])
    induct('EQ is equality of the values, the other way', lambda i: z3.Implies(allv(i), EQ(i, a, b)), [ab])
    Z = z3.IntVal(0)
    pat = lambda vs, body, *ts: z3.ForAll(vs, body, patterns=[z3.MultiPattern(*ts) if len(ts) > 1 else ts[0]])
    return [m >= 1, n >= 1,
            z3.ForAll([a], EQ(Z, a, a)),
            pat([a, b], z3.Implies(EQ(Z, a, b), EQ(Z, b, a)), EQ(Z, a, b)),
            pat([a, b, c], z3.Implies(z3.And(EQ(Z, a, b), EQ(Z, b, c)), EQ(Z, a, c)), EQ(Z, a, b), EQ(Z, b, c)),
            pat([a, b, c], z3.Implies(z3.And(LX(Z, a, b), LX(Z, b, c)), LX(Z, a, c)), LX(Z, a, b), LX(Z, b, c)),
            pat([a, b, c], z3.Implies(z3.And(LX(Z, a, b), EQ(Z, b, c)), LX(Z, a, c)), LX(Z, a, b), EQ(Z, b, c)),
            pat([a, b, c], z3.Implies(z3.And(EQ(Z, a, b), LX(Z, b, c)), LX(Z, a, c)), EQ(Z, a, b), LX(Z, b, c)),
            pat([a, b], z3.Not(z3.And(LX(Z, a, b), EQ(Z, a, b))), LX(Z, a, b), EQ(Z, a, b))]


@task('nb_unique', {'C20': {'post:C20', 'vacuity', 'bounds', 'shape', 'slice', 'noerror'}}, ['nb_unique'])
def t_unique(cx):
    fn = 'nb_unique'
    ob = Q(cx, fn)
    lem = lex_lemmas(cx)
    for axis in (0, 1):
        for one in (False, True):
            unique_case(cx, ob, lem, axis, one)


def unique_case(cx, ob, lem, axis, one):
    fn = 'nb_unique'
    lab = 'axis %d%s' % (axis, ', width 1' if one else '')
    M_ = z3.IntVal(1) if one else m
    ip = api(cx)
    st = State()
    st.pc = [n >= 1] + ([] if one else [m >= 2])
    x = ip.alloc(st, [n, M_] if axis == 0 else [M_, n], 'real', (lambda u, v: D(to_z3(u), to_z3(v))) if axis == 0 else (lambda u, v: D(to_z3(v), to_z3(u))), 'input')
    h0 = st.heap[x.buf]
    rng = z3.And(0 <= r, r < n)
    # ---- the sorting pass: argsort by its contract
    passes = []

    def argsort(st_, args, kw, node):
        v = args[0]
        if not isinstance(v, Arr) or v.ndim != 1 or len(args) > 1 or not set(kw) <= {'kind', 'axis'} or kw.get('kind') not in ('mergesort', 'stable') or passes:
            raise Unsupported('argsort')
        s = z3.Function('sorter', I, I)
        si = z3.Function('sorter_inverse', I, I)
        key = ip.elem(st_, v, node)
        ln = to_z3(v.shape[0])
        TH.rules.pop(s.get_id(), None)
        TH.rule(s, lambda e: [z3.Implies(z3.And(0 <= e.arg(0), e.arg(0) < ln), z3.And(0 <= e, e < ln))])
        passes.append((s, si, key, ln))
        return ip.alloc(st_, [ln], 'int', lambda t: s(to_z3(t)))
    ip.models['ndarray.argsort'] = ip.models['numpy.argsort'] = argsort
    TH.rules.pop(P.get_id(), None)
    TH.rule(P, lambda e: [z3.Implies(z3.And(0 <= e.arg(1), e.arg(1) < n), z3.And(0 <= e, e < n))])
    pos = lambda u, t: to_z3(t) if conc(u) == 0 else P(u, to_z3(t))

    def after(st_, u):
        if len(passes) != 1:
            raise Unsupported('sorting passes')
        s, si, key, ln = passes[0]
        col = simp(M_ - 1 - u)
        ip.quiet += 1
        kx = key(r)
        ip.quiet -= 1
        cx.post_eq('C20', ip, ln, n, st_, lab + ': all the slices are sorted', fn)
        s3 = st_.copy()
        s3.pc += [0 <= r, r < n]
        cx.post_eq('C20', ip, kx, D(P(u, r), col), s3, lab + ': pass q sorts by column m-1-q', fn)
        # the invariant: P(q) is a permutation of the slices and sorts them by the columns m-q..m-1, ties by original index
        K = lambda t: D(P(u, t), col)
        H = [n >= 1, M_ >= 1, m == M_, 0 <= u, u < M_,
             z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(0 <= s(a), s(a) < n, si(s(a)) == a)), patterns=[s(a)]),
             z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(0 <= si(a), si(a) < n, s(si(a)) == a)), patterns=[si(a)]),
             z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), z3.Or(K(s(a)) < K(s(b)), z3.And(K(s(a)) == K(s(b)), s(a) < s(b)))), patterns=[z3.MultiPattern(s(a), s(b))]),
             z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), ORD(M_ - u, P(u, a), P(u, b))), patterns=[z3.MultiPattern(P(u, a), P(u, b))]),
             z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(0 <= P(u, a), P(u, a) < n, PI(u, P(u, a)) == a)), patterns=[P(u, a)]),
             z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(0 <= PI(u, a), PI(u, a) < n, P(u, PI(u, a)) == a)), patterns=[PI(u, a)])]
        nw = lambda t: P(u, s(t))           # P(q+1)
        ni = lambda t: si(PI(u, t))
        R_ = [0 <= r, r < r2, r2 < n]
        ob(ORD(col, nw(r), nw(r2)), H + R_ + defs(col, nw(r), nw(r2)) + [M_ - u == col + 1], lab + ': invariant (sorted by one more column, stable) is kept')
        ob(z3.And(0 <= nw(r), nw(r) < n, ni(nw(r)) == r), H + [0 <= r, r < n], lab + ': invariant (permutation) is kept')
        ob(z3.And(0 <= ni(r), ni(r) < n, nw(ni(r)) == r), H + [0 <= r, r < n], lab + ': invariant (onto) is kept')
    ob(ORD(M_, r, r2), [0 <= r, r < r2, r2 < n, M_ == m] + defs(M_, r, r2), lab + ': invariant at the start (ties by original index)')
    ip.for_contract = Rebind(cx, ip, 'C20', fn,
                             dict(data=(lambda v: v.ndim == 2, lambda u: ([n, M_], 'real', lambda t, l_: D(pos(u, t), to_z3(l_)))),
                                  orig=(lambda v: v.ndim == 1, lambda u: ([n], 'int', lambda t: pos(u, t)))),
                             step=dict(data=lambda u: lambda t, l_: D(P(u, z3.Function('sorter', I, I)(to_z3(t))), to_z3(l_)),
                                       orig=lambda u: lambda t: P(u, z3.Function('sorter', I, I)(to_z3(t)))), after=after)
    # ---- the boundaries between equal slices: nonzero by its contract
    W, WI, C_ = z3.Function('boundary', I, I), z3.Function('boundary_inverse', I, I), z3.Int('n_boundaries')
    found = []
    TH.rules.pop(W.get_id(), None)

    def nonzero(st_, args, kw, node):
        v = args[0]
        if not isinstance(v, Arr) or found or kw or len(args) > 1:
            raise Unsupported('nonzero')
        if v.ndim == 2 and conc(v.shape[1]) != 1:
            raise Unsupported('nonzero of a 2D array')
        f = ip.elem(st_, v, node)
        ln = to_z3(v.shape[0])
        g = (lambda t: boolean(f(t))) if v.ndim == 1 else (lambda t: boolean(f(t, z3.IntVal(0))))
        found.append((g, ln))
        TH.rule(W, lambda e: [z3.Implies(z3.And(0 <= e.arg(0), e.arg(0) < C_), z3.And(0 <= e, e < ln))])
        ip.assume(st_, C_ >= 0)
        w = ip.alloc(st_, [C_], 'int', lambda t: W(to_z3(t)))
        return (w,) if v.ndim == 1 else (w, ip.alloc(st_, [C_], 'int', lambda t: z3.IntVal(0)))
    ip.models['numpy.nonzero'] = ip.models['ndarray.nonzero'] = ip.models['numpy.where'] = nonzero
    ip.models['numpy.flatnonzero'] = lambda st_, args, kw, node: nonzero(st_, args, kw, node)[0]
    same = z3.Function('all_equal', I, B)
    alls = []

    def all_(st_, args, kw, node):
        v = args[0]
        if not isinstance(v, Arr) or v.ndim != 2 or len(args) > 1 or set(kw) != {'axis'} or conc(kw['axis']) not in (1, -1) or alls:
            raise Unsupported('all')
        alls.append((ip.elem(st_, v, node), to_z3(v.shape[1])))
        return ip.alloc(st_, [v.shape[0]], 'bool', lambda t: same(to_z3(t)))
    ip.models['numpy.all'] = all_

    def append(st_, args, kw, node):
        u, v = [ip.as_array(z, st_, node) if not isinstance(z, Arr) else z for z in args]
        if kw or u.ndim != 1 or v.ndim > 1:
            raise Unsupported('append')
        e, f, d = ip.elem(st_, u, node), ip.elem(st_, v, node), to_z3(u.shape[0])
        tail = z3.IntVal(1) if v.ndim == 0 else to_z3(v.shape[0])
        return ip.alloc(st_, [simp(d + tail)], 'int', lambda t: ite(to_z3(t) < d, e(t), f(simp(to_z3(t) - d)) if v.ndim else f()))
    ip.models['numpy.append'] = append
    for o in cx.run(ip, fn, [x, axis], st):
        if len(passes) != 1 or len(found) != 1 or not isinstance(o.value, tuple) or len(o.value) != 3:
            raise Unsupported('nb_unique is not recognised')
        E = lambda t: P(M_, t)
        L = C_ + 1
        idx = lambda t: z3.If(t == 0, z3.IntVal(0), W(t - 1) + 1)
        nxt = lambda t: z3.If(t < C_, W(t) + 1, n)
        s2 = o.st.copy()
        # what is a boundary: two neighbours that differ somewhere
        g, ln = found[0]
        cx.post_eq('C20', ip, ln, n - 1, s2, lab + ': neighbours are compared', fn)
        s3 = s2.copy()
        s3.pc += [0 <= r, r < n - 1]
        ip.quiet += 1
        gr = to_z3(g(r))
        ip.quiet -= 1
        if alls:
            ae, aw = alls[0]
            s4 = s3.copy()
            s4.pc += [0 <= l, l < M_]
            ip.quiet += 1
            av = ae(r, l)
            ip.quiet -= 1
            cx.post_eq('C20', ip, aw, M_, s3, lab + ': neighbours are compared over all the values', fn)
            cx.post_eq('C20', ip, boolean(av), D(E(r), l) == D(E(r + 1), l), s4, lab + ': value by value', fn)
            cx.post_eq('C20', ip, gr, z3.Not(same(r)), s3, lab + ': a boundary is where they are not all equal', fn)
        else:
            if not one:
                raise Unsupported('comparison of neighbours')
            cx.post_eq('C20', ip, gr, D(E(r), 0) != D(E(r + 1), 0), s3, lab + ': a boundary is where they differ', fn)
        # what is returned
        u, fi, ct = o.value
        if not all(isinstance(z, Arr) for z in o.value) or [z.ndim for z in o.value] != [2, 1, 1]:
            raise Unsupported('result of nb_unique')
        content_is(cx, 'C20', ip, s2, u, [L, M_], lambda t, l_: D(E(idx(t)), l_), lab + ': slices', fn)
        content_is(cx, 'C20', ip, s2, fi, [L], lambda t: E(idx(t)), lab + ': indices', fn)
        content_is(cx, 'C20', ip, s2, ct, [L], lambda t: nxt(t) - idx(t), lab + ': multiplicities', fn)
        hold(cx, 'C20', o.st.heap[x.buf] is h0, lab + ': the input is not modified', fn)
        # ---- lemmas: these are the distinct slices in order, their first occurrences and their multiplicities
        Z = z3.IntVal(0)
        H = lem + [M_ == m, C_ >= 0,
                   z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), ORD(Z, E(a), E(b))), patterns=[z3.MultiPattern(E(a), E(b))]),
                   z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(0 <= E(a), E(a) < n, PI(M_, E(a)) == a)), patterns=[E(a)]),
                   z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(0 <= PI(M_, a), PI(M_, a) < n, E(PI(M_, a)) == a)), patterns=[PI(M_, a)]),
                   z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < C_), z3.And(0 <= W(a), W(a) < n - 1, z3.Not(EQ(Z, E(W(a)), E(W(a) + 1))))), patterns=[W(a)]),
                   z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < C_), W(a) < W(b)), patterns=[z3.MultiPattern(W(a), W(b))]),
                   z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n - 1, z3.Not(EQ(Z, E(a), E(a + 1)))), z3.And(0 <= WI(a), WI(a) < C_, W(WI(a)) == a)), patterns=[WI(a)])]
        in_block = lambda t, y: z3.And(idx(t) <= y, y < nxt(t))
        KK = [0 <= k, k < L]
        # neighbours inside a block are equal
        ob(EQ(Z, E(r), E(r + 1)), H + KK + [idx(k) <= r, r + 1 < nxt(k)] + men(WI(r), W(k), W(k - 1)), lab + ': neighbours inside a block are equal')
        blk = lambda t, y: EQ(Z, E(idx(t)), E(y))
        ob(blk(k, idx(k)), H + KK, lab + ': a block holds equal slices (start)')
        ob(blk(k, r + 1), H + KK + [idx(k) <= r, r + 1 < nxt(k), blk(k, r), EQ(Z, E(r), E(r + 1))], lab + ': a block holds equal slices (step)')
        H2 = H + [z3.ForAll([k, r], z3.Implies(z3.And(0 <= k, k < L, in_block(k, r)), blk(k, r)), patterns=[z3.MultiPattern(W(k), E(r))])]
        ob(idx(k) < nxt(k), H + KK + men(W(k)), lab + ': no block is empty')
        # consecutive blocks are in increasing order, hence all of them
        before = lambda t, v: LX(Z, E(idx(t)), E(idx(v)))
        ob(before(k, k + 1), H + [0 <= k, k + 1 < L, blk(k, W(k)), idx(k) <= W(k)] + men(E(W(k)), E(W(k) + 1)), lab + ': consecutive blocks are in lexicographic order')
        ob(before(k, l + 1), H + [0 <= k, k < l, l + 1 < L, before(k, l), before(l, l + 1)], lab + ': blocks are in strict lexicographic order (step)')
        # every slice lies in a block
        ob(in_block(Z, Z), H + men(W(0)), lab + ': every slice lies in a block (start)')
        ob(z3.Or(in_block(k, r + 1), z3.And(k + 1 < L, in_block(k + 1, r + 1))), H + KK + [in_block(k, r), r + 1 < n] + men(W(k), W(k + 1)), lab + ': every slice lies in a block (step)')
        KB = z3.Function('block_of', I, I)
        H3 = H2 + [z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < n), z3.And(0 <= KB(r), KB(r) < L, in_block(KB(r), r))), patterns=[KB(r)])]
        y = PI(M_, p)
        base = [0 <= p, p < n, blk(KB(y), y)] + men(KB(y))
        ob(z3.And(0 <= KB(y), KB(y) < L, EQ(Z, E(idx(KB(y))), p)), H3 + base, lab + ': every slice of the input is returned')
        k2 = KB(y)
        ob(in_block(k, y), H3 + base + KK + [EQ(Z, E(idx(k)), p), z3.Implies(k < k2, before(k, k2)), z3.Implies(k2 < k, before(k2, k))],
           lab + ': the slices equal to slice k are those of block k (so their number is the length of the block)')
        ob(EQ(Z, E(idx(k)), E(r)), H2 + KK + [in_block(k, r), blk(k, r)], lab + ': and block k holds only such slices')
        ob(E(idx(k)) <= p, H3 + base + KK + [EQ(Z, E(idx(k)), p), in_block(k, y), 0 <= idx(k), idx(k) < n] + men(E(idx(k))),
           lab + ': the index of slice k is its first occurrence')


# ------------------------------------------------------------------------------------------------ np.all
@task('np_all', {'C20': {'post:C20', 'vacuity', 'bounds', 'shape', 'slice', 'noerror'}}, ['np_all'])
def t_np_all(cx):
    fn = 'np_all'
    core.PULL = True
    X = z3.Function('all_input', I, I, B)
    R_, C2 = z3.Ints('n_rows n_cols')
    for nd, axis in ((2, 0), (2, 1), (2, None), (1, None), (1, 0)):
        lab = '%dD, axis %s' % (nd, axis)
        ip = api(cx)
        st = State()
        st.pc = [R_ >= 1, C2 >= 1]
        T_arr, T_ax = Opq(z3.Const('type_x', OBJ), 'numba:Array'), Opq(z3.Const('type_axis', OBJ), 'numba:NoneType' if axis is None else 'numba:Integer')
        oa, oi = ip.getattr, ip.isinstance_

        def isinstance_(v, cls, s, oi=oi):
            if isinstance(v, Opq) and str(v.tag).startswith('numba:'):
                cs = cls if isinstance(cls, tuple) else (cls,)
                nm = [getattr(z_, 'name', '?').split('.')[-1] for z_ in cs]
                return v.tag.split(':')[1] in nm
            return oi(v, cls, s)

        def attribute(v, name, s, node, oa=oa):
            if v is T_arr and name == 'ndim':
                return nd
            if v is T_ax and name == 'type':
                return T_ax
            return oa(v, name, s, node)
        ip.isinstance_, ip.getattr = isinstance_, attribute
        whole = []

        def all_m(st_, args, kw, node):
            if len(args) != 1 or kw or args[0] is not x:
                raise Unsupported('all')
            whole.append(1)
            return z3.Bool('conjunction_of_all')
        ip.models['ndarray.all'] = all_m
        for o in cx.run(ip, fn, [T_arr, T_ax], st):
            f = o.value
            x = ip.alloc(o.st, [R_, C2][:nd], 'bool', (lambda u, v: X(to_z3(u), to_z3(v))) if nd == 2 else (lambda u: X(to_z3(u), z3.IntVal(0))), 'x')
            res = ip.call(f, [x] + ([axis] if axis is not None else []), {}, o.st, None)
            if axis is None or nd == 1:
                hold(cx, 'C20', bool(whole), lab + ': the conjunction of all the values', fn)
                continue
            w, d = (C2, R_) if axis == 0 else (R_, C2)
            if not hold(cx, 'C20', isinstance(res, Arr) and res.ndim == 1, lab + ': an array of rank 1 is returned', fn):
                continue
            cx.post_eq('C20', ip, res.shape[0], w, o.st, lab + ': one place per %s' % ('column' if axis == 0 else 'row'), fn)
            j = z3.Int('!j')
            s2 = o.st.copy()
            s2.pc += [0 <= j, j < w]
            ip.quiet += 1
            got = boolean(ip.elem(s2, res)(j))
            ip.quiet -= 1
            want = All(d, (lambda u: X(u, j)) if axis == 0 else (lambda u: X(j, u)))
            cx.post('C20', ip, z3.Implies(got, want), s2, lab + ': the conjunction of the values (only if)', fn, cands=[j])
            cx.post('C20', ip, z3.Implies(want, got), s2, lab + ': the conjunction of the values (if)', fn, cands=[j])
