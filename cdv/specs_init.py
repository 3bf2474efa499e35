"""Proof tasks of the helpers used at initialisation: distinct pairs, primes, logarithmic choice, parameter drawing."""
from task import *
from contracts import *
import contracts as C
from specs_commons import POST, by_contract

n, m_ = z3.Ints('n m')


def seeds_nothing(cx, ip, nm):
    """Only the kernel that calls it seeds the generator."""
    if cx.kinds is None or 'post:C16' in cx.kinds:
        ev = [e for e in ip.events if e[0] == 'seed']
        cx.obls.append(Obl('post:C16', nm, 0, 'the generator is not seeded again', not ev, 'structure', 0.0))


# ------------------------------------------------------------------------------------------ distinct pairs
class CountSpec:
    """For a loop that clears one place of a boolean matrix per counted iteration:
    the number of places set plus the counter is constant."""
    def __init__(self):
        self.ok = False

    def prepare(self, ip, loop, st, q, plans, unsolved, start_sc, bufs, hav, havoc, mod):
        bs = [b for b in mod if plans[b]['kind'] == 'bool' and plans[b]['how'] == 'all' and len(st.heap[b].shape) == 2]
        cs = [v for v in start_sc.values() if v.sort() == I and any(TH.aggs.get(a.decl().get_id()) and agg_of(a).kind in ('cnt', 'sum') for a in collect(v)[0])]
        if len(bs) != 1 or len(cs) != 1:
            return
        self.ok = True
        rec, p = st.heap[bs[0]], plans[bs[0]]
        sh = rec.shape
        self.cnt = lambda t: Where2Op(sh[0], sh[1], loop.bool_content(rec, p, q, t)).count
        self.mask = lambda t: loop.bool_content(rec, p, q, t)
        self.k0 = Where2Op(sh[0], sh[1], rec.content).count
        c = cs[0]
        self.c = lambda t: z3.substitute(c, (q, to_z3(t)))
        self.inv = lambda t: self.cnt(t) + self.c(t) == self.k0 + self.c(z3.IntVal(0))
        self.p, self.sh, self.q = p, sh, q

    def place(self):
        """the place cleared in iteration q"""
        hit = z3.simplify(z3.Not(self.p['e']))
        c = [invert_cands(hit, a) for a in self.p['av']]
        return [x[0] if x else None for x in c]

    def establish(self, ip, loop, st):
        if self.ok:
            e = agg_eq(self.cnt(z3.IntVal(0)), self.k0, list(st.pc))
            if e:
                ip.assume(st, self.cnt(z3.IntVal(0)) == self.k0)
            ip.oblige('inv', self.inv(z3.IntVal(0)), st, loop.node, 'places set plus counter: at the start', assume=False)

    def assume(self, ip, loop, s, t):
        if self.ok:
            ip.assume(s, self.inv(t))
            ip.assume(s, self.cnt(t) >= 0)
            pl = self.place()
            if None not in pl:      # a place that is set makes the count positive
                pl = [z3.substitute(x, (self.q, to_z3(t))) for x in pl]
                inside = z3.And(*[z3.And(0 <= x, x < to_z3(d)) for x, d in zip(pl, self.sh)])
                ip.assume(s, z3.Implies(z3.And(inside, self.mask(t)(*pl)), self.cnt(t) >= 1))

    def preserve(self, ip, loop, end, q):
        if not self.ok:
            return
        pl = self.place()
        if None in pl:
            ip.fail('inv', 'the cleared place is not recognised', loop.node, end)
            return
        x, y = z3.Const('!px', I), z3.Const('!py', I)
        m0, m1 = self.mask(q), self.mask(q + 1)
        s2 = end.copy()
        s2.pc += [0 <= x, x < to_z3(self.sh[0]), 0 <= y, y < to_z3(self.sh[1])]
        side = prove(m1(x, y) == z3.And(m0(x, y), z3.Not(z3.And(x == pl[0], y == pl[1]))), s2.pc, timeout=ip.timeout)
        if side:
            # lemma: clearing one place lowers the count by one if it was set
            inside = z3.And(0 <= pl[0], pl[0] < to_z3(self.sh[0]), 0 <= pl[1], pl[1] < to_z3(self.sh[1]))
            ip.assume(end, self.cnt(q + 1) == self.cnt(q) - z3.If(z3.And(inside, m0(*pl)), z3.IntVal(1), z3.IntVal(0)))
        ip.oblige('inv', self.inv(q + 1), end, loop.node, 'places set plus counter: kept by an iteration', assume=False)

    def after(self, ip, loop, st, total, plans):
        if self.ok:
            ip.assume(st, self.inv(total))


def comb_post(cx, ip, st, r, f, g, prop):
    """The rows of r are exactly the distinct pairs (f(i), g(i)), each once."""
    nm = '_combinations_1d'
    K = to_z3(r.shape[0])
    c = ip.elem(st, r)
    a, b, i = z3.Ints('!ra !rb !ri')
    row = lambda a: (c(a, z3.IntVal(0)), c(a, z3.IntVal(1)))
    cx.post_eq(prop, ip, r.shape[1], z3.IntVal(2), st, 'two columns', nm)
    # every row is a pair
    s2 = st.copy()
    s2.pc += [0 <= a, a < K]
    invs = [x for x in collect(z3.simplify(row(a)[0]))[0] if x.decl().name().startswith('!inv')]
    src = invs[0] if invs else ArgMax(n, lambda t: z3.If(z3.And(f(t) == row(a)[0], g(t) == row(a)[1]), z3.IntVal(1), z3.IntVal(0)))
    cx.post(prop, ip, z3.And(0 <= src, src < n, f(src) == row(a)[0], g(src) == row(a)[1]), s2, 'every row is one of the pairs', nm)
    # rows are distinct
    s3 = st.copy()
    ws = []
    for t in (a, b):
        invs = [x for x in collect(z3.simplify(row(t)[0]))[0] if x.decl().name().startswith('!inv')]
        ws += invs
    s3.pc += [0 <= a, a < b, b < K, row(a)[0] == row(b)[0], row(a)[1] == row(b)[1]]
    for w_ in ws:
        s3.pc += []
    cx.post(prop, ip, z3.BoolVal(False), s3, 'no pair is listed twice', nm, cands=ws)
    # every pair is listed: at the rank of its first occurrence
    s4 = st.copy()
    s4.pc += [0 <= i, i < n]
    first = ArgMax(i + 1, lambda t: z3.If(z3.And(f(t) == f(i), g(t) == g(i)), z3.IntVal(1), z3.IntVal(0)))
    k = None
    for x in ip.count_terms:
        k = z3.substitute(x[0], (x[1], first))
    if k is None:
        raise Unsupported('distinct pairs: no counter found')
    s4.pc += [k == k]
    # the instances of the first-occurrence axiom needed
    f1 = agg_inst(first, agg_of(first), [i], 3)
    s4.pc += f1
    cx.post(prop, ip, z3.And(0 <= first, first <= i, f(first) == f(i), g(first) == g(i)), s4, 'first occurrence of a pair', nm, cands=[i])
    s4.pc += [0 <= first, first <= i, f(first) == f(i), g(first) == g(i)]
    ws = []
    goal = z3.And(0 <= k, k < K, row(k)[0] == f(i), row(k)[1] == g(i))
    j = z3.Int('!rj')
    nofirst = z3.Implies(z3.And(0 <= j, j < first), z3.Not(z3.And(f(j) == f(i), g(j) == g(i))))
    s5 = st.copy()
    s5.pc = list(s4.pc) + agg_inst(first, agg_of(first), [j, i], 3)
    cx.post(prop, ip, nofirst, s5, 'no earlier occurrence of a pair', nm)
    # quantified fact, instantiated at the witnesses of the any operators of the query
    for x in ip.any_terms(first):
        s4.pc.append(z3.substitute(nofirst, (j, x)))
    cx.post(prop, ip, goal, s4, 'every pair is listed', nm, cands=[first])


@task('combinations', {**POST('C01'), 'C01': {'post:C01', 'vacuity', 'inv'}, 'C03': {'post:C01', 'vacuity', 'inv'}, 'C02': set(SAFETY) | {'inv', 'vacuity'}}, ['_combinations_1d'])
def t_comb(cx):
    ip = cx.interp()
    st = State()
    x, y = ip.input_array(st, 'x', [n], 'int'), ip.input_array(st, 'y', [n], 'int')
    f, g = ip.elem(st, x), ip.elem(st, y)
    st.pc = [n >= 0]
    specs = []

    def ls(ip_, loop):
        s = CountSpec()
        specs.append((s, loop))
        return s
    ip.loop_spec = ls
    rets = cx.run(ip, '_combinations_1d', [x, y], st)
    ip.count_terms = []
    anys = []
    for s, loop in specs:
        if s.ok:
            qv = z3.Int('!qq')
            ip.count_terms = [(s.c(qv), qv)]
            m = z3.simplify(s.mask(qv)(z3.Int('!u0'), z3.Int('!u1')))
            hit = z3.simplify(z3.Not(s.p['e']))
            pl = [invert_cands(hit, a)[0] for a in s.p['av']]
            sp = s

            def any_terms(first, pl=pl, loop=loop, s=s):
                e = z3.simplify(s.mask(loop.q)(*pl))
                out = []
                for a_ in outer_aggs(e):
                    a_ = z3.substitute(a_, (loop.q, first))
                    d = agg_of(a_)
                    if d.kind == 'any':
                        _, args, ex = agg_parts(a_)
                        out.append(related(d, args, 'anyw', [ex[0]], I))
                return out
            ip.any_terms = any_terms
    for o in rets:
        comb_post(cx, ip, o.st, o.value, f, g, 'C01')


# ------------------------------------------------------------------------------------------ primes
def dividends(e):
    """the t of every imod(n, t) of e"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().eq(MODF) or z3.is_app_of(x, z3.Z3_OP_MOD):
            if not any(x.arg(1).eq(o) for o in out):
                out.append(x.arg(1))
        st.extend(x.children())
    return out


@task('is_prime', {'C06': {'post:C06', 'vacuity'}, 'C02': set(SAFETY) | {'vacuity'}}, ['is_prime'])
def t_prime(cx):
    ip = cx.interp(by_name('is_prime'))
    st = State()
    st.pc = [n >= 0]
    for o in cx.run(ip, 'is_prime', [n], st):
        v = simp(boolean(o.value))
        nm = 'is_prime'
        # not admissible: a divisor is at hand (n is 0, even, or was divided by a number up to its square root)
        s2 = o.st.copy()
        s2.pc.append(z3.Not(v))
        if str(sat_check(s2.pc)) != 'unsat':
            ds = [z3.IntVal(2)] + [x for c in o.st.pc for x in dividends(c)]
            s = SQRT(z3.ToReal(n))
            for x in ds[1:]:
                if not z3.is_int_value(x):
                    # monotonicity of the square: x <= s gives x*x <= s*s = n, and x < x*x
                    cx.lemma('C06', ip, z3.Implies(z3.And(x >= 2, z3.ToReal(x) <= s), x < n), s2, 'a divisor up to the square root is smaller than n', nm)
            cx.post('C06', ip, z3.Not(isp(n)), s2, 'a rejected number is 0 or has a divisor', nm, cands=ds)
        # admissible: a divisor dv of n would have been found, as dv or n/dv is at most the square root and odd
        s3 = o.st.copy()
        dv, e = z3.Ints('!dv !de')
        s3.pc += [v, n >= 1]
        if str(sat_check(s3.pc)) == 'unsat':
            continue
        cx.post('C06', ip, n >= 1, s3, 'an accepted number is at least 1', nm)
        s3.pc += [2 <= dv, dv < n, n == dv * e]
        cx.lemma('C06', ip, z3.And(e >= 2, e < n), s3, 'the cofactor is a divisor too', nm)
        m = z3.If(dv <= e, dv, e)
        mm = z3.Int('!dm')
        oth = z3.Int('!do')
        s3.pc += [mm == m, oth == dv + e - mm]
        cx.lemma('C06', ip, z3.And(n == mm * oth, 2 <= mm, mm <= oth), s3, 'the smaller one of the two', nm)
        cx.lemma('C06', ip, mm * mm <= n, s3, 'its square is at most n', nm)
        s = SQRT(z3.ToReal(n))
        s3.pc += _sq(n)
        cx.lemma('C06', ip, z3.ToReal(mm) <= s, s3, 'it is at most the square root', nm)
        cx.lemma('C06', ip, mod(n, mm) == 0, s3, 'it divides n', nm)
        par = z3.Int('!dh')
        cx.lemma('C06', ip, z3.Implies(mm % 2 == 0, n % 2 == 0), s3, 'an even divisor makes n even', nm, cands=[])
        cands = []
        for c in s3.pc:
            for a in outer_aggs(c):
                dd = agg_of(a)
                if dd.kind == 'any':
                    _, args, ex = agg_parts(a)
                    for x in dividends(agg_body(dd, args, BVI)):
                        cands += solve_for(x, mm, BVI, None)
        cx.post('C06', ip, z3.BoolVal(False), s3, 'an accepted number has no divisor', nm, cands=cands)


BVI = z3.Const('!bv', I)


def _sq(n):
    """the defining facts of the square root"""
    s = SQRT(z3.ToReal(n))
    return [s >= 0, s * s == z3.ToReal(n)]


@task('prime_up_to', {'C06': {'post:C06', 'vacuity'}, 'C02': set(SAFETY) | {'vacuity'}, 'C07': {'race'}}, ['prime_up_to'])
def t_primes(cx):
    by_contract(cx, PrimeUpTo(), lambda ip, st: ([n], []), ['C06'])
    ip = cx.interp()
    st = State()
    st.pc = [n >= -1]
    w = WhereOp(n + 1, isp)
    cx.post('C06', ip, PrimeUpTo.first(w.count, w.at, n), st, 'the first admissible number is 1', 'prime_up_to', cands=[z3.IntVal(1), w.rank(z3.IntVal(1)), z3.IntVal(0)])


@task('choice_log', {'C16': {'post:C16', 'vacuity'}, 'C06': {'post:C06', 'vacuity'}, 'C02': set(SAFETY) | {'vacuity'}, 'C07': {'race'}}, ['choice_log'])
def t_clog(cx):
    ip = cx.interp(by_name('choice_log'))
    st = State()
    st.pc = [m_ >= 0]
    for o in cx.run(ip, 'choice_log', [n, m_], st):
        r, nm = o.value, 'choice_log'
        if not isinstance(r, Arr) or r.ndim != 1:
            raise Unsupported('choice_log: result')
        cx.post_eq('C06', ip, r.shape[0], m_, o.st, 'as many draws as asked', nm)
        i = z3.Int('i')
        s2 = o.st.copy()
        s2.pc += [0 <= i, i < m_]
        x = ip.elem(o.st, r)(i)
        cx.post('C06', ip, z3.And(x >= 0, z3.Implies(n >= 1, x < n), z3.Implies(n < 1, x == 0)), s2, 'every draw is a position in range', nm)
        if cx.kinds is None or 'post:C06' in cx.kinds:
            complete(cx, ip, o.st, x, i, nm)
    seeds_nothing(cx, ip, 'choice_log')


def complete(cx, ip, st, x, i, nm):
    """Every position can be drawn: some value of the random number gives it."""
    def rnds(e):
        return [a for a in collect(e)[0] if a.decl().name().startswith('rnd!')]
    w = [a for a in outer_aggs(x) if agg_of(a).kind == 'where']
    k = z3.Int('!wk')
    s2 = st.copy()
    s2.pc += [0 <= i, i < m_]
    if not w:
        if cx.kinds is None or 'post:C06' in cx.kinds:
            cx.post('C06', ip, z3.Implies(z3.And(0 <= k, k < n), k == x), s2, 'every position can be drawn (no random number used)', nm)
        return
    w = w[0]
    d = agg_of(w)
    _, args, ex = agg_parts(w)
    body = z3.simplify(agg_body(d, args, BVI))
    rs = [a for a in collect(body)[0] if a.decl().name().startswith('rnd!')]
    if len(rs) != 1 or body.num_args() < 1:
        raise Unsupported('choice_log: the random number is not compared with a distribution')
    cmp_ = body.arg(0) if z3.is_not(body) else body
    P = [c for c in cmp_.children() if not any(a.eq(rs[0]) for a in collect(c)[0])]
    if len(P) != 1 or cmp_.num_args() != 2:
        raise Unsupported('choice_log: distribution not recognised')
    Pf = lambda t: z3.substitute(P[0], (BVI, to_z3(t)))
    s2.pc += [0 <= k, k < n]
    prev = z3.If(k == 0, z3.RealVal(0), Pf(k - 1))
    S = P[0].arg(0) if z3.is_app(P[0]) and P[0].decl().eq(DIV) else None
    if S is not None:
        Sf, tot = (lambda t: z3.substitute(S, (BVI, t))), z3.substitute(P[0].arg(1), (BVI, k))
        cx.lemma('C06', ip, tot > 0, s2, 'the total weight is positive', nm)
    cx.lemma('C06', ip, z3.And(prev < Pf(k), prev >= 0, prev < 1), s2, 'every position has a positive share of [0, 1)', nm, cands=[k, k - 1, n - 1])
    s3 = s2.copy()
    r, xr = rs[0], x
    s3.pc += [prev < r, r < Pf(k), r < 1]
    ws = w
    _, a2, e2 = agg_parts(ws)
    rank = related(d, a2, 'rank', [e2[0], k], I)
    cx.lemma('C06', ip, agg_body(d, a2, k), s3, 'the position qualifies', nm)
    cx.lemma('C06', ip, z3.And(0 <= ws, ws < n, agg_body(d, a2, ws)), s3, 'the position taken qualifies', nm, cands=[k])
    cx.lemma('C06', ip, z3.And(rank >= 0, related(d, a2, 'where', [e2[0], rank], I) == k), s3, 'the position has a rank', nm)
    cx.lemma('C06', ip, ws <= k, s3, 'the first qualifying position is taken', nm, cands=[k])
    if S is not None:       # order of the quotients from the order of the sums
        cx.lemma('C06', ip, z3.Implies(ws <= k - 1, Sf(ws) <= Sf(k - 1)), s3, 'the distribution is monotone', nm)
        cx.lemma('C06', ip, z3.Implies(ws <= k - 1, Pf(ws) <= Pf(k - 1)), s3, 'the normalised distribution is monotone', nm)
    cx.lemma('C06', ip, ws >= k, s3, 'no earlier position qualifies', nm)
    cx.post('C06', ip, xr == k, s3, 'every position can be drawn', nm)


# ------------------------------------------------------------------------------------------ parameters of the shapelets
def params_post(cx, ip, st, r, ct, a, prime):
    ns, sizes, nt, pn, mc, _ = ct.split(a)
    nm = ct.name
    if not isinstance(r, tuple) or len(r) != (7 if ct.multi else 5) or not all(isinstance(x, Arr) for x in r):
        raise Unsupported(nm + ': result')
    i = z3.Int('i')
    s2 = st.copy()
    s2.pc += [0 <= i, i < ns]
    vals, lengths, dil, thr_, nrm = r[:5]
    fs = ip.elem(st, sizes)
    nsz = to_z3(sizes.shape[0])
    for x, lab in ((lengths, 'lengths'), (dil, 'dilations'), (thr_, 'thresholds'), (nrm, 'flags')) + (((r[5], 'channel counts'),) if ct.multi else ()):
        cx.post_eq('C09', ip, x.shape[0], ns, st, 'one entry per shapelet: ' + lab, nm)
    l, d_ = ip.elem(st, lengths)(i), ctx_simplify(ip.elem(st, dil)(i), s2.pc)
    s4 = s2.copy()
    chs = [a_.children()[-1] for a_ in collect(l)[0] if a_.num_args()] + [a_ for a_ in collect(l)[0] if a_.decl().name().startswith('ch')]
    chs = [c for c in chs if c.sort() == I]
    cx.post('C09', ip, z3.Or(*[z3.And(0 <= c, c < nsz, l == fs(c)) for c in chs]), s2, 'lengths are among the given ones', nm)
    for p in ('C06', 'C02', 'C09'):
        cx.post(p, ip, z3.And(l >= 2, l <= nt), s2, 'lengths fit the series', nm)
    cx.lemma('C06', ip, z3.And(l >= 2, l <= nt), s2, 'lengths fit the series', nm)
    cx.post('C06', ip, d_ >= 1, s2, 'dilations are at least 1', nm)
    q = QUOF(nt - 1, l - 1)
    lg = LOG2(z3.ToReal(q))
    s3 = s2.copy()
    cx.lemma('C06', ip, z3.And(q >= 1, (l - 1) * q <= nt - 1), s3, 'the bound of the dilations is admissible', nm)
    s3.pc += TH.rules[LOG2.get_id()][0](lg) if LOG2.get_id() in TH.rules else []
    cx.lemma('C06', ip, d_ <= q, s3, 'dilations are at most their bound', nm, cands=[i])
    cx.post('C06', ip, (l - 1) * d_ <= nt - 1, s3, 'dilated shapelets fit the series', nm)
    if prime is True:
        cx.post('C06', ip, isp(d_), s4, 'dilations are 1 or prime', nm, timeout=30)
        reach_primes(cx, ip, s4, d_, q, nm)
    cx.post_eq('C05', ip, ip.elem(st, thr_)(i), z3.RealVal(0), s2, 'thresholds start at zero', nm)
    b = boolean(ip.elem(st, nrm)(i))
    cx.post('C09', ip, z3.And(z3.Implies(real(pn) >= 1, b), z3.Implies(real(pn) <= 0, z3.Not(b))), s2,
            'all normalised for probability 1, none for probability 0', nm)
    if not ct.multi:
        cx.post_eq('C09', ip, vals.shape[0], ns, st, 'one row of values per shapelet', nm)
        cx.post_eq('C09', ip, vals.shape[1], Max(nsz, fs), st, 'values as wide as the longest length', nm)
        j = z3.Int('j')
        cx.post_eq('C09', ip, ip.elem(st, vals)(i, j), z3.RealVal(0), s2, 'values start at zero', nm)
    else:
        nc = ip.elem(st, r[5])
        cx.post('C09', ip, z3.And(1 <= nc(i), nc(i) <= integer(mc)), s2, 'between 1 and max_channels channels', nm)
        cx.post_eq('C09', ip, r[6].shape[0], Sum(ns, nc), st, 'room for every channel id', nm)
        cx.post_eq('C09', ip, vals.shape[0], Sum(ns, lambda t: ip.elem(st, lengths)(t) * nc(t)), st, 'room for the values of every channel', nm)


def reach_primes(cx, ip, st, d_, q, nm):
    """Every admissible number up to the bound is the dilation for some position drawn by choice_log."""
    if cx.kinds is not None and 'post:C06' not in cx.kinds:
        return
    cl = [a for a in collect(d_)[0] if a.decl().name().startswith('clog!')]
    if len(cl) != 1:
        raise Unsupported('%s: the dilation is not drawn by one choice_log' % nm)
    p = z3.Int('!prime')
    s = st.copy()
    s.pc += [isp(p), p <= q]
    k, st_ = p, d_
    chain = []
    while agg_of(st_) is not None and agg_of(st_).kind == 'where':
        dd = agg_of(st_)
        _, args, ex = agg_parts(st_)
        chain.append((dd, args, ex[0]))
        st_ = ex[1]
    if not st_.eq(cl[0]) or not chain:
        raise Unsupported('%s: the dilation is not the drawn position of a selection' % nm)
    for dd, args, n0 in chain:
        cx.lemma('C06', ip, z3.And(0 <= k, k < n0), s, 'an admissible number within the bound is in the range of the selection', nm, cands=[p])
        cx.lemma('C06', ip, agg_body(dd, args, k), s, 'an admissible number within the bound is selected', nm, timeout=30)
        k2 = related(dd, args, 'rank', [n0, k], I)
        c2 = related(dd, args, 'cnt', [n0], I)
        cx.lemma('C06', ip, z3.And(0 <= k2, k2 < c2, related(dd, args, 'where', [n0, k2], I) == k), s, 'and has a position', nm)
        k = k2
    c = TH.rules[cl[0].decl().get_id()][0](cl[0])[1].arg(0).arg(0)      # number of choices given to choice_log
    cx.post('C06', ip, k < c, s, 'choice_log is given every position', nm)
    cx.post('C06', ip, z3.substitute(d_, (cl[0], k)) == p, s, 'every admissible number within the bound can be drawn', nm)


for _v in ('US', 'UV', 'MS', 'MV'):
    def _mk(v):
        ct = INITS[v]

        @task('init_' + v, {'C16': {'post:C16', 'vacuity'}, 'C06': {'post:C06', 'vacuity'}, 'C09': {'post:C09', 'vacuity'}, 'C02': set(SAFETY) | {'vacuity', 'post:C02'}, 'C07': {'race'}}, [ct.name])
        def t_init(cx):
            for prime in (False, True):
                ip = cx.interp(by_name(ct.name))
                st = State()
                nsh, nsz, nt, mc = z3.Ints('n_shapelets n_sizes n_timestamps max_channels')
                pn = z3.Real('p_norm')
                sizes = ip.input_array(st, 'sizes', [nsz], 'int', lambda t, k: z3.Implies(z3.And(0 <= k, k < nsz), z3.And(t >= 2, t <= nt)))
                a = [nsh, sizes, nt, pn] + ([mc] if ct.multi else []) + [prime]
                st.pc = [nsh >= 1, nsz >= 1] + ([mc >= 1] if ct.multi else [])
                f = cx.repo.find(ct.name)
                for o in cx.run(ip, ct.name, a, st):
                    if cx.kinds is None or cx.kinds & {'post:C06', 'post:C09', 'post:C02'}:
                        params_post(cx, ip, o.st, o.value, ct, a, prime)
                seeds_nothing(cx, ip, ct.name)
    _mk(_v)
