"""Proof tasks of the transforms: *_apply_all_shapelets."""
from task import *
from contracts import *

N, FT, T, NS, VW, MINLEN = z3.Ints('n_samples n_ft n_timestamps n_shapelets v_width min_len')


class Features:
    """Write contract of the output: whoever writes place (s, 3i+k) writes feature k of shapelet i for series s."""
    def __init__(self, cx, V, param, norm):
        self.cx, self.V, self.n, self.seen = cx, V, 0, {}
        self.param, self.norm = param, norm

    def split(self, c):
        """c as 3*i + k with a literal k"""
        rest, k = [], 0
        for s in summands(c):
            a, t = coef_split(s)
            if z3.is_int_value(s):
                k += s.as_long()
            elif a % 3 == 0:
                rest.append((a // 3) * t)
            else:
                return None
        k3 = k % 3
        r = z3.Sum(*rest) if len(rest) > 1 else rest[0] if rest else z3.IntVal(0)
        return simp(r + (k - k3) // 3), k3

    def check(self, ip, st, addr, val, node):
        if ip.quiet:
            return
        self.n += 1
        sp = self.split(simp(addr[1]))
        if sp is None:
            raise Unsupported('the column written is not of the form 3*i+k')
        i, k = sp
        if self.cx.kinds is not None and 'post:C01' not in self.cx.kinds:
            return
        key = (i.get_id(), k, val.get_id(), addr[0].get_id(), tuple(c.get_id() for c in st.pc))
        if key in self.seen:
            return
        self.seen[key] = (i, val, addr)
        st = st.copy()
        val = simp(val)
        where_ = 'line %d: ' % ip.line(node)
        # lemmas: the parameters used are those of the shapelet i
        sub = []
        for x in deep_apps(val, self.param):
            if not x.arg(0).eq(i):
                own = x.decl()(i)
                if prove(own == x, st.pc, quick=True, depth=3):
                    self.cx.lemma('C01', ip, own == x, st, where_ + 'the %s used is that of the shapelet written' % x.decl().name(), ip.fname())
                    sub.append((x, own))
        n_ = self.norm(i)
        for b in (n_, z3.Not(n_)):
            if prove(b, st.pc, quick=True, depth=3):
                self.cx.lemma('C01', ip, b, st, where_ + 'the normalisation used is that of the shapelet written', ip.fname())
                sub.append((n_, z3.BoolVal(b is n_)))
                break
        spec = simp(to_z3(self.V(addr[0], i, k)))
        if not z3.is_const(i):
            # generalise the shapelet number
            gen = [(i, z3.Const('!shp%d' % uid(), I))]
            st.pc = [deep_substitute(c, gen) for c in st.pc]
            val, spec = deep_substitute(val, gen), deep_substitute(spec, gen)
            sub = [(deep_substitute(x, gen), deep_substitute(y, gen)) for x, y in sub]
        val, spec = deep_substitute(val, sub), deep_substitute(spec, sub)
        st.pc = [deep_substitute(c, sub) for c in st.pc]
        self.cx.post_eq('C01', ip, val, spec, st, where_ + 'feature %d written to its column' % k, ip.fname())

    def value(self, s, c):
        c = to_z3(c)
        sp = self.split(simp(c))
        if sp is not None:
            return self.V(s, sp[0], sp[1])
        i = c / 3
        k = c % 3
        return z3.If(k == 0, self.V(s, i, 0), z3.If(k == 1, self.V(s, i, 1), self.V(s, i, 2)))


def setup(ip, st, variant, phase):
    multi, var = variant[0] == 'M', variant[1] == 'V'
    X = ip.input_array(st, 'X', [N, FT, T], 'real')
    st.pc = [N >= 0, NS >= 0, FT >= 1, T >= 1]
    low = T if not var else MINLEN
    XL = None
    if var:
        # every series is at least as long as the shortest one, MINLEN
        XL = ip.input_array(st, 'X_len', [N], 'int')
        xlf = z3.Function('X_len', I, I)
        TH.rules.pop(xlf.get_id(), None)
        TH.rule(xlf, lambda a: [z3.Implies(z3.And(0 <= a.arg(0), a.arg(0) < N), z3.And(MINLEN <= a, a <= T))])
        st.pc += [MINLEN >= 1, MINLEN <= T]
        xl = ip.elem(st, XL)
    else:
        xl = lambda s: T
    names = ('lengths', 'dilations', 'n_channels', 'channel_ids')
    Lf, Df, Cf, If = [z3.Function(n, I, I) for n in names]
    Nf = z3.Function('normalize', I, B)
    for f in (Lf, Df, Cf, If):
        TH.rules.pop(f.get_id(), None)
    lengths = ip.input_array(st, 'lengths', [NS], 'int')
    dil = ip.input_array(st, 'dilations', [NS], 'int')
    thr = ip.input_array(st, 'threshold', [NS], 'real')
    nrm = ip.input_array(st, 'normalize', [NS], 'bool')
    inr = lambda i: z3.And(0 <= i, i < NS)
    TH.rule(Lf, lambda a: [z3.Implies(inr(a.arg(0)), z3.And(a >= 2, *([] if multi else [a <= VW])))])
    TH.rule(Df, lambda a: [z3.Implies(inr(a.arg(0)), z3.And(a >= 1, *([] if phase else [(Lf(a.arg(0)) - 1) * a < low])))])
    ip.param, ip.normf = (Lf, Df), Nf
    if not multi:
        vals = ip.input_array(st, 'values', [NS, VW], 'real')
        return X, XL, (vals, lengths, dil, thr, nrm), xl
    nch = ip.input_array(st, 'n_channels', [NS], 'int')
    TH.rule(Cf, lambda a: [z3.Implies(inr(a.arg(0)), z3.And(a >= 1, a <= FT))])
    nval, nid = Sum(NS, lambda i: Cf(i) * Lf(i)), Sum(NS, lambda i: Cf(i))
    vals = ip.input_array(st, 'values', [nval], 'real')
    ids = ip.input_array(st, 'channel_ids', [nid], 'int')
    TH.rule(If, lambda a: [z3.Implies(z3.And(0 <= a.arg(0), a.arg(0) < nid), z3.And(0 <= a, a < FT))])
    return X, XL, (vals, lengths, dil, thr, nrm, nch, ids), xl


def features(ip, st, X, shp, xl, phase, multi):
    """V(s, i, k): feature k of shapelet i on series s, as the property defines it."""
    x = ip.elem(st, X)
    e = [ip.elem(st, v) for v in shp]
    vals, lengths, dil, thr, nrm = e[:5]

    def V(s, i, k):
        n, w, d = xl(s), lengths(i), dil(i)
        L = conv_len(n, w, d, phase)
        if multi:
            nch, ids = e[5], e[6]
            a1, a2 = Sum(i, lambda t: nch(t) * lengths(t)), Sum(i, lambda t: nch(t))
            one = lambda nm, p, c: real(manhattan(row(lambda t: x(s, ids(a2 + c), t), n, w, p, d, nm, phase), lambda j: vals(a1 + c * w + j), w))
            D = lambda nm: lambda p: real(Sum(nch(i), lambda c: one(nm, p, c)))
        else:
            D = lambda nm: lambda p: real(manhattan(row(lambda t: x(s, 0, t), n, w, p, d, nm, phase), lambda j: vals(i, j), w))
        f = lambda nm: three(L, D(nm), thr(i))[k]
        return ite(nrm(i), lambda: f(True), lambda: f(False))
    return V


NAMES = {'US': 'U_SL_apply_all_shapelets', 'UV': 'U_VL_apply_all_shapelets', 'MS': 'M_SL_apply_all_shapelets', 'MV': 'M_VL_apply_all_shapelets'}


def _mk(v, phase):
    nm = NAMES[v]

    @task('apply_%s%s' % (v, '_phase' if phase else ''), {'C01': {'post:C01', 'vacuity'}, 'C03': {'post:C01', 'vacuity'}, 'C02': set(SAFETY) | {'vacuity'}, 'C07': {'race'}, 'C16': {'post:C16', 'vacuity'}, 'C17': {'post:C17', 'vacuity'}}, [nm])
    def t_apply(cx):
        ip = cx.interp(by_name())
        st = State()
        X, XL, shp, xl = setup(ip, st, v, phase)
        V = features(ip, st, X, shp, xl, phase, v[0] == 'M')
        wc = Features(cx, V, ip.param, ip.normf)

        def on_alloc(b, rec):
            if rec.dtype == 'real' and len(rec.shape) == 2 and z3.is_true(simp(rec.shape[0] == N)) and z3.is_true(simp(rec.shape[1] == 3 * NS)):
                return rec.with_(wc=wc)
            return rec
        ip.on_alloc = on_alloc
        import specs_generate as SG
        heap0 = dict(st.heap)
        args = [X, shp, phase] + ([XL] if XL is not None else [])
        rets = cx.run(ip, nm, args, st)
        SG.draws_seeded(cx, ip, None, nm)
        for o in rets:
            SG.inputs_alone(cx, o.st, heap0, args, nm)
            if cx.kinds is not None and 'post:C01' not in cx.kinds:
                continue
            r = o.value
            cx.post_eq('C01', ip, r.shape[0], N, o.st, 'one row per series', nm)
            cx.post_eq('C01', ip, r.shape[1], 3 * NS, o.st, 'three columns per shapelet', nm)
            rec = o.st.heap[r.buf]
            if rec.wc is not wc:
                raise Unsupported('output not recognised')
            s, i = z3.Ints('!ss !ii')
            s2 = o.st.copy()
            s2.pc += [0 <= s, s < N, 0 <= i, i < NS]
            for k in range(3):
                for h in (ip.normf(i), z3.Not(ip.normf(i))):
                    s3 = s2.copy()
                    s3.pc.append(h)
                    cx.post_exists('C01', ip, z3.simplify(rec.wr(s, simp(3 * i + k))), s3, [s, i, ip.ghost_comb(i)],
                                   'column %d of every shapelet is written' % k, nm)


for _v in NAMES:
    for _p in (False, True):
        _mk(_v, _p)


@task('padding', {'C03': {'post:C03', 'vacuity'}}, list(NAMES.values()))
def t_padding(cx):
    """The features the transforms are proved to compute (features above) depend on the true values of the series only:
    two data sets that agree on them, at any row and with any padding, give the same features."""
    for v in NAMES:
        for phase in (False, True):
            ip = cx.interp(by_name())
            st = State()
            X, XL, shp, xl = setup(ip, st, v, phase)
            multi = v[0] == 'M'
            V = features(ip, st, X, shp, xl, phase, multi)
            N2, T2, s, s2, i = z3.Ints('n_samples2 n_timestamps2 !s !s2 !i')
            n = xl(s)
            X2 = ip.input_array(st, 'X2', [N2, FT, T2], 'real')
            f1, f2 = z3.Function('X', I, I, I, R), z3.Function('X2', I, I, I, R)
            TH.rules.pop(f2.get_id(), None)
            TH.rule(f2, lambda a: [z3.Implies(z3.And(a.arg(0) == s2, 0 <= a.arg(1), a.arg(1) < FT, 0 <= a.arg(2), a.arg(2) < n),
                                              a == f1(s, a.arg(1), a.arg(2)))])
            V2 = features(ip, st, X2, shp, lambda t: n, phase, multi)
            st.pc += [0 <= s, s < N, 0 <= s2, s2 < N2, n <= T2, 0 <= i, i < NS]
            cx.vac.append(('padding', sat_check(st.pc)))
            if multi:
                nch = ip.elem(st, shp[5])
                a2 = lambda j: Sum(j, lambda t: nch(t))
                cx.lemma('C03', ip, z3.And(0 <= a2(i), a2(i) + nch(i) <= a2(NS)), st, 'the channels of a shapelet lie inside the array of channels', 'features')
            for nrm in (False, True):
                s3 = st.copy()
                s3.pc.append(ip.normf(i) if nrm else z3.Not(ip.normf(i)))
                for k in range(3):
                    cx.post_eq('C03', ip, V(s, i, k), V2(s2, i, k), s3, '%s, %s, %s: feature %d does not depend on padding, batch or position in it' % (
                        v, 'phase' if phase else 'no phase', 'normalised' if nrm else 'raw', k), 'features')
