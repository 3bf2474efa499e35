"""Proof tasks of the sampling of shapelets: *_generate_shapelet.

The shapelets are sampled in a loop (over the distinct dilations, then over the shapelets of a dilation). Its contract:
one iteration is about one shapelet i; when a start position is left it writes row i of the values (and channels) and
place i of the thresholds and marks the mask, otherwise it changes nothing but the flag that drops the shapelet.
The obligations below state this for an arbitrary iteration from an arbitrary mask; the arrays keep unknown (ghost)
contents after the loop, and the final selection of the sampled shapelets is stated over them."""
from task import *
from contracts import *
import os

N, FT, T, NS, NSZ, MINLEN, MAXCH, SEED = z3.Ints('n_samples n_ft n_timestamps n_shapelets n_sizes min_len max_channels r_seed')
PN, PMIN, PMAX, ALPHA = z3.Reals('p_norm p_min p_max alpha')
PRIME = z3.Bool('prime_scheme')
GEN = {'US': 'U_SL_generate_shapelet', 'UV': 'U_VL_generate_shapelet', 'MS': 'M_SL_generate_shapelet', 'MV': 'M_VL_generate_shapelet'}


def setup(ip, st, v, phase):
    multi, var = v[0] == 'M', v[1] == 'V'
    X = ip.input_array(st, 'X', [N, FT, T], 'real')
    y = ip.input_array(st, 'y', [N], 'int')
    low = MINLEN if var else T
    sizes = ip.input_array(st, 'sizes', [NSZ], 'int')
    sf = z3.Function('sizes', I, I)
    TH.rules.pop(sf.get_id(), None)
    TH.rule(sf, lambda a: [z3.Implies(z3.And(0 <= a.arg(0), a.arg(0) < NSZ), z3.And(2 <= a, a <= low))])
    st.pc = [N >= 1, FT >= 1, T >= 1, NS >= 1, NSZ >= 1, PMIN >= 0, PMIN <= PMAX, PMAX <= 100, ALPHA >= 0, ALPHA <= 1]
    args = [X, y, NS, sizes, SEED, PN, PMIN, PMAX, ALPHA, phase]
    if multi:
        st.pc += [MAXCH >= 1, MAXCH <= FT]
        args.append(MAXCH)
    xl = lambda s: T
    if var:
        XL = ip.input_array(st, 'X_len', [N], 'int')
        xlf = z3.Function('X_len', I, I)
        TH.rules.pop(xlf.get_id(), None)
        TH.rule(xlf, lambda a: [z3.Implies(z3.And(0 <= a.arg(0), a.arg(0) < N), z3.And(MINLEN <= a, a <= T))])
        st.pc += [MINLEN >= 2, MINLEN <= T]
        args += [MINLEN, XL]
        xl = ip.elem(st, XL)
    else:
        st.pc += [T >= 2]
    args.append(PRIME)
    return X, y, sizes, xl, args


class Ghost:
    """Write contract of an array filled by the loop: what is written is unknown outside of it."""
    def __init__(self, name, nd, dt):
        self.f = z3.Function('%s!g%d' % (name, uid()), *([I] * nd + [DT_SORT[dt]]))

    def check(self, ip, st, addr, val, node):
        pass

    def value(self, *a):
        return self.f(*[to_z3(x) for x in a])


class CapturedInit(InitParams):
    """The contract of *_init_random_shapelet_params, remembering the arrays it returns."""
    def __init__(self, variant, sp):
        InitParams.__init__(self, variant)
        self.sp = sp

    def result(self, ip, st, node, *a):
        r = InitParams.result(self, ip, st, node, *a)
        names = ('values', 'lengths', 'dilations', 'threshold', 'normalize', 'n_channels', 'channel_ids')
        for k in (0, 3, 6):
            if k < len(r):
                b = r[k].buf
                st.heap[b] = st.heap[b].with_(wc=Ghost(names[k], r[k].ndim, r[k].dtype), name=names[k])
        if not ip.quiet:
            self.sp.init(ip, st, r)
        return r


def wit_series(e, Xd):
    """The reads X(s, c, t) in e, the bodies of operators included -> list of [s, c, t]."""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen or not z3.is_app(x):
            return
        seen.add(x.get_id())
        if x.decl().eq(Xd):
            out.append(x)
        d = agg_of(x)
        if d is not None:
            _, args, ex = agg_parts(x, d)
            ws = [z3.Const('!da%d' % uid(), b.sort()) for b in d.bvs]
            core._keep.extend(ws)
            go(agg_body(d, args, *ws))
        for c in x.children():
            go(c)
    go(e)
    return [x.children() for x in out]


class Sampling:
    """loop_spec and final statements for one variant"""
    def __init__(self, cx, v, phase, nm):
        self.cx, self.v, self.phase, self.nm = cx, v, phase, nm
        self.multi, self.var = v[0] == 'M', v[1] == 'V'
        self.arrs = None
        self.masks, self.flags = [], []
        self.runs = 0
        self.found = 0
        self.Xd = z3.Function('X', I, I, I, R)

    def init(self, ip, st, r):
        self.arrs = r
        e = [ip.elem(st, a) for a in r]
        self.L, self.D, self.Nm = e[1], e[2], e[4]
        if self.multi:
            self.nch = e[5]
            self.a1 = lambda i: Sum(i, lambda t: self.nch(t) * self.L(t))
            self.a2 = lambda i: Sum(i, self.nch)

    def on_alloc(self, b, rec):
        if rec.dtype == 'bool' and len(rec.shape) == (5 if self.multi else 4) and conc(rec.shape[0]) == 2 and rec.level == 0:
            self.masks.append(b)
        if self.multi and rec.dtype == 'bool' and len(rec.shape) == 1 and rec.level == 0 and simp(to_z3(rec.shape[0])).eq(NS):
            self.flags.append(b)
            return rec.with_(wc=Ghost('mask_return', 1, 'bool'))
        return rec

    def loop_spec(self, ip, loop):
        return RowLoop(self, loop) if self.arrs is not None and not ip.quiet else None

    # ------------------------------------------------------------------ what one iteration does
    def iteration(self, ip, loop, st0, starts, plans, end, q):
        cx, nm = self.cx, self.nm
        self.found += 1
        if cx.kinds is not None and not cx.kinds & {'post:' + p for p in ('C04', 'C05', 'C08', 'C09')}:
            return
        vals, lengths, dil, thr, nrm = self.arrs[:5]
        for a, what in ((lengths, 'lengths'), (dil, 'dilations'), (nrm, 'normalisation flags')) + (((self.arrs[5], 'numbers of channels'),) if self.multi else ()):
            for p in ('C04', 'C05', 'C08', 'C09'):
                cx.post(p, ip, z3.BoolVal(a.buf not in starts), end, 'sampling does not modify the %s' % what, nm)
        iv = z3.Const('!iv', I)
        W = z3.simplify(end.heap[thr.buf].wr(iv))
        cands = invert_cands(W, iv)
        if not cands:
            raise Unsupported('the shapelet of an iteration is not recognised')
        i = cands[0]
        w = z3.simplify(z3.substitute(W, (iv, i)))          # a threshold is written for shapelet i
        L, D, nf = integer(self.L(i)), integer(self.D(i)), boolean(self.Nm(i))
        P = ('C04', 'C05', 'C08', 'C09')

        def post(ps, goal, st, msg, eq=None, cands=()):
            for p in ps:
                if eq is not None:
                    cx.post_eq(p, ip, goal, eq, st, msg, nm, cands=cands)
                else:
                    cx.post(p, ip, goal, st, msg, nm, cands=cands)
        s1 = end.copy()
        s1.pc += [W]
        post(P, iv == i, s1, 'an iteration writes the threshold of one shapelet')
        post(P, z3.And(0 <= i, i < NS), end, 'the shapelet of an iteration exists')
        # ---- frame of the values
        sw = end.copy()
        sw.pc += [w, 0 <= i, i < NS]
        j, c = z3.Ints('!rj !rc')
        rv = end.heap[vals.buf]
        if not self.multi:
            iv2, jv = z3.Ints('!iv2 !jv')
            s2 = end.copy()
            s2.pc.append(z3.simplify(rv.wr(iv2, jv)))
            post(P, z3.And(iv2 == i, w), s2, 'only the values of that shapelet are written, and only with its threshold')
            post(('C04', 'C09'), z3.And(0 <= jv, jv < L), s2, 'no more values than the length are written')
            sj = sw.copy()
            sj.pc += [0 <= j, j < L]
            post(P, z3.simplify(rv.wr(i, j)), sj, 'every value of the shapelet is written with its threshold')
            got = rv.content(i, j)
            chan = lambda c: z3.IntVal(0)
            nch = z3.IntVal(1)
        else:
            a1, a2 = self.a1, self.a2
            ids = self.arrs[6]
            rid = end.heap[ids.buf]
            nch = integer(self.nch(i))
            chan = lambda c: integer(rid.content(simp(a2(i) + c)))
            av = z3.Const('!av', I)
            for rec, lo, hi, what in ((rv, a1(i), a1(i + 1), 'values'), (rid, a2(i), a2(i + 1), 'channels')):
                s2 = end.copy()
                s2.pc.append(z3.simplify(rec.wr(av)))
                post(P, z3.And(lo <= av, av < hi, w), s2, 'only the %s of that shapelet are written, and only with its threshold' % what)
                s3 = sw.copy()
                s3.pc += [lo <= av, av < hi]
                post(P, z3.simplify(rec.wr(av)), s3, 'all the %s of the shapelet are written with its threshold' % what)
            sj = sw.copy()
            sj.pc += [0 <= j, j < L, 0 <= c, c < nch]
            got = rv.content(simp(a1(i) + c * L + j))
            drawn = ctx_simplify(chan(c), sj.pc)
            if not has_c(drawn, j):
                for p_ in P:
                    cx.post_eq(p_, ip, chan(c), drawn, sj, 'the channels of the shapelet are the channels drawn', nm)
                chan = lambda k, drawn=drawn: z3.substitute(drawn, (c, to_z3(k)))
            c2 = z3.Const('!rc2', I)
            s4 = sw.copy()
            s4.pc += [0 <= c, c < nch]
            post(('C09',), z3.And(0 <= chan(c), chan(c) < FT), s4, 'the channels of a shapelet exist')
            s4.pc += [c < c2, c2 < nch, chan(c) == chan(c2)]
            post(('C09',), z3.BoolVal(False), s4, 'the channels of a shapelet are distinct')
        # ---- the series and the start it is taken from
        got = ctx_simplify(simp(to_z3(got)), sj.pc)
        if self.multi:
            # the place j of channel c was written by the step of channel c
            for x in collect(got)[0]:
                if x.decl().name().startswith('!inv') and x.sort() == I:
                    if any(cx.post(q, ip, x == c, sj, 'the values of a channel are written in its turn', nm) for q in ('C04', 'C05', 'C08', 'C09')):
                        got = z3.substitute(got, (x, c))
            got = z3.simplify(got)
        srcs = wit_series(got, self.Xd)
        cand = []
        for s_, c_, t_ in srcs:
            t0 = z3.simplify(z3.substitute(t_, (j, z3.IntVal(0))))
            if self.phase and z3.is_app(t0) and (t0.decl().eq(MODF) or z3.is_mod(t0)):
                t0 = t0.arg(0)
            if has_c(t_, j) and not has_c(s_, j) and not has_c(t0, c) and not has_c(s_, c) and not any(x.eq(s_) and y.eq(t0) for x, y in cand):
                cand.append((s_, t0))
        if not cand:
            raise Unsupported('the series a shapelet is taken from is not recognised')
        s, p = cand[0]
        n = integer(self.xl(s))
        post(P, z3.And(0 <= s, s < N), sw, 'the series a shapelet is taken from exists')
        sw.pc += [0 <= s, s < N]
        sj.pc += [0 <= s, s < N]
        fits = z3.And(0 <= p, p < n) if self.phase else z3.And(0 <= p, p + (L - 1) * D < n)
        post(('C04', 'C08'), fits, sw, 'the shapelet lies inside the true length of its series')
        x = lambda s_, c_: (lambda t: self.xe(s_, c_, t))
        spec = lambda c_, h: row(x(s, chan(c_)), n, L, p, D, h, self.phase)
        for h in (True, False):
            sh = sj.copy()
            sh.pc.append(nf if h else z3.Not(nf))
            post(('C04',), got, sh, 'the values are the %ssubsequence of that series' % ('normalised ' if h else ''), eq=conv(spec(c, h)(j), 'real'))
        # ---- the threshold
        tv = ctx_simplify(simp(to_z3(end.heap[thr.buf].content(i))), sw.pc)
        self.threshold(ip, post, sw, tv, i, s, p, n, L, D, nf, nch, chan, spec, x)
        self.mask(ip, post, end, sw, w, i, s, p, L, D, nf, nch, chan, starts, st0, plans)
        if self.multi:
            self.flag(ip, post, end, w, i, starts)
        # ---- every shapelet has an iteration
        self.coverage(ip, loop, st0, end, q, i)

    def coverage(self, ip, loop, st0, end, q, i):
        if self.cx.kinds is not None and 'post:C09' not in self.cx.kinds:
            return
        outer = [v for v in ip.loopvars if not v.eq(q)]
        k = z3.Int('!kk')
        U = UniqueOp(NS, self.D)
        s = st0.copy()
        ranges = [c for c in st0.pc if any(has_c(c, v) for v in outer)]
        s.pc = [c for c in st0.pc if not any(has_c(c, v) for v in outer)] + [0 <= k, k < NS]
        sub = []
        if len(outer) == 1 and has_c(i, outer[0]):
            sub.append((outer[0], U.rank(self.D(k))))
        elif outer:
            raise Unsupported('the loops over the shapelets are not recognised')
        at = lambda e: z3.substitute(to_z3(e), *sub) if sub else to_z3(e)
        cnt = at(loop.cnt)
        ws = [d for d in [agg_of(x) for x in [i]] if d is not None and d.kind == 'where']
        if not ws:
            raise Unsupported('the order of the shapelets is not recognised')
        d, args, ex = agg_parts(at(i))
        rank = related(d, args, 'rank', [ex[0], k], I)
        self.cx.post('C09', ip, z3.And(*[at(c) for c in ranges]) if ranges else z3.BoolVal(True), s, 'every shapelet has its dilation among those visited', self.nm, cands=[k])
        self.cx.post('C09', ip, z3.And(0 <= rank, rank < cnt, z3.substitute(at(i), (q, rank)) == k), s, 'every shapelet is visited', self.nm, cands=[k])

    def threshold(self, ip, post, sw, tv, i, s, p, n, L, D, nf, nch, chan, spec, x):
        if self.cx.kinds is not None and 'post:C05' not in self.cx.kinds:
            return
        cx = self.cx
        facts = [f for r in TH.rules.get(tv.decl().get_id(), ()) for f in r(tv)] if z3.is_app(tv) else []
        pcs = []
        for f in facts:
            for a in collect(f)[0]:
                d = TH.aggs.get(a.decl().get_id())
                if d is not None and d.kind == 'percentile' and not any(a.eq(o) for o in pcs):
                    pcs.append(a)
        if not pcs:
            raise Unsupported('the percentiles of a threshold are not recognised')
        ss = [r[0] for a in pcs for r in wit_series(a, self.Xd)]
        other = [t for t in ss if not t.eq(s) and not has_bound(t)]
        other = [t for t in other if not prove(t == s, sw.pc, quick=True, depth=3)]
        t = other[0] if other else s
        if os.environ.get('CDV_DBG'):
            print('series', s, 'others', other)
        ye = self.ye
        post(('C05',), z3.And(0 <= t, t < N, ye(t) == ye(s)), sw, 'the threshold comes from a training series of the same class')
        u = z3.Const('!uu', I)
        su = sw.copy()
        su.pc += [0 <= u, u < N, ye(u) == ye(s), u != s]
        wh = WhereOp(N, lambda k: ye(k) == ye(s))
        su.pc += [wh.rank(u) == wh.rank(u), wh.rank(s) == wh.rank(s)]
        post(('C05',), t != s, su, 'it is another series than that of the shapelet if the class has one')
        st_ = sw.copy()
        st_.pc += [0 <= t, t < N, ye(t) == ye(s)]
        nt = integer(self.xl(t))
        for h in (True, False):
            sh = st_.copy()
            sh.pc.append(nf if h else z3.Not(nf))
            if self.multi:
                Dv = lambda pos: real(Sum(nch, lambda c: real(manhattan(row(x(t, chan(c)), nt, L, pos, D, h, self.phase), spec(c, h), L))))
            else:
                Dv = lambda pos: real(manhattan(row(x(t, z3.IntVal(0)), nt, L, pos, D, h, self.phase), spec(z3.IntVal(0), h), L))
            K = conv_len(nt, L, D, self.phase)
            lo, hi = Percentile(K, Dv, PMIN), Percentile(K, Dv, PMAX)
            st2 = sh.copy()
            for a in pcs:
                pv = agg_parts(a)[2][-1]
                tgt = lo if pv.eq(PMIN) else hi if pv.eq(PMAX) else None
                if tgt is None:
                    continue
                if cx.post_eq('C05', ip, a, tgt, sh, 'percentile of the distance vector between the %sshapelet and that series' % ('normalised ' if h else ''), self.nm):
                    st2.pc.append(a == tgt)
            post(('C05',), z3.And(lo <= tv, tv <= hi), st2, 'the threshold lies between the two percentiles')

    def mask(self, ip, post, end, sw, w, i, s, p, L, D, nf, nch, chan, starts, st0, plans):
        if self.cx.kinds is not None and 'post:C08' not in self.cx.kinds:
            return
        ms = [b for b in self.masks if b in starts]
        if len(ms) != 1:
            raise Unsupported('the mask is not recognised')
        b = ms[0]
        rec = end.heap[b]
        nax = len(rec.shape)
        M0, M1 = starts[b], rec.content
        a = [z3.Const('!ma%d' % k, I) for k in range(nax)]
        rng = [z3.And(0 <= x, x < to_z3(d)) for x, d in zip(a, rec.shape)]
        # the slot of the mask, the same for the whole loop
        fr = [f for f in plans[b].get('frames') or [] if f[0] == 'fix' and f[1] == 1]
        if not fr:
            raise Unsupported('the slot of the mask is not recognised')
        slot = fr[0][2]
        free0 = st0.copy()
        free0.pc += [z3.And(0 <= x, x < to_z3(d)) for x, d in zip(a, rec.shape)] + [a[1] == slot, a[-1] < integer(self.xl(a[2]))]
        post(('C08',), boolean(st0.heap[b].content(*a)), free0, 'no position is excluded before the first shapelet of a dilation')
        U = UniqueOp(NS, self.D)
        post(('C08',), z3.And(0 <= slot, slot < U.count, U.at(slot) == D), end, 'the mask used is that of the dilation of the shapelet')
        fl = z3.If(nf, z3.IntVal(1), z3.IntVal(0))
        lm = WhereOp(NS, lambda k: self.D(k) == U.at(slot))      # the dilation of the slot is D
        lmin = Min(lm.count, lambda k: self.L(lm.at(k)))
        n = integer(self.xl(s))
        m1 = (1 - ALPHA) * real(lmin)
        size = L - trunc(z3.If(m1 > 1, m1, z3.RealVal(1)))
        tt, cc = z3.Ints('!tt !cc')
        at = lambda t: z3.Or(a[-1] == mod(p - t * D, n), a[-1] == mod(p + t * D, n))
        here = z3.And(a[0] == fl, a[1] == slot, a[2] == s)
        sm = sw.copy()
        sm.pc += rng
        s1 = sm.copy()
        s1.pc += [boolean(M1(*a))]
        post(('C08',), boolean(M0(*a)), s1, 'an excluded position stays excluded')
        s1.pc += [here, 0 <= tt, tt < size, at(tt)]
        cs = [tt]
        if self.multi:
            s1.pc += [0 <= cc, cc < nch, a[3] == chan(cc)]
            cs.append(cc)
        post(('C08',), z3.BoolVal(False), s1, 'the similar positions of the series are excluded', cands=cs)
        s2 = sm.copy()
        s2.pc += [boolean(M0(*a)), z3.Not(boolean(M1(*a)))]
        post(('C08',), here, s2, 'positions of one series and normalisation only are excluded')
        s2.pc.append(here)
        ops = any_ops(boolean(M1(*a)))
        old = any_ops(boolean(M0(*a)))
        ops = [o for o in ops if not any(o.eq(x) for x in old)]
        post(('C08',), z3.Or(*ops) if ops else z3.BoolVal(False), s2, 'a position is excluded by one of the steps of the iteration')
        for o in ops:
            for facts, ws in cases_of_any(o):
                s3 = s2.copy()
                s3.pc += facts
                # some step t: the place is p -+ t * dilation (and channel c of the shapelet)
                post(('C08',), z3.Or(*[z3.And(0 <= t, t < size, at(t)) for t in ws]), s3, 'only the similar positions are excluded')
                if self.multi:
                    post(('C08',), z3.Or(*[z3.And(0 <= c, c < nch, a[3] == chan(c)) for c in ws]), s3, 'only in the channels of the shapelet')
        sn = end.copy()
        sn.pc += rng + [z3.Not(w)]
        post(('C08',), M1(*a), sn, 'nothing is excluded when nothing is sampled', eq=M0(*a))
        # the start was admissible
        head = lambda s_: (fl, slot, s_)
        c = z3.Const('!rc', I)
        free = lambda s_, t_: (M0(*head(s_), t_) if not self.multi else
                               real(Sum(nch, lambda k: z3.If(M0(*head(s_), chan(k), t_), z3.IntVal(1), z3.IntVal(0)))) >= real(nch) * ALPHA)
        for h in (True, False):
            sh = sw.copy()
            sh.pc.append(nf if h else z3.Not(nf))
            s2, t2 = z3.Ints('!s2 !t2')
            sh.pc += [s2 == s, t2 == p]
            # three ways to write the same statement
            post(('C08',), z3.Or(free(s2, t2), free(s, t2), free(s, p)), sh, 'the start was not excluded')
        # nothing is sampled only when no start is left
        s2, t2 = z3.Ints('!s2 !t2')
        lim = integer(self.xl(s2)) - (z3.IntVal(0) if self.phase else (L - 1) * D)
        for h in (True, False):
            sx = end.copy()
            sx.pc += [nf if h else z3.Not(nf), z3.Not(w), 0 <= s2, s2 < N, 0 <= t2, t2 < lim, free(s2, t2)]
            post(('C08',), z3.BoolVal(False), sx, 'a shapelet is given up only when no start is left', cands=[s2, t2])

    def flag(self, ip, post, end, w, i, starts):
        if self.cx.kinds is not None and not self.cx.kinds & {'post:C08', 'post:C09'}:
            return
        fl = [b for b in self.flags if b in starts]
        if len(fl) != 1:
            if os.environ.get('CDV_DBG'):
                print('flags', self.flags, {b: (end.heap[b].dtype, [str(x) for x in end.heap[b].shape], end.heap[b].level) for b in starts if b in end.heap})
            raise Unsupported('the flag of the shapelets kept is not recognised')
        rec = end.heap[fl[0]]
        rec.wc.used = True
        k = z3.Const('!fk', I)
        W = z3.simplify(rec.wr(k))
        s = end.copy()
        s.pc += [W]
        post(('C09', 'C08'), z3.And(k == i, z3.Not(w), z3.Not(boolean(rec.content(k)))), s, 'only a shapelet that is given up is dropped')
        s2 = end.copy()
        s2.pc += [z3.Not(w)]
        post(('C09', 'C08'), z3.simplify(rec.wr(i)), s2, 'a shapelet that is given up is dropped')


def final(sp, cx, ip, o):
    """The returned set: the shapelets kept, with everything that belongs to them."""
    if cx.kinds is not None and 'post:C09' not in cx.kinds:
        return
    nm, r, st = sp.nm, o.value, o.st
    multi = sp.multi
    if not isinstance(r, tuple) or len(r) != (7 if multi else 5) or not all(isinstance(x, Arr) for x in r):
        raise Unsupported(nm + ': result')
    # what sampling left in the arrays
    vals, lengths, dil, thr, nrm = sp.arrs[:5]
    V, TH_ = st.heap[vals.buf].content, st.heap[thr.buf].content
    if multi:
        fl = [b for b in sp.flags if getattr(st.heap[b].wc, 'used', False)]
        if len(fl) != 1:
            raise Unsupported('the flag of the shapelets kept is not recognised')
        F = st.heap[fl[0]].content
        kept = lambda i: boolean(F(to_z3(i)))
    else:
        wide = to_z3(vals.shape[1])
        kept = lambda i: Any(wide, lambda j: to_z3(V(to_z3(i), j)) != 0)
    W = WhereOp(NS, kept)
    names = ['values', 'lengths', 'dilations', 'thresholds', 'normalisation flags', 'numbers of channels', 'channels']
    k = z3.Int('!k')
    sk = st.copy()
    sk.pc += [0 <= k, k < W.count]
    src = W.at(k)
    cx.post('C09', ip, z3.And(0 <= src, src < NS), sk, 'a shapelet kept is one of those sampled', nm)
    cx.post('C09', ip, z3.And(W.count >= 0, W.count <= NS), st, 'at most the requested number of shapelets', nm)
    for n_, f in ((1, sp.L), (2, sp.D), (3, TH_), (4, sp.Nm)) + (((5, sp.nch),) if multi else ()):
        cx.post_eq('C09', ip, r[n_].shape[0], W.count, st, 'one entry per shapelet kept: ' + names[n_], nm)
        cx.post_eq('C09', ip, ip.elem(st, r[n_])(k), f(src), sk, 'the entry is that of the shapelet kept: ' + names[n_], nm)
    if not multi:
        cx.post_eq('C09', ip, r[0].shape[0], W.count, st, 'one row of values per shapelet kept', nm)
        j = z3.Int('!j')
        sj = sk.copy()
        sj.pc += [0 <= j, j < wide]
        cx.post_eq('C09', ip, r[0].shape[1], wide, st, 'rows as wide as the longest length', nm)
        cx.post_eq('C09', ip, ip.elem(st, r[0])(k, j), V(src, j), sj, 'the row is that of the shapelet kept', nm)
        return
    L2, n2 = lambda t: integer(sp.L(W.at(t))), lambda t: integer(sp.nch(W.at(t)))
    o1, o2 = lambda t: Sum(t, lambda u: n2(u) * L2(u)), lambda t: Sum(t, n2)
    cx.post_eq('C09', ip, r[0].shape[0], o1(W.count), st, 'the values of all channels of the shapelets kept', nm)
    cx.post_eq('C09', ip, r[6].shape[0], o2(W.count), st, 'the channels of the shapelets kept', nm)
    j = z3.Int('!j')
    ids = st.heap[sp.arrs[6].buf].content
    for a, off, size, C, a_, what in ((r[0], o1, lambda t: n2(t) * L2(t), V, sp.a1, 'values'), (r[6], o2, n2, ids, sp.a2, 'channels')):
        sj = sk.copy()
        sj.pc += [0 <= j, j < size(k)]
        got = ip.elem(st, a)(simp(off(k) + j))
        for x in collect(ctx_simplify(to_z3(got), sj.pc))[0]:
            if x.decl().name().startswith('!inv') and x.sort() == I:
                if cx.post('C09', ip, x == k, sj, 'the %s of a shapelet are copied in its turn' % what, nm):
                    got = z3.substitute(ctx_simplify(to_z3(got), sj.pc), (x, k))
        cx.post_eq('C09', ip, got, C(simp(a_(src) + j)), sj, 'the %s are those of the shapelet kept' % what, nm)


def any_ops(e):
    out, seen, stk = [], set(), [e]
    while stk:
        x = stk.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        d = agg_of(x)
        if d is not None:
            if d.kind == 'any':
                out.append(x)
            continue
        stk.extend(x.children())
    return out


def cases_of_any(o):
    """The cases in which 'some place below n satisfies b' holds, with a constant for the place: [(facts, constants)]."""
    d = agg_of(o)
    _, args, ex = agg_parts(o, d)
    w = z3.Const('!sk%d' % uid(), I)
    core._keep.append(w)
    b = z3.simplify(agg_body(d, args, w))
    rng = [o, 0 <= w, w < ex[0]]
    inner = any_ops(b)
    out = []
    for x in inner:
        for facts, ws in cases_of_any(x):
            out.append((rng + [b] + facts, [w] + ws))
    flat = z3.simplify(z3.substitute(b, *[(x, z3.BoolVal(False)) for x in inner])) if inner else b
    if not z3.is_false(flat):
        out.append((rng + [flat], [w]))
    return out


def has_c(e, c):
    return any(x.eq(c) for x in free_consts(e))


def has_bound(e):
    return any(x.decl().name().startswith('!da') for x in free_consts(e))


class RowLoop:
    def __init__(self, sp, loop):
        self.sp, self.active = sp, False

    def prepare(self, ip, loop, st, q, plans, unsolved, start_sc, bufs, hav, havoc, mod):
        self.active = self.sp.arrs[3].buf in mod
        self.bufs, self.mod, self.plans = bufs, mod, plans

    def establish(self, ip, loop, st):
        self.st0 = st.copy()

    def assume(self, ip, loop, s, t):
        if self.active:
            self.n0 = self.sp.runs

    def preserve(self, ip, loop, end, q):
        if not self.active:
            return
        inner = self.sp.runs == self.n0
        self.sp.runs += 1
        if inner:
            ip.quiet += 1
            log, ip.log = ip.log, None
            try:
                self.sp.iteration(ip, loop, self.st0, dict(self.bufs), self.plans, end.copy(), q)
            finally:
                ip.quiet -= 1
                ip.log = log

    def after(self, ip, loop, st, total, plans):
        pass


def structural(cx, prop, ok, msg, func, line=0):
    if cx.kinds is None or 'post:' + prop in cx.kinds:
        cx.obls.append(Obl('post:' + prop, func, line, msg, bool(ok), 'structure', 0.0))


def inputs_alone(cx, st, heap0, args, nm):
    for a in args:
        for x in (a if isinstance(a, tuple) else [a]):
            if isinstance(x, Arr):
                structural(cx, 'C17', st.heap[x.buf] is heap0[x.buf], 'the argument %s is not modified' % (st.heap[x.buf].name or '?'), nm)


def draws_seeded(cx, ip, seed, nm):
    """Every draw comes after the generator is seeded with the seed given, and nothing else seeds it."""
    for e in ip.events:
        if e[0] == 'draw':
            g = e[5]
            ok = seed is not None and is_z(g) and bool(prove(g == seed, e[2], quick=True))
            structural(cx, 'C16', ok, 'the draw %s comes from the generator seeded with r_seed' % e[1] if seed is not None else 'nothing is drawn', nm, e[3])
    if seed is None:
        structural(cx, 'C16', not [e for e in ip.events if e[0] in ('draw', 'seed')], 'nothing is drawn or seeded', nm)


def _mk(v, phase):
    nm = GEN[v]
    K = {p: {'post:' + p, 'vacuity'} for p in ('C04', 'C05', 'C08', 'C09')}

    @task('gen_%s%s' % (v, '_phase' if phase else ''), {'C02': set(SAFETY) | {'vacuity'}, 'C07': {'race'}, 'C16': {'post:C16', 'vacuity'}, 'C17': {'post:C17', 'vacuity'}, **K}, [nm])
    def t_gen(cx):
        sp = Sampling(cx, v, phase, nm)
        ct = by_name()
        ci = CapturedInit(v, sp)
        ct[ci.name] = ci
        ip = cx.interp(ct)
        ip.on_alloc = sp.on_alloc
        ip.loop_spec = sp.loop_spec
        st = State()
        X, y, sizes, xl, args = setup(ip, st, v, phase)
        sp.xl, sp.xe, sp.ye = xl, ip.elem(st, X), ip.elem(st, y)
        heap0 = dict(st.heap)
        for o in cx.run(ip, nm, args, st):
            final(sp, cx, ip, o)
            inputs_alone(cx, o.st, heap0, args, nm)
        draws_seeded(cx, ip, SEED, nm)
        if not sp.found and cx.kinds & {'post:' + p for p in K}:
            raise Unsupported('the loop that samples a shapelet is not recognised')


for _v in GEN:
    for _p in (False, True):
        _mk(_v, _p)
