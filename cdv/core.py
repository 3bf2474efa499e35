"""Logic core of the verifier: binder operators (sum, min, where, ...) over symbolic functions, the axioms of
these operators (instantiated on the ground terms of a query only), and the prover (z3, cvc5 as second solver).

Machine integers are treated as mathematical integers and floats as reals (stated assumption)."""
import zlib
import time, itertools, subprocess, tempfile, os, re
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
OBJ = z3.DeclareSort('Obj')
_cnt = itertools.count()


class Unsupported(Exception):
    pass


def uid():
    return next(_cnt)


def to_z3(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        from fractions import Fraction
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non finite float constant')
        # decimal reading of the literal: the number the programmer wrote
        return z3.RealVal(str(Fraction(repr(v))))
    return v


def is_z(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return isinstance(v, (bool, int, float)) or (is_z(v) and v.sort() in (I, R, B))


def real(v):
    v = to_z3(v)
    if v.sort() == B:
        v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if v.sort() == I:
        return z3.RealVal(v.as_long()) if z3.is_int_value(v) else z3.ToReal(v)
    return v


def integer(v):
    """Bool/Int to Int."""
    v = to_z3(v)
    if v.sort() == B:
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if v.sort() != I:
        raise Unsupported('integer expected')
    return v


def boolean(v):
    v = to_z3(v)
    if v.sort() == I or v.sort() == R:
        return v != 0
    return v


def unify2(a, b):
    a, b = to_z3(a), to_z3(b)
    if a.sort() == b.sort():
        return a, b
    if R in (a.sort(), b.sort()):
        return real(a), real(b)
    return integer(a), integer(b)


def simp(e):
    return z3.simplify(e) if is_z(e) else e


def conc(v):
    """Concrete python value of a numeral, or None."""
    if isinstance(v, (bool, int, float)):
        return v
    if not is_z(v):
        return None
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    v = simp(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def _lit(v):
    return z3.is_int_value(v) or z3.is_rational_value(v) or z3.is_true(v) or z3.is_false(v)


def ite(c, x, y):
    """Lazy conditional: x, y may be thunks."""
    c = to_z3(c)
    if not (z3.is_true(c) or z3.is_false(c)):
        c = z3.simplify(c)
    if z3.is_true(c):
        return x() if callable(x) else x
    if z3.is_false(c):
        return y() if callable(y) else y
    x = x() if callable(x) else x
    y = y() if callable(y) else y
    x, y = to_z3(x), to_z3(y)
    if x.sort() != y.sort():
        x, y = unify2(x, y)
    return x if x.eq(y) else z3.If(c, x, y)


# ---------------------------------------------------------------------------- special functions
DIV = z3.Function('rdiv', R, R, R)
MODF = z3.Function('imod', I, I, I)
QUOF = z3.Function('iquo', I, I, I)
SQRT = z3.Function('usqrt', R, R)
LOG2 = z3.Function('ulog2', R, R)
LOGE = z3.Function('loge', R, R)
EXP2 = z3.Function('uexp2', R, R)
POW = z3.Function('pow', R, R, R)


def rdiv(x, y):
    x, y = real(x), real(y)
    if z3.is_rational_value(simp(y)) and not z3.is_false(simp(y != 0)):
        return x / simp(y)
    return DIV(x, y)


def summands(e):
    e = z3.simplify(e, som=True)
    return list(e.children()) if z3.is_add(e) else [e]


def coef_split(m):
    if z3.is_mul(m) and m.num_args() >= 1 and z3.is_int_value(m.arg(0)):
        rest = m.children()[1:]
        return m.arg(0).as_long(), (rest[0] if len(rest) == 1 else z3.Product(*rest))
    return 1, m


def mod(x, n):
    """python % on integers (n > 0 is an obligation of the caller)."""
    x, n = integer(x), integer(n)
    nv, xv = conc(n), conc(x)
    if nv is not None and xv is not None and nv != 0:
        return z3.IntVal(xv % nv)
    if nv is not None and nv > 0:
        return x % n
    # (a mod n + b) mod n  ->  (a + b) mod n;  multiples of n vanish
    parts, ch = [], False
    for s in summands(x):
        c, core = coef_split(s)
        if z3.is_app(core) and core.decl().eq(MODF) and core.arg(1).eq(n):
            parts.append(c * core.arg(0)); ch = True
        elif core.eq(n) or (z3.is_mul(core) and any(f.eq(n) for f in core.children())):
            ch = True
        else:
            parts.append(s)
    if ch:
        x = z3.Sum(*parts) if len(parts) > 1 else (parts[0] if parts else z3.IntVal(0))
        return mod(z3.simplify(x, som=True), n)
    return MODF(z3.simplify(x, som=True), n)


def quo(x, n):
    x, n = integer(x), integer(n)
    nv, xv = conc(n), conc(x)
    if nv is not None and xv is not None and nv != 0:
        return z3.IntVal(xv // nv)
    if nv is not None and nv > 0:
        return x / n
    return QUOF(x, n)


# ---------------------------------------------------------------------------- binder operators
class AggDef:
    __slots__ = ('kind', 'decl', 'params', 'bvs', 'body', 'nn', 'group')


class Theory:
    def __init__(self):
        self.aggs = {}       # decl id -> AggDef
        self.by_key = {}
        self.groups = {}     # (body key) -> shared index for related operators
        self.rules = {}      # decl id -> list of fn(app) -> [facts]
        self.keep = []
        self.decl_by_id = {}

    def rule(self, decl, fn):
        self.decl_by_id[decl.get_id()] = decl
        self.rules.setdefault(decl.get_id(), []).append(fn)

    def body_key(self, bvs, e):
        """Abstract the free constants of e -> (group id, parameter constants, actual arguments)."""
        consts = free_consts(e)
        bid = {b.get_id() for b in bvs}
        args = [c for c in consts if c.get_id() not in bid]
        params = [z3.Const('!p%d!%s' % (i, c.sort()), c.sort()) for i, c in enumerate(args)]
        canb = [z3.Const('!x%d!%s' % (i, b.sort()), b.sort()) for i, b in enumerate(bvs)]
        can = z3.substitute(e, *(list(zip(args, params)) + list(zip(bvs, canb)))) if (args or bvs) else e
        key = (tuple(str(p.sort()) for p in params), tuple(str(b.sort()) for b in canb), can.get_id())
        if key not in self.groups:
            self.groups[key] = len(self.groups)
            self.keep.append(can)
        return self.groups[key], params, args, canb, can

    def op(self, kind, group, params, canb, can, extra_sorts, ret):
        key = (kind, group, tuple(str(s) for s in extra_sorts), str(ret))
        if key not in self.by_key:
            d = AggDef()
            d.kind, d.params, d.bvs, d.body, d.group = kind, params, canb, can, group
            d.nn = len(extra_sorts)
            d.decl = z3.Function('%s!%d' % (kind, group), *([p.sort() for p in params] + list(extra_sorts) + [ret]))
            self.by_key[key] = d
            self.aggs[d.decl.get_id()] = d
            self.keep.append(d.decl)
        return self.by_key[key]

    def lam(self, f, n=1, sorts=None):
        bvs = [z3.Const('!b%d' % uid(), (sorts[i] if sorts else I)) for i in range(n)]
        e = to_z3(f(*bvs))
        e = z3.simplify(e)
        return Lam(self, bvs, first_form(e, bvs))


_skey, _ord = {}, {}


def skey(e, bid):
    """A key of the structure of e that does not depend on the order of the arguments of and/or (bid: keys of the binders)."""
    i = e.get_id()
    if i in bid:
        return bid[i]
    r = _skey.get(i)
    if r is not None:
        return r[1]
    if not z3.is_app(e):
        k = e.hash()
    else:
        n = e.decl().name()
        kind = e.decl().kind()
        if z3.is_int_value(e) or z3.is_rational_value(e):
            n = e.as_string()
        ch = [skey(c, bid) for c in e.children()]
        if kind in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ch.sort()
        k = zlib.crc32(repr((n, kind, ch)).encode())
    _skey[i] = (e, k)      # binders are fresh, so their keys do not clash
    return k


_first = {}


def first_form(e, bvs):
    """The first of the forms of e seen that differ by the order of the arguments of and/or only."""
    if e.sort() != B or not bvs:
        return e
    canb = [z3.Const('!x%d!%s' % (i, b.sort()), b.sort()) for i, b in enumerate(bvs)]
    can = z3.substitute(e, *zip(bvs, canb))
    o = ordered(can, canb)
    r = _first.get(o.get_id())
    if r is None:
        _first[o.get_id()] = (o, can)
        return e
    return e if r[1].eq(can) else z3.substitute(r[1], *zip(canb, bvs))


def ordered(e, bvs):
    """e with the arguments of and/or in an order that does not depend on how they came about."""
    bid = {b.get_id(): 7919 * (j + 1) for j, b in enumerate(bvs)}
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        r = x
        if z3.is_app(x) and x.num_args() and x.sort() == B:
            ch = x.children()
            new = [go(c) if c.sort() == B else c for c in ch]
            k = x.decl().kind()
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                new.sort(key=lambda c: skey(c, bid))
                r = z3.And(*new) if k == z3.Z3_OP_AND else z3.Or(*new)
            elif any(not a.eq(b) for a, b in zip(ch, new)):
                r = x.decl()(*new)
        memo[i] = (x, r)
        return r
    return go(e) if e.sort() == B else e


_nodes = {}


def node(e):
    """(expression, class, children ids) of a node; class 0 other, 1 uninterpreted application, 2 product, 3 constant, 4 quantifier or variable"""
    i = e.get_id()
    r = _nodes.get(i)
    if r is None:
        if not z3.is_app(e):
            r = (e, 4, ())
        else:
            ch = e.children()
            k = e.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED:
                c = 1 if ch else 3
            else:
                c = 2 if k == z3.Z3_OP_MUL and is_prod(e) else 0
            for x in ch:
                node_shallow(x)
            r = (e, c, tuple(x.get_id() for x in ch))
        _nodes[i] = r
    return r


_pending = {}


def node_shallow(x):
    i = x.get_id()
    if i not in _nodes and i not in _pending:
        _pending[i] = x


def node_of(i):
    r = _nodes.get(i)
    if r is None:
        r = node(_pending.pop(i))
    return r


_fc = {}


def free_consts(e):
    """Free 0-ary uninterpreted constants in first occurrence order."""
    i = e.get_id()
    r = _fc.get(i)
    if r is None:
        r = _fc[i] = _free_consts(e)
        node(e)
    return r


def _free_consts(e):
    if z3.is_app(e):
        out, seen = [], set()
        st = [node(e)[0].get_id()]
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            x, c, ch = node_of(i)
            if c == 4:
                return _free_consts0(e)
            if c == 3:
                out.append(x)
            st.extend(reversed(ch))
        return out
    return _free_consts0(e)


def _free_consts0(e):
    out, seen = [], set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(x)
            else:
                st.extend(reversed(x.children()))
    return out


class Lam:
    """A symbolic function of integer (or other) binders."""
    def __init__(self, th, bvs, e):
        self.th, self.bvs, self.e = th, bvs, e
        self.group, self.params, self.args, self.canb, self.can = th.body_key(bvs, e)

    def app(self, kind, extra, ret=None):
        """kind(n.., extra) applied: extra = list of terms."""
        extra = [to_z3(x) for x in extra]
        ret = self.e.sort() if ret is None else ret
        d = self.th.op(kind, self.group, self.params, self.canb, self.can, [x.sort() for x in extra], ret)
        return d.decl(*(list(self.args) + extra))

    def at(self, *t):
        return z3.substitute(self.e, *[(b, to_z3(x)) for b, x in zip(self.bvs, t)])


TH = Theory()


_parts = {}


def agg_of(app):
    p = _parts.get(app.get_id())
    if p is not None:
        return p[0]
    return TH.aggs.get(app.decl().get_id())


def agg_parts(app, d=None):
    """(AggDef, actual params, extra args)."""
    i = app.get_id()
    r = _parts.get(i)
    if r is None:
        d = d or TH.aggs.get(app.decl().get_id())
        np_ = len(d.params)
        ch = app.children()
        r = _parts[i] = (d, ch[:np_], ch[np_:], app)
    return r[0], r[1], r[2]


def agg_body(d, args, *t):
    return z3.substitute(d.body, *(list(zip(d.params, args)) + [(b, to_z3(x)) for b, x in zip(d.bvs, t)]))


def related(d, args, kind, extra, ret):
    """Another operator over the same function with the same parameters."""
    o = TH.op(kind, d.group, d.params, d.bvs, d.body, [x.sort() for x in extra], ret)
    return o.decl(*(list(args) + list(extra)))


def _int_body(e):
    """The Int expression equal to the Real expression e, or None."""
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return e.arg(0)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
            cs = [_int_body(c) for c in e.children()]
            if any(c is None for c in cs):
                return None
            r = cs[0]
            for c in cs[1:]:
                r = r + c if k == z3.Z3_OP_ADD else r * c if k == z3.Z3_OP_MUL else r - c
            return r
        if k == z3.Z3_OP_ITE:
            a, b = _int_body(e.arg(1)), _int_body(e.arg(2))
            return None if a is None or b is None else z3.If(e.arg(0), a, b)
    return None


def _lin(e, q):
    c, rest = 0, []
    for s in summands(e):
        k, core_ = coef_split(s)
        if core_.eq(q):
            c += k
        elif any(x.eq(q) for x in free_consts(s)):
            return None
        else:
            rest.append(s)
    return c, (z3.Sum(*rest) if len(rest) > 1 else rest[0] if rest else z3.IntVal(0))


def range_split(e, b):
    """e(b) = if lo <= b < hi (and rest) then x else 0, with lo a literal > 0 or hi given -> (lo, hi, rest of e); else None."""
    if not z3.is_app_of(e, z3.Z3_OP_ITE):
        return None
    zero = lambda v: (z3.is_int_value(v) or z3.is_rational_value(v)) and z3.is_true(z3.simplify(v == 0))
    if zero(e.arg(2)):
        c, x, neg = e.arg(0), e.arg(1), False
    elif zero(e.arg(1)):
        c, x, neg = e.arg(0), e.arg(2), True
    else:
        return None
    # literals of the conjunction
    if neg:
        lits = [z3.Not(k) for k in c.children()] if z3.is_or(c) else [z3.Not(c)]
    else:
        lits = c.children() if z3.is_and(c) else [c]
    lo, hi, rest = 0, None, []
    for l in lits:
        sign = True
        a = l
        while z3.is_not(a):
            a, sign = a.arg(0), not sign
        ok = False
        if (z3.is_le(a) or z3.is_ge(a) or z3.is_lt(a) or z3.is_gt(a)) and a.arg(0).sort() == I:
            d = a.arg(0) - a.arg(1)
            # normalise to  t >= 0
            if z3.is_le(a): t = -d
            elif z3.is_ge(a): t = d
            elif z3.is_lt(a): t = -d - 1
            else: t = d - 1
            if not sign:
                t = -t - 1
            cr = _lin(t, b)
            if cr is not None and cr[0] == 1:        # b >= -r
                v = conc(z3.simplify(-cr[1]))
                if v is not None:
                    lo, ok = max(lo, v), True
            elif cr is not None and cr[0] == -1 and hi is None:     # b <= r
                hi, ok = z3.simplify(cr[1] + 1, som=True), True
        if not ok:
            rest.append(l)
    if lo <= 0 and hi is None:
        return None
    x0 = z3.IntVal(0) if x.sort() == I else z3.RealVal(0)
    return max(lo, 0), hi, (z3.If(z3.And(*rest), x, x0) if rest else x)


def Sum(n, f):
    """sum_{i<n} f(i)"""
    nv = conc(n)
    if nv is not None and nv <= 0:
        return z3.IntVal(0)
    L = TH.lam(f)
    e = L.e
    if e.sort() == B:
        return L.app('cnt', [integer(n)], I)
    if e.sort() == I and z3.is_app_of(e, z3.Z3_OP_ITE):
        c0, c1 = conc(e.arg(1)), conc(e.arg(2))
        if (c0, c1) in ((1, 0), (0, 1)):
            return Sum(n, lambda i: z3.substitute(e.arg(0) if c0 else z3.Not(e.arg(0)), (L.bvs[0], i)))
    rs = range_split(e, L.bvs[0])
    if rs is not None:
        lo, hi, e1 = rs
        n1 = integer(n)
        if hi is not None:
            n1 = n1 if n1.eq(hi) else z3.simplify(z3.If(n1 <= hi, n1, hi))
        return Sum(z3.simplify(n1 - lo), lambda i: z3.substitute(e1, (L.bvs[0], z3.simplify(to_z3(i) + lo))))
    if e.sort() == R:
        ib = _int_body(e)
        if ib is not None:
            return z3.ToReal(Sum(n, lambda i: z3.substitute(ib, (L.bvs[0], i))))
    if not any(c.eq(L.bvs[0]) for c in free_consts(e)):
        n_ = integer(n)
        cnt = z3.If(n_ > 0, n_, z3.IntVal(0))
        if z3.is_int_value(e) and e.as_long() == 0:
            return e
        if e.sort() == I:
            return cnt * e
    return L.app('sum', [integer(n)])


def Mean(n, f):
    return TH.lam(lambda i: real(f(i))).app('mean', [integer(n)])


def Std(n, f):
    return TH.lam(lambda i: real(f(i))).app('std', [integer(n)])


def Min(n, f):
    return TH.lam(f).app('min', [integer(n)])


def Max(n, f):
    return TH.lam(f).app('max', [integer(n)])


def ArgMin(n, f):
    return TH.lam(f).app('argmin', [integer(n)], I)


def ArgMax(n, f):
    return TH.lam(f).app('argmax', [integer(n)], I)


def conjuncts(e):
    if z3.is_and(e):
        return [y for c in e.children() for y in conjuncts(c)]
    if z3.is_not(e):
        x = e.arg(0)
        if z3.is_or(x):
            return [y for c in x.children() for y in conjuncts(z3.Not(c))]
        if z3.is_not(x):
            return conjuncts(x.arg(0))
    return [e]


PULL = False


def Any(n, f):
    b = z3.Const('!ab%d' % uid(), I)
    e = z3.simplify(boolean(f(b)))
    # one-point rule: some i < n with i = t and p(i)  is  0 <= t < n and p(t)
    for c in conjuncts(e):
        if z3.is_eq(c) and c.arg(0).sort() == I:
            x, t = c.children()
            if t.eq(b):
                x, t = t, x
            if x.eq(b) and not any(v.eq(b) for v in free_consts(t)):
                n = integer(n)
                return z3.simplify(z3.And(0 <= t, t < n, z3.substitute(e, (b, t))))
    if PULL:        # some i with c and p(i)  is  c and some i with p(i)
        cs = conjuncts(e)
        out = [c for c in cs if not any(v.eq(b) for v in free_consts(c))]
        cs = [c for c in cs if not any(c.eq(o) for o in out)]
        if out and not cs:
            return z3.simplify(z3.And(out + [integer(n) > 0]))
        if out:
            body = z3.And(cs)
            return z3.simplify(z3.And(out + [Any(n, lambda i: z3.substitute(body, (b, to_z3(i))))]))
    return TH.lam(lambda i: boolean(f(i))).app('any', [integer(n)], B)


def All(n, f):
    return z3.Not(Any(n, lambda i: z3.Not(boolean(f(i)))))


def Percentile(n, f, p):
    return TH.lam(lambda i: real(f(i))).app('percentile', [integer(n), real(p)])


class WhereOp:
    """Enumeration of {x < n : mask(x)} in increasing order."""
    def __init__(self, n, mask):
        self.n = integer(n)
        self.L = TH.lam(lambda i: boolean(mask(i)))
        self.count = self.L.app('cnt', [self.n], I)

    def at(self, t):
        return self.L.app('where', [self.n, integer(t)], I)

    def rank(self, x):
        return self.L.app('rank', [self.n, integer(x)], I)


class Where2Op:
    def __init__(self, n0, n1, mask):
        self.n0, self.n1 = integer(n0), integer(n1)
        self.L = TH.lam(lambda i, j: boolean(mask(i, j)), 2)
        self.count = self.L.app('cnt2', [self.n0, self.n1], I)

    def row(self, t):
        return self.L.app('where2r', [self.n0, self.n1, integer(t)], I)

    def col(self, t):
        return self.L.app('where2c', [self.n0, self.n1, integer(t)], I)

    def rank(self, x, y):
        return self.L.app('rank2', [self.n0, self.n1, integer(x), integer(y)], I)


class UniqueOp:
    """sorted distinct values of {f(i): i < n}"""
    def __init__(self, n, f):
        self.n = integer(n)
        self.L = TH.lam(f)
        self.count = self.L.app('nuniq', [self.n], I)

    def at(self, t):
        return self.L.app('uniq', [self.n, integer(t)])

    def rank(self, v):
        return self.L.app('urank', [self.n, to_z3(v)], I)


# ---------------------------------------------------------------------------- axioms of the operators
def agg_facts(app, d, level):
    _, args, ex = agg_parts(app, d)
    k = d.kind
    out = []
    b = lambda *t: agg_body(d, args, *t)
    if k in ('sum',):
        n = ex[0]
        zero = z3.IntVal(0) if app.sort() == I else z3.RealVal(0)
        out.append(z3.Implies(n <= 0, app == zero))
        out.append(z3.Implies(n == 1, app == b(z3.IntVal(0))))
        out += pigeonhole(app, d, args, n)
        if level >= 2:
            w = related(d, args, 'sumneg', [n], I)     # a position with a negative term, if the sum is negative
            out.append(z3.Or(app >= 0, z3.And(0 <= w, w < n, b(w) < 0)))
            w2 = related(d, args, 'sumnpos', [n], I)   # a position with a term that is not positive, if the sum is not
            out.append(z3.Implies(n > 0, z3.Or(app > 0, z3.And(0 <= w2, w2 < n, b(w2) <= 0))))
    elif k == 'cnt':
        n = ex[0]
        out.append(z3.And(app >= 0, z3.Implies(n >= 0, app <= n), z3.Implies(n <= 0, app == 0)))
        w0 = related(d, args, 'where', [n, z3.IntVal(0)], I)
        out.append(z3.Implies(app > 0, z3.And(0 <= w0, w0 < n, b(w0))))
        bb = b(BV)
        for t in invert_cands(bb, BV, n) + body_seeds(bb):
            out.append(z3.Implies(z3.And(0 <= t, t < n, b(t)), app >= 1))
        if level >= 2:
            t = z3.simplify(n - 1)
            out.append(z3.Implies(z3.And(0 <= t, b(t)), app >= 1))
    elif k == 'where':
        n, t = ex
        c = related(d, args, 'cnt', [n], I)
        rk = related(d, args, 'rank', [n, app], I)
        pre = related(d, args, 'cnt', [app], I)
        out.append(z3.Implies(z3.And(0 <= t, t < c), z3.And(0 <= app, app < n, b(app), rk == t, pre == t)))
    elif k == 'rank':
        n, x = ex
        c = related(d, args, 'cnt', [n], I)
        w = related(d, args, 'where', [n, app], I)
        pre = related(d, args, 'cnt', [x], I)
        out.append(z3.Implies(z3.And(0 <= x, x < n, b(x)), z3.And(0 <= app, app < c, w == x, app == pre)))
    elif k == 'cnt2':
        n0, n1 = ex
        out.append(app >= 0)
        z = z3.IntVal(0)
        r0, c0 = related(d, args, 'where2r', [n0, n1, z], I), related(d, args, 'where2c', [n0, n1, z], I)
        out.append(z3.Implies(app > 0, z3.And(0 <= r0, r0 < n0, 0 <= c0, c0 < n1, b(r0, c0))))
    elif k in ('where2r', 'where2c'):
        n0, n1, t = ex
        c = related(d, args, 'cnt2', [n0, n1], I)
        r0, c0 = related(d, args, 'where2r', ex, I), related(d, args, 'where2c', ex, I)
        rk = related(d, args, 'rank2', [n0, n1, r0, c0], I)
        out.append(z3.Implies(z3.And(0 <= t, t < c),
                              z3.And(0 <= r0, r0 < n0, 0 <= c0, c0 < n1, b(r0, c0), rk == t)))
    elif k == 'rank2':
        n0, n1, x, y = ex
        c = related(d, args, 'cnt2', [n0, n1], I)
        r0, c0 = related(d, args, 'where2r', [n0, n1, app], I), related(d, args, 'where2c', [n0, n1, app], I)
        out.append(z3.Implies(z3.And(0 <= x, x < n0, 0 <= y, y < n1, b(x, y)),
                              z3.And(0 <= app, app < c, r0 == x, c0 == y)))
    elif k == 'nuniq':
        n = ex[0]
        out.append(z3.And(app >= 0, z3.Implies(n >= 0, app <= n), z3.Implies(n > 0, app > 0)))
    elif k == 'uniq':
        n, t = ex
        c = related(d, args, 'nuniq', [n], I)
        src = related(d, args, 'usrc', [n, t], I)
        rk = related(d, args, 'urank', [n, app], I)
        out.append(z3.Implies(z3.And(0 <= t, t < c), z3.And(0 <= src, src < n, b(src) == app, rk == t)))
    elif k == 'urank':
        n, v = ex
        # membership of v is known through usrc: if v is the value at a position x then its rank is valid
        c = related(d, args, 'nuniq', [n], I)
        u = related(d, args, 'uniq', [n, app], v.sort())
        pos = related(d, args, 'upos', [n, v], I)      # first position holding v, if any
        cand = [pos]
        m = match_body(d, args, v)
        if m is not None:
            cand.append(m)
        for x in cand:
            out.append(z3.Implies(z3.And(0 <= x, x < n, b(x) == v), z3.And(0 <= app, app < c, u == v)))
    elif k in ('min', 'max'):
        n = ex[0]
        w = related(d, args, 'arg' + k, [n], I)
        out.append(z3.Implies(n > 0, z3.And(0 <= w, w < n, app == b(w))))
    elif k in ('argmin', 'argmax'):
        n = ex[0]
        m = related(d, args, k[3:], [n], d.body.sort())
        out.append(z3.Implies(n > 0, z3.And(0 <= app, app < n, m == b(app))))
    elif k == 'any':
        n = ex[0]
        w = related(d, args, 'anyw', [n], I)
        out.append(z3.Implies(app, z3.And(0 <= w, w < n, b(w))))
        for t in invert_cands(b(BV), BV, n):
            out.append(z3.Implies(z3.And(0 <= t, t < n, b(t)), app))
    elif k == 'std':
        out.append(app >= 0)
    return out


BV = z3.Const('!bv', I)
_seeds_cache = {}


def body_seeds(bb):
    """Places at which a condition on BV is likely to hold: where a distinct value comes from; the first two of an
    enumeration (one of them differs from any given value)."""
    r = _seeds_cache.get(bb.get_id())
    if r is None:
        out = []
        for x in collect(bb)[0]:
            d = TH.aggs.get(x.decl().get_id())
            if d is None:
                continue
            _, args, ex = agg_parts(x, d)
            if d.kind == 'uniq' and not _mentions_top(x, BV):
                out.append(related(d, args, 'usrc', ex, I))
            elif d.kind == 'where' and ex[-1].eq(BV):
                out += [z3.IntVal(0), z3.IntVal(1)]
        r = _seeds_cache[bb.get_id()] = (out[:6], bb)
    return r[0]


def pigeonhole(app, d, args, n):
    """sum_{t<n} #{x < m : E(t,x)} <= m, or some x < m is counted for two different t (m does not depend on t)."""
    e = agg_body(d, args, BV)
    dc = TH.aggs.get(e.decl().get_id()) if z3.is_app(e) else None
    if dc is None or dc.kind != 'cnt':
        return []
    _, ca, cx = agg_parts(e, dc)
    m = cx[0]
    if any(c.eq(BV) for c in free_consts(m)):
        return []
    out = []
    nxt = z3.simplify(n + 1)
    for k, s in ((n, app), (nxt, app + z3.substitute(e, (BV, n)))):
        t1, t2, x = [related(d, args, 'twice%d' % j, [k], I) for j in range(3)]
        E = lambda t: z3.substitute(agg_body(dc, ca, x), (BV, t))
        out.append(z3.Implies(z3.And(k >= 0, m >= 0), z3.Or(s <= m, z3.And(0 <= t1, t1 < t2, t2 < k, 0 <= x, x < m, E(t1), E(t2)))))
    out.append(app >= 0)
    return out


def _mentions_top(e, x):
    return any(c.eq(x) for c in free_consts(e))


def solve_for(e, v, x, n, depth=0):
    """Candidate terms t with e[x:=t] == v (checked by the caller, so only candidates)."""
    if depth > 6:
        return []
    if e.eq(x):
        return [v]
    if not z3.is_app(e):
        return []
    if e.sort() == R and z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
            return solve_for(e.arg(0), v.arg(0), x, n, depth + 1)
        return []
    d = TH.aggs.get(e.decl().get_id())
    if d is not None:
        _, args, ex = agg_parts(e)
        if any(_mentions_top(a, x) for a in args) or not ex or not _mentions_top(ex[-1], x):
            return []
        if d.kind == 'uniq':
            return solve_for(ex[1], related(d, args, 'urank', [ex[0], v], I), x, n, depth + 1)
        if d.kind == 'where':
            return solve_for(ex[1], related(d, args, 'rank', [ex[0], v], I), x, n, depth + 1)
        if d.kind == 'cnt' and ex[0].eq(x) and n is not None:
            return [related(d, args, 'where', [n, v], I)]
        return []
    if e.sort() == I and v.sort() == I and (z3.is_add(e) or z3.is_mul(e) or z3.is_sub(e)):
        rest, core_ = [], None
        for s in summands(e):
            if _mentions_top(s, x):
                if core_ is not None:
                    return []
                core_ = s
            else:
                rest.append(s)
        if core_ is None:
            return []
        r = z3.simplify(v - (z3.Sum(*rest) if len(rest) > 1 else rest[0] if rest else z3.IntVal(0)), som=True)
        k, c = coef_split(core_)
        if z3.is_mul(c):
            return []
        if k != 1:
            sp = [coef_split(s) for s in summands(r)]
            if all(a % k == 0 for a, t in sp) and not any(z3.is_int_value(t) for _, t in sp):
                r = z3.Sum(*[(a // k) * t for a, t in sp]) if len(sp) > 1 else (sp[0][0] // k) * sp[0][1]
            elif all((a % k == 0) if not z3.is_int_value(t) else (a * t.as_long()) % k == 0 for a, t in sp):
                r = z3.Sum(*[(a // k) * t if not z3.is_int_value(t) else z3.IntVal(a * t.as_long() // k) for a, t in sp])
            else:
                r = r / z3.IntVal(abs(k)) if k > 0 else (-r) / z3.IntVal(-k)
        if c.eq(e):
            return []
        return solve_for(c, z3.simplify(r), x, n, depth + 1)
    f = INVERSE.get(e.decl().get_id())
    if f is not None:
        return [t for a, u in f(e, v) for t in solve_for(a, u, x, n, depth + 1)]
    return []


INVERSE = {}
_inv_cache = {}


def invert_cands(body, x, n=None):
    """Candidate values of x making an equality inside body true."""
    key = (body.get_id(), x.get_id(), n.get_id() if n is not None else 0)
    if key in _inv_cache:
        return _inv_cache[key][0]
    out, st, seen = [], [body], set()
    while st:
        e = st.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if z3.is_eq(e) and e.arg(0).sort() in (I, R):
            a, b = e.arg(0), e.arg(1)
            if _mentions_top(a, x) and not _mentions_top(b, x):
                out += solve_for(a, b, x, n)
            elif _mentions_top(b, x) and not _mentions_top(a, x):
                out += solve_for(b, a, x, n)
        elif e.sort() == B:
            st.extend(e.children())
    u = []
    for t in out:
        if not t.eq(x) and not any(t.eq(o) for o in u):
            u.append(t)
    _inv_cache[key] = (u[:4], body, x, n)
    return u[:4]


def match_body(d, args, v):
    """A term x with body(x) syntactically equal to v (one binder), if easily found."""
    body = z3.substitute(d.body, *list(zip(d.params, args))) if args else d.body
    bv = d.bvs[0]
    sub = {}

    def m(p, t):
        if p.eq(bv):
            if 'x' in sub:
                return sub['x'].eq(t)
            sub['x'] = t
            return True
        if p.eq(t):
            return True
        if z3.is_app(p) and z3.is_app(t) and p.decl().eq(t.decl()) and p.num_args() == t.num_args():
            return all(m(a, c) for a, c in zip(p.children(), t.children()))
        return False
    if m(body, v) and 'x' in sub:
        return sub['x']
    return None


def agg_inst(app, d, cands, level):
    """Instances of the universally quantified axioms at candidate index terms."""
    _, args, ex = agg_parts(app, d)
    k = d.kind
    out = []
    b = lambda *t: agg_body(d, args, *t)
    if k in ('min', 'max', 'argmin', 'argmax'):
        n = ex[0]
        mk = k[-3:]
        m = related(d, args, mk, [n], d.body.sort())
        w = related(d, args, 'arg' + mk, [n], I)
        for t in cands:
            bt = b(t)
            if mk == 'min':
                out.append(z3.Implies(z3.And(0 <= t, t < n), bt >= m))
                out.append(z3.Implies(z3.And(0 <= t, t < n, t < w), bt > m))
            else:
                out.append(z3.Implies(z3.And(0 <= t, t < n), bt <= m))
                out.append(z3.Implies(z3.And(0 <= t, t < n, t < w), bt < m))
    elif k == 'any':
        n = ex[0]
        for t in cands:
            out.append(z3.Implies(z3.And(0 <= t, t < n, b(t)), app))
    elif k == 'cnt':
        n = ex[0]
        for t in cands:
            out.append(z3.Implies(z3.And(0 <= t, t < n, b(t)), app >= 1))
    elif k == 'cnt2':
        n0, n1 = ex
        for t in cands[:10]:
            for u in cands[:10]:
                out.append(z3.Implies(z3.And(0 <= t, t < n0, 0 <= u, u < n1, b(t, u)), app >= 1))
    return out


_inst_body = {}


def inst_body(app):
    """the body of the operator with its actual parameters, at BV"""
    r = _inst_body.get(app.get_id())
    if r is None:
        d, args, _ = agg_parts(app)
        r = _inst_body[app.get_id()] = (z3.simplify(agg_body(d, args, BV)), app)
    return r[0]


_same = {}


def same_term(x, y, depth=0):
    """the same term once operators are unfolded"""
    if x.eq(y):
        return True
    if not (z3.is_app(x) and z3.is_app(y)) or x.num_args() == 0 or y.num_args() == 0 or x.sort() != y.sort():
        return False
    key = (x.get_id(), y.get_id(), depth)
    r = _same.get(key)
    if r is None:
        dx, dy = agg_of(x), agg_of(y)
        if dx is not None and dy is not None:
            if dx.kind != dy.kind or len(dx.bvs) != len(dy.bvs) or dx.nn != dy.nn:
                ok = False
            else:
                _, ax, ex = agg_parts(x, dx)
                _, ay, ey = agg_parts(y, dy)
                ok = all(same_term(u, v, depth) for u, v in zip(ex, ey))
                if ok:
                    ws = [z3.Const('!st%d_%d' % (depth, k), b.sort()) for k, b in enumerate(dx.bvs)]
                    ok = same_term(z3.simplify(agg_body(dx, ax, *ws)), z3.simplify(agg_body(dy, ay, *ws)), depth + 1)
        elif not x.decl().eq(y.decl()) or x.num_args() != y.num_args():
            ok = False
        else:
            ok = all(same_term(u, v, depth) for u, v in zip(x.children(), y.children()))
        r = _same[key] = (ok, x, y)
    return r[0]


def any_cnt_pairs(apps, done):
    """some place is counted iff the count is positive"""
    anys = [a for a in apps if agg_of(a).kind == 'any']
    if not anys:
        return []
    out = []
    for c in apps:
        if agg_of(c).kind != 'cnt':
            continue
        for a in anys:
            if ('ac', a.get_id(), c.get_id()) in done:
                continue
            done.add(('ac', a.get_id(), c.get_id()))
            if same_term(inst_body(a), inst_body(c)):
                na, nc = agg_parts(a)[2][0], agg_parts(c)[2][0]
                out.append(z3.Implies(na == nc, a == (c >= 1)))
    return out


def agg_pairs(apps, done=None):
    """Axioms relating two applications of the same operator with the same parameters."""
    out = []
    byd = {}
    done = set() if done is None else done
    for a in apps:
        d, ps, _ = agg_parts(a)
        if d.kind in ('sum', 'cnt', 'where', 'uniq', 'percentile', 'any'):
            byd.setdefault((id(d), tuple(p.get_id() for p in ps)), []).append(a)
    out += any_cnt_pairs(apps, done)
    for l in byd.values():
        for x, y in itertools.combinations(l, 2):
            if (x.get_id(), y.get_id()) in done:
                continue
            done.add((x.get_id(), y.get_id()))
            d, ax, ex = agg_parts(x)
            _, ay, ey = agg_parts(y)
            if any(p.get_id() != q.get_id() for p, q in zip(ax, ay)):
                continue
            if d.kind in ('sum', 'cnt'):
                for (s1, n1), (s2, n2) in (((x, ex[0]), (y, ey[0])), ((y, ey[0]), (x, ex[0]))):
                    bt = agg_body(d, ax, n1)
                    if d.kind == 'cnt':
                        bt = z3.If(bt, z3.IntVal(1), z3.IntVal(0))
                    out.append(z3.Implies(z3.And(n1 >= 0, n2 == n1 + 1), s2 == s1 + bt))
                    if d.kind == 'cnt':
                        out.append(z3.Implies(z3.And(0 <= n1, n1 <= n2), s1 <= s2))
                        out.append(z3.Implies(z3.And(0 <= n1, n1 < n2), s1 + bt <= s2))
                    else:
                        w = related(d, ax, 'sumneg2', [n1, n2], I)
                        out.append(z3.Implies(z3.And(0 <= n1, n1 < n2),
                                              z3.Or(s1 + bt <= s2, z3.And(n1 < w, w < n2, agg_body(d, ax, w) < 0))))
                        out.append(z3.Implies(n1 == n2, s1 == s2))
            elif d.kind == 'any':
                for (s1, n1), (s2, n2) in (((x, ex[0]), (y, ey[0])), ((y, ey[0]), (x, ex[0]))):
                    out.append(z3.Implies(z3.And(0 <= n1, n2 == n1 + 1), s2 == z3.Or(s1, agg_body(d, ax, n1))))
                    out.append(z3.Implies(z3.And(n1 <= n2, s1), s2))
            elif d.kind in ('where', 'uniq'):
                if ex[0].eq(ey[0]):
                    c = related(d, ax, 'cnt' if d.kind == 'where' else 'nuniq', [ex[0]], I)
                    rng = z3.And(0 <= ex[1], ex[1] < c, 0 <= ey[1], ey[1] < c)
                    out.append(z3.Implies(z3.And(rng, ex[1] < ey[1]), x < y))
                    out.append(z3.Implies(z3.And(rng, ey[1] < ex[1]), y < x))
            elif d.kind == 'percentile' and ex[0].eq(ey[0]):
                out.append(z3.Implies(z3.And(ex[0] > 0, ex[1] <= ey[1]), x <= y))
                out.append(z3.Implies(z3.And(ex[0] > 0, ey[1] <= ex[1]), y <= x))
    return out


def _div_rule(a):
    x, y = a.children()
    return ([z3.Implies(y != 0, a == 1)] if x.eq(y) else []) + [z3.Implies(y != 0, a * y == x), z3.Implies(z3.And(x >= 0, y > 0), a >= 0), z3.Implies(z3.And(x == 0, y != 0), a == 0)]


def _mod_rule(a):
    x, n = a.children()
    q = QUOF(x, n)
    return [z3.Implies(n > 0, z3.And(0 <= a, a < n, x == n * q + a)),
            z3.Implies(z3.And(n > 0, 0 <= x, x < n), z3.And(a == x, q == 0))]


def _quo_rule(a):
    x, n = a.children()
    m = MODF(x, n)
    return [z3.Implies(n > 0, z3.And(0 <= m, m < n, x == n * a + m)),
            z3.Implies(z3.And(n > 0, x >= 0), z3.And(a >= 0, a <= x)),
            z3.Implies(z3.And(n > 0, 0 <= x, x < n), a == 0)]


def _sqrt_rule(a):
    x = a.arg(0)
    return [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x))]


def _exp2_rule(a):
    x = a.arg(0)
    f = [a > 0, z3.Implies(x >= 0, a >= 1), z3.Implies(x == 0, a == 1)]
    if z3.is_app(x) and x.decl().eq(LOG2):
        f.append(z3.Implies(x.arg(0) > 0, a == x.arg(0)))
    return f


def _log2_rule(a):
    x = a.arg(0)
    return [z3.Implies(x >= 1, a >= 0), z3.Implies(x > 0, EXP2(a) == x), z3.Implies(x == 1, a == 0)]


def _loge_rule(a):
    x = a.arg(0)
    return [z3.Implies(x >= 1, a >= 0), z3.Implies(x == 1, a == 0)]


for _d, _f in ((DIV, _div_rule), (MODF, _mod_rule), (QUOF, _quo_rule), (SQRT, _sqrt_rule), (EXP2, _exp2_rule), (LOG2, _log2_rule), (LOGE, _loge_rule)):
    TH.rule(_d, _f)


def exp2_pairs(apps):
    out = []
    l = [a for a in apps if a.decl().eq(EXP2)]
    for x, y in itertools.combinations(l, 2):
        out.append(z3.And(z3.Implies(x.arg(0) <= y.arg(0), x <= y), z3.Implies(y.arg(0) <= x.arg(0), y <= x)))
    return out


def is_prod(x):
    return z3.is_mul(x) and sum(1 for c in x.children() if not _lit(c)) >= 2


def prod_facts(prods):
    """Sign and monotonicity lemmas of products (nonlinear arithmetic help)."""
    out = []
    fs = {}
    for p in prods:
        cs = [c for c in p.children() if not _lit(c)]
        k = [c for c in p.children() if _lit(c)]
        if len(cs) != 2:
            continue
        x, y = cs
        m = x * y
        out.append(z3.Implies(z3.And(x >= 0, y >= 0), m >= 0))
        out.append(z3.Implies(z3.And(x > 0, y > 0), z3.And(m >= x, m >= y)) if x.sort() == I and y.sort() == I
                   else z3.Implies(z3.And(x > 0, y > 0), m > 0))
        out.append(z3.Implies(z3.Or(x == 0, y == 0), m == 0))
        for f, o in ((x, y), (y, x)):
            fs.setdefault(f.get_id(), (f, []))[1].append(o)
    for f, os_ in fs.values():
        seen = []
        for o in os_:
            if not any(o.eq(s) for s in seen):
                seen.append(o)
        if len(seen) > 8:
            seen = seen[:8]
        for a, b in itertools.combinations(seen, 2):
            if a.sort() != b.sort():
                continue
            out.append(z3.Implies(z3.And(f >= 0, a <= b), a * f <= b * f))
            out.append(z3.Implies(z3.And(f >= 0, b <= a), b * f <= a * f))
            if a.sort() == I and f.sort() == I:
                out.append(z3.Implies(z3.And(f >= 0, a < b), a * f + f <= b * f))
                out.append(z3.Implies(z3.And(f >= 0, b < a), b * f + f <= a * f))
    return out


# ---------------------------------------------------------------------------- ground term collection
_coll = {}
_keep = []


def collect(e):
    """(uninterpreted applications, products) of a ground expression, cached."""
    i = e.get_id()
    r = _coll.get(i)
    if r is not None:
        return r
    apps, prods, seen = [], [], set()
    node(e)
    st = [i]
    while st:
        j = st.pop()
        if j in seen:
            continue
        seen.add(j)
        x, c, ch = node_of(j)
        if c == 1 or c == 3:
            apps.append(x)
        elif c == 2:
            prods.append(x)
        st.extend(ch)
    _coll[i] = (apps, prods)
    _keep.append(e)
    return _coll[i]


def has_bound_var(e):
    return False


# ---------------------------------------------------------------------------- prover
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}


STATS = Stats()


def solve(assertions, timeout, solver='z3'):
    s = z3.Solver()
    # the limit is on the solver's work (about 5 M units a second here), so that a slow machine gives the same answers
    s.set('rlimit', int(timeout * 5e6))
    s.set('timeout', int(timeout * 8000))
    for a in assertions:
        s.add(a)
    t = time.time()
    r = s.check()
    dt = time.time() - t
    STATS.queries += 1
    STATS.time += dt
    return r, s


def cvc5_solve(assertions, timeout):
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = '(set-logic ALL)\n' + re.sub(r'([\s(])!(?=[A-Za-z])', r'\1zz_', s.to_smt2())
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(txt)
    f.close()
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 5)
        out = p.stdout.strip().splitlines()
        r = out[0] if out else 'unknown'
    except Exception:
        r = 'unknown'
    finally:
        os.unlink(f.name)
    STATS.queries += 1
    STATS.time += time.time() - t
    return r


def saturate(base, level=1, rounds=3, extra_cands=(), max_facts=4000):
    """Ground instances of the axioms for the terms occurring in base."""
    facts, done, seenf = [], set(), set()
    apps_all, prods_all, pdone = {}, {}, set()
    frontier = list(base)
    for c in extra_cands:
        frontier.append(c == c if False else z3.Const('!d%s' % c.sort(), c.sort()) == c)
    for rd in range(rounds):
        new_apps, new_prods = [], []
        for e in frontier:
            a, p = collect(e)
            for x in a:
                if x.get_id() not in apps_all:
                    apps_all[x.get_id()] = x
                    new_apps.append(x)
            for x in p:
                if x.get_id() not in prods_all:
                    prods_all[x.get_id()] = x
                    new_prods.append(x)
        new = []
        for x in new_apps:
            did = x.decl().get_id()
            d = TH.aggs.get(did)
            if d is not None:
                new += agg_facts(x, d, level)
            for fn in TH.rules.get(did, ()):
                new += fn(x)
        if level >= 3 and rd <= 1:
            cands = index_cands(apps_all.values(), extra_cands)
            for x in list(apps_all.values()):
                d = TH.aggs.get(x.decl().get_id())
                if d is not None:
                    new += agg_inst(x, d, cands, level)
        elif extra_cands and rd <= 1:
            for x in list(apps_all.values()):
                d = TH.aggs.get(x.decl().get_id())
                if d is not None:
                    new += agg_inst(x, d, list(extra_cands), level)
        if level >= 1:
            aggs = [x for x in apps_all.values() if x.decl().get_id() in TH.aggs]
            new += agg_pairs(aggs, pdone)
            new += exp2_pairs(apps_all.values())
        frontier = []
        for f in new:
            if z3.is_true(f):
                continue
            if f.get_id() not in seenf:
                seenf.add(f.get_id())
                facts.append(f)
                frontier.append(f)
        if not frontier or len(facts) > max_facts:
            break
    for e in frontier:
        for x in collect(e)[1]:
            prods_all[x.get_id()] = x
    # canonical products of the simplified assertions
    pl = {}
    for e in list(base) + facts:
        se = z3.simplify(e, som=True)
        for x in collect(se)[1]:
            pl[x.get_id()] = x
    if level >= 1 and len(pl) <= 40:
        facts += prod_facts(pl.values())
    return facts


def index_cands(apps, extra=()):
    out = list(extra)
    for x in apps:
        if x.sort() == I and not TH.aggs.get(x.decl().get_id(), None) and not x.decl().eq(QUOF) and not x.decl().eq(MODF):
            out.append(x)
        else:
            d = TH.aggs.get(x.decl().get_id())
            if d is not None and d.kind in ('usrc', 'anyw', 'where', 'argmin', 'where2r', 'where2c'):
                out.append(x)
    u, seen = [], set()
    for x in out:
        if x.get_id() not in seen:
            seen.add(x.get_id())
            u.append(x)
    return u[:24]


class Result:
    def __init__(self, ok, how, model='', t=0.0):
        self.ok, self.how, self.model, self.t = ok, how, model, t

    def __bool__(self):
        return self.ok


DEADLINE = [None]


class deadline:
    """Gives up (unproved) on what runs inside after some seconds."""
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        self.old = DEADLINE[0]
        t = time.time() + self.s
        DEADLINE[0] = t if self.old is None else min(t, self.old)

    def __exit__(self, *a):
        DEADLINE[0] = self.old


def late():
    return DEADLINE[0] is not None and time.time() > DEADLINE[0]


def prove(goal, hyps=(), cands=(), timeout=10.0, quick=False, depth=0):
    """Is goal implied by hyps and the axioms?"""
    t0 = time.time()
    if late():
        return Result(False, 'given up')
    goal = to_z3(goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result(True, 'simplify')
    hyps = [h for h in hyps if not z3.is_true(h)]
    hs = {h.get_id() for h in hyps}
    if goal.get_id() in hs or g.get_id() in hs:
        return Result(True, 'hypothesis')
    if z3.is_and(g):
        for c in g.children():
            r = prove(c, hyps, cands, timeout, quick, depth)
            if not r:
                return r
        return Result(True, 'conj', t=time.time() - t0)
    if z3.is_implies(g):
        return prove(g.arg(1), hyps + [g.arg(0)], cands, timeout, quick, depth)
    ng = z3.Not(g)
    base = hyps + [ng]
    model = ''
    levels = [(0, 0), (1, 1), (1, 3)] if quick else [(0, 0), (1, 1), (1, 3), (2, 4), (3, 4)]
    eqs = []
    if len(hyps) > 12 and not quick:
        for sub in relevant(g, hyps):
            b = sub + [ng]
            for lv, rounds in ((0, 0), (1, 2)):
                r, s = solve(b + (saturate(b, lv, rounds, cands) if rounds else []), 1.0)
                if r == z3.unsat:
                    return Result(True, 'z3', t=time.time() - t0)
    for n, (lv, rounds) in enumerate(levels):
        f = saturate(base, lv, rounds, cands) if rounds else []
        to = min(timeout, 1.5 if n < 2 else 4 if n == 2 else timeout)
        if quick:
            to = min(to, 1.0)
        r, s = solve(base + f, to)
        if r == z3.unsat:
            return Result(True, 'z3', t=time.time() - t0)
        if r == z3.sat:
            try:
                model = str(s.model())[:2000]
            except z3.Z3Exception:
                pass
        if n == 1 and (z3.is_eq(g) or _has_agg(g)) and depth < 6:
            eqs = agg_equalities(g, hyps, cands, timeout, depth)
            if eqs:
                base = base + eqs
                f = saturate(base, 1, 2, cands)
                r, s = solve(base + f, 4)
                if r == z3.unsat:
                    return Result(True, 'z3+ext', t=time.time() - t0)
    if not quick and depth == 0 and r == z3.unknown:
        r = cvc5_solve(base + saturate(base, 1, 3, cands), 3 * min(timeout, 10))
        if r == 'unsat':
            return Result(True, 'cvc5', t=time.time() - t0)
    return Result(False, str(r), model, time.time() - t0)


def _symbols(e):
    """The terms (constants, applications, products) of e that are worth sharing."""
    i = e.get_id()
    if i not in _syms:
        a, p = collect(e)
        _syms[i] = frozenset(x.get_id() for x in a) | frozenset(x.get_id() for x in p) | frozenset(c.get_id() for c in free_consts(e))
        _keep.append(e)
    return _syms[i]


_syms = {}


def relevant(g, hyps):
    """Smaller sets of hypotheses to try first: those that talk about what the goal talks about (and are small), one step
    and two steps away. Fewer hypotheses only make the proof harder to find, never wrong."""
    want = set(_symbols(g))
    sub, out = [], []
    for step in range(2):
        new = [h for h in hyps if not any(h is k for k in sub) and term_size(h) < 60 and (_symbols(h) & want)]
        if step == 1:
            new = [h for h in new if term_size(h) < 25]
        sub = sub + new
        for h in new:
            want |= _symbols(h)
        if sub and (not out or len(sub) > len(out[-1])) and len(sub) < len(hyps):
            out.append(list(sub))
    return out


def _has_agg(g):
    return any(TH.aggs.get(a.decl().get_id()) for a in collect(g)[0])


def outer_aggs(e):
    out, seen = [], set()
    node(e)
    st = [e.get_id()]
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        x, c, ch = node_of(i)
        if c == 1 and agg_of(x) is not None:
            out.append(x)
        st.extend(ch)
    return out


EXT_KINDS = {'sum', 'mean', 'std', 'min', 'argmin', 'max', 'argmax', 'percentile', 'any', 'cnt', 'where', 'rank',
             'nuniq', 'uniq', 'urank', 'where2r', 'where2c', 'cnt2'}


def agg_equalities(g, hyps, cands, timeout, depth):
    """Prove equalities between applications of the same operator by extensionality."""
    if late():
        return []
    g = ctx_simplify(g, hyps)
    apps = [a for a in outer_aggs(g) if agg_of(a).kind in EXT_KINDS]
    out = []
    done = set()
    for x, y in itertools.combinations(apps, 2):
        dx, dy = agg_of(x), agg_of(y)
        if dx.kind != dy.kind or x.sort() != y.sort() or x.eq(y) or len(dx.bvs) != len(dy.bvs):
            continue
        if contains(x, y) or contains(y, x):
            continue
        r = agg_eq(x, y, hyps, cands, timeout, depth)
        if r:
            out.append(x == y)
    return out


def contains(x, y):
    if node(y)[1] not in (1, 3):
        return False
    j = y.get_id()
    return any(a.get_id() == j for a in collect(x)[0])


def deep_substitute(e, pairs):
    """Substitution that also reaches the bodies of the operators (whose parameters are the free constants of the body)."""
    memo, ids = {}, {a.get_id(): b for a, b in pairs}

    def go(x):
        i = x.get_id()
        if i in ids:
            return ids[i]
        if i in memo:
            return memo[i][0]
        r = x
        if z3.is_app(x) and x.num_args() > 0:
            d = agg_of(x)
            if d is None:
                ch = x.children()
                nc = [go(c) for c in ch]
                if any(not a.eq(b) for a, b in zip(ch, nc)):
                    r = rebuild(x, nc)
            else:
                _, args, ex = agg_parts(x, d)
                nex = [go(c) for c in ex]
                nargs = [go(c) for c in args]
                ws = [z3.Const('!ds%d' % uid(), b.sort()) for b in d.bvs]
                body = agg_body(d, args, *ws)
                nb = go(body)
                if nb.eq(body) or z3.simplify(nb).eq(z3.simplify(agg_body(d, nargs, *ws))):
                    if any(not a.eq(b) for a, b in zip(list(ex) + list(args), nex + nargs)):
                        r = d.decl(*(nargs + nex))
                else:
                    L = Lam(TH, ws, z3.simplify(nb))
                    r = L.app(d.kind, nex, x.sort())
        memo[i] = (r, x)
        return r
    return z3.simplify(go(e))


def deep_apps(e, decls):
    """The applications of the given functions in e and in the bodies of its operators, without those on bound variables."""
    out, seen = [], set()

    def go(x, bound):
        if x.get_id() in seen or not z3.is_app(x) or x.num_args() == 0:
            return
        seen.add(x.get_id())
        if any(x.decl().eq(f) for f in decls) and not any(c.get_id() in bound for c in free_consts(x)):
            out.append(x)
        d = agg_of(x)
        if d is not None:
            _, args, ex = agg_parts(x, d)
            ws = [z3.Const('!da%d' % uid(), b.sort()) for b in d.bvs]
            _keep.extend(ws)
            go(agg_body(d, args, *ws), bound | {w.get_id() for w in ws})
        for c in x.children():
            go(c, bound)
    go(e, frozenset())
    return out


def rebuild(x, ch):
    if z3.is_and(x):
        return z3.And(*ch)
    if z3.is_or(x):
        return z3.Or(*ch)
    if z3.is_add(x):
        return z3.Sum(*ch)
    if z3.is_mul(x):
        return z3.Product(*ch)
    return x.decl()(*ch)


_aeq = {}


def agg_eq(x, y, hyps, cands=(), timeout=10, depth=0):
    key = (x.get_id(), y.get_id(), tuple(sorted(h.get_id() for h in hyps)))
    if key in _aeq:
        return _aeq[key][0]
    dx, ax, ex = agg_parts(x)
    dy, ay, ey = agg_parts(y)
    ok = len(ex) == len(ey)
    if ok:
        for a, b in zip(ex, ey):
            if not a.eq(b) and not prove(a == b, hyps, cands, timeout, quick=True, depth=depth + 1):
                ok = False
                break
    if ok:
        nb = len(dx.bvs)
        ws = [z3.Const('!w%d' % uid(), b.sort()) for b in dx.bvs]
        rng = []
        for w, n in zip(ws, ex[:nb]):
            rng += [0 <= w, w < n]
        bx, by = agg_body(dx, ax, *ws), agg_body(dy, ay, *ws)
        if bx.sort() != by.sort():
            ok = False
        else:
            ok = bool(prove_eq(bx, by, list(hyps) + rng, cands, timeout, depth + 1))
    if not late():
        _aeq[key] = (ok, x, y, list(hyps))
    return ok


def prove_eq(a, b, hyps, cands=(), timeout=10, depth=0):
    if a.eq(b):
        return Result(True, 'syntactic')
    if late():
        return Result(False, 'given up')
    a, b = ctx_simplify(a, hyps), ctx_simplify(b, hyps)
    if a.eq(b):
        return Result(True, 'ctx')
    t0 = time.time()
    if depth < 8 and congruent(a, b, hyps, cands, timeout, depth):
        return Result(True, 'congruence', t=time.time() - t0)
    return prove(a == b, hyps, cands, timeout, quick=depth > 0, depth=depth)


def congruent(a, b, hyps, cands, timeout, depth):
    """a == b by equality of the parts (extensionality for the operators)."""
    if a.eq(b):
        return True
    if not (z3.is_app(a) and z3.is_app(b)) or a.num_args() == 0 or b.num_args() == 0:
        return False
    dx, dy = agg_of(a), agg_of(b)
    if dx is not None and dy is not None and dx.kind == dy.kind and len(dx.bvs) == len(dy.bvs) and dx.kind in EXT_KINDS:
        return agg_eq(a, b, hyps, cands, timeout, depth)
    if a.decl().eq(b.decl()) and a.num_args() == b.num_args() and a.decl().kind() != z3.Z3_OP_UNINTERPRETED or \
            (a.decl().eq(b.decl()) and dx is None):
        ca, cb = a.children(), b.children()
        if z3.is_add(a) or z3.is_mul(a):        # the common parts first
            for x in list(ca):
                for y in cb:
                    if x.eq(y):
                        ca.remove(x)
                        cb.remove(y)
                        break
        return all(x.eq(y) or prove_eq(x, y, hyps, cands, timeout, depth + 1) for x, y in zip(ca, cb))
    return False


_dec = {}


def decide(c, hyps, fast=False):
    if late():
        return None
    key = (c.get_id(), fast, tuple(h.get_id() for h in hyps))
    if key in _dec:
        return _dec[key][0]
    r = None
    if fast:
        for g, v in ((c, True), (z3.Not(c), False)):
            for lv in (0, 1):
                b = list(hyps) + [z3.Not(g)]
                if solve(b + (saturate(b, 1, 1) if lv else []), 0.3)[0] == z3.unsat:
                    r = v
                    break
            if r is not None:
                break
    elif prove(c, hyps, quick=True, depth=9):
        r = True
    elif prove(z3.Not(c), hyps, quick=True, depth=9):
        r = False
    if not late():
        _dec[key] = (r, c, list(hyps))
    return r


def ctx_simplify(e, hyps, budget=12, fast=False):
    """Resolve conditionals whose condition is decided by the hypotheses (outside operator bodies)."""
    e = z3.simplify(e)
    for _ in range(budget):
        conds, seen = [], set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                conds.append(x)
            st.extend(x.children())
        conds.sort(key=lambda x: term_size(x.arg(0)))
        ch = False
        for x in conds:
            r = decide(x.arg(0), hyps, fast or real_cmp(x.arg(0)))
            if r is not None:
                e = z3.simplify(z3.substitute(e, (x, x.arg(1) if r else x.arg(2))))
                ch = True
                break
        if not ch:
            break
    return e


_tsz = {}


def term_size(e):
    i = e.get_id()
    if i not in _tsz:
        n, seen, st = 0, set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            n += 1
            st.extend(x.children())
        _tsz[i] = (n, e)
    return _tsz[i][0]


def real_cmp(c):
    while z3.is_not(c):
        c = c.arg(0)
    return z3.is_app(c) and c.num_args() == 2 and c.arg(0).sort() == R


def abstracted(goal, hyps, timeout=5.0):
    """Does goal follow from hyps with every nonlinear or uninterpreted term replaced by a constant (a generalisation)?"""
    memo, keep = {}, []

    def ab(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        r = x
        if z3.is_app(x) and x.num_args():
            k = x.decl().kind()
            lin = not (k == z3.Z3_OP_UNINTERPRETED or k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT) or
                       (k == z3.Z3_OP_MUL and sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in x.children()) > 1))
            r = rebuild(x, [ab(c) for c in x.children()]) if lin else z3.Const('!ab%d' % uid(), x.sort())
        memo[i] = r
        keep.append(x)
        return r
    fs = [z3.simplify(h) for h in hyps] + [z3.simplify(z3.Not(goal))]
    r = solve([ab(f) for f in fs], timeout)[0]
    return r == z3.unsat


def sat_check(hyps, timeout=5):
    """Vacuity: are the hypotheses (with axioms) satisfiable? unknown counts as not refuted."""
    f = saturate(hyps, 1, 2)
    r, _ = solve(list(hyps) + f, timeout)
    return str(r)


def prove_exists(goal, hyps, seeds, timeout=4.0, depth=0, rw=(), tried=None):
    """A positive combination of Any operators, proved with witnesses: the seeds and their ranks in the enumerated sets
    (cnt operators) of the goal they are elements of. Every step is a proof of its own."""
    goal = z3.simplify(goal)
    tried = set() if tried is None else tried
    if z3.is_true(goal):
        return True
    if z3.is_false(goal):
        return bool(prove(goal, hyps, (), timeout, quick=True, depth=5))
    hyps, seeds, rw = list(hyps), list(seeds), list(rw)
    if z3.is_and(goal):
        return all(prove_exists(c, hyps, seeds, timeout, depth, rw, tried) for c in goal.children())
    if z3.is_or(goal) and not z3.is_eq(goal.arg(0)):
        return any(prove_exists(c, hyps, seeds, timeout, depth, rw, tried) for c in goal.children())
    # sum(x + 1) = sum(x) + term(x)
    sums = [a for a in outer_aggs(goal) if agg_of(a).kind in ('sum', 'cnt')]
    sub = []
    for a in sums:
        for b in sums:
            d, pa, ea = agg_parts(a)
            db, pb, eb = agg_parts(b)
            if db is d and all(x.eq(y) for x, y in zip(pa, pb)) and conc(z3.simplify(eb[0] - ea[0])) == 1 and decide_in(ea[0] >= 0, hyps):
                t = agg_body(d, pa, ea[0])
                sub.append((b, z3.simplify(a + (z3.If(t, z3.IntVal(1), z3.IntVal(0)) if d.kind == 'cnt' else t))))
    if sub:
        goal = deep_substitute(goal, sub)
    # ranks of known elements
    for _ in range(2):
        n0 = len(seeds)
        for a in outer_aggs(goal):
            d = agg_of(a)
            if d.kind != 'cnt':
                continue
            _, args, ex = agg_parts(a, d)
            for e in reversed(list(seeds)):
                rk = related(d, args, 'rank', [ex[0], e], I)
                if any(rk.eq(s) for s in seeds):
                    break
                if rk.get_id() in tried or contains(e, rk):
                    continue
                tried.add(rk.get_id())
                _keep.append(rk)
                b = agg_body(d, args, e)
                if decide_in(0 <= e, hyps) and decide_in(e < ex[0], hyps) and decide_in(b, hyps):
                    w = related(d, args, 'where', [ex[0], rk], I)
                    hyps += [0 <= rk, rk < a, w == e]
                    seeds.append(rk)
                    rw.append((w, e))
                    break
        if len(seeds) == n0:
            break
    if rw:
        goal = deep_substitute(goal, rw)
    inv = []
    for a in collect(goal)[0]:
        if a.decl().name().startswith('!inv'):
            for s in reversed(seeds):
                if decide_in(a == s, hyps):
                    inv.append((a, s))
                    break
    if inv:
        goal = deep_substitute(deep_substitute(goal, inv), rw)
    if z3.is_true(goal):
        return True
    if z3.is_or(goal):
        return any(prove_exists(c, hyps, seeds, timeout, depth + 1, rw, tried) for c in goal.children())
    if z3.is_app_of(goal, z3.Z3_OP_ITE):
        c = goal.arg(0)
        return all(decide_in(z3.Not(h), hyps) or prove_exists(goal.arg(k), hyps + [h], seeds, timeout, depth, rw, tried)
                   for h, k in ((c, 1), (z3.Not(c), 2)))
    d = agg_of(goal) if z3.is_app(goal) else None
    if d is not None and d.kind == 'any' and depth < 8:
        _, args, ex = agg_parts(goal, d)
        for t in reversed(seeds):
            if decide_in(z3.And(0 <= t, t < ex[0]), hyps):
                if prove_exists(agg_body(d, args, t), hyps, seeds, timeout, depth + 1, rw, tried):
                    return True
        return False
    return bool(prove(goal, hyps, (), timeout, quick=True, depth=5))


def decide_in(c, hyps, timeout=0.4):
    key = (c.get_id(), 'in', tuple(h.get_id() for h in hyps))
    if key not in _dec:
        r = bool(prove(c, hyps, (), timeout, quick=True, depth=9))
        if late():
            return r
        _dec[key] = (r, c, list(hyps))
    return _dec[key][0]
