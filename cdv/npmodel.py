"""Models of the numpy / builtin functions used by the verified code (trusted contracts of external functions)."""
import z3
import core
from core import *
from vals import *

DT = {'builtins.int': 'int', 'numpy.int64': 'int', 'numpy.int_': 'int', 'numpy.int32': 'int', 'numpy.intp': 'int',
      'builtins.float': 'real', 'numpy.float64': 'real', 'numpy.float_': 'real', 'numpy.double': 'real',
      'builtins.bool': 'bool', 'numpy.bool_': 'bool', 'dtype:int': 'int', 'dtype:real': 'real', 'dtype:bool': 'bool'}
ZERO = {'int': z3.IntVal(0), 'real': z3.RealVal(0), 'bool': z3.BoolVal(False)}
ONE = {'int': z3.IntVal(1), 'real': z3.RealVal(1), 'bool': z3.BoolVal(True)}


def install(ip):
    M = ip.models

    def model(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco

    def dtype(v, default='real'):
        if v is None:
            return default
        if isinstance(v, FuncV) and v.name in DT:
            return DT[v.name]
        if isinstance(v, str) and v in ('int', 'int64', 'float', 'float64', 'bool'):
            return {'i': 'int', 'f': 'real', 'b': 'bool'}[v[0]]
        raise Unsupported('dtype %r' % (v,))

    def arg(args, kw, i, name, default=None):
        return args[i] if len(args) > i else kw.get(name, default)

    def known_kw(kw, *names):
        for k in kw:
            if k not in names:
                raise Unsupported('keyword argument %s' % k)

    def shape_of(v, st, n):
        if is_num(v):
            v = (v,)
        if isinstance(v, ListV):
            v = st.heap[v.id]
        if not isinstance(v, tuple):
            raise Unsupported('array shape')
        for s in v:
            ip.oblige('shape', integer(s) >= 0, st, n, 'array dimension is not negative')
        return [simp(integer(s)) for s in v]

    # ------------------------------------------------------------------ iteration and basic builtins
    @model('builtins.range')
    def range_(st, a, kw, n, par=False):
        a = [integer(x) for x in a]
        if len(a) == 1:
            return Range(z3.IntVal(0), a[0], 1, par)
        return Range(a[0], a[1], a[2] if len(a) > 2 else 1, par)

    @model('numba.prange')
    def prange_(st, a, kw, n):
        return range_(st, a, kw, n, True)

    @model('builtins.enumerate')
    def enumerate_(st, a, kw, n):
        return Enum(a[0])

    @model('builtins.zip')
    def zip_(st, a, kw, n):
        return Zip(a)

    @model('builtins.iter')
    def iter_(st, a, kw, n):
        return a[0]

    @model('builtins.len')
    def len_(st, a, kw, n):
        v = a[0]
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise Unsupported('len of a scalar array')
            return v.shape[0]
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, (ListV, DictV)):
            it = st.heap[v.id]
            return it.shape[0] if isinstance(it, Arr) else len(it)
        if isinstance(v, Opq):
            t = z3.Function('len', v.term.sort(), I)(v.term)
            ip.assume(st, t >= 0)
            return t
        raise Unsupported('len')

    @model('builtins.abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs', 'math.fabs')
    def abs_(st, a, kw, n):
        f = lambda x, s=None: simp(ite(to_z3(x) >= 0, x, lambda: -to_z3(x)))
        if isinstance(a[0], Arr):
            return ip.elementwise(f, [a[0]], st, n)
        return f(integer(a[0]) if to_z3(a[0]).sort() == B else a[0])

    def seq(v, st):
        if isinstance(v, ListV):
            v = st.heap[v.id]
        return v

    def minmax(op, agg):
        def f(st, a, kw, n):
            if len(a) >= 2 and all(is_num(x) for x in a):
                r = a[0]
                for x in a[1:]:
                    x_, r_ = unify2(x, r)
                    r = simp(ite(x_ < r_ if op == 'min' else x_ > r_, x_, r_))
                return r
            v = seq(a[0], st)
            if isinstance(v, tuple) and v and all(is_num(x) for x in v):
                return f(st, list(v), {}, n) if len(v) > 1 else v[0]
            if isinstance(v, Arr) and v.ndim == 1:
                ip.oblige('noerror', to_z3(v.shape[0]) > 0, st, n, '%s of a non empty array' % op)
                return agg(v.shape[0], ip.elem(st, v, n))
            raise Unsupported(op)
        return f
    M['builtins.min'], M['builtins.max'] = minmax('min', Min), minmax('max', Max)

    @model('builtins.int', 'numpy.int64', 'numpy.int_', 'numpy.int32')
    def int_(st, a, kw, n):
        v = a[0]
        if isinstance(v, Arr):
            return astype(st, [v, FuncV('numpy.int64')], {}, n)
        if isinstance(v, Opq):
            return z3.Function('int_of', v.term.sort(), I)(v.term)
        return simp(trunc(v)) if to_z3(v).sort() == R else integer(v)

    @model('builtins.float', 'numpy.float_', 'numpy.float64')
    def float_(st, a, kw, n):
        if isinstance(a[0], Arr):
            return astype(st, [a[0], FuncV('numpy.float64')], {}, n)
        return real(a[0])

    @model('builtins.bool', 'numpy.bool_')
    def bool_(st, a, kw, n):
        if isinstance(a[0], Arr):
            return astype(st, [a[0], FuncV('numpy.bool_')], {}, n)
        return ip.truth(a[0], st, n)

    @model('builtins.tuple')
    def tuple_(st, a, kw, n):
        return tuple(ip.iter_concrete(a[0], st)) if a else ()

    @model('builtins.list')
    def list_(st, a, kw, n):
        return ip.new_list(ip.iter_concrete(a[0], st) if a else (), st)

    @model('builtins.print', 'warnings.warn')
    def print_(st, a, kw, n):
        return None

    @model('builtins.str', 'builtins.repr', 'builtins.type')
    def str_(st, a, kw, n):
        return FuncV('str.formatted')

    # ------------------------------------------------------------------ creation
    def filler(vals):
        def f(st, a, kw, n):
            known_kw(kw, 'dtype', 'shape')
            sh = shape_of(arg(a, kw, 0, 'shape'), st, n)
            dt = dtype(arg(a, kw, 1, 'dtype'))
            c = vals[dt]
            return ip.alloc(st, sh, dt, lambda *i: c)
        return f
    M['numpy.zeros'], M['numpy.ones'] = filler(ZERO), filler(ONE)

    @model('numpy.empty')
    def empty(st, a, kw, n):
        known_kw(kw, 'dtype', 'shape')
        sh = shape_of(arg(a, kw, 0, 'shape'), st, n)
        dt = dtype(arg(a, kw, 1, 'dtype'))
        f = ip.fresh_fn('uninit', [I] * len(sh), DT_SORT[dt])
        return ip.alloc(st, sh, dt, f)

    @model('numpy.full')
    def full(st, a, kw, n):
        sh = shape_of(a[0], st, n)
        v = to_z3(a[1])
        dt = dtype(arg(a, kw, 2, 'dtype'), dtype_of_sort(v.sort()))
        v = conv(v, dt)
        return ip.alloc(st, sh, dt, lambda *i: v)

    def like(vals):
        def f(st, a, kw, n):
            dt = dtype(arg(a, kw, 1, 'dtype'), a[0].dtype)
            c = vals[dt]
            return ip.alloc(st, a[0].shape, dt, lambda *i: c)
        return f
    M['numpy.zeros_like'], M['numpy.ones_like'] = like(ZERO), like(ONE)

    @model('numpy.empty_like')
    def empty_like(st, a, kw, n):
        dt = dtype(arg(a, kw, 1, 'dtype'), a[0].dtype)
        return ip.alloc(st, a[0].shape, dt, ip.fresh_fn('uninit', [I] * a[0].ndim, DT_SORT[dt]))

    @model('numpy.arange')
    def arange(st, a, kw, n):
        known_kw(kw, 'dtype')
        if any(to_z3(x).sort() == R for x in a):
            raise Unsupported('arange on reals')
        a = [integer(x) for x in a]
        lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (a[0], a[1])
        step = conc(a[2]) if len(a) > 2 else 1
        if step is None or step <= 0:
            raise Unsupported('arange step')
        cnt = simp(hi - lo) if step == 1 else simp((hi - lo + (step - 1)) / step)
        cnt = cnt if prove(cnt >= 0, st.pc, quick=True, depth=9) else ite(cnt > 0, cnt, z3.IntVal(0))
        return ip.alloc(st, [cnt], 'int', lambda i: simp(lo + to_z3(i) * step))

    @model('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray')
    def array(st, a, kw, n):
        v = ip.as_array(a[0], st, n)
        dt = dtype(arg(a, kw, 1, 'dtype'), v.dtype)
        f = ip.elem(st, v, n)
        return ip.alloc(st, v.shape, dt, lambda *i: conv(f(*i), dt))

    @model('ndarray.copy', 'numpy.copy')
    def copy(st, a, kw, n):
        f = ip.elem(st, a[0], n)
        return ip.alloc(st, a[0].shape, a[0].dtype, f)

    @model('ndarray.astype')
    def astype(st, a, kw, n):
        known_kw(kw, 'dtype', 'copy')
        dt = dtype(arg(a, kw, 1, 'dtype'))
        f = ip.elem(st, a[0], n)
        return ip.alloc(st, a[0].shape, dt, lambda *i: conv(f(*i), dt))

    def concatenate(st, a, kw, n, name_='concatenate'):
        known_kw(kw, 'axis')
        if conc(kw.get('axis', 0)) != 0:
            raise Unsupported('concatenate along another axis')
        vs = tuple(a) if name_ == 'append' else seq(a[0], st)
        if not isinstance(vs, tuple) or not vs or (name_ != 'append' and len(a) > 1 and conc(a[1]) != 0):
            raise Unsupported('concatenate')
        vs = [ip.as_array(v, st, n) for v in vs]
        if name_ != 'concatenate' and any(v.ndim > 1 for v in vs):
            raise Unsupported('%s of matrices' % name_)
        vs = [v if v.ndim else ip.alloc(st, [1], v.dtype, (lambda g: lambda i: g())(ip.elem(st, v, n))) for v in vs]
        if any(v.ndim != vs[0].ndim for v in vs):
            raise Unsupported('concatenate of arrays of different ranks')
        dts = {v.dtype for v in vs}
        dt = 'real' if 'real' in dts else 'int' if 'int' in dts else 'bool'
        fs = [ip.elem(st, v, n) for v in vs]
        for v in vs[1:]:
            for x, y in zip(v.shape[1:], vs[0].shape[1:]):
                ip.oblige('shape', to_z3(x) == to_z3(y), st, n, 'concatenated arrays agree on the other dimensions')
        tot = z3.IntVal(0)
        offs = []
        for v in vs:
            offs.append(simp(tot))
            tot = simp(tot + to_z3(v.shape[0]))
        if len(vs) == 2 and 'cumsum' in vs[1].meta and conc(vs[0].shape[0]) == 1 and vs[0].ndim == 1 and conc(fs[0](z3.IntVal(0))) == 0:
            g = vs[1].meta['cumsum']
            return ip.alloc(st, [tot], dt, lambda i: conv(Sum(i, g), dt))

        def content(i, *rest):
            r = lambda: conv(fs[-1](to_z3(i) - offs[-1], *rest), dt)
            for k in range(len(fs) - 2, -1, -1):
                r = (lambda k, r: lambda: ite(to_z3(i) < offs[k + 1], lambda: conv(fs[k](to_z3(i) - offs[k], *rest), dt), r))(k, r)
            return r()
        return ip.alloc(st, [tot] + list(vs[0].shape[1:]), dt, content)
    for nm in ('concatenate', 'append', 'hstack'):
        M['numpy.' + nm] = (lambda nm: lambda st, a, kw, n: concatenate(st, a, kw, n, nm))(nm)

    @model('ndarray.reshape', 'numpy.reshape')
    def reshape(st, a, kw, n):
        v = a[0]
        tgt = a[1:] if len(a) > 2 or is_num(a[1]) else list(seq(a[1], st))
        tgt = [integer(t) for t in tgt]
        size = z3.IntVal(1)
        for s in v.shape:
            size = size * to_z3(s)
        size = simp(size)
        neg = [k for k, t in enumerate(tgt) if conc(t) == -1]
        if neg:
            ones = [k for k in range(len(tgt)) if conc(tgt[k]) == 1 or k == neg[0]]
            big = [s for s in v.shape if conc(s) != 1]
            rest = [t for k, t in enumerate(tgt) if k != neg[0] and conc(t) != 1]
            left = list(big)
            for t in rest:
                m = [x for x in left if simp(to_z3(x) == t) is not None and z3.is_true(simp(to_z3(x) == t))]
                if not m:
                    raise Unsupported('reshape with an unknown dimension')
                left.remove(m[0])
            p = z3.IntVal(1)
            for x in left:
                p = p * to_z3(x)
            tgt[neg[0]] = simp(p)
        tsize = z3.IntVal(1)
        for t in tgt:
            tsize = tsize * t
        ip.oblige('shape', simp(tsize) == size, st, n, 'reshape keeps the number of elements')
        f = ip.elem(st, v, n)
        nz = lambda sh: [k for k, s in enumerate(sh) if conc(s) != 1]
        a_, b_ = nz(v.shape), nz(tgt)
        if len(a_) == len(b_) and all(z3.is_true(simp(to_z3(v.shape[x]) == tgt[y])) for x, y in zip(a_, b_)):
            def fmap(*i):
                idx = [z3.IntVal(0)] * v.ndim
                for x, y in zip(a_, b_):
                    idx[x] = to_z3(i[y])
                return v.index(idx)
            return Arr(v.buf, tgt, v.dtype, None, fmap)
        if v.ndim == 1:
            def fmap(*i):
                lin = z3.IntVal(0)
                for k, t in enumerate(tgt):
                    lin = lin * t + to_z3(i[k])
                return v.index([simp(lin)])
            return Arr(v.buf, tgt, v.dtype, None, fmap)
        raise Unsupported('reshape')

    # ------------------------------------------------------------------ elementwise functions
    def unary(fn, pre=None, what=''):
        def f(st, a, kw, n):
            def g(x, s):
                if pre is not None:
                    ip.oblige('noerror', pre(real(x)), s, n, what)
                return fn(x)
            if isinstance(a[0], (ListV, tuple)):
                a = [ip.as_array(a[0], st, n)]
            if isinstance(a[0], Arr):
                return ip.elementwise(g, [a[0]], st, n)
            return g(a[0], st)
        return f
    sq = unary(lambda x: SQRT(real(x)), lambda x: x >= 0, 'square root of a non negative number')
    M['numpy.sqrt'] = M['math.sqrt'] = sq
    M['numpy.log2'] = unary(lambda x: LOG2(real(x)), lambda x: x > 0, 'logarithm of a positive number')
    M['numpy.log'] = M['math.log'] = unary(lambda x: LOGE(real(x)), lambda x: x > 0, 'logarithm of a positive number')
    M['numpy.floor'] = unary(lambda x: z3.ToReal(z3.ToInt(real(x))))
    M['math.floor'] = unary(lambda x: z3.ToInt(real(x)))
    M['numpy.logical_not'] = unary(lambda x: z3.Not(boolean(x)))

    def binary(fn):
        def f(st, a, kw, n):
            a = [ip.as_array(x, st, n) if isinstance(x, (ListV, tuple)) else x for x in a]
            if any(isinstance(x, Arr) for x in a[:2]):
                return ip.elementwise(lambda x, y, s: fn(x, y, s, n), a[:2], st, n)
            return fn(a[0], a[1], st, n)
        return f
    import ast
    for nm, op in (('floor_divide', ast.FloorDiv), ('power', ast.Pow), ('add', ast.Add), ('subtract', ast.Sub),
                   ('multiply', ast.Mult), ('divide', ast.Div), ('true_divide', ast.Div), ('mod', ast.Mod), ('remainder', ast.Mod)):
        M['numpy.' + nm] = binary((lambda op: lambda x, y, s, n: ip.scalar_op(op(), x, y, s, n))(op))
    M['numpy.logical_and'] = binary(lambda x, y, s, n: z3.And(boolean(x), boolean(y)))
    M['numpy.logical_or'] = binary(lambda x, y, s, n: z3.Or(boolean(x), boolean(y)))
    M['numpy.maximum'] = binary(lambda x, y, s, n: (lambda p, q: ite(p >= q, p, q))(*unify2(x, y)))
    M['numpy.minimum'] = binary(lambda x, y, s, n: (lambda p, q: ite(p <= q, p, q))(*unify2(x, y)))

    # ------------------------------------------------------------------ reductions
    def reduction(op, nonempty, dt=None, pre=None):
        def f(st, a, kw, n):
            known_kw(kw, 'axis', 'keepdims', 'dtype', 'ddof')
            if 'ddof' in kw and conc(kw['ddof']) != 0:
                raise Unsupported('ddof')
            v = a[0]
            if isinstance(v, (ListV, tuple)):
                v = ip.as_array(v, st, n)
            axis = arg(a, kw, 1, 'axis')
            g0 = ip.elem(st, v, n)
            g = (lambda *i: pre(g0(*i))) if pre else g0
            if axis is None:
                if v.ndim == 1:
                    if nonempty:
                        ip.oblige('noerror', to_z3(v.shape[0]) > 0, st, n, 'reduction of a non empty array')
                    r = op(v.shape[0], g)
                elif v.ndim == 0:
                    return v
                elif op is Sum or op is Any or op is All:
                    def nest(k, pre_):
                        if k == v.ndim:
                            return g(*pre_)
                        return op(v.shape[k], lambda i: nest(k + 1, pre_ + [i]))
                    if op is Sum and v.dtype == 'bool' and v.ndim == 2:
                        r = Where2Op(v.shape[0], v.shape[1], g0).count
                    else:
                        r = nest(0, [])
                else:
                    if nonempty:
                        for s in v.shape:
                            ip.oblige('noerror', to_z3(s) > 0, st, n, 'reduction of a non empty array')
                    L = TH.lam(lambda *i: real(g(*i)), v.ndim)
                    r = L.app('all_' + op.__name__.lower(), [to_z3(s) for s in v.shape], R)
                r = to_z3(r)
                return conv(r, dt) if dt else r
            ax = conc(axis)
            if ax is None:
                raise Unsupported('axis')
            ax = ax % v.ndim
            if nonempty:
                ip.oblige('noerror', to_z3(v.shape[ax]) > 0, st, n, 'reduction along a non empty axis')
            keep = kw.get('keepdims', False) is True
            if v.ndim == 1:
                r = to_z3(op(v.shape[0], g))
                r = conv(r, dt) if dt else r
                return ip.alloc(st, [1], dtype_of_sort(r.sort()), lambda i: r) if keep else r

            def content(*i):
                i = list(i)
                if keep:
                    i.pop(ax)
                r = to_z3(op(v.shape[ax], lambda k: g(*(i[:ax] + [k] + i[ax:]))))
                return conv(r, dt) if dt else r
            sh = list(v.shape)
            sh[ax] = 1
            if not keep:
                sh.pop(ax)
            pb = [z3.Const('!e%d' % uid(), I) for _ in sh]
            return ip.alloc(st, sh, dtype_of_sort(to_z3(content(*pb)).sort()), content)
        return f

    def both(name, f):
        M['numpy.' + name] = f
        M['ndarray.' + name] = f
    both('sum', reduction(Sum, False))
    both('mean', reduction(Mean, True))
    both('std', reduction(Std, True))
    for nm in ('min', 'amin'):
        both(nm, reduction(Min, True))
    for nm in ('max', 'amax'):
        both(nm, reduction(Max, True))
    both('argmin', reduction(ArgMin, True))
    both('argmax', reduction(ArgMax, True, pre=lambda x: integer(x) if to_z3(x).sort() == B else x))
    both('any', reduction(Any, False, 'bool', boolean))
    both('all', reduction(All, False, 'bool', boolean))

    @model('builtins.sum')
    def bsum(st, a, kw, n):
        v = seq(a[0], st)
        if isinstance(v, tuple):
            r = z3.IntVal(0)
            for x in v:
                r = ip.scalar_op(ast.Add(), r, x, st, n)
            return r
        if isinstance(v, Arr) and v.ndim == 1:
            return Sum(v.shape[0], ip.elem(st, v, n))
        raise Unsupported('sum')

    @model('numpy.cumsum', 'ndarray.cumsum')
    def cumsum(st, a, kw, n):
        known_kw(kw)
        v = a[0]
        if v.ndim != 1:
            raise Unsupported('cumsum')
        f = ip.elem(st, v, n)
        g = f if v.dtype != 'bool' else (lambda i: integer(f(i)))
        dt = 'int' if v.dtype == 'bool' else v.dtype
        r = ip.alloc(st, v.shape, dt, lambda i: conv(Sum(to_z3(i) + 1, g), dt))
        r.meta['cumsum'] = g
        return r

    @model('numpy.dot')
    def dot(st, a, kw, n):
        x, y = a
        if x.ndim != 1 or y.ndim != 1:
            raise Unsupported('dot')
        ip.oblige('shape', to_z3(x.shape[0]) == to_z3(y.shape[0]), st, n, 'dot of arrays of the same length')
        f, g = ip.elem(st, x, n), ip.elem(st, y, n)
        return Sum(x.shape[0], lambda i: (lambda p, q: p * q)(*unify2(f(i), g(i))))

    @model('numpy.percentile')
    def percentile(st, a, kw, n):
        known_kw(kw)
        v, p = a
        if v.ndim != 1:
            raise Unsupported('percentile')
        ip.oblige('noerror', to_z3(v.shape[0]) > 0, st, n, 'percentile of a non empty array')
        f = ip.elem(st, v, n)
        ps = seq(p, st)
        if is_num(ps):
            return Percentile(v.shape[0], f, ps)
        if isinstance(ps, tuple):
            rs = tuple(Percentile(v.shape[0], f, x) for x in ps)
            return ip.as_array(rs, st, n)
        raise Unsupported('percentile')

    @model('numpy.unique')
    def unique(st, a, kw, n):
        known_kw(kw)
        v = a[0]
        if not isinstance(v, Arr) or v.ndim != 1:
            raise Unsupported('unique')
        u = UniqueOp(v.shape[0], ip.elem(st, v, n))
        return ip.alloc(st, [u.count], v.dtype, u.at)

    @model('numpy.where', 'numpy.nonzero', 'ndarray.nonzero')
    def where(st, a, kw, n):
        known_kw(kw)
        if len(a) == 3:
            c, x, y = a
            return ip.elementwise(lambda c, x, y, s: ite(boolean(c), *unify2(x, y)), [c, x, y], st, n)
        v = a[0]
        if isinstance(v, tuple) and len(v) == 1:
            v = v[0]
        if not isinstance(v, Arr):
            raise Unsupported('where')
        f0 = ip.elem(st, v, n)
        f = lambda *i: boolean(f0(*i))
        if v.ndim == 1:
            r = ip.member_rank(v.shape[0], f, st)
            if r is not None:        # where(u == v) with u = unique(..) and v one of its values: exactly one place
                return (ip.alloc(st, [z3.IntVal(1)], 'int', lambda t: r),)
            w = WhereOp(v.shape[0], f)
            return (ip.alloc(st, [w.count], 'int', w.at),)
        if v.ndim == 2:
            w = Where2Op(v.shape[0], v.shape[1], f)
            return (ip.alloc(st, [w.count], 'int', w.row), ip.alloc(st, [w.count], 'int', w.col))
        raise Unsupported('where')

    @model('numpy.flatnonzero')
    def flatnonzero(st, a, kw, n):
        v = a[0]
        if not isinstance(v, Arr) or v.ndim != 1:
            raise Unsupported('flatnonzero')
        return where(st, [v], {}, n)[0]

    # ------------------------------------------------------------------ random draws
    def draw(what, st, n):
        ip.events.append(('draw', what, list(st.pc), ip.line(n), ip.fname(), st.ghost.get('seeded')))

    @model('numpy.random.seed')
    def seed(st, a, kw, n):
        st.ghost['seeded'] = to_z3(a[0]) if is_num(a[0]) else ip.to_obj(a[0], st)
        ip.events.append(('seed', a[0], list(st.pc), ip.line(n), ip.fname()))
        return None

    @model('numpy.random.choice')
    def choice(st, a, kw, n):
        known_kw(kw, 'size', 'replace')
        draw('choice', st, n)
        v = a[0]
        size = arg(a, kw, 1, 'size')
        rep = arg(a, kw, 2, 'replace', True)
        if not isinstance(rep, bool):
            raise Unsupported('choice with a symbolic replace')
        if isinstance(v, Arr):
            if v.ndim != 1:
                raise Unsupported('choice of a matrix')
            cnt, at, dt = to_z3(v.shape[0]), ip.elem(st, v, n), v.dtype
        else:
            cnt, at, dt = integer(v), (lambda k: to_z3(k)), 'int'
        if size is None:
            ip.oblige('noerror', cnt > 0, st, n, 'random choice in a non empty set')
            k = ip.fresh('ch', I, lambda t: z3.Implies(cnt > 0, z3.And(0 <= t, t < cnt)))
            return at(k)
        if isinstance(size, tuple):
            raise Unsupported('choice size')
        sz = integer(size)
        ip.oblige('noerror', z3.Implies(sz > 0, cnt > 0), st, n, 'random choice in a non empty set')
        ip.oblige('shape', sz >= 0, st, n, 'number of draws is not negative')
        if rep:
            k = ip.fresh_fn('chs', [I], I, lambda i: z3.Implies(cnt > 0, z3.And(0 <= k_(i), k_(i) < cnt))) if False else None
            k = fresh_idx(cnt, None)
        else:
            ip.oblige('noerror', sz <= cnt, st, n, 'no more draws than items without replacement')
            k = fresh_idx(cnt, sz)
        return ip.alloc(st, [sz], dt, lambda i: at(k(i)))

    def fresh_idx(cnt, sz):
        """Random positions; without replacement (sz given) they are distinct: inverse function."""
        vs = list(ip.loopvars)
        f = z3.Function('chs!%d' % uid(), *([v.sort() for v in vs] + [I, I]))
        inv = z3.Function('chinv!%d' % uid(), *([v.sort() for v in vs] + [I, I])) if sz is not None else None
        core._keep.append(cnt)

        def rule(app):
            ch = app.children()
            sub = list(zip(vs, ch))
            c = z3.substitute(cnt, *sub) if sub else cnt
            out = [z3.Implies(c > 0, z3.And(0 <= app, app < c))]
            if sz is not None:
                s = z3.substitute(sz, *sub) if sub else sz
                i = ch[-1]
                out.append(z3.Implies(z3.And(0 <= i, i < s), inv(*(ch[:-1] + [app])) == i))
            return out
        TH.rule(f, rule)
        if sz is not None:
            # membership: a value with inv in range is drawn when it comes from there (used by distinctness only)
            pass
        return lambda i: f(*(vs + [to_z3(i)]))

    def uniform_fact(lo, hi):
        return lambda t: z3.And(z3.Implies(lo <= hi, z3.And(lo <= t, t <= hi)), z3.Implies(hi < lo, z3.And(hi <= t, t <= lo)))

    @model('numpy.random.uniform')
    def uniform(st, a, kw, n):
        known_kw(kw, 'low', 'high', 'size')
        draw('uniform', st, n)
        lo, hi = real(arg(a, kw, 0, 'low', 0.0)), real(arg(a, kw, 1, 'high', 1.0))
        size = arg(a, kw, 2, 'size')
        if size is None:
            return ip.fresh('unif', R, uniform_fact(lo, hi))
        return vec('unif', size, uniform_fact(lo, hi), st)

    def vec(name, size, fact, st):
        sz = integer(size)
        vs = list(ip.loopvars)
        f = z3.Function('%s!%d' % (name, uid()), *([v.sort() for v in vs] + [I, R]))
        d = z3.Const('!t%d' % uid(), R)
        fx = fact(d)
        core._keep.append(fx)
        TH.rule(f, lambda app: [z3.substitute(fx, *(list(zip(vs, app.children())) + [(d, app)]))])
        return ip.alloc(st, [sz], 'real', lambda i: f(*(vs + [to_z3(i)])))

    @model('numpy.random.random', 'numpy.random.rand', 'numpy.random.random_sample')
    def random(st, a, kw, n):
        known_kw(kw, 'size')
        draw('random', st, n)
        fact = lambda t: z3.And(0 <= t, t < 1)
        size = arg(a, kw, 0, 'size')
        if size is None:
            return ip.fresh('rnd', R, fact)
        return vec('rnd', size, fact, st)

    ip.models_const = {'numpy.pi': 3.141592653589793, 'numpy.newaxis': None}
