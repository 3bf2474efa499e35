"""Symbolic execution of the real source of /repo (parsed on every run), producing proof obligations.

Loops are summarised exactly where their effect has a closed form (map, fold, running minimum, monotone marking);
otherwise the contract files give invariants; otherwise everything the loop modifies becomes arbitrary."""
import ast, os, time, itertools
import z3
import core
from core import *
from vals import *

REPO = os.environ.get('CDV_REPO', '/repo')
MAX_UNROLL = 16


# ------------------------------------------------------------------------------------------------ loader
class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        for n in self.tree.body:
            self._top(n)

    def absolute(self, n):
        """module named by an import, relative imports resolved"""
        if not n.level:
            return n.module
        pkg = self.name.split('.')
        pkg = pkg[:len(pkg) - n.level + (1 if self.path.endswith('__init__.py') else 0)]
        return '.'.join(pkg + ([n.module] if n.module else []))

    def _top(self, n):
        if isinstance(n, ast.FunctionDef):
            self.funcs[n.name] = n
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = n
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                self.imports[a.asname or a.name] = ('from', self.absolute(n), a.name)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.assigns[n.targets[0].id] = n.value
        elif isinstance(n, (ast.If, ast.Try)):
            for m in n.body:
                self._top(m)


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        for dp, dn, fn in os.walk(os.path.join(self.root, 'convst')):
            for f in fn:
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    try:
                        self.modules[rel] = Module(rel, p)
                    except SyntaxError:
                        pass

    def find(self, name):
        """Function or Class.method anywhere in the repository -> RepoFunc."""
        cls, _, fn = name.rpartition('.')
        for m in self.modules.values():
            if not cls and fn in m.funcs:
                return RepoFunc(m, m.funcs[fn])
            if cls and cls in m.classes:
                f = self.method(RepoClass(m, m.classes[cls]), fn)
                if f:
                    return f
        return None

    def method(self, cls, name):
        for n in cls.node.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return RepoFunc(cls.module, n, cls)
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                bc = self.lookup(cls.module, b.id)
                if isinstance(bc, RepoClass):
                    r = self.method(bc, name)
                    if r:
                        return r
        return None

    def lookup(self, mod, name):
        if name in mod.funcs:
            return RepoFunc(mod, mod.funcs[name])
        if name in mod.classes:
            return RepoClass(mod, mod.classes[name])
        if name in mod.imports:
            i = mod.imports[name]
            if i[0] == 'mod':
                return ModuleV(i[1])
            return self.resolve(i[1], i[2])
        return None

    def resolve(self, modname, name):
        m = self.modules.get(modname)
        if m is not None:
            r = self.lookup(m, name)
            if r is not None:
                return r
            if name in m.assigns:
                return ('assign', m, name)
            sub = modname + '.' + name
            if sub in self.modules:
                return ModuleV(sub)
            return FuncV(modname + '.' + name)
        return FuncV(str(modname) + '.' + name)


def assigned_names(body):
    plain, aug = set(), set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                plain.add(n.id)

        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                aug.add(n.target.id)
            self.visit(n.value)

        def visit_FunctionDef(self, n):
            plain.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
    for s in body:
        V().visit(s)
    return plain, aug


def mentions(e, names, _seen=None):
    """Does e mention one of the declarations (ids), also inside operator bodies?"""
    seen = _seen if _seen is not None else set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body()); continue
        if z3.is_app(x):
            di = x.decl().get_id()
            if di in names:
                return True
            d = TH.aggs.get(di)
            if d is not None:
                st.append(d.body)
            st.extend(x.children())
    return False


def has_ite(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        st.extend(x.children())
    return False


def has_const(e, c):
    return any(k.eq(c) for k in free_consts(e))


def lin_coef(e, q):
    """(coefficient, rest) with e == coefficient*q + rest for an integer coefficient, or None."""
    c, rest = 0, []
    for s in summands(e):
        k, core_ = coef_split(s)
        if core_.eq(q):
            c += k
        elif has_const(s, q):
            return None
        else:
            rest.append(s)
    return c, (z3.Sum(*rest) if len(rest) > 1 else rest[0] if rest else z3.IntVal(0))


TRACE = bool(os.environ.get('CDV_TRACE'))
T0 = time.time()


class Obl:
    __slots__ = ('kind', 'func', 'line', 'msg', 'ok', 'how', 't', 'model')

    def __init__(self, kind, func, line, msg, ok, how, t, model=''):
        self.kind, self.func, self.line, self.msg, self.ok, self.how, self.t, self.model = \
            kind, func, line, msg, ok, how, t, model
        if TRACE:
            import sys
            sys.stderr.write('  [%7.1f] %s %s %s:%s %s (%s, %.1f s)\n' % (time.time() - T0, 'ok  ' if ok else 'FAIL', kind, func, line, msg, how, t))
            sys.stderr.flush()

    def d(self):
        r = {k: getattr(self, k) for k in ('kind', 'func', 'line', 'msg', 'ok', 'how')}
        r['t'] = round(self.t, 3)
        if self.model:
            r['model'] = self.model
        return r


class Frame:
    def __init__(self, module, func):
        self.module, self.func = module, func
        self.parallel = False
        self.nloops = 0
        if func is not None and hasattr(func, 'node'):
            for d in getattr(func.node, 'decorator_list', []):
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == 'parallel' and not (isinstance(k.value, ast.Constant) and not k.value.value):
                            self.parallel = True


class AllRaise(Exception):
    """Every path of an inlined call raises: the statement has no other outcome."""
    def __init__(self, st):
        self.st = st


class Interp:
    def __init__(self, repo, contracts=None, kinds=None, timeout=10.0):
        self.repo = repo
        self.contracts = contracts or {}
        self.kinds = kinds          # None: all
        self.timeout = timeout
        self.obls = []
        self.quiet = 0
        self.loopvars = []
        self.frames = []
        self.log = None
        self.raised = []
        self.for_contract = None    # fn(node, state, count, item) -> outcomes or None: a loop by an annotated invariant
        self.loop_spec = None       # fn(interp, info) -> spec or None
        self.on_alloc = None
        self.events = []
        self.derived = set()
        self.cands = []
        self.par_depth = 0
        self.verifying = None
        self.models = {}
        self.bufn = itertools.count()
        self.called = set()
        self.deadline = None
        self.unroll = MAX_UNROLL
        import npmodel
        npmodel.install(self)

    # -------------------------------------------------------------------------------- obligations
    def line(self, node):
        return getattr(node, 'lineno', 0) if node is not None else 0

    def fname(self):
        return self.frames[-1].func.name if self.frames and self.frames[-1].func else '?'

    def assume(self, st, fact):
        if z3.is_true(fact):
            return
        st.pc.append(fact)
        self.derived.add(fact.get_id())
        core._keep.append(fact)

    def oblige(self, kind, goal, st, node=None, msg='', cands=(), assume=True, timeout=None):
        goal = to_z3(goal)
        if not z3.is_true(z3.simplify(goal)):
            if not self.quiet and (self.kinds is None or kind in self.kinds):
                t = time.time()
                with core.deadline(240):
                    r = prove(goal, st.pc, list(cands) + self.cands, timeout or self.timeout)
                self.obls.append(Obl(kind, self.fname(), self.line(node), msg, bool(r), r.how, time.time() - t,
                                     '' if r else ('goal: %s' % str(z3.simplify(goal))[:1500]) + '\n' + r.model))
            if assume:
                self.assume(st, goal)
        elif not self.quiet and (self.kinds is None or kind in self.kinds):
            self.obls.append(Obl(kind, self.fname(), self.line(node), msg, True, 'simplify', 0.0))

    def fail(self, kind, msg, node=None, st=None):
        """An obligation that cannot hold, unless the path is infeasible."""
        if self.quiet:
            return
        if self.kinds is not None and kind not in self.kinds:
            return
        r = Result(False, 'false') if st is None else prove(z3.BoolVal(False), st.pc, self.cands, 3)
        self.obls.append(Obl(kind, self.fname(), self.line(node), msg, bool(r), r.how, 0.0, r.model))

    # -------------------------------------------------------------------------------- fresh symbols
    def fresh(self, name, sort, fact=None, st=None):
        """A fresh symbol, a function of the loops it is created in; fact(term) holds for it."""
        f = z3.Function('%s!%d' % (name, uid()), *([v.sort() for v in self.loopvars] + [sort]))
        vs = list(self.loopvars)
        t = f(*vs)
        if fact is not None:
            fx = fact(t)
            core._keep.append(fx)

            def rule(app, vs=vs, fx=fx):
                ch = app.children()
                return [z3.substitute(fx, *list(zip(vs, ch))) if vs else fx]
            TH.rule(f, rule)
        return t

    def fresh_fn(self, name, sorts, ret, fact=None):
        """A fresh function; fact(*args) (pointwise) holds for every application."""
        f = z3.Function('%s!%d' % (name, uid()), *([v.sort() for v in self.loopvars] + list(sorts) + [ret]))
        vs = list(self.loopvars)
        if fact is not None:
            bs = [z3.Const('!f%d' % uid(), s) for s in sorts]
            fx = fact(*bs)
            fxs = fx if isinstance(fx, (list, tuple)) else [fx]
            core._keep.extend(fxs)

            def rule(app, vs=vs, bs=bs, fxs=fxs):
                ch = app.children()
                sub = list(zip(vs + bs, ch))
                return [z3.substitute(x, *sub) for x in fxs]
            TH.rule(f, rule)
        return lambda *a: f(*(vs + [to_z3(x) for x in a]))

    # -------------------------------------------------------------------------------- buffers
    def member_rank(self, n, f, st):
        """If f(l), l < n, says that place l of unique(g(0..m)) holds g(i) for some i in range: that place."""
        b = z3.Const('!mr', I)
        e = z3.simplify(boolean(f(b)))
        if not z3.is_eq(e):
            return None
        for x, v in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            d = TH.aggs.get(x.decl().get_id())
            if d is None or d.kind != 'uniq':
                continue
            _, args, ex = agg_parts(x)
            if not ex[1].eq(b) or any(c.eq(b) for c in free_consts(v)) or any(c.eq(b) for c in free_consts(ex[0])) \
                    or any(c.eq(b) for a in args for c in free_consts(a)):
                continue
            if not z3.simplify(to_z3(n)).eq(z3.simplify(related(d, args, 'nuniq', [ex[0]], I))):
                continue
            m = match_body(d, args, v)
            if m is None or not prove(z3.And(0 <= m, m < ex[0]), st.pc, quick=True, depth=3):
                continue
            return related(d, args, 'urank', [ex[0], v], I)
        return None

    def alloc(self, st, shape, dtype, content, name='', axes=None):
        b = next(self.bufn)
        rec = Buf(content, list(shape), dtype, len(self.loopvars), name=name)
        st.heap[b] = self.on_alloc(b, rec) if self.on_alloc is not None else rec
        return Arr(b, list(shape), dtype)

    def input_array(self, st, name, shape, dtype, fact=None):
        sorts = [I] * len(shape)
        f = z3.Function(name if fact is None else '%s!%d' % (name, uid()), *(sorts + [DT_SORT[dtype]]))
        if fact is not None:
            bs = [z3.Const('!f%d' % uid(), I) for _ in shape]
            fx = fact(f(*bs), *bs)

            def rule(app, bs=bs, fx=fx):
                return [z3.substitute(fx, *list(zip(bs, app.children())))]
            core._keep.append(fx)
            TH.rule(f, rule)
        return self.alloc(st, [to_z3(s) for s in shape], dtype, lambda *a: f(*a), name)

    def log_access(self, st, buf, rw, addr, node, binders=(), conds=()):
        if self.log is not None and not self.quiet:
            self.log.append((buf, rw, [to_z3(a) for a in addr], list(binders), list(st.pc) + list(conds), self.line(node)))

    def touch(self, st, arr, node=None, rw='r'):
        """Log an access to every element of arr."""
        if self.log is None or self.quiet:
            return
        bs = [z3.Const('!r%d' % uid(), I) for _ in arr.shape]
        cs = [c for b, n in zip(bs, arr.shape) for c in (0 <= b, b < to_z3(n))]
        self.log_access(st, arr.buf, rw, arr.index(bs), node, bs, cs)

    def elem(self, st, arr, node=None):
        """Snapshot of an array as a function of its indexes."""
        self.touch(st, arr, node)
        rec = st.heap[arr.buf]
        return lambda *i: rec.content(*arr.index([to_z3(x) for x in i]))

    def get(self, st, arr, idx, node=None, check=True):
        if check:
            for k, (i, n) in enumerate(zip(idx, arr.shape)):
                i = to_z3(i)
                self.oblige('bounds', z3.And(0 <= i, i < to_z3(n)), st, node, 'index %d of a read is inside its array' % k)
        addr = arr.index([to_z3(x) for x in idx])
        self.log_access(st, arr.buf, 'r', addr, node)
        v = st.heap[arr.buf].content(*addr)
        return ctx_simplify(v, st.pc, 4, fast=True) if is_z(v) and v.sort() == I and has_ite(v) else v

    def set(self, st, arr, idx, val, node=None):
        for k, (i, n) in enumerate(zip(idx, arr.shape)):
            i = to_z3(i)
            self.oblige('bounds', z3.And(0 <= i, i < to_z3(n)), st, node, 'index %d of a write is inside its array' % k)
        addr = arr.index([to_z3(x) for x in idx])
        rec = st.heap[arr.buf]
        val = conv(val, arr.dtype)
        self.log_access(st, arr.buf, 'w', addr, node)
        if rec.wc is not None:
            rec.wc.check(self, st, addr, val, node)
        old, owr = rec.content, rec.wr
        hit = lambda a: z3.And(*[x == y for x, y in zip(a, addr)])
        st.heap[arr.buf] = rec.with_(content=lambda *a: ite(hit(a), val, lambda: old(*a)),
                                     wr=lambda *a: z3.simplify(z3.Or(hit(a), owr(*a))))

    def set_range(self, st, arr, f, node=None):
        """arr[...] = f (function of the indexes of the view arr)."""
        rec = st.heap[arr.buf]
        if arr.axes is None:
            raise Unsupported('write through a reshaped view')
        self.touch(st, arr, node, 'w')
        shape = [to_z3(s) for s in arr.shape]

        def inside(a):
            cs = []
            for x, ax in zip(a, arr.axes):
                if ax[0] == 'fix':
                    cs.append(x == to_z3(ax[1]))
                else:
                    o = z3.simplify(x - to_z3(ax[2]))
                    cs += [0 <= o, o < shape[ax[1]]]
            return z3.simplify(z3.And(*cs))

        def view_idx(a):
            idx = [None] * len(shape)
            for x, ax in zip(a, arr.axes):
                if ax[0] == 'dim':
                    idx[ax[1]] = z3.simplify(x - to_z3(ax[2]), som=True)
            return [z3.IntVal(0) if i is None else i for i in idx]
        dt = arr.dtype
        if rec.wc is not None:
            bs = [z3.Const('!k%d' % uid(), I) for _ in shape]
            s2 = st.copy()
            s2.pc += [c for b, n in zip(bs, shape) for c in (0 <= b, b < n)]
            rec.wc.check(self, s2, arr.index(bs), conv(f(*bs), dt), node)
        old, owr = rec.content, rec.wr
        st.heap[arr.buf] = rec.with_(
            content=lambda *a: ite(inside(a), lambda: conv(f(*view_idx(a)), dt), lambda: old(*a)),
            wr=lambda *a: z3.simplify(z3.Or(inside(a), owr(*a))))

    # -------------------------------------------------------------------------------- merging
    def merge_states(self, sts):
        """sts: list of (state, extra value); merge into one by the branch conditions of their path conditions."""
        if len(sts) == 1:
            return sts[0]
        pcs = [s.pc for s, _ in sts]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] or p[n].eq(pcs[0][n]) for p in pcs):
            n += 1
        conds, facts = [], []
        for p in pcs:
            br = [c for c in p[n:] if c.get_id() not in self.derived]
            fa = [c for c in p[n:] if c.get_id() in self.derived]
            c = z3.simplify(z3.And(*br)) if br else z3.BoolVal(True)
            conds.append(c)
            facts += [z3.Implies(c, f) for f in fa]
        st = State()
        st.pc = list(pcs[0][:n])
        disj = z3.simplify(z3.Or(*conds))
        if not z3.is_true(disj):
            st.pc.append(disj)
        for f in facts:
            self.assume(st, f)
        acc, val = sts[-1]
        for (s, v), c in reversed(list(zip(sts[:-1], conds[:-1]))):
            m = State()
            heap = {}
            m.heap = heap
            val = self.merge_val(c, v, val, s, acc, m)
            for k in set(s.locals) | set(acc.locals):
                if k in s.locals and k in acc.locals:
                    m.locals[k] = self.merge_val(c, s.locals[k], acc.locals[k], s, acc, m)
                else:
                    m.locals[k] = Poison('%s is not defined on every path' % k)
            for b in set(s.heap) | set(acc.heap):
                x, y = s.heap.get(b), acc.heap.get(b)
                if x is None or y is None or x is y:
                    heap[b] = x or y
                elif isinstance(x, Buf):
                    if x.content is y.content:
                        heap[b] = x
                    else:
                        heap[b] = x.with_(
                            content=(lambda c, x, y: lambda *a: ite(c, lambda: x.content(*a), lambda: y.content(*a)))(c, x, y),
                            wr=(lambda c, x, y: lambda *a: ite(c, lambda: x.wr(*a), lambda: y.wr(*a)))(c, x, y))
                elif isinstance(x, dict):
                    d = {}
                    for k in set(x) | set(y):
                        if k in x and k in y:
                            d[k] = self.merge_val(c, x[k], y[k], s, acc, m)
                        else:
                            d[k] = Poison('attribute %s is not set on every path' % k)
                    heap[b] = d
                elif isinstance(x, tuple) and len(x) == len(y):
                    heap[b] = tuple(self.merge_val(c, p, q, s, acc, m) for p, q in zip(x, y))
                else:
                    heap[b] = Poison('different lists on two paths')
            for k in set(s.ghost) | set(acc.ghost):
                x, y = s.ghost.get(k), acc.ghost.get(k)
                if x is y:
                    m.ghost[k] = x
                elif is_z(x) and is_z(y):
                    m.ghost[k] = ite(c, x, y)
                elif isinstance(x, list) and isinstance(y, list):
                    m.ghost[k] = ('merged', x, y)
                elif k == 'nomerge' and (x is None or y is None):
                    m.ghost[k] = x if y is None else y
                else:
                    m.ghost[k] = Poison('ghost')
            acc = m
        st.locals, st.heap, st.ghost = acc.locals, acc.heap, acc.ghost
        return st, val

    def same(self, a, b):
        if a is b:
            return True
        if is_z(a) and is_z(b):
            return a.eq(b)
        if isinstance(a, (int, float, str, bool, type(None))) and type(a) == type(b):
            return a == b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return (a.buf == b.buf and a.dtype == b.dtype and len(a.shape) == len(b.shape) and
                    all(z3.simplify(to_z3(x) == to_z3(y)).eq(z3.BoolVal(True)) for x, y in zip(a.shape, b.shape)) and
                    a.axes is not None and b.axes is not None and len(a.axes) == len(b.axes) and
                    all(x[0] == y[0] and all(z3.is_true(z3.simplify(to_z3(p) == to_z3(q))) for p, q in zip(x[1:], y[1:]))
                        for x, y in zip(a.axes, b.axes)))
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a.term.eq(b.term)
        if isinstance(a, (ObjV, ListV, DictV)) and type(a) == type(b):
            return a.id == b.id
        if isinstance(a, (FuncV, ModuleV)) and type(a) == type(b):
            return a.name == b.name
        if isinstance(a, RepoFunc) and isinstance(b, RepoFunc):
            return a.node is b.node
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return False

    def merge_val(self, c, a, b, sa, sb, m):
        if self.same(a, b):
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if is_num(a) and is_num(b):
            return ite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, sa, sb, m) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
            dt = a.dtype if a.dtype == b.dtype else 'real'
            ra, rb = sa.heap[a.buf], sb.heap[b.buf]
            shape = [ite(c, to_z3(x), to_z3(y)) for x, y in zip(a.shape, b.shape)]
            bid = next(self.bufn)
            m.heap[bid] = Buf(lambda *i: ite(c, lambda: conv(ra.content(*a.index(i)), dt), lambda: conv(rb.content(*b.index(i)), dt)),
                              shape, dt, len(self.loopvars), name='merged')
            return Arr(bid, shape, dt)
        if isinstance(a, Opq) and isinstance(b, Opq) and a.term.sort() == b.term.sort():
            return Opq(z3.If(c, a.term, b.term), a.tag if a.tag == b.tag else None)
        return Poison('values of different kinds on two paths')

    # -------------------------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        """-> list of Outcome"""
        outs, cur = [], [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.exec_stmt(s, c):
                    (nxt if o.kind == 'next' else outs).append(o)
            cur = [o.st for o in nxt]
            if len(cur) > 1:
                m = self.try_merge(cur)
                cur = m
            if not cur:
                break
        return outs + [Outcome('next', c) for c in cur]

    def try_merge(self, sts):
        if any('nomerge' in s.ghost for s in sts):
            return sts
        st, _ = self.merge_states([(s, None) for s in sts])
        return [st]

    def exec_stmt(self, n, st):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the function exhausted')
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %d)' % (type(n).__name__, self.line(n)))
        k = len(self.raised)
        try:
            r = m(n, st)
        except AllRaise as e:
            if e.st is not st:
                raise Unsupported('a call that always raises inside an expression')
            r = []
        outs = r if isinstance(r, list) else [Outcome('next', st)]
        if len(self.raised) > k:
            # exceptions escaping from inlined calls inside the statement
            extra = self.raised[k:]
            del self.raised[k:]
            outs = [Outcome('raise', s, v) for s, v in extra] + outs
        return outs

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, st)

    def x_Pass(self, n, st):
        pass

    def x_Import(self, n, st):
        for a in n.names:
            st.locals[a.asname or a.name.split('.')[0]] = ModuleV(a.name if a.asname else a.name.split('.')[0])

    def x_ImportFrom(self, n, st):
        for a in n.names:
            v = self.repo.resolve(self.frames[-1].module.absolute(n), a.name)
            st.locals[a.asname or a.name] = self.from_global(v, st)

    def x_Assert(self, n, st):
        c = self.truth(self.eval(n.test, st), st, n)
        self.oblige('noerror', c, st, n, 'assertion of the code')

    def x_FunctionDef(self, n, st):
        st.locals[n.name] = RepoFunc(self.frames[-1].module, n, closure=st.locals)

    def x_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else None
        return [Outcome('return', st, v)]

    def x_Continue(self, n, st):
        return [Outcome('continue', st)]

    def x_Break(self, n, st):
        return [Outcome('break', st)]

    def x_Raise(self, n, st):
        name = 'Exception'
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        return [Outcome('raise', st, name)]

    def x_Try(self, n, st):
        outs = self.exec_block(n.body, st)
        res = []
        for o in outs:
            if o.kind == 'raise' and n.handlers:
                h = None
                for hd in n.handlers:
                    names = None
                    if hd.type is None:
                        names = [o.value]
                    elif isinstance(hd.type, ast.Name):
                        names = [hd.type.id]
                    elif isinstance(hd.type, ast.Tuple):
                        names = [x.id for x in hd.type.elts if isinstance(x, ast.Name)]
                    else:
                        names = []
                    if o.value in names or 'Exception' in names or 'BaseException' in names:
                        h = hd
                        break
                if h is not None:
                    res += self.exec_block(h.body, o.st)
                    continue
            if o.kind == 'next' and n.orelse:
                res += self.exec_block(n.orelse, o.st)
                continue
            res.append(o)
        if n.finalbody:
            fin = []
            for o in res:
                for p in self.exec_block(n.finalbody, o.st):
                    fin.append(Outcome(o.kind, p.st, o.value) if p.kind == 'next' else p)
            res = fin
        return res

    def x_With(self, n, st):
        for it in n.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.exec_block(n.body, st)

    def x_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.locals.pop(t.id, None)
            else:
                raise Unsupported('del')

    def known(self, c, st):
        """Syntactic decision of a condition."""
        c = z3.simplify(to_z3(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.simplify(z3.Not(c))
        for p in st.pc:
            sp = z3.simplify(p)
            if sp.eq(c):
                return True
            if sp.eq(nc):
                return False
            if z3.is_and(sp):
                for x in sp.children():
                    if x.eq(c):
                        return True
                    if x.eq(nc):
                        return False
        return None

    def x_If(self, n, st):
        v = self.eval(n.test, st)
        c = self.truth(v, st, n)
        k = self.known(c, st)
        if k is not None:
            return self.exec_block(n.body if k else n.orelse, st)
        s1, s2 = st, st.copy()
        s1.pc.append(c)
        s2.pc.append(z3.Not(c))
        o1 = self.exec_block(n.body, s1)
        o2 = self.exec_block(n.orelse, s2)
        return o1 + o2

    def x_Assign(self, n, st):
        v = self.eval(n.value, st)
        for t in n.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), st, t)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, st)
        elif isinstance(t, ast.Subscript):
            self.store(t, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred assignment')
        else:
            raise Unsupported('assignment target')

    def setattr(self, o, name, v, st, node):
        if isinstance(o, ObjV):
            d = dict(st.heap[o.id])
            d[name] = v
            st.heap[o.id] = d
            self.events.append(('setattr', o, name, v, list(st.pc)))
            return
        raise Unsupported('attribute assignment on %s' % type(o).__name__)

    def unpack(self, v, n, st, node):
        if isinstance(v, tuple):
            if len(v) != n:
                self.fail('noerror', 'unpacking %d values into %d names' % (len(v), n), node, st)
                raise Unsupported('unpacking mismatch')
            return list(v)
        if isinstance(v, ListV):
            it = st.heap[v.id]
            if isinstance(it, tuple) and len(it) == n:
                return list(it)
        if isinstance(v, Arr):
            self.oblige('bounds', to_z3(v.shape[0]) == n, st, node, 'unpacking an array of %d items' % n)
            return [self.index_arr(v, [z3.IntVal(i)], st, node) for i in range(n)]
        if isinstance(v, Opq):
            return [self.opq_item(v, i, st) for i in range(n)]
        raise Unsupported('unpacking %s' % type(v).__name__)

    def x_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, st, t)
            v = self.eval(n.value, st)
            if isinstance(old, Arr):
                r = self.binop(n.op, old, v, st, n)
                self.store_view(old, r, st, n)
            elif isinstance(old, ListV) and isinstance(n.op, ast.Add):
                st.heap[old.id] = tuple(st.heap[old.id]) + tuple(self.iter_concrete(v, st))
            else:
                st.locals[t.id] = self.binop(n.op, old, v, st, n)
            return
        if isinstance(t, ast.Subscript):
            load = ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
            old = self.eval(load, st)
            v = self.eval(n.value, st)
            self.store(t, self.binop(n.op, old, v, st, n), st)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            old = self.getattr(o, t.attr, st, t)
            v = self.eval(n.value, st)
            r = self.binop(n.op, old, v, st, n)
            if isinstance(old, Arr):
                self.store_view(old, r, st, n)
            else:
                self.setattr(o, t.attr, r, st, t)
            return
        raise Unsupported('augmented assignment')

    # -------------------------------------------------------------------------------- loops
    def iter_spec(self, v, st, node):
        """-> (count, item(state, q), parallel)"""
        if isinstance(v, Range):
            lo, hi = v.lo, v.hi
            s = conc(v.step)
            if s == -1:
                lo_, hi_ = to_z3(lo), to_z3(hi)
                return simp(lo_ - hi_), (lambda st, q: simp(lo_ - to_z3(q))), v.par
            if s is None or s <= 0:
                raise Unsupported('range with a non positive or unknown step')
            lo_, hi_ = to_z3(lo), to_z3(hi)
            if s == 1:
                cnt = simp(hi_ - lo_)
            else:
                cnt = simp((hi_ - lo_ + (s - 1)) / s)
            return cnt, (lambda st, q: simp(lo_ + to_z3(q) * s)), v.par
        if isinstance(v, Arr):
            return to_z3(v.shape[0]), (lambda st, q: self.index_arr(v, [to_z3(q)], st, node)), False
        if isinstance(v, Enum):
            c, item, p = self.iter_spec(v.it, st, node)
            return c, (lambda st, q: (to_z3(q), item(st, q))), p
        if isinstance(v, Zip):
            l = [self.iter_spec(x, st, node) for x in v.its]
            c = l[0][0]
            for x in l[1:]:
                c = ite(c <= x[0], c, x[0])
            return c, (lambda st, q: tuple(x[1](st, q) for x in l)), False
        if isinstance(v, tuple):
            return z3.IntVal(len(v)), (lambda st, q: v[conc(q)]), False
        if isinstance(v, ListV):
            it = st.heap[v.id]
            if isinstance(it, tuple):
                return z3.IntVal(len(it)), (lambda st, q: it[conc(q)]), False
        if isinstance(v, str):
            return z3.IntVal(len(v)), (lambda st, q: v[conc(q)]), False
        if isinstance(v, DictV):
            it = tuple(st.heap[v.id].keys())
            return z3.IntVal(len(it)), (lambda st, q: it[conc(q)]), False
        raise Unsupported('iteration over %s' % type(v).__name__)

    def iter_concrete(self, v, st):
        c, item, _ = self.iter_spec(v, st, None)
        n = conc(c)
        if n is None or n > 64:
            raise Unsupported('iteration of unknown length')
        return [item(st, z3.IntVal(i)) for i in range(n)]

    def x_While(self, n, st):
        """Concrete unrolling only."""
        outs, cur = [], [st]
        for _ in range(self.unroll):
            nxt = []
            for s in cur:
                c = self.truth(self.eval(n.test, s), s, n)
                k = self.known(c, s)
                if k is None:
                    raise Unsupported('while loop with a symbolic condition')
                if not k:
                    outs.append(Outcome('next', s))
                    continue
                for o in self.exec_block(n.body, s):
                    if o.kind in ('next', 'continue'):
                        nxt.append(o.st)
                    elif o.kind == 'break':
                        outs.append(Outcome('next', o.st))
                    else:
                        outs.append(o)
            cur = nxt
            if not cur:
                return outs
        raise Unsupported('while loop')

    def x_For(self, n, st):
        it = self.eval(n.iter, st)
        cnt, item, par = self.iter_spec(it, st, n)
        c = conc(cnt)
        if self.for_contract is not None:
            r = self.for_contract(n, st, cnt, item)
            if r is not None:
                return r
        if c is not None and c <= self.unroll:
            outs, cur = [], [st]
            for i in range(max(c, 0)):
                nxt = []
                for s in cur:
                    self.assign(n.target, item(s, z3.IntVal(i)), s)
                    for o in self.exec_block(n.body, s):
                        if o.kind in ('next', 'continue'):
                            nxt.append(o.st)
                        elif o.kind == 'break':
                            outs.append(Outcome('next', o.st))
                        else:
                            outs.append(o)
                cur = self.try_merge(nxt) if len(nxt) > 1 else nxt
            for s in cur:
                outs += self.exec_block(n.orelse, s)
            return outs
        par = par and self.frames[-1].parallel and self.par_depth == 0
        return Loop(self, n, st, cnt, item, par, it).run()

    # -------------------------------------------------------------------------------- expressions
    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %d)' % (type(n).__name__, self.line(n)))
        return m(n, st)

    def e_Constant(self, n, st):
        return n.value

    def name(self, name, st, node=None):
        if name in st.locals:
            v = st.locals[name]
            if isinstance(v, Poison):
                raise Unsupported('use of %s: %s' % (name, v.why))
            return v
        f = self.frames[-1]
        if f.func is not None and f.func.closure is not None and name in f.func.closure:
            return f.func.closure[name]
        v = self.repo.lookup(f.module, name)
        if v is not None:
            return self.from_global(v, st)
        if name in f.module.assigns:
            return self.from_global(('assign', f.module, name), st)
        return FuncV('builtins.' + name)

    def from_global(self, v, st):
        if isinstance(v, tuple) and v and v[0] == 'assign':
            _, m, name = v
            self.frames.append(Frame(m, None))
            try:
                return self.eval(m.assigns[name], State())
            except Unsupported:
                return FuncV(m.name + '.' + name)
            finally:
                self.frames.pop()
        return v

    def e_Name(self, n, st):
        return self.name(n.id, st, n)

    def e_Tuple(self, n, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += self.iter_concrete(self.eval(e.value, st), st)
            else:
                out.append(self.eval(e, st))
        return tuple(out)

    def new_list(self, items, st):
        i = 'L%d' % uid()
        st.heap[i] = tuple(items)
        return ListV(i)

    def e_List(self, n, st):
        return self.new_list(self.e_Tuple(n, st), st)

    def e_Dict(self, n, st):
        i = 'D%d' % uid()
        d = {}
        for k, v in zip(n.keys, n.values):
            kk = self.eval(k, st)
            if not isinstance(kk, (str, int)):
                raise Unsupported('dict with a symbolic key')
            d[kk] = self.eval(v, st)
        st.heap[i] = d
        return DictV(i)

    def e_JoinedStr(self, n, st):
        return FuncV('str.formatted')

    def e_Lambda(self, n, st):
        return RepoFunc(self.frames[-1].module, n, closure=dict(st.locals))

    def e_IfExp(self, n, st):
        c = self.truth(self.eval(n.test, st), st, n)
        k = self.known(c, st)
        if k is not None:
            return self.eval(n.body if k else n.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(c)
        s2.pc.append(z3.Not(c))
        a, b = self.eval(n.body, s1), self.eval(n.orelse, s2)
        m, v = self.merge_states([(s1, a), (s2, b)])
        st.locals, st.heap, st.pc, st.ghost = m.locals, m.heap, m.pc, m.ghost
        return v

    def truth(self, v, st, node=None):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if is_num(v):
            return boolean(v)
        if v is None:
            return z3.BoolVal(False)
        if isinstance(v, str):
            return z3.BoolVal(len(v) > 0)
        if isinstance(v, tuple):
            return z3.BoolVal(len(v) > 0)
        if isinstance(v, ListV):
            it = st.heap[v.id]
            if isinstance(it, tuple):
                return z3.BoolVal(len(it) > 0)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return boolean(self.get(st, v, [], node))
            raise Unsupported('truth value of an array')
        if isinstance(v, (FuncV, RepoFunc, ObjV)):
            return z3.BoolVal(True)
        if isinstance(v, Opq):
            return z3.Function('truth', v.term.sort(), B)(v.term)
        raise Unsupported('truth value of %s' % type(v).__name__)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        acc = None
        s = st
        for e in n.values:
            v = self.eval(e, s)
            try:
                c = self.truth(v, s, n)
            except Unsupported:
                if acc is None and e is n.values[-1]:
                    return v
                raise
            acc = c if acc is None else (z3.And(acc, c) if isand else z3.Or(acc, c))
            k = self.known(acc, st)
            if k is (False if isand else True):
                return k if not is_z(v) else z3.BoolVal(k)
            if e is not n.values[-1]:
                s2 = s.copy()
                s2.pc.append(c if isand else z3.Not(c))
                s2.heap = s.heap
                s = s2
        return z3.simplify(acc) if not isinstance(conc(acc), bool) else conc(acc)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        return self.unop(n.op, v, st, n)

    def unop(self, op, v, st, n):
        if isinstance(op, ast.Not):
            c = z3.simplify(z3.Not(self.truth(v, st, n)))
            return conc(c) if conc(c) is not None else c
        if isinstance(v, Arr):
            f = self.elem(st, v, n)
            if isinstance(op, ast.USub):
                return self.alloc(st, v.shape, v.dtype, lambda *i: -f(*i))
            if isinstance(op, ast.Invert) and v.dtype == 'bool':
                return self.alloc(st, v.shape, 'bool', lambda *i: z3.Not(f(*i)))
            raise Unsupported('unary operator on an array')
        if isinstance(op, ast.USub):
            return -v if not is_z(v) else simp(-(integer(v) if v.sort() == B else v))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert) and is_z(v) and v.sort() == B:
            return z3.Not(v)
        raise Unsupported('unary operator')

    def e_BinOp(self, n, st):
        a, b = self.eval(n.left, st), self.eval(n.right, st)
        return self.binop(n.op, a, b, st, n)

    def binop(self, op, a, b, st, n):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (ListV, tuple)):
                a = self.as_array(a, st, n)
            if isinstance(b, (ListV, tuple)):
                b = self.as_array(b, st, n)
            return self.elementwise(lambda x, y, s: self.scalar_op(op, x, y, s, n), [a, b], st, n)
        if is_num(a) and is_num(b):
            return self.scalar_op(op, a, b, st, n)
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, ListV) and isinstance(b, ListV) and isinstance(op, ast.Add):
            return self.new_list(st.heap[a.id] + st.heap[b.id], st)
        if isinstance(a, ListV) and isinstance(b, int) and isinstance(op, ast.Mult):
            return self.new_list(st.heap[a.id] * b, st)
        if isinstance(a, str) and isinstance(op, ast.Mod):
            return FuncV('str.formatted')
        if isinstance(a, (str, FuncV)) and isinstance(b, (str, FuncV)) and isinstance(op, ast.Add):
            return FuncV('str.formatted')
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.opq_call('op.' + type(op).__name__, [a, b], {}, st, n)
        raise Unsupported('operator on %s and %s' % (type(a).__name__, type(b).__name__))

    def scalar_op(self, op, a, b, st, n):
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            a, b = to_z3(a), to_z3(b)
            if a.sort() == B and b.sort() == B:
                return z3.And(a, b) if isinstance(op, ast.BitAnd) else z3.Or(a, b) if isinstance(op, ast.BitOr) else z3.Xor(a, b)
            raise Unsupported('bit operation on integers')
        ca, cb = (a if not is_z(a) else conc(a)), (b if not is_z(b) else conc(b))
        if isinstance(op, ast.Pow):
            if ca is not None and cb is not None and isinstance(ca, int) and isinstance(cb, int) and cb >= 0:
                return ca ** cb
            if cb == 2 and not isinstance(cb, bool):
                x, _ = unify2(a, 0)
                return simp(x * x)
            if cb == 1:
                return a
            if cb == 0.5:
                return SQRT(real(a))
            if ca == 2:
                return EXP2(real(b))
            return POW(real(a), real(b))
        if isinstance(op, ast.Div):
            x, y = real(a), real(b)
            self.oblige('div', y != 0, st, n, 'divisor is not zero')
            return rdiv(x, y)
        x, y = unify2(a, b)
        if x.sort() == B:
            x, y = integer(x), integer(y)
        if isinstance(op, ast.Add):
            return simp(x + y)
        if isinstance(op, ast.Sub):
            return simp(x - y)
        if isinstance(op, ast.Mult):
            return simp(x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if x.sort() == R:
                if isinstance(op, ast.FloorDiv):
                    self.oblige('div', y != 0, st, n, 'divisor is not zero')
                    return z3.ToReal(z3.ToInt(rdiv(x, y)))
                raise Unsupported('modulo on reals')
            self.oblige('div', y > 0, st, n, 'divisor is positive')
            return quo(x, y) if isinstance(op, ast.FloorDiv) else mod(x, y)
        raise Unsupported('operator %s' % type(op).__name__)

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        acc = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            c = self.compare(op, left, right, st, n)
            if acc is None:
                acc = c
            elif isinstance(acc, Arr) or isinstance(c, Arr):
                raise Unsupported('chained comparison of arrays')
            else:
                acc = z3.And(to_z3(acc), to_z3(c))
            left = right
        if is_z(acc) and isinstance(conc(acc), bool):
            return conc(acc)
        return acc

    def compare(self, op, a, b, st, n):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if a is None or b is None:
                x = a if b is None else b
                if isinstance(x, Opq):
                    t = z3.Function('is_none', x.term.sort(), B)(x.term)
                    return z3.Not(t) if neg else t
                return (x is None) != neg
            if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, (FuncV, ObjV, RepoFunc)):
                if is_z(a) or is_z(b):
                    x, y = unify2(a, b)
                    return z3.Not(x == y) if neg else x == y
                return self.same(a, b) != neg
            raise Unsupported('identity test')
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            if isinstance(b, DictV):
                return (a in st.heap[b.id]) != neg
            if isinstance(b, (tuple, ListV)):
                its = b if isinstance(b, tuple) else st.heap[b.id]
                cs = [self.compare(ast.Eq(), a, x, st, n) for x in its]
                if all(isinstance(c, bool) for c in cs):
                    return any(cs) != neg
                r = z3.Or(*[to_z3(c) for c in cs])
                return z3.Not(r) if neg else r
            if isinstance(a, str) and isinstance(b, str):
                return (a in b) != neg
            raise Unsupported('membership test')
        if isinstance(a, Arr) or isinstance(b, Arr):
            if (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
                raise Unsupported('comparison of an array with a non array')
            return self.elementwise(lambda x, y, s: self.scalar_cmp(op, x, y), [a, b], st, n, 'bool')
        if is_num(a) and is_num(b):
            return self.scalar_cmp(op, a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            if isinstance(a, Opq) or isinstance(b, Opq):
                x, y = self.to_obj(a, st), self.to_obj(b, st)
                if x.sort() == y.sort():
                    return (x != y) if neg else (x == y)
            simple = (str, int, float, bool, type(None), FuncV, ObjV, RepoFunc, tuple)
            if isinstance(a, simple) and isinstance(b, simple):
                return self.same_dtype(a, b) != neg
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    DTALIAS = {'builtins.int': 'int', 'numpy.int64': 'int', 'numpy.int_': 'int', 'builtins.float': 'real',
               'numpy.float64': 'real', 'numpy.float_': 'real', 'builtins.bool': 'bool', 'numpy.bool_': 'bool',
               'numpy.object_': 'obj', 'builtins.object': 'obj'}

    def same_dtype(self, a, b):
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            x, y = self.DTALIAS.get(a.name, a.name), self.DTALIAS.get(b.name, b.name)
            x = x[6:] if x.startswith('dtype:') else x
            y = y[6:] if y.startswith('dtype:') else y
            return x == y
        return self.same(a, b)

    def scalar_cmp(self, op, a, b):
        if not is_z(a) and not is_z(b):
            return {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        x, y = unify2(a, b)
        if x.sort() == B and not isinstance(op, (ast.Eq, ast.NotEq)):
            x, y = integer(x), integer(y)
        return {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

    # -------------------------------------------------------------------------------- arrays
    def elementwise(self, f, args, st, n, dtype=None):
        """f(x, y, ..., state) applied with broadcasting."""
        shape = None
        nd = max(a.ndim for a in args if isinstance(a, Arr))
        shape = [None] * nd
        for a in args:
            if isinstance(a, Arr):
                for k in range(a.ndim):
                    j = nd - a.ndim + k
                    d = a.shape[k]
                    if shape[j] is None or conc(shape[j]) == 1:
                        shape[j] = d
                    elif conc(d) == 1:
                        pass
                    else:
                        self.oblige('shape', to_z3(shape[j]) == to_z3(d), st, n, 'operands of an array operation have the same shape')
        getters = []
        for a in args:
            if isinstance(a, Arr):
                g = self.elem(st, a, n)
                off = nd - a.ndim
                sel = []
                for k in range(a.ndim):
                    one = conc(a.shape[k]) == 1 and conc(shape[off + k]) != 1
                    sel.append(None if one else off + k)
                getters.append((lambda g, sel: lambda *i: g(*[z3.IntVal(0) if s is None else i[s] for s in sel]))(g, sel))
            else:
                getters.append((lambda a: lambda *i: a)(a))
        bs = [z3.Const('!e%d' % uid(), I) for _ in range(nd)]
        s2 = st.copy()
        s2.pc += [c for b, d in zip(bs, shape) for c in (0 <= b, b < to_z3(d))]
        probe = f(*[g(*bs) for g in getters], s2)       # obligations at a generic element
        probe = to_z3(probe)
        dt = dtype or dtype_of_sort(probe.sort())
        q = self

        def content(*i):
            q.quiet += 1
            try:
                return conv(f(*[g(*i) for g in getters], State()), dt)
            finally:
                q.quiet -= 1
        return self.alloc(st, shape, dt, content)

    def as_array(self, v, st, n=None):
        if isinstance(v, Arr):
            return v
        if isinstance(v, (tuple, ListV)):
            its = v if isinstance(v, tuple) else st.heap[v.id]
            if isinstance(its, Arr):
                return its
            if all(is_num(x) for x in its) and its:
                zs = [to_z3(x) for x in its]
                dt = 'real' if any(z.sort() == R for z in zs) else 'int' if any(z.sort() == I for z in zs) else 'bool'
                zs = [conv(z, dt) for z in zs]

                def content(i):
                    r = zs[-1]
                    for k in range(len(zs) - 2, -1, -1):
                        r = ite(i == k, zs[k], r)
                    return r
                return self.alloc(st, [len(zs)], dt, content)
        if is_num(v):
            z = to_z3(v)
            return self.alloc(st, [], dtype_of_sort(z.sort()), lambda: z)
        raise Unsupported('array from %s' % type(v).__name__)

    def eval_index(self, n, st):
        if isinstance(n, ast.Tuple):
            return [self.eval_index1(e, st) for e in n.elts]
        return [self.eval_index1(n, st)]

    def eval_index1(self, e, st):
        if isinstance(e, ast.Slice):
            return SliceV(self.eval(e.lower, st) if e.lower else None, self.eval(e.upper, st) if e.upper else None,
                          self.eval(e.step, st) if e.step else None)
        return self.eval(e, st)

    def norm_idx(self, i, dim):
        """Python semantics of a literal negative index."""
        c = conc(i)
        if isinstance(c, int) and not isinstance(c, bool) and c < 0:
            return simp(to_z3(dim) + c)
        return integer(i)

    def slice_bounds(self, s, dim, st, node):
        dim = to_z3(dim)

        def neg(v):
            c = conc(v)
            if isinstance(c, int) and c < 0:
                return simp(dim + c)
            return integer(v)
        lo = z3.IntVal(0) if s.lo is None else neg(s.lo)
        hi = dim if s.hi is None else neg(s.hi)
        step = 1 if s.step is None else conc(s.step)
        if s.step is not None and step is None:
            raise Unsupported('slice with a symbolic step')
        if step != 1:
            raise Unsupported('slice with a step')
        if not (s.lo is None and s.hi is None):
            self.oblige('slice', z3.And(0 <= lo, lo <= hi, hi <= dim), st, node, 'slice lies inside its array')
        return lo, simp(hi - lo)

    def view(self, arr, idx, st, node):
        """Basic indexing (integers and slices) -> Arr view."""
        n_new = sum(1 for i in idx if i is None)
        if n_new:
            raise Unsupported('newaxis')
        if any(i is Ellipsis for i in idx):
            k = [j for j, i in enumerate(idx) if i is Ellipsis][0]
            fill = arr.ndim - (len(idx) - 1)
            idx = idx[:k] + [SliceV(None, None, None)] * fill + idx[k + 1:]
        idx = list(idx) + [SliceV(None, None, None)] * (arr.ndim - len(idx))
        if len(idx) > arr.ndim:
            self.fail('bounds', 'too many indexes', node, st)
            raise Unsupported('too many indexes')
        shape, dimmap = [], []       # dimmap[k] = ('fix', t) | ('dim', newdim, start)
        for k, i in enumerate(idx):
            if isinstance(i, SliceV):
                lo, ln = self.slice_bounds(i, arr.shape[k], st, node)
                dimmap.append(('dim', len(shape), lo))
                shape.append(ln)
            else:
                t = self.norm_idx(i, arr.shape[k])
                self.oblige('bounds', z3.And(0 <= t, t < to_z3(arr.shape[k])), st, node, 'index %d is inside its array' % k)
                dimmap.append(('fix', t))
        if arr.axes is not None:
            axes = []
            for a in arr.axes:
                if a[0] == 'fix':
                    axes.append(a)
                else:
                    d = dimmap[a[1]]
                    if d[0] == 'fix':
                        axes.append(('fix', simp(to_z3(d[1]) + to_z3(a[2]))))
                    else:
                        axes.append(('dim', d[1], simp(to_z3(d[2]) + to_z3(a[2]))))
            return Arr(arr.buf, shape, arr.dtype, axes)

        def fmap(*i):
            src = [to_z3(d[1]) if d[0] == 'fix' else to_z3(i[d[1]]) + to_z3(d[2]) for d in dimmap]
            return arr.fmap(*src)
        return Arr(arr.buf, shape, arr.dtype, None, fmap)

    def index_arr(self, arr, idx, st, node):
        """Value of arr[idx] (scalar, view or copy)."""
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = list(idx[0])
        idx = [self.as_array(i, st, node) if isinstance(i, ListV) else i for i in idx]
        adv = [k for k, i in enumerate(idx) if isinstance(i, Arr) and i.ndim > 0]
        idx = [self.get(st, i, [], node) if isinstance(i, Arr) and i.ndim == 0 else i for i in idx]
        if not adv:
            for i in idx:
                if not (is_num(i) or isinstance(i, SliceV) or i is Ellipsis or i is None):
                    raise Unsupported('index of kind %s' % type(i).__name__)
            if len(idx) == arr.ndim and all(is_num(i) for i in idx):
                ii = [self.norm_idx(i, d) for i, d in zip(idx, arr.shape)]
                return self.get(st, arr, ii, node)
            return self.view(arr, idx, st, node)
        if len(adv) > 1:
            raise Unsupported('several index arrays')
        k = adv[0]
        ia = idx[k]
        # basic part first
        basic = [SliceV(None, None, None) if j == k else i for j, i in enumerate(idx)]
        v = self.view(arr, basic, st, node)
        # dimension of the view corresponding to position k
        dim = sum(1 for j in range(k) if isinstance(basic[j], SliceV))
        if ia.dtype == 'bool':
            if ia.ndim != 1:
                raise Unsupported('multidimensional boolean mask')
            self.oblige('shape', to_z3(ia.shape[0]) == to_z3(v.shape[dim]), st, node, 'boolean mask has the length of its array')
            m = self.elem(st, ia, node)
            w = WhereOp(ia.shape[0], m)
            cnt, pos = w.count, w.at
        else:
            if ia.ndim != 1:
                raise Unsupported('multidimensional index array')
            g = self.elem(st, ia, node)
            b = z3.Const('!i%d' % uid(), I)
            s2 = st.copy()
            s2.pc += [0 <= b, b < to_z3(ia.shape[0])]
            e = g(b)
            self.oblige('bounds', z3.And(0 <= e, e < to_z3(v.shape[dim])), s2, node, 'indexes of an index array are inside the array')
            cnt, pos = to_z3(ia.shape[0]), g
        src = self.elem(st, v, node)
        shape = list(v.shape)
        shape[dim] = cnt
        return self.alloc(st, shape, v.dtype, lambda *i: src(*[pos(x) if j == dim else x for j, x in enumerate(i)]))

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        return self.subscript(o, n, st)

    def subscript(self, o, n, st):
        idx = self.eval_index(n.slice, st)
        if isinstance(o, Arr):
            return self.index_arr(o, idx, st, n)
        if isinstance(o, (tuple, ListV, str)):
            its = st.heap[o.id] if isinstance(o, ListV) else o
            if isinstance(its, Arr):
                return self.index_arr(its, idx, st, n)
            if isinstance(idx[0], SliceV):
                s = idx[0]
                lo, hi, stp = [None if x is None else conc(x) for x in (s.lo, s.hi, s.step)]
                r = its[slice(lo, hi, stp)]
                return self.new_list(r, st) if isinstance(o, ListV) else r
            c = conc(idx[0]) if is_num(idx[0]) else None
            if c is None:
                raise Unsupported('symbolic index of a tuple')
            if not -len(its) <= c < len(its):
                self.fail('bounds', 'index %d of a sequence of %d items' % (c, len(its)), n, st)
                raise Unsupported('index out of range')
            return its[c]
        if isinstance(o, DictV):
            d = st.heap[o.id]
            if idx[0] in d:
                return d[idx[0]]
            self.fail('noerror', 'missing key', n, st)
            raise Unsupported('missing key')
        if isinstance(o, Opq):
            return self.opq_item(o, idx, st)
        raise Unsupported('subscript of %s' % type(o).__name__)

    def store(self, t, v, st):
        o = self.eval(t.value, st)
        if isinstance(o, DictV):
            k = self.eval(t.slice, st)
            d = dict(st.heap[o.id])
            d[k] = v
            st.heap[o.id] = d
            return
        idx = self.eval_index(t.slice, st)
        if isinstance(o, ListV):
            c = conc(idx[0])
            l = list(st.heap[o.id])
            if c is None or not -len(l) <= c < len(l):
                raise Unsupported('symbolic store in a list')
            l[c] = v
            st.heap[o.id] = tuple(l)
            return
        if not isinstance(o, Arr):
            raise Unsupported('store in %s' % type(o).__name__)
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = list(idx[0])
        if any(isinstance(i, (Arr, ListV)) for i in idx):
            if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].ndim == 1 and o.ndim == 1 and o.axes is not None:
                ia = idx[0]
                rec_f = self.elem(st, o)
                g = self.elem(st, ia)
                if ia.dtype == 'bool' and is_num(v):
                    self.oblige('shape', to_z3(ia.shape[0]) == to_z3(o.shape[0]), st, t, 'boolean mask has the length of its array')
                    self.set_range(st, o, lambda i: ite(g(i), conv(v, o.dtype), lambda: rec_f(i)), t)
                    return
                if ia.dtype == 'int' and is_num(v):
                    n_ = to_z3(ia.shape[0])
                    b = z3.Const('!i%d' % uid(), I)
                    s2 = st.copy()
                    s2.pc += [0 <= b, b < n_]
                    self.oblige('bounds', z3.And(0 <= g(b), g(b) < to_z3(o.shape[0])), s2, t, 'indexes of an index array are inside the array')
                    self.set_range(st, o, lambda i: ite(Any(n_, lambda k: g(k) == i), conv(v, o.dtype), lambda: rec_f(i)), t)
                    return
            raise Unsupported('store through an index array')
        full = [self.norm_idx(i, d) if is_num(i) else i for i, d in zip(idx, o.shape)]
        if len(idx) == o.ndim and all(is_num(i) for i in idx):
            if not is_num(v):
                if isinstance(v, Arr) and v.ndim == 0:
                    v = self.get(st, v, [], t)
                else:
                    raise Unsupported('store of a non number')
            self.set(st, o, full, v, t)
            return
        self.store_view(self.view(o, full, st, t), v, st, t)

    def store_view(self, view, v, st, node):
        if isinstance(v, (tuple, ListV)):
            its = v if isinstance(v, tuple) else st.heap[v.id]
            if isinstance(its, tuple) and view.ndim == 1 and all(is_num(x) for x in its):
                self.oblige('shape', to_z3(view.shape[0]) == len(its), st, node, 'as many values as places')
                for k, x in enumerate(its):
                    self.set(st, view, [z3.IntVal(k)], x, node)
                return
            v = self.as_array(v, st, node)
        if is_num(v):
            c = conv(v, view.dtype)
            self.set_range(st, view, lambda *i: c, node)
            return
        if isinstance(v, Arr):
            f = self.elem(st, v, node)
            if v.ndim > view.ndim:
                raise Unsupported('store of an array of higher rank')
            off = view.ndim - v.ndim
            sel = []
            for k in range(v.ndim):
                one = conc(v.shape[k]) == 1 and conc(view.shape[off + k]) != 1
                if not one:
                    self.oblige('shape', to_z3(v.shape[k]) == to_z3(view.shape[off + k]), st, node, 'stored array has the shape of its place')
                sel.append(None if one else off + k)
            self.set_range(st, view, lambda *i: f(*[z3.IntVal(0) if s is None else i[s] for s in sel]), node)
            return
        raise Unsupported('store of %s' % type(v).__name__)

    # -------------------------------------------------------------------------------- attributes and calls
    def e_Attribute(self, n, st):
        return self.getattr(self.eval(n.value, st), n.attr, st, n)

    def getattr(self, o, name, st, node):
        if isinstance(o, ModuleV):
            full = o.name + '.' + name
            if o.name in self.repo.modules:
                return self.from_global(self.repo.resolve(o.name, name), st)
            return self.models_const.get(full, FuncV(full))
        if isinstance(o, FuncV):
            return self.models_const.get(o.name + '.' + name, FuncV(o.name + '.' + name))
        if isinstance(o, Arr):
            if name == 'shape':
                return tuple(o.shape)
            if name == 'ndim':
                return o.ndim
            if name == 'size':
                r = z3.IntVal(1)
                for s in o.shape:
                    r = r * to_z3(s)
                return simp(r)
            if name == 'dtype':
                return FuncV('dtype:' + o.dtype)
            if name == 'T':
                f = self.elem(st, o, node)
                return self.alloc(st, o.shape[::-1], o.dtype, lambda *i: f(*i[::-1]))
            return ArrMethod(o, name)
        if isinstance(o, ObjV):
            d = st.heap[o.id]
            if name in d:
                v = d[name]
                if isinstance(v, Poison):
                    raise Unsupported('attribute %s: %s' % (name, v.why))
                return v
            if isinstance(o.cls, RepoClass):
                m = self.repo.method(o.cls, name)
                if m is not None:
                    return BoundMethod(o, m)
            r = self.obj_attr(o, name, st, node)
            if r is not None:
                return r
            return OpqMethod(o, name)
        if isinstance(o, (Opq,)):
            return self.opq_attr(o, name, st, node)
        if isinstance(o, (ListV, DictV, str, tuple)):
            return OpqMethod(o, name)
        if isinstance(o, BoundMethod) or isinstance(o, RepoFunc):
            return FuncV('funcattr.' + name)
        if isinstance(o, OpqMethod):
            return OpqMethod(o, name)
        if is_num(o):
            return OpqMethod(o, name)
        if isinstance(o, RepoClass):
            m = self.repo.method(o, name)
            if m is not None:
                return m
        raise Unsupported('attribute %s of %s' % (name, type(o).__name__))

    def obj_attr(self, o, name, st, node):
        return None

    def opq_attr(self, o, name, st, node):
        return OpqMethod(o, name)

    def opq_item(self, o, idx, st):
        return self.opq_call('getitem', [o, idx if not isinstance(idx, list) else tuple(idx)], {}, st, None)

    def to_obj(self, v, st):
        """A term standing for any value."""
        if isinstance(v, Opq):
            return v.term
        if is_z(v):
            return z3.Function('box_%s' % v.sort(), v.sort(), OBJ)(v)
        if isinstance(v, (bool, int, float)):
            z = to_z3(v)
            return z3.Function('box_%s' % z.sort(), z.sort(), OBJ)(z)
        if v is None or isinstance(v, str):
            return z3.Const('const:%r' % (v,), OBJ)
        if isinstance(v, (FuncV, ModuleV)):
            return z3.Const('const:%s' % v.name, OBJ)
        if isinstance(v, RepoFunc):
            return z3.Const('const:repo.%s' % v.name, OBJ)
        if isinstance(v, RepoClass):
            return z3.Const('const:repo.%s' % v.name, OBJ)
        if isinstance(v, tuple):
            return z3.Function('tuple%d' % len(v), *([OBJ] * (len(v) + 1)))(*[self.to_obj(x, st) for x in v]) if v else z3.Const('const:()', OBJ)
        if isinstance(v, ListV):
            it = st.heap[v.id]
            if isinstance(it, tuple):
                return z3.Function('list%d' % len(it), *([OBJ] * (len(it) + 1)))(*[self.to_obj(x, st) for x in it]) if it else z3.Const('const:[]', OBJ)
        if isinstance(v, ObjV):
            return z3.Const('obj:%s' % v.id, OBJ)
        if isinstance(v, SliceV):
            return z3.Function('slice', OBJ, OBJ, OBJ, OBJ)(*[self.to_obj(x, st) for x in (v.lo, v.hi, v.step)])
        if isinstance(v, Arr):
            f = self.elem(st, v)
            # an array as a term: a function of its shape and content
            if v.ndim == 0:
                return self.to_obj(f(), st)
            L = TH.lam(lambda *i: f(*i), v.ndim)
            t = L.app('arr', [to_z3(s) for s in v.shape], OBJ)
            return t
        if isinstance(v, (BoundMethod,)):
            return z3.Function('bound:' + v.func.name, OBJ, OBJ)(self.to_obj(v.obj, st))
        if isinstance(v, OpqMethod):
            return z3.Function('attr:' + v.name, OBJ, OBJ)(self.to_obj(v.obj, st))
        if isinstance(v, DictV):
            d = st.heap[v.id]
            ks = sorted(d, key=str)
            return z3.Function('dict:' + ','.join(map(str, ks)), *([OBJ] * (len(ks) + 1)))(*[self.to_obj(d[k], st) for k in ks]) if ks else z3.Const('const:{}', OBJ)
        raise Unsupported('opaque use of %s' % type(v).__name__)

    def opq_call(self, name, args, kw, st, node, tag=None):
        ks = sorted(kw)
        ts = [self.to_obj(a, st) for a in args] + [self.to_obj(kw[k], st) for k in ks]
        fname = 'call:%s(%d%s)' % (name, len(args), ''.join(',' + k for k in ks))
        f = z3.Function(fname, *([OBJ] * (len(ts) + 1)))
        return Opq(f(*ts), tag)

    def e_Call(self, n, st):
        f = self.eval(n.func, st)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                args += self.iter_concrete(v, st)
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, st)
                if isinstance(d, DictV):
                    kw.update(st.heap[d.id])
                else:
                    raise Unsupported('** of an unknown mapping')
            else:
                kw[k.arg] = self.eval(k.value, st)
        return self.call(f, args, kw, st, n)

    def call(self, f, args, kw, st, n):
        if isinstance(f, RepoFunc):
            return self.call_repo(f, args, kw, st, n)
        if isinstance(f, BoundMethod):
            return self.call_repo(f.func, [f.obj] + args, kw, st, n)
        if isinstance(f, FuncV):
            m = self.models.get(f.name)
            if m is not None:
                return m(st, args, kw, n)
            return self.external(f, args, kw, st, n)
        if isinstance(f, ArrMethod):
            m = self.models.get('ndarray.' + f.name)
            if m is None:
                raise Unsupported('array method %s' % f.name)
            return m(st, [f.arr] + args, kw, n)
        if isinstance(f, OpqMethod):
            return self.method_call(f, args, kw, st, n)
        if isinstance(f, RepoClass):
            return self.construct(f, args, kw, st, n)
        raise Unsupported('call of %s' % type(f).__name__)

    def external(self, f, args, kw, st, n):
        raise Unsupported('call of %s, which has no model' % f.name)

    def method_call(self, f, args, kw, st, n):
        o = f.obj
        if isinstance(o, ListV):
            it = st.heap[o.id]
            if f.name == 'append' and isinstance(it, tuple):
                st.heap[o.id] = it + (args[0],)
                return None
            if f.name == 'extend' and isinstance(it, tuple):
                st.heap[o.id] = it + tuple(self.iter_concrete(args[0], st))
                return None
        if isinstance(o, str):
            if f.name in ('lower', 'upper', 'strip') and not args:
                return getattr(o, f.name)()
            if f.name == 'format':
                return FuncV('str.formatted')
            if f.name == 'startswith' and isinstance(args[0], str):
                return o.startswith(args[0])
        if isinstance(o, DictV):
            d = st.heap[o.id]
            if f.name == 'keys':
                return self.new_list(tuple(d.keys()), st)
            if f.name == 'items':
                return self.new_list(tuple((k, v) for k, v in d.items()), st)
            if f.name == 'values':
                return self.new_list(tuple(d.values()), st)
        return self.external_method(o, f.name, args, kw, st, n)

    def external_method(self, o, name, args, kw, st, n):
        raise Unsupported('method %s of %s' % (name, o))

    def construct(self, cls, args, kw, st, n):
        o = ObjV(cls, 'o%d' % uid())
        st.heap[o.id] = {}
        init = self.repo.method(cls, '__init__')
        if init is not None:
            self.call_repo(init, [o] + args, kw, st, n)
        return o

    def bind(self, f, args, kw, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        if len(args) > len(names) and a.vararg is None:
            raise Unsupported('too many arguments for %s' % f.name)
        for nme, v in zip(names, args):
            loc[nme] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(names):])
        kwn = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in loc:
                    raise Unsupported('argument %s given twice' % k)
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Unsupported('unexpected argument %s for %s' % (k, f.name))
        if a.kwarg is not None:
            i = 'D%d' % uid()
            st.heap[i] = extra
            loc[a.kwarg.arg] = DictV(i)
        dd = list(zip(reversed(names), reversed(a.defaults)))
        dd += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        self.frames.append(Frame(f.module, None))
        try:
            for nme, d in dd:
                if nme not in loc:
                    s = State()
                    s.heap = st.heap
                    if f.closure:
                        s.locals = dict(f.closure)
                    loc[nme] = self.eval(d, s)
        finally:
            self.frames.pop()
        miss = [x for x in names + kwn if x not in loc]
        if miss:
            raise Unsupported('missing argument %s of %s' % (miss, f.name))
        return loc

    def run_function(self, f, args, kw, st):
        """Execute the body: list of outcomes ('return' with value, or 'raise')."""
        loc = self.bind(f, args, kw, st)
        if len(self.frames) > 40:
            raise Unsupported('recursion')
        fr = Frame(f.module, f)
        self.frames.append(fr)
        saved = st.locals
        st.locals = loc
        try:
            if isinstance(f.node, ast.Lambda):
                outs = [Outcome('return', st, self.eval(f.node.body, st))]
            else:
                outs = self.exec_block(f.node.body, st)
        finally:
            self.frames.pop()
        res = []
        for o in outs:
            if o.kind == 'next':
                res.append(Outcome('return', o.st, None))
            elif o.kind in ('return', 'raise'):
                res.append(o)
            else:
                raise Unsupported('%s outside a loop' % o.kind)
        return res, saved

    def call_repo(self, f, args, kw, st, n):
        qn = (f.cls.name + '.' if f.cls is not None else '') + f.name
        self.called.add(qn)
        c = self.contracts.get(qn)
        if c is not None:
            loc = self.bind(f, args, kw, st)
            return c.apply(self, st, loc, n)
        outs, saved = self.run_function(f, args, kw, st)
        rets = [(o.st, o.value) for o in outs if o.kind == 'return']
        for o in outs:
            if o.kind == 'raise':
                s = o.st.copy()
                s.locals = dict(saved)
                self.raised.append((s, o.value))
        if not rets:
            # every path raises: the rest is unreachable
            st.locals = saved
            st.pc.append(z3.BoolVal(False))
            raise AllRaise(st)
        for s, _ in rets:
            s.locals = {}
        m, v = self.merge_states(rets)
        st.heap, st.pc, st.ghost = m.heap, m.pc, m.ghost
        st.locals = saved
        if isinstance(v, Poison):
            raise Unsupported('result of %s: %s' % (f.name, v.why))
        return v

    def e_ListComp(self, n, st):
        if len(n.generators) != 1:
            raise Unsupported('nested comprehension')
        g = n.generators[0]
        it = self.eval(g.iter, st)
        cnt, item, _ = self.iter_spec(it, st, n)
        c = conc(cnt)
        if c is not None and c <= 64:
            out = []
            for i in range(max(c, 0)):
                s = st.copy()
                s.heap = st.heap
                self.assign(g.target, item(s, z3.IntVal(i)), s)
                keep = True
                for cond in g.ifs:
                    k = self.known(self.truth(self.eval(cond, s), s, n), s)
                    if k is None:
                        raise Unsupported('comprehension with a symbolic filter')
                    keep = keep and k
                if keep:
                    out.append(self.eval(n.elt, s))
            return self.new_list(out, st)
        if g.ifs:
            raise Unsupported('comprehension with a filter over a symbolic range')
        q = z3.Const('!q%d' % uid(), I)
        s = st.copy()
        s.heap = st.heap
        s.pc += [0 <= q, q < cnt]
        self.loopvars.append(q)
        try:
            self.assign(g.target, item(s, q), s)
            v = self.eval(n.elt, s)
        finally:
            self.loopvars.pop()
        if is_num(v):
            z = to_z3(v)
            i = 'L%d' % uid()
            a = self.alloc(st, [cnt], dtype_of_sort(z.sort()), lambda t: z3.substitute(z, (q, to_z3(t))))
            st.heap[i] = a
            return ListV(i)
        raise Unsupported('comprehension of non numbers over a symbolic range')

    e_GeneratorExp = e_ListComp

    def e_Slice(self, n, st):
        return self.eval_index1(n, st)

    def e_Starred(self, n, st):
        raise Unsupported('starred expression')


from loops import Loop   # noqa: E402
