"""The estimator layer: python classes, lists of unknown length, objects of other libraries (scikit-learn, pandas,
joblib), on top of the interpreter. What is assumed about a library is a contract written here:
  estimators   est.fit(X, y) changes est only, to a state that is a function of its previous state, X and y, and returns est
               est.transform / predict / predict_proba / decision_function (X) are functions of the state and of X, they change nothing
  RandomState  check_random_state(x) is x for a RandomState, a function of x else; a draw returns an arbitrary value and is logged
  pure         the functions of PURE are functions of their arguments and change nothing
Everything else stops the proof (Unsupported)."""
import ast
import z3
import core
from core import *
from vals import *
from interp import Interp

PURE = {'sklearn.metrics.accuracy_score', 'sklearn.utils.extmath.softmax', 'sklearn.metrics.make_scorer',
        'os.cpu_count', 'numpy.logspace', 'numpy.iinfo', 'numpy.finfo', 'scipy.fft.fhtoffset'}
IGNORED = {'numba.set_num_threads', 'sklearn.utils.validation.check_is_fitted', 'warnings.warn', 'warnings.simplefilter'}
KINDS = {
    'int': {'builtins.int', 'numbers.Integral', 'numbers.Number'},
    'bool': {'builtins.bool', 'builtins.int', 'numbers.Integral', 'numbers.Number'},
    'float': {'builtins.float', 'numbers.Number', 'numbers.Real'},
    'np.int64': {'numpy.int64', 'numpy.int_', 'numpy.integer', 'numpy.signedinteger', 'numpy.number', 'numpy.generic', 'numbers.Integral', 'numbers.Number'},
    'np.float64': {'builtins.float', 'numpy.float64', 'numpy.float_', 'numpy.floating', 'numpy.number', 'numpy.generic', 'numbers.Number', 'numbers.Real'},
    'np.float32': {'numpy.float32', 'numpy.floating', 'numpy.number', 'numpy.generic', 'numbers.Number', 'numbers.Real'},
    'np.bool': {'numpy.bool_', 'numpy.generic'},
    'str': {'builtins.str'}, 'none': set(), 'list': {'builtins.list'}, 'tuple': {'builtins.tuple'}, 'dict': {'builtins.dict'},
    'ndarray': {'numpy.ndarray'}, 'DataFrame': {'pandas.DataFrame', 'pandas.core.frame.DataFrame'}, 'Series': {'pandas.Series'},
    'other': set(),
}
EXT = {'sklearn.preprocessing.LabelEncoder', 'sklearn.preprocessing.StandardScaler', 'sklearn.preprocessing.MinMaxScaler',
       'sklearn.linear_model.RidgeClassifierCV', 'sklearn.pipeline.Pipeline'}
TESTABLE = set().union(*KINDS.values()) | {'builtins.object'}


class SeqV:
    """A python list (or object array) of unknown length; items are made on demand."""
    def __init__(self, n, item, kind='list', uniform=None):
        self.n, self.item, self.kind = n, item, kind
        self.uniform = uniform


class ExtObj:
    """An object of another library. Its state (a term) is kept in the heap."""
    def __init__(self, cls, ident, args, kw):
        self.cls, self.id, self.args, self.kw = cls, ident, args, kw

    def __repr__(self):
        return 'ext:%s' % self.cls


class SuperV:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Thunk:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Delayed:
    def __init__(self, f):
        self.f = f


class Runner:
    """joblib.Parallel(...)"""


class Api(Interp):
    def __init__(self, *a, **k):
        Interp.__init__(self, *a, **k)
        self.pykind = {}
        self.rng_events = []        # (what, generator term, path condition, loop variables, inside a job)
        self.drawctx = []           # (site, index, draws so far) of the comprehension items being made
        self.resamples = []         # (replace, n_samples, stratify, generator term, picked position, size)
        self.calls = []             # (name, args, kw, result, path condition)
        self.injob = 0
        self.cls_contracts = {}     # class name -> contract(ip, st, args, kw, node) building the object
        api_models(self)

    def known(self, c, st):
        k = Interp.known(self, c, st)
        if k is None and is_z(c) and c.sort() == B:
            pc = list(st.pc)
            if solve(pc + [c], 0.3)[0] == z3.unsat:
                return False
            if solve(pc + [z3.Not(c)], 0.3)[0] == z3.unsat:
                return True
        return k

    # ------------------------------------------------------------------ kinds
    def kind(self, v, st):
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, float):
            return 'float'
        if isinstance(v, str) or isinstance(v, FuncV) and v.name == 'str.formatted':
            return 'str'
        if v is None:
            return 'none'
        if is_z(v):
            k = self.pykind.get(v.get_id())
            return k or {I: 'int', R: 'float', B: 'bool'}.get(v.sort()) or 'other'
        if isinstance(v, Arr):
            return 'ndarray'
        if isinstance(v, SeqV):
            return v.kind
        if isinstance(v, ListV):
            return 'list'
        if isinstance(v, tuple):
            return 'tuple'
        if isinstance(v, DictV):
            return 'dict'
        if isinstance(v, Opq) and v.tag in KINDS:
            return v.tag
        if isinstance(v, (ExtObj, ObjV)):
            return 'object'
        return None

    def tag(self, v, kind):
        """A scalar term that is a value of a numpy scalar type."""
        core._keep.append(v)
        self.pykind[v.get_id()] = kind
        return v

    def isinstance_(self, v, c, st):
        if isinstance(c, tuple):
            rs = [self.isinstance_(v, x, st) for x in c]
            return any(rs)
        if isinstance(c, FuncV):
            k = self.kind(v, st)
            if c.name == 'builtins.object':
                return True
            if k is None:
                raise Unsupported('isinstance of %s' % type(v).__name__)
            if k == 'object':
                if isinstance(v, ExtObj):
                    return v.cls == c.name
                return False if c.name in TESTABLE else self._fail('isinstance %s' % c.name)
            if c.name not in TESTABLE:
                if k == 'other':
                    raise Unsupported('isinstance %s' % c.name)
                return False
            return c.name in KINDS[k]
        if isinstance(c, RepoClass):
            if isinstance(v, ObjV):
                return self.subclass(v.cls, c)
            return False
        raise Unsupported('isinstance')

    def _fail(self, m):
        raise Unsupported(m)

    def subclass(self, a, b):
        if isinstance(a, RepoClass):
            if a.node is b.node:
                return True
            for x in a.node.bases:
                if isinstance(x, ast.Name):
                    y = self.repo.lookup(a.module, x.id)
                    if isinstance(y, RepoClass) and self.subclass(y, b):
                        return True
        return False

    # ------------------------------------------------------------------ sequences of unknown length
    def iter_spec(self, v, st, node):
        if isinstance(v, SeqV):
            return to_z3(v.n), (lambda s, q: v.item(s, to_z3(q))), False
        return Interp.iter_spec(self, v, st, node)

    def subscript(self, o, n, st):
        if isinstance(o, SeqV):
            idx = self.eval_index(n.slice, st)
            if len(idx) != 1 or not is_num(idx[0]):
                raise Unsupported('index of a list of unknown length')
            i = self.norm_idx(idx[0], o.n)
            self.oblige('bounds', z3.And(0 <= i, i < to_z3(o.n)), st, n, 'index is inside the list')
            return o.item(st, i)
        if isinstance(o, ExtObj):
            return self.ext_item(o, self.eval_index(n.slice, st), st, n)
        return Interp.subscript(self, o, n, st)

    def ext_item(self, o, idx, st, n):
        if o.cls == 'sklearn.pipeline.Pipeline' and isinstance(idx[0], str):
            for s in o.args:
                if self.step_name(s) == idx[0]:
                    r = ExtObj(s.cls, s.id, s.args, s.kw)
                    r.of = o
                    return r
        raise Unsupported('item of %s' % o)

    @staticmethod
    def step_name(s):
        c = s.cls
        return (c.name if isinstance(c, RepoClass) else str(c).rpartition('.')[2]).lower()

    def truth(self, v, st, node=None):
        if isinstance(v, SeqV):
            return to_z3(v.n) > 0
        if isinstance(v, (ExtObj, BoundMethod, SuperV)):
            return z3.BoolVal(True)
        return Interp.truth(self, v, st, node)

    def same(self, a, b):
        if isinstance(a, ExtObj) and isinstance(b, ExtObj):
            return a.id == b.id
        return Interp.same(self, a, b)

    # ------------------------------------------------------------------ comparisons with other kinds
    def compare(self, op, a, b, st, n):
        if isinstance(op, (ast.Is, ast.IsNot)) and not (isinstance(a, Opq) or isinstance(b, Opq)):
            if a is None or b is None:
                return ((a is None) == (b is None)) != isinstance(op, ast.IsNot)
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None):
            o = b if a is None else a
            if isinstance(o, Opq) and o.tag in KINDS and o.tag != 'other':
                return (o.tag == 'none') != isinstance(op, ast.IsNot)
        return Interp.compare(self, op, a, b, st, n)

    # ------------------------------------------------------------------ objects
    def state_of(self, o, st):
        return st.heap[o.id]

    def to_obj(self, v, st):
        if isinstance(v, ExtObj):
            s = self.state_of(v, st)
            return s
        if isinstance(v, SeqV):
            if v.uniform is not None:
                return v.uniform(st)
            q = z3.Const('!sq%d' % uid(), I)
            core._keep.append(q)
            s = st.copy()
            s.pc += [0 <= q, q < to_z3(v.n)]
            t = self.to_obj(v.item(s, q), s)
            L = TH.lam(lambda i: z3.substitute(t, (q, to_z3(i))), 1)
            return L.app('seq', [to_z3(v.n)], OBJ)
        if isinstance(v, ObjV) and isinstance(v.cls, RepoClass):
            d = st.heap[v.id]
            ks = sorted(k for k in d if not isinstance(d[k], Poison))
            f = z3.Function('object:%s(%s)' % (v.cls.name, ','.join(ks)), *([OBJ] * (len(ks) + 1)))
            return f(*[self.to_obj(d[k], st) for k in ks]) if ks else z3.Const('object:%s()' % v.cls.name, OBJ)
        return Interp.to_obj(self, v, st)

    def new_ext(self, cls, args, kw, st):
        o = ExtObj(cls, 'X%d' % uid(), args, kw)
        ks = sorted(kw)
        ts = [self.to_obj(a, st) for a in args] + [self.to_obj(kw[k], st) for k in ks]
        fn = 'new:%s(%d%s)' % (cls, len(args), ''.join(',' + k for k in ks))
        st.heap[o.id] = z3.Function(fn, *([OBJ] * (len(ts) + 1)))(*ts) if ts else z3.Const(fn, OBJ)
        return o

    def getattr(self, o, name, st, node):
        if isinstance(o, SuperV):
            return OpqMethod(o, name)
        if isinstance(o, ExtObj):
            return self.ext_attr(o, name, st, node)
        if isinstance(o, SeqV):
            if o.kind == 'ndarray':
                if name == 'dtype':
                    return FuncV('dtype:obj')
                if name == 'shape':
                    return (to_z3(o.n),)
                if name == 'ndim':
                    return 1
                if name == 'size':
                    return to_z3(o.n)
            return OpqMethod(o, name)
        if isinstance(o, Opq) and o.tag == 'DataFrame':
            if name in ('ndim', 'size') or name == 'shape':
                if name == 'ndim':
                    return 2
                sh = tuple(z3.Function('df_shape%d' % k, o.term.sort(), I)(o.term) for k in (0, 1))
                for s in sh:
                    self.assume(st, s >= 0)
                return sh if name == 'shape' else sh[0] * sh[1]
            if name == 'values':
                sh = self.getattr(o, 'shape', st, node)
                f = z3.Function('df_values', o.term.sort(), I, I, R)
                return self.alloc(st, list(sh), 'real', lambda i, j: f(o.term, i, j))
        return Interp.getattr(self, o, name, st, node)

    def obj_attr(self, o, name, st, node):
        return None

    def ext_attr(self, o, name, st, node):
        return OpqMethod(o, name)

    def setattr(self, o, name, v, st, node):
        if isinstance(o, ExtObj):
            raise Unsupported('attribute assignment on %s' % o)
        return Interp.setattr(self, o, name, v, st, node)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, st, n):
        if isinstance(f, Delayed):
            return Thunk(f.f, args, kw)
        if isinstance(f, Runner):
            return self.run_jobs(args[0], st, n)
        return Interp.call(self, f, args, kw, st, n)

    def run_jobs(self, jobs, st, n):
        def run(s, t):
            if not isinstance(t, Thunk):
                raise Unsupported('job')
            self.injob += 1
            try:
                return self.call(t.f, t.args, t.kw, s, n)
            finally:
                self.injob -= 1
        if isinstance(jobs, SeqV):
            return SeqV(jobs.n, lambda s, i: run(s, jobs.item(s, i)))
        return self.new_list([run(st, t) for t in self.iter_concrete(jobs, st)], st)

    def external(self, f, args, kw, st, n):
        if f.name in IGNORED:
            return None
        if f.name in EXT and f.name not in self.models:
            return self.new_ext(f.name, args, kw, st)
        if f.name == 'sklearn.pipeline.make_pipeline' and f.name not in self.models:
            if not set(kw) <= {'memory', 'verbose'}:
                raise Unsupported('make_pipeline')
            return self.new_ext('sklearn.pipeline.Pipeline', args, {}, st)
        if f.name in PURE:
            r = self.opq_call(f.name, args, kw, st, n)
            self.calls.append((f.name, args, kw, r, list(st.pc)))
            return r
        return Interp.external(self, f, args, kw, st, n)

    def method_call(self, f, args, kw, st, n):
        o = f.obj
        if isinstance(o, SuperV):
            return self.super_call(o, f.name, args, kw, st, n)
        if isinstance(o, ExtObj):
            return self.ext_call(o, f.name, args, kw, st, n)
        if isinstance(o, ObjV):
            return self.obj_call(o, f.name, args, kw, st, n)
        if isinstance(o, Opq) and o.tag == 'RandomState':
            return self.rng_call(o, f.name, args, kw, st, n)
        if isinstance(o, FuncV) and o.name == 'str.formatted':
            return FuncV('str.formatted')
        return Interp.method_call(self, f, args, kw, st, n)

    def super_call(self, o, name, args, kw, st, n):
        raise Unsupported('super().%s' % name)

    def obj_call(self, o, name, args, kw, st, n):
        raise Unsupported('method %s of %s' % (name, o))

    def rng_call(self, o, name, args, kw, st, n):
        if name in ('randint', 'random_integers', 'tomaxint'):
            if self.drawctx:
                # a draw in an item of a comprehension: a function of the index of the item (an item is made once)
                ids = [c[0] for c in self.drawctx]
                self.drawctx[-1][2] += 1
                nm = 'rng_%s:%s:%d' % (name, '.'.join(map(str, ids)), self.drawctx[-1][2])
                r = z3.Function(nm, *([I] * (len(ids) + 1)))(*[c[1] for c in self.drawctx])
            else:
                r = self.fresh('rng_%s' % name, I)
            self.rng_events.append((name, o.term, list(st.pc), list(self.loopvars), self.injob, self.line(n), r))
            return r
        raise Unsupported('draw %s' % name)

    def ext_call(self, o, name, args, kw, st, n):
        """The contract of an estimator of another library."""
        if name in ('fit', 'partial_fit'):
            names = ['X', 'y']
            d = dict(zip(names, args), **kw)
            if name != 'fit' or not set(d) <= set(names):
                raise Unsupported('%s.%s' % (o, name))
            ts = [self.to_obj(d.get(k), st) for k in names]
            st.heap[o.id] = z3.Function('fitted', OBJ, OBJ, OBJ, OBJ)(st.heap[o.id], *ts)
            self.calls.append((o.cls + '.fit', [o] + args, kw, o, list(st.pc)))
            return o
        if name in ('transform', 'predict', 'predict_proba', 'decision_function', 'score'):
            ts = [self.to_obj(a, st) for a in args]
            if kw:
                raise Unsupported('%s.%s' % (o, name))
            r = Opq(z3.Function('est:' + name, *([OBJ] * (len(ts) + 2)))(st.heap[o.id], *ts))
            self.calls.append((o.cls + '.' + name, [o] + args, kw, r, list(st.pc)))
            return r
        raise Unsupported('%s.%s' % (o, name))

    def construct(self, cls, args, kw, st, n):
        c = self.cls_contracts.get(cls.name)
        if c is not None:
            return c(self, st, cls, args, kw, n)
        o = Interp.construct(self, cls, args, kw, st, n)
        return o

    def from_global(self, v, st):
        return Interp.from_global(self, v, st)

    # ------------------------------------------------------------------ slices with a step
    def slice_bounds(self, s, dim, st, node):
        return Interp.slice_bounds(self, s, dim, st, node)

    def view(self, arr, idx, st, node):
        if arr.ndim == 1 and len(idx) == 1 and isinstance(idx[0], SliceV) and idx[0].step is not None and conc(idx[0].step) != 1:
            s = idx[0]
            if s.lo is not None or s.hi is not None:
                raise Unsupported('slice with bounds and a step')
            step = integer(s.step)
            self.oblige('slice', step > 0, st, node, 'the step of a slice is positive')
            f = self.elem(st, arr, node)
            d = to_z3(arr.shape[0])
            return self.alloc(st, [simp(quo(d + step - 1, step))], arr.dtype, lambda i: f(simp(to_z3(i) * step)))
        return Interp.view(self, arr, idx, st, node)

    def e_ListComp(self, n, st):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            it = self.eval(g.iter, st)
            cnt, item, _ = self.iter_spec(it, st, n)
            if conc(cnt) is None:
                outer = dict(st.locals)
                fr = self.frames[-1]

                snap = dict(st.heap)
                site, within = uid(), [list(c) for c in self.drawctx]

                def make(s, i, item=item):
                    """The item of index i. A comprehension is evaluated where it stands: in the heap of that moment."""
                    s2 = s.copy()
                    s2.heap = dict(s.heap)
                    s2.heap.update(snap)
                    s2.locals = dict(outer)
                    self.frames.append(fr)
                    i = to_z3(i)
                    var = z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED
                    if var:
                        self.loopvars.append(i)
                    ctx, self.drawctx = self.drawctx, within + [[site, i, 0]]
                    try:
                        self.assign(g.target, item(s2, i), s2)
                        v = self.eval(n.elt, s2)
                    finally:
                        self.drawctx = ctx
                        if var:
                            self.loopvars.pop()
                        self.frames.pop()
                    for k, r in s2.heap.items():
                        if k in snap:
                            if r is not snap[k] and not (is_z(r) and r.eq(snap[k])):
                                raise Unsupported('comprehension that modifies an object')
                        elif k not in s.heap:
                            s.heap[k] = r
                    return v
                q = z3.Const('!lc%d' % uid(), I)
                core._keep.append(q)
                probe = st.copy()
                probe.pc += [0 <= q, q < cnt]
                p = make(probe, q)           # obligations (and events) of an arbitrary item
                if is_num(p):
                    z = to_z3(p)
                    return SeqV(cnt, lambda s, i: z3.substitute(z, (q, to_z3(i))))
                self.quiet_items = True

                memo = {}

                def quiet_item(s, i):
                    # an item is made once: asked again for the same index, it is the same object
                    i = to_z3(i)
                    if i.get_id() in memo:
                        v, new, _ = memo[i.get_id()]
                        for o, r in new.items():
                            s.heap.setdefault(o, r)
                        return v
                    self.quiet += 1
                    k = len(self.rng_events), len(self.calls), len(self.events)
                    before = set(s.heap)
                    try:
                        v = make(s, i)
                    finally:
                        self.quiet -= 1
                        del self.rng_events[k[0]:], self.calls[k[1]:], self.events[k[2]:]
                    memo[i.get_id()] = v, {o: r for o, r in s.heap.items() if o not in before}, i
                    return v
                return SeqV(cnt, quiet_item)
        return Interp.e_ListComp(self, n, st)

    e_GeneratorExp = e_ListComp


def api_models(ip):
    M = ip.models

    def model(*names):
        def deco(f):
            for n in names:
                M[n] = f
            return f
        return deco
    old_len, old_list, old_asarray = M['builtins.len'], M['builtins.list'], M['numpy.array']

    @model('builtins.isinstance')
    def isinstance_(st, a, kw, n):
        return ip.isinstance_(a[0], a[1], st)

    @model('builtins.len')
    def len_(st, a, kw, n):
        if isinstance(a[0], SeqV):
            return to_z3(a[0].n)
        if isinstance(a[0], Range):
            c, _, _ = ip.iter_spec(a[0], st, n)
            return ite(c > 0, c, z3.IntVal(0))
        return old_len(st, a, kw, n)

    @model('builtins.list', 'builtins.tuple')
    def list_(st, a, kw, n):
        if a:
            c, item, _ = ip.iter_spec(a[0], st, n) if not isinstance(a[0], SeqV) else (to_z3(a[0].n), a[0].item, False)
            if conc(c) is None:
                c = c if prove(c >= 0, st.pc, quick=True, depth=9) else ite(c > 0, c, z3.IntVal(0))
                return SeqV(c, lambda s, i: item(s, i))
        return old_list(st, a, kw, n)

    def seq_array(v, st, n):
        """np.asarray of a list of unknown length: numbers, or arrays of one shape"""
        q = z3.Const('!sa%d' % uid(), I)
        core._keep.append(q)
        s = st.copy()
        s.pc += [0 <= q, q < to_z3(v.n)]
        x = v.item(s, q)
        if is_num(x):
            z = to_z3(x)
            return ip.alloc(st, [to_z3(v.n)], dtype_of_sort(z.sort()), lambda i: z3.substitute(z, (q, to_z3(i))))
        if isinstance(x, Arr):
            f = ip.elem(s, x, n)
            for d in x.shape:
                if any(c.eq(q) for c in free_consts(to_z3(d))):
                    raise Unsupported('array from a list of arrays of different shapes')

            def content(i, *rest):
                bs = [z3.Const('!sb%d' % uid(), I) for _ in rest]
                return z3.substitute(to_z3(f(*bs)), *([(q, to_z3(i))] + list(zip(bs, [to_z3(r) for r in rest]))))
            return ip.alloc(st, [to_z3(v.n)] + list(x.shape), x.dtype, content)
        raise Unsupported('array from a list of %s' % type(x).__name__)

    for nm in ('min', 'max'):
        def mm(st, a, kw, n, old=M['builtins.' + nm]):
            if len(a) == 1 and isinstance(a[0], SeqV):
                a = [seq_array(a[0], st, n)]
            return old(st, a, kw, n)
        M['builtins.' + nm] = mm

    @model('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray')
    def asarray(st, a, kw, n):
        copies = isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'array'
        v = a[0]
        if isinstance(v, SeqV):
            v = seq_array(v, st, n)
        if isinstance(v, ListV) and isinstance(st.heap[v.id], tuple) and st.heap[v.id] and all(isinstance(x, Arr) for x in st.heap[v.id]):
            its = st.heap[v.id]
            fs = [ip.elem(st, x, n) for x in its]

            def content(i, *r):
                t = fs[-1](*r)
                for k in range(len(fs) - 2, -1, -1):
                    t = ite(i == k, fs[k](*r), t)
                return t
            for x in its[1:]:
                for p, q in zip(x.shape, its[0].shape):
                    ip.oblige('shape', to_z3(p) == to_z3(q), st, n, 'arrays of one shape')
            v = ip.alloc(st, [z3.IntVal(len(its))] + list(its[0].shape), its[0].dtype, content)
        if isinstance(v, Arr) and not copies and len(a) == 1 and not kw:
            return v
        return old_asarray(st, [v] + list(a[1:]), kw, n)

    @model('builtins.super')
    def super_(st, a, kw, n):
        f = ip.frames[-1].func
        return SuperV(st.locals[f.node.args.args[0].arg], f.cls)

    @model('os.cpu_count')
    def cpu(st, a, kw, n):
        c = z3.Int('cpu_count')
        ip.assume(st, c >= 1)
        return c

    @model('sklearn.utils.validation.check_random_state', 'sklearn.utils.check_random_state')
    def check_random_state(st, a, kw, n):
        v = a[0]
        if isinstance(v, Opq) and v.tag == 'RandomState':
            return v
        return Opq(z3.Function('check_random_state', OBJ, OBJ)(ip.to_obj(v, st)), 'RandomState')

    @model('sklearn.utils.resample')
    def resample(st, a, kw, n):
        if not set(kw) <= {'replace', 'n_samples', 'stratify', 'random_state'} or not a or not all(isinstance(x, Arr) for x in a):
            raise Unsupported('resample')
        cnt = to_z3(a[0].shape[0])
        k = kw.get('n_samples')
        k = cnt if k is None else integer(k)
        rep = kw.get('replace', True)
        rs = kw.get('random_state')
        if not isinstance(rep, bool):
            raise Unsupported('resample with a symbolic replace')
        u = uid()
        pick = z3.Function('resample!%d' % u, I, I)
        core._keep.append(cnt)
        TH.rule(pick, lambda x: [z3.Implies(z3.And(0 <= x.arg(0), x.arg(0) < k), z3.And(0 <= x, x < cnt))])
        ip.assume(st, k >= 0)
        term = rs.term if isinstance(rs, Opq) and rs.tag == 'RandomState' else ip.to_obj(rs, st)
        ip.rng_events.append(('resample', term, list(st.pc), list(ip.loopvars), ip.injob, ip.line(n), None))
        ip.resamples.append((rep, k, kw.get('stratify'), term, pick, cnt))
        out = []
        for x in a:
            e = ip.elem(st, x, n)
            out.append(ip.alloc(st, [k] + list(x.shape[1:]), x.dtype, lambda i, *r, e=e: e(pick(to_z3(i)), *r)))
        return out[0] if len(out) == 1 else tuple(out)

    @model('joblib.Parallel')
    def parallel(st, a, kw, n):
        return Runner()

    @model('sklearn.utils.fixes.delayed', 'joblib.delayed', 'sklearn.utils.parallel.delayed')
    def delayed(st, a, kw, n):
        return Delayed(a[0])

    @model('numpy.concatenate')
    def concatenate(st, a, kw, n):
        v = a[0]
        v = ip.iter_concrete(v, st) if isinstance(v, (tuple, ListV)) else None
        if v is not None and v and all(isinstance(x, Opq) for x in v) and not set(kw) - {'axis'}:
            return Opq(z3.Function('concatenate%d' % len(v), *([OBJ] * (len(v) + 1)))(*[x.term for x in v]), 'ndarray_')
        if v is None or len(v) != 2 or not all(isinstance(x, Arr) for x in v) or v[0].ndim != v[1].ndim or not set(kw) <= {'axis'} or len(a) > 1 or conc(kw.get('axis', 0)) != 0:
            raise Unsupported('concatenate of %s' % [type(x).__name__ + str(getattr(x, 'ndim', '')) for x in v or []])
        x, y = v
        for k in range(1, x.ndim):
            ip.oblige('shape', to_z3(x.shape[k]) == to_z3(y.shape[k]), st, n, 'arrays to concatenate have equal shapes')
        e, f, d = ip.elem(st, x, n), ip.elem(st, y, n), to_z3(x.shape[0])
        dt = x.dtype if x.dtype == y.dtype else 'real'

        def at(*i):
            p, q = e(*i), f(*([simp(to_z3(i[0]) - d)] + list(i[1:])))
            return ite(to_z3(i[0]) < d, *unify2(p, q))
        return ip.alloc(st, [simp(d + to_z3(y.shape[0]))] + list(x.shape[1:]), dt, at)

    @model('numpy.diff')
    def diff(st, a, kw, n):
        v = a[0]
        if len(a) > 1 or not set(kw) <= {'n', 'axis'} or not isinstance(v, Arr) or conc(kw.get('n', 1)) != 1 or conc(kw.get('axis', -1)) is None:
            raise Unsupported('diff')
        ax = conc(kw.get('axis', -1)) % v.ndim
        e = ip.elem(st, v, n)
        d = to_z3(v.shape[ax])
        sh = list(v.shape)
        sh[ax] = simp(d - 1) if prove(d >= 1, st.pc, quick=True, depth=9) else simp(ite(d >= 1, d - 1, z3.IntVal(0)))
        return ip.alloc(st, sh, 'int' if v.dtype == 'int' else 'real', lambda *i: simp(e(*(list(i[:ax]) + [to_z3(i[ax]) + 1] + list(i[ax + 1:]))) - e(*i)))

    @model('numpy.issubdtype')
    def issubdtype(st, a, kw, n):
        k = {'dtype:int': {'numpy.integer', 'numpy.signedinteger', 'numpy.number', 'builtins.int', 'numpy.int64', 'numpy.generic'},
             'dtype:real': {'numpy.floating', 'numpy.inexact', 'numpy.number', 'builtins.float', 'numpy.float64', 'numpy.generic'},
             'dtype:bool': {'numpy.bool_', 'builtins.bool', 'numpy.generic'}, 'dtype:obj': {'numpy.object_', 'builtins.object', 'numpy.generic'}}
        if len(a) != 2 or not all(isinstance(x, FuncV) for x in a) or a[0].name not in k:
            raise Unsupported('issubdtype')
        return a[1].name in k[a[0].name]

    @model('numpy.array_equal')
    def array_equal(st, a, kw, n):
        raise Unsupported('array_equal')
