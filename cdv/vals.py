"""Symbolic values: arrays are views (shape + index map) on buffers; a buffer's content is a closure."""
import z3
from core import *


class Poison:
    def __init__(self, why):
        self.why = why


class ModuleV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'module:' + self.name


class FuncV:
    """External function / class / constant, by canonical dotted name."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'func:' + self.name


class RepoFunc:
    def __init__(self, module, node, cls=None, closure=None):
        self.module, self.node, self.cls, self.closure = module, node, cls, closure
        self.name = node.name if hasattr(node, 'name') else '<lambda>'


class RepoClass:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name


class BoundMethod:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class ArrMethod:
    def __init__(self, arr, name):
        self.arr, self.name = arr, name


class Range:
    def __init__(self, lo, hi, step=1, par=False):
        self.lo, self.hi, self.step, self.par = lo, hi, step, par


class Enum:
    def __init__(self, it):
        self.it = it


class Zip:
    def __init__(self, its):
        self.its = its


class ObjV:
    """Object with mutable attributes kept in the state's heap."""
    def __init__(self, cls, ident):
        self.cls, self.id = cls, ident

    def __repr__(self):
        return 'obj:%s:%s' % (getattr(self.cls, 'name', self.cls), self.id)


class ListV:
    """Mutable python list; items kept in the heap as a tuple."""
    def __init__(self, ident):
        self.id = ident


class DictV:
    def __init__(self, ident):
        self.id = ident


class Opq:
    """Opaque value: an uninterpreted term with an optional class tag."""
    def __init__(self, term, tag=None):
        self.term, self.tag = term, tag

    def __repr__(self):
        return 'opq:%s:%s' % (self.tag, self.term)


class OpqMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


DT_SORT = {'int': I, 'real': R, 'bool': B}


def dtype_of_sort(s):
    return {I: 'int', R: 'real', B: 'bool'}.get(s, 'obj') if s in (I, R, B) else 'obj'


def conv(v, dt):
    """Store conversion of a scalar to a dtype."""
    v = to_z3(v)
    if dt == 'real':
        return real(v)
    if dt == 'bool':
        return boolean(v)
    if dt == 'int':
        if v.sort() == R:
            return trunc(v)
        return integer(v)
    return v


def trunc(x):
    x = real(x)
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    return ite(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


class Buf:
    """Immutable record of a buffer's content in one state."""
    __slots__ = ('content', 'wr', 'shape', 'dtype', 'level', 'wc', 'name')

    def __init__(self, content, shape, dtype, level, wr=None, wc=None, name=''):
        self.content, self.shape, self.dtype, self.level = content, shape, dtype, level
        self.wr = wr or (lambda *a: z3.BoolVal(False))
        self.wc, self.name = wc, name

    def with_(self, **k):
        b = Buf(self.content, self.shape, self.dtype, self.level, self.wr, self.wc, self.name)
        for a, v in k.items():
            setattr(b, a, v)
        return b


class Arr:
    """axes: per buffer axis ('fix', t) or ('dim', k, start); None when the view is not of that simple form and
    fmap gives the buffer index of a view index."""
    __slots__ = ('buf', 'shape', 'axes', 'fmap', 'dtype', 'meta')

    def __init__(self, buf, shape, dtype, axes=None, fmap=None, meta=None):
        self.buf, self.shape, self.dtype, self.axes, self.fmap = buf, list(shape), dtype, axes, fmap
        self.meta = meta or {}
        if axes is None and fmap is None:
            self.axes = [('dim', k, 0) for k in range(len(shape))]

    @property
    def ndim(self):
        return len(self.shape)

    def index(self, idx):
        if self.axes is None:
            return self.fmap(*idx)
        out = []
        for a in self.axes:
            if a[0] == 'fix':
                out.append(to_z3(a[1]))
            else:
                s = conc(a[2])
                out.append(to_z3(idx[a[1]]) if s == 0 else to_z3(idx[a[1]]) + to_z3(a[2]))
        return out


class State:
    def __init__(self):
        self.locals, self.heap, self.pc = {}, {}, []
        self.ghost = {}

    def copy(self):
        s = State()
        s.locals, s.heap, s.pc = dict(self.locals), dict(self.heap), list(self.pc)
        s.ghost = dict(self.ghost)
        return s


class Outcome:
    def __init__(self, kind, st, value=None):
        self.kind, self.st, self.value = kind, st, value
