"""Abstract values of the front end."""
from .expr import *
from . import expr as X


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    """an exception the analysed code raises on this path"""
    def __init__(self, etype, where=None):
        super().__init__(etype)
        self.etype = etype
        self.where = where


class Unk:
    """a value the front end could not model"""
    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return 'Unk(%s)' % self.reason


class Arr:
    """array in index notation; shape () = scalar. dt: i f c b key. host: np / jnp / py"""
    __slots__ = ('shape', 'vars', 'body', 'dt', 'host', 'tr', 'view')

    def __init__(self, shape, vars_, body, dt='f', host='jnp', tr=False):
        self.shape = tuple(shape)
        self.vars = tuple(vars_)
        self.body = body
        self.dt = dt
        self.host = host
        self.tr = tr
        self.view = None
        assert len(self.shape) == len(self.vars)

    def at(self, idx):
        idx = [ex(i) for i in idx]
        assert len(idx) == len(self.vars), (idx, self.shape)
        m = {v.args[0]: i for v, i in zip(self.vars, idx)}
        return subst(self.body, m)

    @property
    def ndim(self):
        return len(self.shape)

    def lam(self):
        return mklam(self.shape, self.vars, self.body)

    def copy(self):
        a = Arr(self.shape, self.vars, self.body, self.dt, self.host, self.tr)
        return a

    def __repr__(self):
        return 'Arr(%s; %s -> %s)' % (self.shape, [v.args[0] for v in self.vars], self.body)


def mkarr(shape, f, dt='f', host='jnp', tr=False):
    shape = tuple(ex(s) for s in shape)
    vs = tuple(fresh(s) for s in shape)
    body = f(*[ex(v) for v in vs])
    return Arr(shape, vs, body, dt, host, tr)


def scalar(e, dt='f', host='jnp', tr=False):
    return Arr((), (), ex(e), dt, host, tr)


def input_array(name, shape, dt='f', host='jnp', tr=True, sym=False, nonneg=False, positive=False):
    if dt == 'i':
        X.INTARR.add(name)
    if nonneg:
        X.ARRLO[name] = 0
    if sym:
        X.SYMARR.add(name)
    if positive:
        X.POSITIVE.add(name)
    a = mkarr(shape, lambda *i: elem(name, i), dt, host, tr)
    return a


class SymList:
    """a Python list/iterable of symbolic length: value as function of binder variables"""
    def __init__(self, binders, value, guard=None):
        self.binders = list(binders)   # [(var, ext)]
        self.value = value
        self.guard = guard if guard is not None else ONE

    @property
    def length(self):
        n = ONE
        for v, e in self.binders:
            n = n * e
        return n

    def __repr__(self):
        return 'SymList(%s, %r)' % (self.binders, self.value)


class RangeV:
    def __init__(self, start, stop, step=ONE):
        self.start, self.stop, self.step = ex(start), ex(stop), ex(step)

    def length(self):
        st = self.step.const()
        if st == 1:
            return self.stop - self.start
        if st == -1:
            return self.start - self.stop
        if st is None:
            raise Unsupported('range step')
        d = (self.stop - self.start) / ex(st)
        c = d.const()
        if c is not None:
            return ex(max(0, -((-c.numerator) // c.denominator)))
        return -floor_(-d)

    def concrete(self):
        a, b, c = self.start.const(), self.stop.const(), self.step.const()
        if None in (a, b, c):
            return None
        return list(range(int(a), int(b), int(c)))

    def __repr__(self):
        return 'range(%s,%s,%s)' % (self.start, self.stop, self.step)


class ModuleV:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Module(%s)' % self.path


class LibFn:
    """a library function by dotted path"""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'LibFn(%s)' % self.path


class NativeFn:
    def __init__(self, fn, name):
        self.fn = fn          # fn(interp, args, kwargs) -> value
        self.name = name
        self.attrs = {}

    def __repr__(self):
        return 'NativeFn(%s)' % self.name


class Closure:
    def __init__(self, node, frame, module, name, defaults, kwdefaults):
        self.node, self.frame, self.module, self.name = node, frame, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qual = None

    def __repr__(self):
        return 'Closure(%s)' % (self.qual or self.name)


class ClassV:
    def __init__(self, name, module, qual):
        self.name, self.module, self.qual = name, module, qual
        self.attrs = {}
        self.fields = []      # NamedTuple / dataclass fields
        self.defaults = {}
        self.kind = 'plain'

    def __repr__(self):
        return 'Class(%s)' % self.name


class Inst:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return 'Inst(%s)' % self.cls.name


class BoundMethod:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class AtProxy:
    def __init__(self, arr):
        self.arr = arr


class AtRef:
    def __init__(self, arr, index):
        self.arr, self.index = arr, index


class StarSym:
    def __init__(self, lst):
        self.lst = lst


class EllipsisV:
    pass


ELL = EllipsisV()


class Bits:
    """opaque string/format result"""


def walk_unk(v, out=None):
    """collect reasons of unknown parts in a value"""
    if out is None:
        out = []
    if isinstance(v, Unk):
        out.append(v.reason)
    elif isinstance(v, Arr):
        if v.body.unk:
            out.append('unknown term in ' + repr(v.body)[:200])
    elif isinstance(v, (tuple, list)):
        for x in v:
            walk_unk(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            walk_unk(x, out)
    elif isinstance(v, Inst):
        walk_unk(v.fields, out)
    elif isinstance(v, SymList):
        walk_unk(v.value, out)
    return out
