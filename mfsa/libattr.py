"""Attribute access on values and dispatch of library calls."""
import ast
import inspect
import textwrap
from .values import *
from .expr import *
from . import expr as X
from . import ops, lib
from .ops import *
from .lib import REG, NPREG, CONST, DTYPES, MODULES, IGNORED_MODULES, cast, H, shape_of, axisof

EXC = {'ValueError', 'TypeError', 'NotImplementedError', 'RuntimeError', 'IndexError', 'KeyError', 'Exception',
       'AssertionError', 'ZeroDivisionError', 'AttributeError', 'ArithmeticError', 'OverflowError'}


# keywords without influence on the value
HARMLESS = {'precision', 'optimize', 'unroll', 'static_argnums', 'static_argnames', 'donate_argnums', 'backend', 'device', 'inline', 'strict',
            'check_finite', 'overwrite_a', 'overwrite_b', 'overwrite_ab', 'symmetrize_input', 'preferred_element_type', 'indices_are_sorted',
            'unique_indices', 'method', 'implementation', 'axis_name', 'spmd_axis_name', 'concrete', 'policy', 'prevent_cse', 'copy', 'casting',
            'dtype', 'name', 'maxsize', 'typed', 'file', 'end', 'sep', 'flush', 'impl', 'assigned', 'updated', 'is_leaf', 'assume_a', 'driver',
            'keep_unused', 'abstracted_axes', 'subok', 'like', 'sharding', 'all', 'exact'}
_KNOWN = {}


def _known_keywords(h):
    """keywords a model looks at: the texts of its source; None if it hands its keywords on without naming any"""
    k = id(h)
    if k not in _KNOWN:
        try:
            t = ast.parse(textwrap.dedent(inspect.getsource(h)).lstrip('.'))
        except (OSError, TypeError, SyntaxError):
            _KNOWN[k] = (h, None)
            return None
        names = {n.value for n in ast.walk(t) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        names |= {x for n in names for x in n.split()}
        used = [n for n in ast.walk(t) if isinstance(n, ast.Name) and n.id in ('kw', 'k') and isinstance(n.ctx, ast.Load)]
        _KNOWN[k] = (h, names if names or not used else None)
        # keywords handed on whole
        for n in ast.walk(t):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id == 'axisof':
                    names.add('axis')
                    continue
                for a in n.args:
                    if isinstance(a, ast.Name) and a.id == 'kw' and not any(isinstance(x, (ast.Constant, ast.List, ast.Tuple)) for x in n.args):
                        _KNOWN[k] = (h, None)
                if any(x.arg is None and isinstance(x.value, ast.Name) and x.value.id == 'kw' for x in n.keywords):
                    _KNOWN[k] = (h, None)
    return _KNOWN[k][1]


def _guard(h, path, kw):
    if kw:
        known = _known_keywords(h)
        if known is not None:
            for k in kw:
                if k not in known and k not in HARMLESS:
                    raise Unsupported('keyword %s of %s' % (k, path))


def call_lib(it, path, args, kw):
    h = REG.get(path)
    if h is not None:
        _guard(h, path, kw)
        return h(it, args, kw)
    for pre, host in (('jax.numpy.', 'jnp'), ('numpy.', 'np')):
        if path.startswith(pre):
            nm = path[len(pre):]
            if nm in DTYPES:
                return H(host, cast(args[0] if args else 0, nm, it))
            h = NPREG.get(nm)
            if h is not None:
                if host == 'np' and nm not in ('shape', 'ndim', 'size'):
                    _np_on_traced(it, nm, args, kw)
                _guard(h, path, kw)
                return h(it, host, args, kw)
    last = path.split('.')[-1]
    if last in EXC:
        return ('exception', last)
    if any(path == m or path.startswith(m + '.') for m in ('warnings', 'jax.debug', 'logging')):
        return None
    raise Unsupported('library function ' + path)


def _np_on_traced(it, nm, args, kw):
    def tr(v):
        if isinstance(v, Arr):
            return v.tr
        if isinstance(v, (tuple, list)):
            return any(tr(x) for x in v)
        if isinstance(v, SymList):
            return tr(v.value)
        return False
    if any(tr(a) for a in args) or any(tr(a) for a in kw.values()):
        it.event('np_on_traced', what=nm)


def _nf(f, name):
    return NativeFn(f, name)


def _host(a):
    return 'jnp' if a.host == 'jnp' else 'np'


def arr_attr(it, a, attr):
    if attr == 'T':
        return transpose(a)
    if attr == 'mT':
        return moveaxis(a, -1, -2)
    if attr == 'shape':
        return tuple(it.post(scalar(s, 'i', 'py')) for s in a.shape)
    if attr == 'ndim':
        return a.ndim
    if attr == 'size':
        return it.post(scalar(prod_e(a.shape), 'i', 'py'))
    if attr == 'dtype':
        return ('dtype', a.dt)
    if attr == 'at':
        if a.host == 'np':
            raise PyRaise('AttributeError', it.where())
        return AtProxy(a)
    if attr in ('real', 'imag'):
        return NPREG[attr](it, _host(a), [a], {})
    if attr == 'flat':
        return ravel(a)
    h = _host(a)
    if attr in ('sum', 'mean', 'prod', 'max', 'min', 'dot', 'cumsum', 'cumprod', 'std', 'var', 'argmin', 'argmax',
                'any', 'all', 'argsort', 'trace', 'diagonal', 'round', 'clip', 'repeat', 'take', 'swapaxes', 'ravel', 'conj',
                'squeeze'):
        f = NPREG.get(attr)
        if f is None:
            raise Unsupported('array method ' + attr)
        def met(i, ar, k):
            _guard(f, attr, k)
            return f(i, h, [a] + list(ar), k)
        return _nf(met, attr)
    if attr == 'flatten':
        return _nf(lambda i, ar, k: H(h, lib.reshape_order(a, [-1], ar[0] if ar else k.get('order'))), attr)
    if attr == 'reshape':
        def rs(i, ar, k):
            s = ar[0] if len(ar) == 1 else tuple(ar)
            return H(h, lib.reshape_order(a, shape_of(s), k.get('order')))
        return _nf(rs, attr)
    if attr == 'transpose':
        def tp(i, ar, k):
            if len(ar) == 1 and isinstance(ar[0], (tuple, list)):
                ar = list(ar[0])
            return transpose(a, [const_int(x) for x in ar] if ar else None)
        return _nf(tp, attr)
    if attr == 'astype':
        return _nf(lambda i, ar, k: cast(a, ar[0] if ar else k.get('dtype'), i), attr)
    if attr == 'copy':
        def cp(i, ar, k):
            r = a.copy()
            return r
        return _nf(cp, attr)
    if attr in ('tolist', 'item'):
        def tl(i, ar, k):
            if a.tr:
                i.event('host_conversion', what=attr)
            if not a.shape:
                return i.post(Arr((), (), a.body, a.dt, 'py', a.tr))
            n = a.shape[0].const()
            if n is None:
                raise Unsupported('tolist of symbolic size')
            return [i.call(arr_attr(i, getitem(a, k_), 'tolist'), [], {}) for k_ in range(int(n))]
        return _nf(tl, attr)
    if attr == 'fill':
        def fl(i, ar, k):
            i.inplace(a, mkarr(a.shape, lambda *q: as_E(ar[0]), a.dt, a.host, a.tr))
        return _nf(fl, attr)
    if attr in ('block_until_ready',):
        return _nf(lambda i, ar, k: a, attr)
    raise Unsupported('array attribute ' + attr)


def getattr_value(it, v, attr):
    if isinstance(v, (int, bool)) and not isinstance(v, Arr):
        if attr in ('real',):
            return v
        v = to_arr(v)
    if isinstance(v, float):
        v = to_arr(v)
    if isinstance(v, Arr):
        return arr_attr(it, v, attr)
    if isinstance(v, AtRef):
        modes = {'set': 'set', 'add': 'add', 'multiply': 'multiply', 'mul': 'multiply', 'divide': 'divide', 'power': 'power',
                 'min': 'min', 'max': 'max'}
        if attr == 'get':
            return _nf(lambda i, a, k: i.getitem(v.arr, v.index), 'get')
        if attr in modes:
            return _nf(lambda i, a, k: at_update(v.arr, v.index, a[0], modes[attr]), 'at.' + attr)
        raise Unsupported('at[].' + attr)
    if isinstance(v, list):
        return list_attr(it, v, attr)
    if isinstance(v, tuple):
        if attr == 'index':
            return _nf(lambda i, a, k: _index(i, v, a[0]), attr)
        if attr == 'count':
            return _nf(lambda i, a, k: sum(1 for x in v if i.compare_eq(x, a[0])), attr)
        if v and v[0] == 'dtype' and attr in ('name', 'kind', 'type'):
            return v[1]
    if isinstance(v, dict):
        if attr == 'items':
            return _nf(lambda i, a, k: [(kk, x) for kk, x in v.items()], attr)
        if attr == 'keys':
            return _nf(lambda i, a, k: list(v.keys()), attr)
        if attr == 'values':
            return _nf(lambda i, a, k: list(v.values()), attr)
        if attr == 'get':
            return _nf(lambda i, a, k: v.get(i.hashable(a[0]), a[1] if len(a) > 1 else None), attr)
        if attr == 'copy':
            return _nf(lambda i, a, k: dict(v), attr)
        if attr == 'update':
            def up(i, a, k):
                if a:
                    v.update(a[0])
                v.update(k)
            return _nf(up, attr)
        if attr == 'pop':
            return _nf(lambda i, a, k: v.pop(i.hashable(a[0]), *a[1:]), attr)
        if attr == 'setdefault':
            return _nf(lambda i, a, k: v.setdefault(i.hashable(a[0]), a[1] if len(a) > 1 else None), attr)
    if isinstance(v, str):
        if attr in ('format', 'join', 'split', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'replace'):
            def sm(i, a, k):
                if all(isinstance(x, (str, int)) for x in a) or attr == 'join':
                    try:
                        return getattr(v, attr)(*a, **k)
                    except Exception:
                        raise Unsupported('string method')
                raise Unsupported('string method')
            return _nf(sm, attr)
    if isinstance(v, LibFn):
        return ops.lib_value(v.path + '.' + attr)
    if isinstance(v, SymList):
        if attr == 'shape':
            return arr_attr(it, symlist_arr(v), 'shape')
    if isinstance(v, set):
        if attr == 'add':
            return _nf(lambda i, a, k: v.add(i.hashable(a[0])), attr)
    raise Unsupported('attribute %s of %s' % (attr, type(v).__name__))


def _index(it, lst, x):
    for k, y in enumerate(lst):
        c = it.truth(it.compare('Eq', y, x)) if not isinstance(y, (str, int)) or not isinstance(x, (str, int)) else (y == x)
        if c is True:
            return k
        if c is not False:
            raise Unsupported('list.index')
    raise PyRaise('ValueError', it.where())


def list_attr(it, v, attr):
    if attr == 'append':
        def f(i, a, k):
            v.append(a[0])
            i.event('list_mutation', obj=id(v))
        return _nf(f, attr)
    if attr == 'extend':
        def f(i, a, k):
            v.extend(i.iterate(a[0]))
        return _nf(f, attr)
    if attr == 'insert':
        return _nf(lambda i, a, k: v.insert(const_int(a[0]), a[1]), attr)
    if attr == 'pop':
        return _nf(lambda i, a, k: v.pop(const_int(a[0]) if a else -1), attr)
    if attr == 'copy':
        return _nf(lambda i, a, k: list(v), attr)
    if attr == 'reverse':
        return _nf(lambda i, a, k: v.reverse(), attr)
    if attr == 'index':
        return _nf(lambda i, a, k: _index(i, v, a[0]), attr)
    if attr == 'sort':
        def f(i, a, k):
            v[:] = i.iterate(lib.REG['builtins.sorted'](i, [v], k))
        return _nf(f, attr)
    raise Unsupported('list method ' + attr)


lib.call_lib = call_lib
lib.getattr_value = getattr_value
