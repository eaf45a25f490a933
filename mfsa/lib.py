"""Library functions: builtins, math, itertools, functools, numpy / jax.numpy."""
from .values import *
from .expr import *
from . import expr as X
from . import ops
from .ops import *
from fractions import Fraction
import itertools as _it

REG = {}       # exact path -> handler(interp, args, kwargs)
NPREG = {}     # name -> handler(interp, host, args, kwargs)  for numpy and jax.numpy
CONST = {}

IGNORED_MODULES = ('typing', 'warnings', 'matplotlib', 'argparse', 'os', 'sys', 'time', 'tqdm', 'jax.config', 'typing_extensions',
                   'jax.typing', 'numpy.typing', 'jaxlib', 'abc', 'collections', 'dataclasses', 'enum')


def reg(*paths):
    def deco(f):
        for p in paths:
            REG[p] = f
        return f
    return deco


def npreg(*names):
    def deco(f):
        for n in names:
            NPREG[n] = f
        return f
    return deco


def canon(path):
    if path.startswith('jax.numpy.') or path.startswith('numpy.'):
        return path
    return path


def lib_value(path):
    if path in CONST:
        return CONST[path]
    for pre, host in (('jax.numpy.', 'jnp'), ('numpy.', 'np')):
        if path.startswith(pre):
            nm = path[len(pre):]
            if nm in ('pi', 'e', 'inf', 'nan', 'newaxis'):
                if nm == 'pi':
                    return scalar(PI, 'f', 'py')
                if nm == 'e':
                    return scalar(exp_(ONE), 'f', 'py')
                if nm == 'inf':
                    return scalar(from_fn('inf', ()), 'f', 'py')
                if nm == 'nan':
                    return scalar(from_fn('nan', ()), 'f', 'py')
                return None
            if nm in DTYPES:
                return LibFn(path)
            if nm in ('math', 'linalg', 'random', 'fft'):
                if nm == 'math':
                    return ModuleV('math')
                return ModuleV(path)
            return LibFn(path)
    if path in MODULES:
        return ModuleV(path)
    return LibFn(path)


MODULES = {'jax', 'jax.numpy', 'jax.lax', 'jax.lax.linalg', 'jax.random', 'jax.scipy', 'jax.scipy.linalg',
           'jax.scipy.special', 'jax.scipy.stats', 'jax.scipy.stats.norm', 'jax.scipy.stats.multivariate_normal',
           'jax.scipy.stats.bernoulli', 'jax.scipy.stats.poisson', 'jax.scipy.stats.uniform', 'numpy', 'scipy', 'scipy.linalg', 'scipy.special',
           'scipy.stats', 'math', 'functools', 'itertools', 'tme', 'tme.base_jax', 'operator', 'jax.nn', 'jax.config', 'jax.tree_util', 'scipy.optimize',
           'jax.debug', 'jax.experimental', 'typing', 'collections', 'warnings', 'os', 'sys', 'argparse', 'time'}

DTYPES = {'float64': 'f', 'float32': 'f', 'float16': 'f', 'int64': 'i', 'int32': 'i', 'int16': 'i', 'int8': 'i', 'uint8': 'i', 'uint16': 'i',
          'uint32': 'i', 'uint64': 'i', 'bool_': 'b', 'complex64': 'c', 'complex128': 'c', 'float_': 'f', 'int_': 'i', 'bfloat16': 'f'}
WIDE = {'float64', 'int64', 'complex128', 'float', 'int', 'complex', 'float_', 'int_', 'bool', 'bool_'}


def dtype_name(d):
    if d is None:
        return None
    if isinstance(d, str):
        return d
    if isinstance(d, LibFn):
        return d.path.split('.')[-1]
    if isinstance(d, tuple) and d and d[0] == 'dtype':
        return d[1]
    raise Unsupported('dtype')


def cast(a, d, interp=None):
    """dtype conversion"""
    a = to_arr(a)
    nm = dtype_name(d)
    if nm is None:
        return a
    alias = {'f': 'f', 'i': 'i', 'c': 'c', 'b': 'b'}
    if nm in alias:
        code = nm
        wide = True
    else:
        code = {'float': 'f', 'int': 'i', 'bool': 'b', 'complex': 'c'}.get(nm) or DTYPES.get(nm)
        wide = nm in WIDE
    if code is None:
        raise Unsupported('dtype ' + nm)
    body = a.body
    if code == 'b':
        if a.dt != 'b':
            body = ONE - ind_eq(body)
    elif code == 'i':
        if a.dt in ('f', 'c') and not body.isint:
            if a.tr and interp is not None:
                interp.event('nondiff', what='cast to integer')
            body = trunc(body)
        if not wide and not zero_one(body) and not _small_int(body):
            if interp is not None:
                interp.event('narrow_cast', dtype=nm)
            body = mkfn('cast:' + nm, (body,), isint=True)
    elif code == 'f':
        if not wide and body.const() is None and not zero_one(body):
            if interp is not None:
                interp.event('narrow_cast', dtype=nm)
            body = mkfn('cast:' + nm, (body,))
        if a.dt == 'c':
            body = unary('real', body)
    elif code == 'c':
        if not wide and body.const() is None:
            body = mkfn('cast:' + nm, (body,))
    r = Arr(a.shape, a.vars, body, code, a.host, a.tr)
    return r


def _small_int(e):
    c = e.const()
    if c is not None and abs(c) < 100:
        return True
    return False


def zero_one(e):
    """provably 0/1 valued"""
    c = e.const()
    if c is not None:
        return c in (0, 1)
    return len(e.terms) == 1 and all(a.kind in X.BOOLK for m in e.terms for a, _ in m.items) and list(e.terms.values())[0] == 1


def trunc(e):
    c = e.const()
    if c is not None:
        return ex(int(c))
    if e.isint:
        return e
    if all(nn_real(m, cc) for m, cc in e.terms.items()):
        return floor_(e)
    return from_fn('trunc', (e,))


def nn_real(m, c):
    return c >= 0 and all(X._nonneg_atom(a) and not isinstance(x, E) and x > 0 for a, x in m.items)


X.SMART['trunc'] = lambda args, out, ders: trunc(args[0])


# ---------------------------------------------------------------- builtins
@reg('builtins.len')
def b_len(it, args, kw):
    v = args[0]
    if isinstance(v, (list, tuple, dict, str)):
        return len(v)
    if isinstance(v, Arr):
        if not v.shape:
            raise PyRaise('TypeError', it.where())
        return scalar(v.shape[0], 'i', 'py')
    if isinstance(v, SymList) and v.guard is ONE:
        return scalar(v.length, 'i', 'py')
    if isinstance(v, RangeV):
        return scalar(v.length(), 'i', 'py')
    if isinstance(v, Inst):
        return len(v.cls.fields)
    raise Unsupported('len')


def _pyint(it, v):
    if isinstance(v, (int, bool)):
        return v
    if isinstance(v, Arr) and not v.shape:
        if v.tr:
            it.event('host_conversion', what='int')
        return v
    if isinstance(v, Arr) and size_const(v.shape) == 1:
        return scalar(v.at([0] * v.ndim), v.dt, v.host, v.tr)
    raise Unsupported('integer argument')


@reg('builtins.range')
def b_range(it, args, kw):
    a = [as_E(x) for x in args]
    for x in args:
        if isinstance(x, Arr) and x.dt == 'f':
            raise PyRaise('TypeError', it.where())
    if len(a) == 1:
        return RangeV(0, a[0])
    if len(a) == 2:
        return RangeV(a[0], a[1])
    return RangeV(*a)


@reg('builtins.sum')
def b_sum(it, args, kw):
    from .interp import SymParts
    v = args[0]
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if isinstance(v, SymParts):
        acc = start
        for p in v.parts:
            acc = it.binop('Add', acc, sum_sym(it, p))
        return acc
    items = it.concrete_items(v)
    if items is not None:
        acc = start
        for x in items:
            acc = it.binop('Add', acc, x)
        return acc
    if isinstance(v, SymList):
        return it.binop('Add', start, sum_sym(it, v))
    n, g = it.sym_iter(v)
    var = fresh(n)
    val = g(ex(var))
    return it.binop('Add', start, sum_sym(it, SymList([(var, n)], val)))


def sum_sym(it, v):
    val = to_arr(v.value)
    body = val.body * v.guard
    for var, ext in reversed(v.binders):
        if any(var.args[0] in s.fv for s in val.shape):
            raise Unsupported('ragged sum')
        body = mk_sum(var, ext, body)
    return Arr(val.shape, val.vars, body, val.dt, val.host, val.tr)


@reg('builtins.zip')
def b_zip(it, args, kw):
    from .interp import ZipV
    return ZipV(list(args))


@reg('builtins.enumerate')
def b_enum(it, args, kw):
    from .interp import EnumV
    return EnumV(args[0], args[1] if len(args) > 1 else kw.get('start', 0))


@reg('builtins.reversed')
def b_rev(it, args, kw):
    from .interp import RevV
    return RevV(args[0])


@reg('builtins.map')
def b_map(it, args, kw):
    from .interp import MapV, ZipV
    if len(args) == 2:
        return MapV(args[0], args[1])
    return MapV(args[0], ZipV(list(args[1:])), True)


def _plain_key(it, x):
    """a Python value standing for x in comparisons, when x is a constant (or texts and tuples of them)"""
    if isinstance(x, (list, tuple)):
        return tuple(_plain_key(it, y) for y in x)
    h = it.hashable(x)
    if isinstance(h, tuple):
        raise Unsupported('comparison of values that are not known')
    return h


@reg('builtins.set', 'builtins.frozenset')
def b_set(it, args, kw):
    if not args:
        return set()
    items = it.concrete_items(args[0])
    if items is None:
        raise Unsupported('set of an unknown number of items')
    out = {}
    for x in items:
        out.setdefault(_plain_key(it, x), x)
    return list(out.values())


@reg('builtins.list', 'builtins.tuple', 'builtins.iter')
def b_list(it, args, kw):
    if not args:
        return []
    v = args[0]
    items = it.concrete_items(v)
    if items is not None:
        return list(items)
    if isinstance(v, SymList):
        return v
    n, g = it.sym_iter(v)
    var = fresh(n)
    return SymList([(var, n)], g(ex(var)))


@reg('builtins.tuple')
def b_tuple(it, args, kw):
    r = b_list(it, args, kw)
    return tuple(r) if isinstance(r, list) else r


@reg('builtins.sorted')
def b_sorted(it, args, kw):
    items = it.concrete_items(args[0])
    if items is not None and set(kw) <= {'key', 'reverse'}:
        rev = kw.get('reverse', False)
        rev = rev if isinstance(rev, bool) else it.truth(rev)
        if rev not in (True, False):
            raise Unsupported('sorted')
        key = kw.get('key')
        ks = [_plain_key(it, x if key is None else it.call(key, [x], {})) for x in items]
        try:
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=rev)
            return [items[i] for i in order]
        except TypeError:
            pass
    raise Unsupported('sorted')


@reg('builtins.dict')
def b_dict(it, args, kw):
    d = {}
    if args:
        if isinstance(args[0], dict):
            d.update(args[0])
        else:
            for k, v in [it.iterate(x) for x in it.iterate(args[0])]:
                d[it.hashable(k)] = v
    d.update(kw)
    return d


@reg('builtins.int')
def b_int(it, args, kw):
    v = args[0]
    if isinstance(v, (int, bool)):
        return int(v)
    if isinstance(v, str):
        return int(v)
    a = to_arr(v)
    if a.tr:
        it.event('host_conversion', what='int')
    e = as_E(a)
    return scalar(trunc(e) if a.dt == 'f' else e, 'i', 'py', False)


@reg('builtins.float')
def b_float(it, args, kw):
    v = args[0]
    if isinstance(v, str):
        if 'inf' in v:
            return scalar(from_fn('inf', ()), 'f', 'py')
        return scalar(ex(Fraction(v)), 'f', 'py')
    a = to_arr(v)
    if a.tr:
        it.event('host_conversion', what='float')
    return scalar(as_E(a), 'f', 'py', False)


@reg('builtins.complex')
def b_complex(it, args, kw):
    e = as_E(to_arr(args[0]))
    if len(args) > 1:
        e = e + I * as_E(to_arr(args[1]))
    return scalar(e, 'c', 'py')


@reg('builtins.bool')
def b_bool(it, args, kw):
    c = it.truth(args[0])
    return c if isinstance(c, bool) else scalar(c, 'b', 'py', it.last_tr)


@reg('builtins.abs')
def b_abs(it, args, kw):
    if isinstance(args[0], int):
        return abs(args[0])
    return ew(abs_, args[0], dt=None)


@reg('builtins.min', 'builtins.max')
def b_minmax(it, args, kw):
    raise Unsupported('min/max')


def _minmax(sign):
    def f(it, args, kw):
        items = args
        if len(args) == 1:
            items = it.iterate(args[0])
        if not items and 'default' in kw:
            return kw['default']
        if kw.get('key') is not None or any(isinstance(x, (tuple, list, str)) for x in items):
            key = kw.get('key')
            ks = [_plain_key(it, x if key is None else it.call(key, [x], {})) for x in items]
            try:
                return items[(min if sign < 0 else max)(range(len(ks)), key=lambda j: ks[j])]
            except TypeError:
                raise Unsupported('min/max')
        if all(isinstance(x, int) for x in items):
            return min(items) if sign < 0 else max(items)
        acc = items[0]
        for x in items[1:]:
            a, b = to_arr(acc), to_arr(x)
            for q in (a, b):
                if q.tr:
                    it.event('branch_traced', cond=None)
            acc = ew(lambda p, q: e_max(p, q) if sign > 0 else e_min(p, q), a, b, dt=None)
        return acc
    return f


def e_max(p, q):
    return select(cmp_('<', p, q), q, p)


def e_min(p, q):
    return select(cmp_('<', q, p), q, p)


REG['builtins.min'] = _minmax(-1)
REG['builtins.max'] = _minmax(1)


@reg('builtins.pow')
def b_pow(it, args, kw):
    return it.binop('Pow', args[0], args[1])


@reg('builtins.divmod')
def b_divmod(it, args, kw):
    return (it.binop('FloorDiv', args[0], args[1]), it.binop('Mod', args[0], args[1]))


@reg('builtins.round')
def b_round(it, args, kw):
    if isinstance(args[0], int):
        return args[0]
    a = to_arr(args[0])
    e = as_E(a)
    c = e.const()
    if c is not None and len(args) == 1:
        return int(round(Fraction(c)))
    if len(args) > 1 or kw:
        return scalar(mkfn('rounddec', (e, as_E(args[1]))), 'f', 'py', a.tr)
    return scalar(unary('round', e), 'i', 'py', a.tr)


@reg('builtins.any', 'builtins.all')
def b_any(it, args, kw):
    raise Unsupported('any/all')


def _anyall(isany):
    def f(it, args, kw):
        if isinstance(args[0], Arr):
            return reduce_opaque('any' if isany else 'all', args[0], None, dt='b')
        items = it.concrete_items(args[0])
        if items is None and isinstance(args[0], SymList):
            c = it.truth(args[0].value)
            if isinstance(c, bool):
                return c
            e = ONE - c if isany else c
            for var, ext in reversed(args[0].binders):
                e = mk_prod(var, ext, e)
            return scalar(ONE - e if isany else e, 'b', 'py')
        if items is None:
            raise Unsupported('any/all of symbolic iterable')
        acc = None
        for x in items:
            c = it.truth(x)
            if isinstance(c, bool):
                if c and isany:
                    return True
                if not c and not isany:
                    return False
                continue
            acc = c if acc is None else (acc + c - acc * c if isany else acc * c)
        if acc is None:
            return not isany
        return scalar(acc, 'b', 'py')
    return f


REG['builtins.any'] = _anyall(True)
REG['builtins.all'] = _anyall(False)


@reg('builtins.isinstance')
def b_isinstance(it, args, kw):
    v, t = args
    ts = t if isinstance(t, (tuple, list)) else [t]
    for c in ts:
        p = c.path if isinstance(c, LibFn) else getattr(c, 'qual', None)
        if isinstance(c, ClassV):
            if isinstance(v, Inst) and v.cls is c:
                return True
            continue
        if p in ('numpy.ndarray',):
            if isinstance(v, Arr) and v.host == 'np':
                return True
        elif p in ('jax.numpy.ndarray', 'jax.Array', 'jax.numpy.Array', 'jaxlib.xla_extension.Array'):
            if isinstance(v, Arr) and v.host == 'jnp':
                return True
        elif p == 'builtins.int':
            if isinstance(v, int) or isinstance(v, Arr) and v.host == 'py' and v.dt == 'i':
                return True
        elif p == 'builtins.float':
            if isinstance(v, Arr) and v.host == 'py' and v.dt == 'f':
                return True
        elif p == 'builtins.list':
            if isinstance(v, list) or isinstance(v, SymList):
                return True
        elif p == 'builtins.tuple':
            if isinstance(v, tuple):
                return True
        elif p == 'builtins.str':
            if isinstance(v, str):
                return True
        elif p in ('builtins.dict', 'builtins.bool', 'builtins.complex'):
            if p == 'builtins.dict' and isinstance(v, dict) or p == 'builtins.bool' and isinstance(v, bool):
                return True
        elif p in ('numpy.integer', 'numpy.floating', 'numbers.Number'):
            if p == 'numbers.Number' and is_num(v) and (isinstance(v, int) or v.host == 'py'):
                return True
        else:
            raise Unsupported('isinstance %s' % p)
    return False


@reg('builtins.callable')
def b_callable(it, args, kw):
    return isinstance(args[0], (Closure, NativeFn, LibFn, BoundMethod, ClassV))


@reg('builtins.print', 'warnings.warn', 'jax.config.update', 'jax.debug.print', 'warnings.simplefilter', 'warnings.filterwarnings', 'jax.debug.callback')
def b_print(it, args, kw):
    it.event('io', what='print')
    return None


@reg('builtins.str', 'builtins.repr', 'builtins.type', 'builtins.id', 'builtins.hash')
def b_str(it, args, kw):
    return str(args[0]) if args and isinstance(args[0], (int, str)) else '<str>'


@reg('builtins.slice')
def b_slice(it, args, kw):
    return slice(*args)


@reg('builtins.staticmethod')
def b_static(it, args, kw):
    return ('staticmethod', args[0])


@reg('builtins.classmethod')
def b_class(it, args, kw):
    return ('classmethod', args[0])


@reg('builtins.property')
def b_prop(it, args, kw):
    return ('property', args[0])


@reg('builtins.hasattr')
def b_hasattr(it, args, kw):
    try:
        it.getattr(args[0], args[1])
        return True
    except Unsupported:
        return False


@reg('builtins.getattr')
def b_getattr(it, args, kw):
    return it.getattr(args[0], args[1])


@reg('functools.partial')
def f_partial(it, args, kw):
    f, pre, pk = args[0], args[1:], dict(kw)

    def call(interp, a, k):
        kk = dict(pk)
        kk.update(k)
        return interp.call(f, list(pre) + list(a), kk)
    return NativeFn(call, 'partial')


@reg('functools.wraps')
def f_wraps(it, args, kw):
    return NativeFn(lambda i, a, k: a[0], 'wraps')


def _callable(v):
    return isinstance(v, (Closure, NativeFn, LibFn, BoundMethod))


@reg('functools.lru_cache', 'functools.cache')
def f_memo(it, args, kw):
    if args and _callable(args[0]):
        return args[0]
    return NativeFn(lambda i, a, k: a[0], 'memo')


@reg('jax.custom_vjp', 'jax.custom_jvp')
def f_custom(it, args, kw):
    if not args:
        return NativeFn(lambda i, a, k: f_custom(i, a, kw), 'custom')
    f = args[0]

    def call(i, a, k):
        i.event('custom_gradient', what=getattr(f, 'name', ''))
        return i.call(f, a, k)
    r = NativeFn(call, 'custom')
    nop = NativeFn(lambda i, a, k: a[0] if a else None, 'defjvp')
    r.attrs = {'defjvp': nop, 'defvjp': nop, 'defjvps': nop}
    return r


@reg('functools.reduce')
def f_reduce(it, args, kw):
    items = it.concrete_items(args[1])
    if items is None:
        n, g = it.sym_iter(args[1])
        init = args[2] if len(args) > 2 else None
        off = ZERO
        if init is None:
            init = g(ZERO)
            off = ONE
        fin, _ = it.scan_generic(lambda c, t: ([it.call(args[0], [c[0], g(t + off)], {})], []), [init], n - off)
        return fin[0]
    items = list(items)
    if len(args) > 2:
        acc = args[2]
    else:
        acc = items.pop(0)
    for x in items:
        acc = it.call(args[0], [acc, x], {})
    return acc


for _nm, _op in (('add', 'Add'), ('mul', 'Mult'), ('sub', 'Sub'), ('truediv', 'Div'), ('pow', 'Pow'), ('matmul', 'MatMult'), ('mod', 'Mod'), ('floordiv', 'FloorDiv')):
    REG['operator.' + _nm] = (lambda op: lambda it, a, k: it.binop(op, a[0], a[1]))(_op)


@reg('itertools.product')
def i_product(it, args, kw):
    rep = const_int(kw.get('repeat', 1))
    args = list(args) * rep
    if any(isinstance(x, StarSym) for x in args):
        if len(args) == 1:
            l = args[0].lst
            if isinstance(l, SymList) and len(l.binders) == 1 and l.guard is ONE:
                inner = l.value
                var, d = l.binders[0]
                n, g = it.sym_iter(inner)
                if var.args[0] in n.fv:
                    raise Unsupported('product of ragged lists')
                probe = fresh(n)
                base = to_arr(g(ex(probe)))
                tot = pow_(n, d)
                k = fresh(tot)
                q = fresh(d)
                dg = mod_(floordiv(ex(k), pow_(n, d - 1 - ex(q))), n)
                val = subst(base.body, {probe.args[0]: dg, var.args[0]: ex(q)})
                return SymList([(k, tot)], SymList([(q, d)], scalar(val, base.dt, base.host, base.tr)))
        raise Unsupported('product of symbolic number of lists')
    lists = [it.concrete_items(x) for x in args]
    if all(l is not None for l in lists):
        n = 1
        for l in lists:
            n *= len(l)
        if n > 20000:
            raise Unsupported('product too large')
        return [tuple(t) for t in _it.product(*lists)]
    bs = []
    vals = []
    for x in args:
        n, g = it.sym_iter(x)
        v = fresh(n)
        bs.append((v, n))
        vals.append(g(ex(v)))
    return SymList(bs, tuple(vals))


@reg('itertools.accumulate')
def i_acc(it, args, kw):
    items = it.iterate(args[0])
    out = []
    acc = None
    f = args[1] if len(args) > 1 else None
    for x in items:
        if acc is None:
            acc = x
        else:
            acc = it.binop('Add', acc, x) if f is None else it.call(f, [acc, x], {})
        out.append(acc)
    return out


@reg('itertools.chain')
def i_chain(it, args, kw):
    out = []
    for a in args:
        out.extend(it.iterate(a))
    return out


@reg('itertools.combinations', 'itertools.permutations', 'itertools.combinations_with_replacement')
def i_comb(it, args, kw):
    raise Unsupported('itertools')


REG['itertools.combinations'] = lambda it, a, k: [tuple(t) for t in _it.combinations(it.iterate(a[0]), const_int(a[1]))]
REG['itertools.combinations_with_replacement'] = lambda it, a, k: [tuple(t) for t in _it.combinations_with_replacement(it.iterate(a[0]), const_int(a[1]))]
REG['itertools.permutations'] = lambda it, a, k: [tuple(t) for t in _it.permutations(it.iterate(a[0]))]


# ---------------------------------------------------------------- math
CONST['math.pi'] = scalar(PI, 'f', 'py')
CONST['math.e'] = scalar(exp_(ONE), 'f', 'py')
CONST['math.inf'] = scalar(from_fn('inf', ()), 'f', 'py')


def math1(name, f, dt='f'):
    def h(it, args, kw):
        a = to_arr(args[0])
        if a.tr:
            it.event('host_conversion', what='math.' + name)
        return scalar(f(as_E(a)), dt, 'py')
    REG['math.' + name] = h


def sqrt_(e):
    return pow_(e, ex(Fraction(1, 2)))


def fact2_(e):
    c = e.const()
    if c is not None:
        c = int(c)
        r = 1
        k = c
        while k > 1:
            r *= k
            k -= 2
        return ex(r)
    return from_fn('fact2', (e,))


X.SMART['fact2'] = lambda args, out, ders: fact2_(args[0])

math1('sqrt', sqrt_)
math1('exp', exp_)
math1('log', log_)
math1('sin', lambda e: unary('sin', e))
math1('cos', lambda e: unary('cos', e))
math1('tanh', lambda e: unary('tanh', e))
math1('floor', floor_, 'i')
math1('ceil', lambda e: -floor_(-e), 'i')
math1('lgamma', lambda e: unary('lgamma', e))
math1('gamma', lambda e: exp_(unary('lgamma', e)))
math1('fabs', abs_)
math1('factorial', fact_, 'i')


@reg('math.comb')
def m_comb(it, args, kw):
    n, k = as_E(to_arr(args[0])), as_E(to_arr(args[1]))
    cn, ck = n.const(), k.const()
    if cn is not None and cn < 0 or ck is not None and ck < 0:
        raise PyRaise('ValueError', it.where())
    return scalar(comb_(n, k), 'i', 'py')


@reg('math.prod')
def m_prod(it, args, kw):
    items = it.concrete_items(args[0])
    if items is None:
        return reduce_prod(to_arr(args[0]))
    acc = 1
    for x in items:
        acc = it.binop('Mult', acc, x)
    return acc


@reg('math.pow')
def m_pow(it, args, kw):
    return it.binop('Pow', args[0], args[1])


@reg('scipy.special.factorial')
def sp_fact(it, args, kw):
    return ew(fact_, args[0], dt='i' if kw.get('exact') else 'f')


@reg('scipy.special.factorial2')
def sp_fact2(it, args, kw):
    return ew(fact2_, args[0], dt='i' if kw.get('exact') else 'f')


@reg('scipy.special.comb', 'scipy.special.binom')
def sp_comb(it, args, kw):
    r = ew(comb_, args[0], args[1], dt='i' if kw.get('exact') else 'f')
    if r.host == 'py' and r.shape:
        r.host = 'np'
    return r


@reg('scipy.linalg.pascal')
def sp_pascal(it, args, kw):
    n = as_E(args[0])
    kind = kw.get('kind', args[1] if len(args) > 1 else 'symmetric')

    def f(i, j):
        if kind == 'lower':
            return comb_(i, j) * (ONE - ind_lt0(i - j))
        if kind == 'upper':
            return comb_(j, i) * (ONE - ind_lt0(j - i))
        return comb_(i + j, i)
    return mkarr((n, n), f, 'i', 'np')


# ---------------------------------------------------------------- numpy / jax.numpy
def H(host, a):
    """stamp host on result"""
    if isinstance(a, Arr):
        if a.host != host and not (host == 'np' and a.host == 'jnp'):
            a = Arr(a.shape, a.vars, a.body, a.dt, host, a.tr)
        elif host == 'np' and a.host == 'jnp':
            a = Arr(a.shape, a.vars, a.body, a.dt, 'np', a.tr)
    return a


def shape_of(v):
    if isinstance(v, (int, Arr)) and not (isinstance(v, Arr) and v.shape):
        return (as_E(v),)
    if isinstance(v, Arr):
        n = const_int(scalar(v.shape[0]))
        return tuple(v.at([k]) for k in range(n))
    return tuple(as_E(x) for x in v)


def kwget(args, kw, names, defaults=None):
    """bind positional/keyword arguments by name"""
    out = {}
    for n, a in zip(names, args):
        out[n] = a
    for k, v in kw.items():
        out[k] = v
    return out


for _nm, _f, _dt in (('exp', exp_, None), ('log', log_, None), ('sqrt', sqrt_, None),
                     ('sin', lambda e: unary('sin', e), None), ('cos', lambda e: unary('cos', e), None),
                     ('tan', lambda e: unary('tan', e), None), ('sinh', lambda e: unary('sinh', e), None), ('cosh', lambda e: unary('cosh', e), None),
                     ('tanh', lambda e: unary('tanh', e), None), ('arctan', lambda e: unary('arctan', e), None),
                     ('sign', lambda e: unary('sign', e), None), ('floor', floor_, None), ('ceil', lambda e: -floor_(-e), None),
                     ('isnan', lambda e: unary('isnan', e), 'b'), ('isfinite', lambda e: unary('isfinite', e), 'b'),
                     ('isinf', lambda e: (ONE - unary('isfinite', e)) * (ONE - unary('isnan', e)), 'b'), ('cbrt', lambda e: unary('sign', e) * pow_(abs_(e), ex(Fraction(1, 3))), None),
                     ('deg2rad', lambda e: e * PI / 180, None),
                     ('negative', lambda e: -e, None), ('positive', lambda e: e, None), ('square', lambda e: e * e, None),
                     ('reciprocal', lambda e: pow_(e, ex(-1)), None), ('exp2', lambda e: pow_(ex(2), e), None),
                     ('log1p', lambda e: log_(ONE + e), None), ('expm1', lambda e: exp_(e) - 1, None), ('log2', lambda e: log_(e) / log_(ex(2)), None),
                     ('round', lambda e: unary('round', e), None), ('rint', lambda e: unary('round', e), None), ('around', lambda e: unary('round', e), None),
                     ('nan_to_num', lambda e: e, None), ('trunc', lambda e: trunc(e), None),
                     ('logical_not', lambda e: ONE - e, 'b')):
    def _mk(f=_f, dt=_dt, nm=_nm):
        def h(it, host, args, kw):
            a = to_arr(args[0])
            d = dt
            if d is None:
                d = a.dt if a.dt in ('f', 'c') else ('f' if nm not in ('negative', 'square', 'sign', 'positive') else a.dt)
            if nm in ('nan_to_num', 'round', 'rint', 'sign', 'floor', 'ceil', 'around', 'trunc') and a.tr:
                it.event('nondiff', what=nm)
            return H(host, ew(f, a, dt=d))
        return h
    NPREG[_nm] = _mk()


def abs_c(e, dt):
    if dt == 'c':
        return from_fn('abs', (e,)) if e.const() is None else abs_(e)
    return abs_(e)


@npreg('abs', 'absolute', 'fabs')
def np_abs(it, host, args, kw):
    a = to_arr(args[0])
    return H(host, ew(lambda e: abs_c(e, a.dt), a, dt='f' if a.dt == 'c' else a.dt))


@npreg('real', 'imag', 'conj', 'conjugate', 'angle')
def np_ri(it, host, args, kw):
    raise Unsupported('complex part')


def _cpart(nm):
    def h(it, host, args, kw):
        a = to_arr(args[0])
        if a.dt != 'c':
            if nm == 'imag':
                return H(host, ew(lambda e: ZERO, a, dt=None))
            return a
        return H(host, ew(lambda e: unary(nm, e), a, dt='c' if nm == 'conj' else 'f'))
    return h


for _nm, _t in (('real', 'real'), ('imag', 'imag'), ('conj', 'conj'), ('conjugate', 'conj')):
    NPREG[_nm] = _cpart(_t)


for _nm, _op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
                 ('power', 'Pow'), ('float_power', 'Pow'), ('mod', 'Mod'), ('remainder', 'Mod'), ('floor_divide', 'FloorDiv'), ('matmul', 'MatMult')):
    NPREG[_nm] = (lambda op: lambda it, host, a, k: H(host, binop(it, op, to_arr(a[0]), to_arr(a[1]))))(_op)

for _nm, _op in (('less', 'Lt'), ('greater', 'Gt'), ('less_equal', 'LtE'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    NPREG[_nm] = (lambda op: lambda it, host, a, k: H(host, to_arr(it.compare(op, to_arr(a[0]), to_arr(a[1])))))(_op)

NPREG['logical_and'] = lambda it, h, a, k: H(h, ew(lambda p, q: p * q, a[0], a[1], dt='b'))
NPREG['logical_or'] = lambda it, h, a, k: H(h, ew(lambda p, q: p + q - p * q, a[0], a[1], dt='b'))
NPREG['logaddexp'] = lambda it, h, a, k: H(h, ew(lambda x, y: log_(exp_(x) + exp_(y)), a[0], a[1], dt='f'))
NPREG['hypot'] = lambda it, h, a, k: H(h, ew(lambda x, y: sqrt_(x * x + y * y), a[0], a[1], dt='f'))
NPREG['maximum'] = lambda it, h, a, k: H(h, ew(e_max, a[0], a[1], dt=None))
NPREG['minimum'] = lambda it, h, a, k: H(h, ew(e_min, a[0], a[1], dt=None))


@npreg('clip')
def np_clip(it, host, args, kw):
    b = kwget(args, kw, ['a', 'a_min', 'a_max'])
    x = b['a']
    lo, hi = b.get('a_min', b.get('min')), b.get('a_max', b.get('max'))
    if lo is not None:
        x = ew(e_max, x, lo, dt=None)
    if hi is not None:
        x = ew(e_min, x, hi, dt=None)
    return H(host, to_arr(x))


@npreg('where')
def np_where(it, host, args, kw):
    if len(args) != 3:
        raise Unsupported('where with one argument')
    c = to_arr(args[0])
    if c.dt != 'b':
        c = ew(lambda e: ONE - ind_eq(e), c, dt='b')
    a, b = to_arr(args[1]), to_arr(args[2])
    if a.tr or b.tr:
        it.event('where', cond=c, a=a, b=b)
    return H(host, ew(select, c, a, b, dt=None)) if True else None


def _fix_where():
    old = NPREG['where']

    def h(it, host, args, kw):
        r = old(it, host, args, kw)
        r.dt = join_dt(to_arr(args[1]).dt, to_arr(args[2]).dt)
        return r
    NPREG['where'] = h


_fix_where()


@npreg('select')
def np_select(it, host, args, kw):
    conds, vals = it.iterate(args[0]), it.iterate(args[1])
    r = to_arr(args[2] if len(args) > 2 else kw.get('default', 0))
    for c, v in reversed(list(zip(conds, vals))):
        r = ew(select, c, v, r, dt=None)
    return H(host, r)


@npreg('arange')
def np_arange(it, host, args, kw):
    b = kwget(args, kw, ['start', 'stop', 'step', 'dtype'])
    a = [x for x in (b.get('start'), b.get('stop'), b.get('step')) if x is not None]
    dts = [to_arr(x).dt for x in a]
    dt = 'f' if 'f' in dts else 'i'
    a = [as_E(x) for x in a]
    if len(a) == 1:
        st, sp, step = ZERO, a[0], ONE
    elif len(a) == 2:
        st, sp, step = a[0], a[1], ONE
    else:
        st, sp, step = a
    if dt == 'f' and not (st.isint and sp.isint and step.isint):
        n = -floor_(-((sp - st) * pow_(step, ex(-1))))
    else:
        n = RangeV(st, sp, step).length()
    if n.const() is not None and n.const() < 0:
        n = ZERO
    r = mkarr((n,), lambda i: st + step * i, dt, host)
    if 'dtype' in b:
        r = cast(r, b['dtype'], it)
    return r


@npreg('linspace')
def np_linspace(it, host, args, kw):
    b = kwget(args, kw, ['start', 'stop', 'num', 'endpoint', 'retstep'])
    a, z = to_arr(b['start']), to_arr(b['stop'])
    n = as_E(b.get('num', 50))
    ep = b.get('endpoint', True)
    den = n - 1 if ep else n
    r = mkarr((n,) + tuple(bshape([a.shape, z.shape])),
              lambda i, *r: a.at(bidx(a, list(r))) + (z.at(bidx(z, list(r))) - a.at(bidx(a, list(r)))) * i * pow_(den, ex(-1)), 'f', host, a.tr or z.tr)
    if b.get('retstep'):
        return r, ew(lambda p, q: (q - p) * pow_(den, ex(-1)), a, z)
    return r


@npreg('array', 'asarray', 'ascontiguousarray', 'asfarray', 'stack_', 'asanyarray')
def np_array(it, host, args, kw):
    b = kwget(args, kw, ['object', 'dtype'])
    v = b.get('object', b.get('a'))
    from .interp import ZipV, MapV
    if isinstance(v, (ZipV, MapV)):
        v = REG['builtins.list'](it, [v], {})
    a = to_arr(v)
    if host == 'np' and a.tr and a.host == 'jnp':
        it.event('host_conversion', what='np.asarray')
    if b.get('dtype') is not None:
        a = cast(a, b['dtype'], it)
    r = Arr(a.shape, a.vars, a.body, a.dt, host, a.tr)
    if host == 'np':
        r.tr = a.tr
    return r


def _filled(val):
    def h(it, host, args, kw):
        b = kwget(args, kw, ['shape', 'dtype'])
        r = mkarr(shape_of(b['shape']), lambda *i: ex(val), 'f', host)
        if b.get('dtype') is not None:
            r = cast(r, b['dtype'], it)
        return r
    return h


NPREG['zeros'] = _filled(0)
NPREG['ones'] = _filled(1)
NPREG['empty'] = _filled(0)


def _like(val):
    def h(it, host, args, kw):
        a = to_arr(args[0])
        r = mkarr(a.shape, lambda *i: ex(val), a.dt, host)
        if kw.get('dtype') is not None:
            r = cast(r, kw['dtype'], it)
        return r
    return h


NPREG['zeros_like'] = _like(0)
NPREG['ones_like'] = _like(1)
NPREG['empty_like'] = _like(0)


@npreg('full')
def np_full(it, host, args, kw):
    b = kwget(args, kw, ['shape', 'fill_value', 'dtype'])
    v = to_arr(b['fill_value'])
    r = broadcast_to(v, shape_of(b['shape']))
    return Arr(r.shape, r.vars, r.body, r.dt, host, r.tr)


@npreg('full_like')
def np_full_like(it, host, args, kw):
    a = to_arr(args[0])
    v = to_arr(args[1])
    r = broadcast_to(v, a.shape)
    return Arr(r.shape, r.vars, r.body, a.dt, host, r.tr)


@npreg('eye', 'identity')
def np_eye(it, host, args, kw):
    b = kwget(args, kw, ['N', 'M', 'k', 'dtype'])
    n = as_E(b.get('N', b.get('n')))
    m = as_E(b['M']) if b.get('M') is not None else n
    k = as_E(b.get('k', 0))
    return mkarr((n, m), lambda i, j: ind_eq(j - i - k), 'f', host)


@npreg('diag')
def np_diag(it, host, args, kw):
    b = kwget(args, kw, ['v', 'k'])
    a = to_arr(b['v'])
    k = as_E(b.get('k', 0))
    kc = k.const()
    if kc is None:
        raise Unsupported('diag offset')
    if a.ndim == 1:
        n = a.shape[0] + abs(kc)
        return H(host, mkarr((n, n), lambda i, j: _diag_el(a, i, j, kc), a.dt, host, a.tr))
    return np_diagonal(it, host, [a], {'offset': kc})


def _diag_el(a, i, j, k):
    idx = i if k >= 0 else j
    return ind_eq(j - i - k) * a.at([idx])


@npreg('diagonal')
def np_diagonal(it, host, args, kw):
    b = kwget(args, kw, ['a', 'offset', 'axis1', 'axis2'])
    a = to_arr(b['a'])
    off = const_int(b.get('offset', 0))
    a1, a2 = const_int(b.get('axis1', 0)) % a.ndim, const_int(b.get('axis2', 1)) % a.ndim
    r_, c_ = a.shape[a1], a.shape[a2]
    lr = r_ if off >= 0 else r_ + off
    lc = c_ - off if off >= 0 else c_
    if lr is lc or nonneg(lc - lr):
        n = lr
    elif nonneg(lr - lc):
        n = lc
    else:
        raise Unsupported('diagonal of a non-square array')
    rest = [k for k in range(a.ndim) if k not in (a1, a2)]

    def f(*idx):
        full = [None] * a.ndim
        for k, i in zip(rest, idx):
            full[k] = i
        i = idx[-1]
        full[a1] = i if off >= 0 else i - off
        full[a2] = i + off if off >= 0 else i
        return a.at(full)
    return mkarr([a.shape[k] for k in rest] + [n], f, a.dt, a.host if a.host != 'py' else host, a.tr)


@npreg('trace')
def np_trace(it, host, args, kw):
    return reduce_sum(np_diagonal(it, host, args, kw), -1)


@npreg('tril', 'triu')
def np_tri(it, host, args, kw):
    raise Unsupported('tri')


def _tri(lower):
    def h(it, host, args, kw):
        b = kwget(args, kw, ['m', 'k'])
        a = to_arr(b['m'])
        k = as_E(b.get('k', 0))
        return H(host, tri(a, lower, k))
    return h


def is_chol_body(body, i, j):
    if len(body.terms) == 1:
        (m, c), = body.terms.items()
        for at_, e in m.items:
            if at_.kind == 'fn' and at_.args[0] == 'chol' and at_.args[2] == (i, j):
                return True
    return False


def tri(a, lower, k=ZERO):
    vs = tuple(fresh(s) for s in a.shape)
    i, j = ex(vs[-2]), ex(vs[-1])
    body = a.at([ex(v) for v in vs])
    if lower:
        if k is ZERO and is_chol_body(body, i, j):
            return a
        c = ONE - ind_lt0(i + k - j)
    else:
        if k is ZERO and is_chol_body(body, j, i):
            return a
        c = ONE - ind_lt0(j - k - i)
    return Arr(a.shape, vs, c * body, a.dt, a.host, a.tr)


NPREG['tril'] = _tri(True)
NPREG['triu'] = _tri(False)


@npreg('einsum')
def np_einsum(it, host, args, kw):
    return H(host, einsum(args[0], args[1:]))


@npreg('dot')
def np_dot(it, host, args, kw):
    return H(host, dot(args[0], args[1]))


@npreg('vdot')
def np_vdot(it, host, args, kw):
    return H(host, dot(ravel(args[0]), ravel(args[1])))


@npreg('inner')
def np_inner(it, host, args, kw):
    a, b = to_arr(args[0]), to_arr(args[1])
    if a.ndim <= 1 and b.ndim <= 1:
        return H(host, dot(a, b))
    if a.ndim == 2 and b.ndim == 2:
        return H(host, matmul(a, transpose(b)))
    return H(host, dot(a, transpose(b) if b.ndim == 2 else b))


@npreg('outer')
def np_outer(it, host, args, kw):
    a, b = ravel(args[0]) if to_arr(args[0]).shape else reshape(args[0], [1]), ravel(args[1]) if to_arr(args[1]).shape else reshape(args[1], [1])
    return H(host, ew(lambda x, y: x * y, expand(a, 1), expand(b, 0), dt=None))


@npreg('tensordot')
def np_tensordot(it, host, args, kw):
    a, b = to_arr(args[0]), to_arr(args[1])
    ax = args[2] if len(args) > 2 else kw.get('axes', 2)
    if isinstance(ax, int):
        k = ax
        la = [chr(97 + i) for i in range(a.ndim)]
        lb = la[a.ndim - k:] + [chr(97 + a.ndim + i) for i in range(b.ndim - k)]
        return H(host, einsum(''.join(la) + ',' + ''.join(lb) + '->' + ''.join(la[:a.ndim - k] + lb[k:]), [a, b]))
    xa, xb = [it.iterate(q) if not isinstance(q, int) else [q] for q in ax]
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = [chr(97 + a.ndim + i) for i in range(b.ndim)]
    for p, q in zip(xa, xb):
        lb[const_int(q) % b.ndim] = la[const_int(p) % a.ndim]
    sm = {la[const_int(p) % a.ndim] for p in xa}
    return H(host, einsum(''.join(la) + ',' + ''.join(lb) + '->' + ''.join(x for x in la + [y for y in lb if y not in la] if x not in sm), [a, b]))


@npreg('kron')
def np_kron(it, host, args, kw):
    a, b = to_arr(args[0]), to_arr(args[1])
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported('kron')
    t = ew(lambda x, y: x * y, expand(expand(a, 1), 3), expand(expand(b, 0), 2), dt=None)
    return H(host, reshape(t, [scalar(a.shape[0] * b.shape[0]), scalar(a.shape[1] * b.shape[1])]))


def axisof(args, kw, pos=1):
    if len(args) > pos:
        return args[pos]
    return kw.get('axis')


def _red(fn):
    def h(it, host, args, kw):
        a = args[0]
        if isinstance(a, (list, tuple)):
            a = to_arr(a)
        a, ax, kd = to_arr(a), axisof(args, kw), bool(kw.get('keepdims', False))
        if kw.get('initial') is not None:
            raise Unsupported('reduction from an initial value')
        m = kw.get('where')
        if m is not None:
            m = to_arr(m)
            if m.dt != 'b' or fn not in (reduce_sum, reduce_prod, mean_):
                raise Unsupported('reduction of selected elements')
            neutral = ONE if fn is reduce_prod else ZERO
            a = ew(lambda c, x: select(c, x, neutral), m, a, dt=a.dt)
            if fn is mean_:
                n = reduce_sum(ew(lambda c, x: select(c, ONE, ZERO), m, a, dt='f'), ax, kd)
                return H(host, ew(lambda x, y: x * pow_(y, ex(-1)), reduce_sum(a, ax, kd), n))
        r = fn(a, ax, kd)
        dd = kw.get('ddof', kw.get('correction', 0))
        if not (isinstance(dd, int) and dd == 0):
            if fn not in (var_, std_):
                raise Unsupported('ddof')
            n = prod_e([a.shape[k] for k in norm_axes(ax, a.ndim)])
            f = n * pow_(n - as_E(to_arr(dd)), ex(-1))
            r = ew(lambda e: e * (f if fn is var_ else sqrt_(f)), r)
        return H(host, r)
    return h


def std_(a, ax=None, kd=False):
    return ew(sqrt_, var_(a, ax, kd))


def mean_(a, axis=None, keepdims=False):
    n = prod_e([a.shape[k] for k in norm_axes(axis, a.ndim)])
    return ew(lambda e: e * pow_(n, ex(-1)), reduce_sum(a, axis, keepdims))


def var_(a, axis=None, keepdims=False):
    m = mean_(a, axis, True)
    return mean_(ew(lambda x, y: (x - y) * (x - y), a, m), axis, keepdims)


NPREG['sum'] = _red(reduce_sum)
NPREG['nansum'] = _red(reduce_sum)
NPREG['nanmean'] = _red(mean_)
NPREG['nanvar'] = _red(var_)
NPREG['nanprod'] = _red(reduce_prod)
NPREG['prod'] = _red(reduce_prod)
NPREG['product'] = _red(reduce_prod)
NPREG['mean'] = _red(mean_)
NPREG['var'] = _red(var_)
NPREG['std'] = _red(std_)
NPREG['max'] = NPREG['amax'] = _red(lambda a, ax, kd: reduce_opaque('max', a, ax, kd))
NPREG['min'] = NPREG['amin'] = _red(lambda a, ax, kd: reduce_opaque('min', a, ax, kd))
NPREG['nanmax'] = NPREG['max']
NPREG['nanmin'] = NPREG['min']
NPREG['any'] = _red(lambda a, ax, kd: reduce_opaque('any', a, ax, kd, 'b'))
NPREG['all'] = _red(lambda a, ax, kd: reduce_opaque('all', a, ax, kd, 'b'))
NPREG['argmin'] = _red(lambda a, ax, kd: reduce_opaque('argmin', a, ax, kd, 'i'))
NPREG['argmax'] = _red(lambda a, ax, kd: reduce_opaque('argmax', a, ax, kd, 'i'))
NPREG['median'] = _red(lambda a, ax, kd: reduce_opaque('median', a, ax, kd))


@npreg('average')
def np_average(it, host, args, kw):
    w = args[2] if len(args) > 2 else kw.get('weights')
    a = to_arr(args[0])
    ax = axisof(args, kw)
    if w is None:
        return H(host, mean_(a, ax))
    w = to_arr(w)
    if w.ndim != a.ndim:
        if w.ndim == 1 and isinstance(ax, int):
            for k in range(a.ndim):
                if k != ax % a.ndim:
                    w = expand(w, k)
        else:
            raise Unsupported('average')
    num = reduce_sum(ew(lambda x, y: x * y, a, w), ax)
    den = reduce_sum(broadcast_to(w, a.shape), ax)
    return H(host, ew(lambda x, y: x * pow_(y, ex(-1)), num, den))


@npreg('cumsum')
def np_cumsum(it, host, args, kw):
    a = to_arr(args[0])
    ax = axisof(args, kw)
    if ax is None:
        if a.ndim != 1:
            a = ravel(a)
        ax = 0
    ax = const_int(ax) % a.ndim

    def f(*idx):
        n = idx[ax] + 1
        s = fresh(n)
        ii = list(idx)
        ii[ax] = ex(s)
        return mk_sum(s, n, a.at(ii))
    return retable(mkarr(a.shape, f, a.dt, host, a.tr))


@npreg('cumprod')
def np_cumprod(it, host, args, kw):
    a = to_arr(args[0])
    ax = axisof(args, kw)
    if ax is None:
        if a.ndim != 1:
            a = ravel(a)
        ax = 0
    ax = const_int(ax) % a.ndim

    def f(*idx):
        n = idx[ax] + 1
        s = fresh(n)
        ii = list(idx)
        ii[ax] = ex(s)
        return mk_prod(s, n, a.at(ii))
    return mkarr(a.shape, f, a.dt, host, a.tr)


@npreg('diff')
def np_diff(it, host, args, kw):
    a = to_arr(args[0])
    ax = const_int(kw.get('axis', -1)) % a.ndim
    n = a.shape[ax] - 1
    shp = list(a.shape)
    shp[ax] = n

    def f(*idx):
        jj = list(idx)
        jj[ax] = idx[ax] + 1
        return a.at(jj) - a.at(idx)
    return mkarr(shp, f, a.dt, host, a.tr)


@npreg('trapz', 'trapezoid')
def np_trapz(it, host, args, kw):
    b = kwget(args, kw, ['y', 'x', 'dx', 'axis'])
    y = to_arr(b['y'])
    ax = const_int(b.get('axis', -1)) % y.ndim
    y = moveaxis(y, ax, y.ndim - 1)
    n = y.shape[-1] - 1
    x = b.get('x')
    if x is not None:
        x = to_arr(x)
        if x.ndim > 1:
            x = moveaxis(x, ax, x.ndim - 1)
    dx = as_E(b.get('dx', 1)) if x is None else None

    def f(*idx):
        k = fresh(n)
        lo, hi = list(idx) + [ex(k)], list(idx) + [ex(k) + 1]
        w = dx if x is None else x.at(bidx(x, hi)) - x.at(bidx(x, lo))
        return mk_sum(k, n, w * (y.at(hi) + y.at(lo)) * Fraction(1, 2))
    return mkarr(y.shape[:-1], f, y.dt, host, y.tr)


@npreg('gradient')
def np_gradient(it, host, args, kw):
    a = to_arr(args[0])
    axis = kw.get('axis')
    hs = args[1:]
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, int):
        axes = [axis % a.ndim]
    else:
        axes = [const_int(x) % a.ndim for x in axis]
    outs = []
    for q, ax in enumerate(axes):
        h = to_arr(hs[q] if len(hs) > 1 else hs[0]) if hs else to_arr(1)
        if h.shape:
            raise Unsupported('gradient with coordinates')
        he = h.body
        n = a.shape[ax]

        def f(*idx, ax=ax, he=he, n=n):
            i = idx[ax]

            def at(j):
                jj = list(idx)
                jj[ax] = j
                return a.at(jj)
            inner = (at(i + 1) - at(i - 1)) * pow_(he, ex(-1)) * Fraction(1, 2)
            first = (at(i * 0 + 1) - at(i * 0)) * pow_(he, ex(-1))
            last = (at(n - 1) - at(n - 2)) * pow_(he, ex(-1))
            return select(ind_eq(i), first, select(ind_eq(i - n + 1), last, inner))
        outs.append(mkarr(a.shape, f, 'f', host, a.tr or h.tr))
    return outs[0] if len(outs) == 1 else outs


@npreg('interp')
def np_interp(it, host, args, kw):
    b = kwget(args, kw, ['x', 'xp', 'fp', 'left', 'right', 'period'])
    xp, fp = to_arr(b['xp']), to_arr(b['fp'])
    extra = []
    for k in ('left', 'right'):
        if b.get(k) is not None:
            extra.append(as_E(b[k]))
        else:
            extra.append(fp.at([0 if k == 'left' else xp.shape[0] - 1]))
    return H(host, ew(lambda x: mkfn('interp', (x, xp.lam(), fp.lam(), extra[0], extra[1])), b['x']))


@npreg('searchsorted')
def np_searchsorted(it, host, args, kw):
    b = kwget(args, kw, ['a', 'v', 'side'])
    a = to_arr(b['a'])
    side = b.get('side', 'left')
    return H(host, ew(lambda v: mkfn('searchsorted', (a.lam(), v, ZERO if side == 'left' else ONE)), b['v'], dt='i'))


@npreg('argsort')
def np_argsort(it, host, args, kw):
    a = to_arr(args[0])
    ax = const_int(axisof(args, kw) if axisof(args, kw) is not None else -1) % a.ndim
    return H(host, along(a, ax, 'argsort', 'i'))


def along(a, ax, name, dt):
    a2 = moveaxis(a, ax, a.ndim - 1)

    def f(*idx):
        v = fresh(a2.shape[-1])
        return mkfn(name, (mklam((a2.shape[-1],), (v,), a2.at(list(idx[:-1]) + [ex(v)])),), (idx[-1],))
    r = mkarr(a2.shape, f, dt, a.host, a.tr)
    return moveaxis(r, a.ndim - 1, ax)


@npreg('sort')
def np_sort(it, host, args, kw):
    a = to_arr(args[0])
    ax = const_int(axisof(args, kw) if axisof(args, kw) is not None else -1) % a.ndim
    return H(host, along(a, ax, 'sort', a.dt))


@npreg('take_along_axis')
def np_taa(it, host, args, kw):
    a, i = to_arr(args[0]), to_arr(args[1])
    ax = const_int(axisof(args, kw, 2)) % a.ndim
    def f(*idx):
        full = [ZERO if a.shape[k].const() == 1 and k != ax else idx[k] for k in range(a.ndim)]
        full[ax] = norm_elem_index(i.at(bidx(i, list(idx))), a.shape[ax], True)
        return a.at(full)
    shp = list(bshape([[x for k, x in enumerate(a.shape) if k != ax], [x for k, x in enumerate(i.shape) if k != ax]]))
    shp.insert(ax, i.shape[ax])
    return mkarr(shp, f, a.dt, host, a.tr or i.tr)


@npreg('take')
def np_take(it, host, args, kw):
    a = to_arr(args[0])
    ax = axisof(args, kw, 2)
    if ax is None:
        a = ravel(a)
        ax = 0
    ax = const_int(ax) % a.ndim
    return getitem(a, tuple([slice(None)] * ax + [args[1] if not isinstance(args[1], (list, tuple)) else to_arr(args[1])]))


@npreg('flip')
def np_flip(it, host, args, kw):
    a = to_arr(args[0])
    axes = norm_axes(axisof(args, kw), a.ndim)
    return H(host, mkarr(a.shape, lambda *i: a.at([a.shape[k] - 1 - i[k] if k in axes else i[k] for k in range(a.ndim)]), a.dt, a.host, a.tr))


NPREG['flipud'] = lambda it, h, a, k: np_flip(it, h, [a[0], 0], {})
NPREG['fliplr'] = lambda it, h, a, k: np_flip(it, h, [a[0], 1], {})


@npreg('roll')
def np_roll(it, host, args, kw):
    a = to_arr(args[0])
    s = as_E(args[1])
    ax = axisof(args, kw, 2)
    ax = 0 if ax is None and a.ndim == 1 else const_int(ax) % a.ndim
    return H(host, retable(mkarr(a.shape, lambda *i: a.at([mod_(i[k] - s, a.shape[k]) if k == ax else i[k] for k in range(a.ndim)]), a.dt, a.host, a.tr)))


@npreg('concatenate')
def np_concat(it, host, args, kw):
    l = args[0]
    items = it.concrete_items(l)
    if items is None:
        raise Unsupported('concatenate of a symbolic list')
    return H(host, concat(items, const_int(axisof(args, kw) or 0)))


@npreg('append')
def np_append(it, host, args, kw):
    a, b = to_arr(args[0]), to_arr(args[1])
    ax = axisof(args, kw, 2)
    if ax is None:
        return H(host, concat([ravel(a), ravel(b) if b.shape else reshape(b, [1])], 0))
    return H(host, concat([a, b], const_int(ax)))


@npreg('stack')
def np_stack(it, host, args, kw):
    items = it.concrete_items(args[0])
    ax = axisof(args, kw)
    if items is None:
        r = to_arr(args[0])
        return H(host, moveaxis(r, 0, const_int(ax or 0)))
    items = [to_arr(x) for x in items]
    return H(host, stack_list(items, const_int(ax or 0) % (items[0].ndim + 1)))


def at_least(a, nd):
    a = to_arr(a)
    while a.ndim < nd:
        a = expand(a, 0) if nd <= 2 or a.ndim < 2 else expand(a, a.ndim)
    return a


@npreg('vstack', 'row_stack')
def np_vstack(it, host, args, kw):
    if isinstance(args[0], (Arr, SymList)):
        a = to_arr(args[0])
        if isinstance(args[0], SymList) or it.concrete_items(args[0]) is None:
            if a.ndim == 2:
                return H(host, a)
            if a.ndim == 1:
                return H(host, expand(a, 1))
            return H(host, reshape(a, [scalar(a.shape[0] * a.shape[1])] + [scalar(s) for s in a.shape[2:]]))
    return H(host, concat([at_least(x, 2) for x in it.iterate(args[0])], 0))


@npreg('hstack')
def np_hstack(it, host, args, kw):
    items = [at_least(x, 1) for x in it.iterate(args[0])]
    return H(host, concat(items, 0 if items[0].ndim == 1 else 1))


@npreg('column_stack')
def np_cstack(it, host, args, kw):
    items = [to_arr(x) for x in it.iterate(args[0])]
    items = [expand(x, 1) if x.ndim == 1 else x for x in items]
    return H(host, concat(items, 1))


@npreg('block')
def np_block(it, host, args, kw):
    def rec(x, depth):
        if isinstance(x, list):
            parts = [rec(y, depth + 1) for y in x]
            nd = max(p.ndim for p in parts)
            ax = -1 if not isinstance(x[0], list) else -2
            parts = [at_least(p, 2) for p in parts]
            return concat(parts, 1 if ax == -1 else 0)
        return to_arr(x)
    return H(host, rec(args[0], 0))


@npreg('pad')
def np_pad(it, host, args, kw):
    b = kwget(args, kw, ['array', 'pad_width', 'mode'])
    a = to_arr(b['array'])
    pw = b['pad_width']
    mode = b.get('mode', 'constant')
    if mode != 'constant':
        raise Unsupported('pad mode')
    cv = as_E(b.get('constant_values', 0))

    def pair(p):
        if isinstance(p, (int, Arr)):
            return (as_E(p), as_E(p))
        p = it.iterate(p)
        return (as_E(p[0]), as_E(p[-1]))
    if isinstance(pw, (tuple, list)) and pw and isinstance(pw[0], (tuple, list)):
        ps = [pair(p) for p in pw]
        if len(ps) == 1:
            ps = ps * a.ndim
    else:
        ps = [pair(pw)] * a.ndim
    shp = [s + l + r for s, (l, r) in zip(a.shape, ps)]

    def f(*idx):
        c = ONE
        ii = []
        for i, s, (l, r) in zip(idx, a.shape, ps):
            if l is not ZERO:
                c = c * (ONE - ind_lt0(i - l))
            if r is not ZERO:
                c = c * ind_lt0(i - l - s)
            ii.append(i - l)
        return select(c, a.at(ii), cv)
    return retable(mkarr(shp, f, a.dt, host, a.tr))


@npreg('tile')
def np_tile(it, host, args, kw):
    a = to_arr(args[0])
    reps = args[1]
    reps = [as_E(reps)] if not isinstance(reps, (tuple, list)) else [as_E(r) for r in reps]
    while len(reps) < a.ndim:
        reps.insert(0, ONE)
    while a.ndim < len(reps):
        a = expand(a, 0)
    return H(host, mkarr([s * r for s, r in zip(a.shape, reps)],
                         lambda *i: a.at([mod_(x, s) if r is not ONE else x for x, s, r in zip(i, a.shape, reps)]), a.dt, host, a.tr))


@npreg('repeat')
def np_repeat(it, host, args, kw):
    a = to_arr(args[0])
    r = as_E(args[1])
    ax = axisof(args, kw, 2)
    if ax is None:
        a = ravel(a)
        ax = 0
    ax = const_int(ax) % a.ndim
    shp = list(a.shape)
    shp[ax] = shp[ax] * r
    return H(host, mkarr(shp, lambda *i: a.at([floordiv(x, r) if k == ax else x for k, x in enumerate(i)]), a.dt, host, a.tr))


@npreg('broadcast_to')
def np_broadcast_to(it, host, args, kw):
    return H(host, broadcast_to(args[0], shape_of(args[1])))


@npreg('meshgrid')
def np_meshgrid(it, host, args, kw):
    if any(isinstance(x, StarSym) for x in args):
        raise Unsupported('meshgrid of a symbolic number of arrays')
    arrs = [to_arr(x) for x in args]
    ind = kw.get('indexing', 'xy')
    n = len(arrs)
    order = list(range(n))
    if ind == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    shp = [arrs[k].shape[0] for k in order]
    out = []
    for k, a in enumerate(arrs):
        pos = order.index(k)
        out.append(mkarr(shp, lambda *i, a=a, pos=pos: a.at([i[pos]]), a.dt, host, a.tr))
    return out


NPREG['transpose'] = lambda it, h, a, k: H(h, transpose(a[0], (it.iterate(a[1]) if len(a) > 1 and a[1] is not None else (it.iterate(k['axes']) if k.get('axes') is not None else None))))
NPREG['swapaxes'] = lambda it, h, a, k: H(h, _swap(to_arr(a[0]), const_int(a[1]), const_int(a[2])))
NPREG['moveaxis'] = lambda it, h, a, k: H(h, moveaxis(to_arr(a[0]), const_int(a[1]), const_int(a[2])))
NPREG['ravel'] = lambda it, h, a, k: H(h, reshape_order(to_arr(a[0]), [-1], a[1] if len(a) > 1 else k.get('order')) if len(a) > 1 or 'order' in k else ravel(a[0]))
NPREG['squeeze'] = lambda it, h, a, k: H(h, squeeze(a[0], axisof(a, k)))
NPREG['expand_dims'] = lambda it, h, a, k: H(h, expand(to_arr(a[0]), const_int(axisof(a, k))))
NPREG['atleast_1d'] = lambda it, h, a, k: H(h, at_least(a[0], 1))
NPREG['atleast_2d'] = lambda it, h, a, k: H(h, at_least(a[0], 2))
NPREG['copy'] = lambda it, h, a, k: H(h, to_arr(a[0]).copy())
NPREG['shape'] = lambda it, h, a, k: it.getattr(to_arr(a[0]), 'shape')
NPREG['ndim'] = lambda it, h, a, k: to_arr(a[0]).ndim
NPREG['size'] = lambda it, h, a, k: scalar(prod_e(to_arr(a[0]).shape), 'i', 'py')
NPREG['isscalar'] = lambda it, h, a, k: isinstance(a[0], int) or isinstance(a[0], Arr) and a[0].host == 'py'
NPREG['result_type'] = lambda it, h, a, k: ('dtype', 'float64')
NPREG['save'] = NPREG['savez'] = NPREG['savez_compressed'] = lambda it, h, a, k: it.event('io', what='save')


def _swap(a, i, j):
    o = list(range(a.ndim))
    i, j = i % a.ndim, j % a.ndim
    o[i], o[j] = o[j], o[i]
    return transpose(a, o)


@npreg('reshape')
def np_reshape(it, host, args, kw):
    s = args[1] if len(args) > 1 else kw.get('newshape', kw.get('shape'))
    s = it.iterate(s) if isinstance(s, (tuple, list)) else [s]
    return H(host, reshape_order(args[0], s, args[2] if len(args) > 2 else kw.get('order')))


def reshape_order(a, s, order=None):
    if order in (None, 'C'):
        return reshape(a, s)
    if order == 'F':
        return transpose(reshape(transpose(to_arr(a)), list(s)[::-1]))
    raise Unsupported('memory order of reshape')


@npreg('nonzero')
def np_nonzero(it, host, args, kw):
    a = to_arr(args[0])
    n = size_const(a.shape)
    if n is None or a.ndim != 1:
        raise Unsupported('nonzero')
    idx = []
    for k in range(n):
        c = a.at([k]).const()
        if c is None:
            raise Unsupported('nonzero of symbolic data')
        if c != 0:
            idx.append(k)
    return (Arr((ex(len(idx)),), (fresh(ex(len(idx))),), ZERO, 'i', host) if not idx else H(host, stack_list(idx)),)


NPREG['flatnonzero'] = lambda it, h, a, k: np_nonzero(it, h, a, k)[0]
NPREG['count_nonzero'] = lambda it, h, a, k: H(h, reduce_sum(ew(lambda e: ONE - ind_eq(e), a[0], dt='i'), axisof(a, k)))


@npreg('polyval')
def np_polyval(it, host, args, kw):
    p, x = to_arr(args[0]), to_arr(args[1])
    n = p.shape[0]

    def f(e):
        k = fresh(n)
        return mk_sum(k, n, p.at([ex(k)]) * pow_(e, n - 1 - ex(k)))
    return H(host, ew(f, x, dt=join_dt(p.dt, x.dt)))


@npreg('polyder')
def np_polyder(it, host, args, kw):
    p = to_arr(args[0])
    m = const_int(args[1]) if len(args) > 1 else const_int(kw.get('m', 1))
    for _ in range(m):
        n = p.shape[0]
        q = p
        p = mkarr((n - 1,), lambda i, q=q, n=n: q.at([i]) * (n - 1 - i), q.dt, host, q.tr)
    return p


@npreg('polyadd')
def np_polyadd(it, host, args, kw):
    a, b = to_arr(args[0]), to_arr(args[1])
    na, nb = a.shape[0], b.shape[0]
    if nonneg(na - nb):
        n = na
    elif nonneg(nb - na):
        n = nb
    else:
        raise Unsupported('polyadd')

    def f(i):
        r = ZERO
        for x, k in ((a, na), (b, nb)):
            o = n - k
            r = r + (x.at([i]) if o is ZERO else (ONE - ind_lt0(i - o)) * x.at([i - o]))
        return r
    return retable(mkarr((n,), f, join_dt(a.dt, b.dt), host, a.tr or b.tr))


@npreg('polymul', 'convolve')
def np_polymul(it, host, args, kw):
    a, b = to_arr(args[0]), to_arr(args[1])
    n = a.shape[0] + b.shape[0] - 1

    def f(i):
        k = fresh(a.shape[0])
        j = i - ex(k)
        return mk_sum(k, a.shape[0], (ONE - ind_lt0(j)) * ind_lt0(j - b.shape[0]) * a.at([ex(k)]) * b.at([j]))
    return mkarr((n,), f, join_dt(a.dt, b.dt), host, a.tr or b.tr)


@npreg('roots')
def np_roots(it, host, args, kw):
    p = to_arr(args[0])
    if kw.get('strip_zeros', True) is not False and host == 'jnp' and p.tr:
        it.event('traced_roots')
    return mkarr((p.shape[0] - 1,), lambda i: mkfn('roots', (p.lam(),), (i,)), 'c', host, p.tr)


@npreg('vectorize')
def np_vectorize(it, host, args, kw):
    if not args:
        pk = dict(kw)
        return NativeFn(lambda i, a, k: np_vectorize(i, host, a, {**pk, **k}), 'vectorize')
    f = args[0]
    sig = kw.get('signature')
    excluded = kw.get('excluded')

    def call(interp, a, k):
        return H(host, apply_vectorize(interp, f, sig, a, k))
    return NativeFn(call, 'vectorized')


def apply_vectorize(it, f, sig, args, kw):
    if sig is None:
        cores = [[] for _ in args]
        outs = [[]]
    else:
        ins, o = sig.replace(' ', '').split('->')
        import re
        cores = [[x for x in g.split(',') if x] for g in re.findall(r'\(([^)]*)\)', ins)]
        outs = [[x for x in g.split(',') if x] for g in re.findall(r'\(([^)]*)\)', o)]
    arrs = [to_arr(a) for a in args]
    if len(arrs) != len(cores):
        raise PyRaise('TypeError', it.where())
    lead = []
    for a, c in zip(arrs, cores):
        if a.ndim < len(c):
            raise PyRaise('ValueError', it.where())
        lead.append(a.shape[:a.ndim - len(c)])
    bs = bshape(lead)
    n = size_const(bs)

    def at(tup):
        sub = []
        for a, c, l in zip(arrs, cores, lead):
            off = len(bs) - len(l)
            ii = [ZERO if l[k].const() == 1 else tup[off + k] for k in range(len(l))]
            x = a
            rest = a.shape[len(l):]
            vs = tuple(fresh(s) for s in rest)
            r = Arr(rest, vs, a.at(ii + [ex(v) for v in vs]), a.dt, a.host if a.host != 'py' else 'np', a.tr)
            sub.append(it.post(r))
        return it.call(f, sub, kw)
    if n is not None and n <= 400:
        def rec(prefix, k):
            if k == len(bs):
                r = at(prefix)
                return r
            return [rec(prefix + [ex(i)], k + 1) for i in range(int(bs[k].const()))]
        r = rec([], 0)
        return to_arr(r)
    vs = tuple(fresh(s) for s in bs)
    it.loops.extend((v.args[0], s) for v, s in zip(vs, bs))
    try:
        r = to_arr(at([ex(v) for v in vs]))
    finally:
        for _ in vs:
            it.loops.pop()
    return Arr(bs + r.shape, vs + r.vars, r.body, r.dt, 'np', r.tr)


NPREG['apply_along_axis'] = lambda it, h, a, k: (_ for _ in ()).throw(Unsupported('apply_along_axis'))
NPREG['errstate'] = lambda it, h, a, k: None
