"""Array primitives of the front end (index-notation semantics)."""
from .values import *
from .expr import *
from . import expr as X
from fractions import Fraction

SPEC_BUILTINS = set()
TABLE_MAX = 4096


def is_num(v):
    return isinstance(v, (int, bool, Arr))


# ---------------------------------------------------------------- tables (concrete cells)
def _table(args, out, ders=()):
    i = out[0]
    c = i.const()
    if c is not None:
        c = int(c)
        if 0 <= c < len(args):
            return args[c]
        return args[0] if c < 0 else args[-1]       # only reachable under a false guard, or jnp clamping
    first = args[0]
    if all(a is first for a in args):
        return first
    # affine integer tables
    cs = [a.const() for a in args]
    if all(x is not None for x in cs) and len(cs) >= 2:
        step = cs[1] - cs[0]
        if all(cs[k] == cs[0] + k * step for k in range(len(cs))):
            return ex(cs[0]) + ex(step) * i
    isint = all(a.isint for a in args)
    return ex(mkatom('fn', 'table', tuple(args), (i,), (), isint=isint))


X.SMART['table'] = _table


def table(cells, i):
    return _table(tuple(cells), (ex(i),))


# ---------------------------------------------------------------- conversion
def join_dt(*dts):
    order = 'bifc'
    best = 'b'
    for d in dts:
        if d == 'key':
            return 'key'
        if order.index(d) > order.index(best):
            best = d
    return best


def join_host(hs):
    if 'jnp' in hs:
        return 'jnp'
    if 'np' in hs:
        return 'np'
    return 'py'


def to_arr(v, host=None):
    if isinstance(v, Arr):
        return v
    if isinstance(v, bool):
        return scalar(ONE if v else ZERO, 'b', 'py')
    if isinstance(v, int):
        return scalar(ex(v), 'i', 'py')
    if isinstance(v, (list, tuple)):
        return stack_list(list(v))
    if isinstance(v, RangeV):
        n = v.length()
        return mkarr((n,), lambda i: v.start + v.step * i, 'i', 'np')
    if isinstance(v, SymList):
        return symlist_arr(v)
    if isinstance(v, Unk):
        raise Unsupported(v.reason)
    if isinstance(v, Inst) and v.cls.kind == 'namedtuple':
        return stack_list([v.fields[k] for k in v.cls.fields])
    raise Unsupported('array from %s' % type(v).__name__)


def symlist_arr(v):
    if v.guard is not ONE:
        raise Unsupported('array from filtered symbolic list')
    val = to_arr(v.value)
    bs = v.binders
    if len(bs) == 1:
        var, ext = bs[0]
        if any(var.args[0] in s.fv for s in val.shape):
            raise Unsupported('ragged array')
        nv = fresh(ext)
        body = subst(val.body, {var.args[0]: ex(nv)})
        return Arr((ext,) + val.shape, (nv,) + val.vars, body, val.dt, 'np' if val.host == 'py' else val.host, val.tr)
    n = v.length
    nv = fresh(n)
    k = ex(nv)
    m = {}
    rest = n
    for var, ext in bs:
        if any(var.args[0] in e.fv for _, e in bs):
            raise Unsupported('ragged nested list')
    exts = [e for _, e in bs]
    for q, (var, ext) in enumerate(bs):
        m[var.args[0]] = digit(k, exts, q)
    return Arr((n,) + val.shape, (nv,) + val.vars, subst(val.body, m), val.dt,
               'np' if val.host == 'py' else val.host, val.tr)


def digit(k, exts, q):
    """q-th mixed-radix digit (row-major) of flat index k"""
    w = ONE
    for e in exts[q + 1:]:
        w = w * e
    d = floordiv(k, w)
    if q == 0:
        return d
    return mod_(d, exts[q])


def floordiv(a, b):
    if b is ONE:
        return a
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return ex((Fraction(ca) / cb).__floor__())
    if nonneg(a) and nonneg(b - 1 - a):
        return ZERO
    # split terms divisible by b
    q = ZERO
    r = ZERO
    if cb is None and len(b.terms) == 1 and a.isint:
        (bm, bc), = b.terms.items()
        if bc == 1:
            bi = dict(bm.items)
            for m, c in a.terms.items():
                d = dict(m.items)
                ok = True
                for at, e in bi.items():
                    if at in d and not isinstance(d[at], E) and not isinstance(e, E) and d[at] >= e:
                        d[at] = d[at] - e
                        if d[at] == 0:
                            del d[at]
                    else:
                        ok = False
                        break
                if ok:
                    q = q + from_factors(d, c)
                else:
                    r = r + mkE({m: c})
            if q.terms:
                if nonneg(r) and nonneg(b - 1 - r):
                    return q
                return q + from_fn('floordiv', (r, b))
    if cb is not None and a.isint:
        return floor_(scale(a, Fraction(1) / cb))
    return from_fn('floordiv', (a, b))


X.SMART['floordiv'] = lambda args, out, ders: floordiv(args[0], args[1])


def stack_list(items, axis=0):
    if not items:
        return Arr((ZERO,), (fresh(ZERO),), ZERO, 'f', 'np')
    arrs = [to_arr(x) for x in items]
    nd = max(a.ndim for a in arrs)
    sh = arrs[0].shape
    for a in arrs:
        if len(a.shape) != len(sh) or any(x is not y for x, y in zip(a.shape, sh)):
            raise Unsupported('stack of different shapes')
    vs = tuple(fresh(s) for s in sh)
    cells = [a.at([ex(v) for v in vs]) for a in arrs]
    n = ex(len(arrs))
    iv = fresh(n)
    body = table(cells, ex(iv))
    dt = join_dt(*[a.dt for a in arrs])
    host = join_host([a.host for a in arrs])
    if host == 'py':
        host = 'np'
    r = Arr((n,) + sh, (iv,) + vs, body, dt, host, any(a.tr for a in arrs))
    if axis:
        r = moveaxis(r, 0, axis)
    return r


def size_const(shape):
    n = 1
    for s in shape:
        c = s.const()
        if c is None:
            return None
        n *= int(c)
    return n


def retable(a):
    """concrete-shape arrays are kept as cell tables"""
    n = size_const(a.shape)
    if n is None or n > TABLE_MAX or not a.shape or n == 0:
        return a
    if any(at_.kind in ('var',) and False for at_ in ()):
        return a
    if not _has_index_cond(a.body, {v.args[0] for v in a.vars}):
        return a

    def rec(prefix, k):
        if k == len(a.shape):
            return a.at(prefix)
        return table([rec(prefix + [ex(i)], k + 1) for i in range(int(a.shape[k].const()))], ex(nv[k]))
    nv = tuple(fresh(s) for s in a.shape)
    return Arr(a.shape, nv, rec([], 0), a.dt, a.host, a.tr)


def _has_index_cond(e, names):
    for m in e.terms:
        for at_, x in m.items:
            if at_.kind in ('eq', 'lt') or (at_.kind == 'fn' and at_.args[0] in ('table', 'floor', 'mod', 'floordiv')):
                if at_.fv & names:
                    return True
    return False


# ---------------------------------------------------------------- broadcasting / elementwise
def dim_eq(a, b):
    return a is b


def bshape(shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(nd):
        cur = ONE
        for s in shapes:
            q = k - (nd - len(s))
            if q < 0:
                continue
            e = s[q]
            if e is cur or e.const() == 1:
                continue
            if cur.const() == 1:
                cur = e
            else:
                ca, cb = cur.const(), e.const()
                if ca is not None and cb is not None:
                    raise PyRaise('ValueError')
                # differing symbolic dims: an error unless equal
                if nonneg(cur - e - 1) or nonneg(e - cur - 1):
                    raise PyRaise('ValueError')
                raise Unsupported('broadcast of %s with %s' % (cur, e))
        out.append(cur)
    return tuple(out)


def bidx(a, idx):
    """indices of array a inside broadcast index idx"""
    off = len(idx) - len(a.shape)
    return [ZERO if a.shape[k].const() == 1 else idx[off + k] for k in range(len(a.shape))]


def ew(f, *args, dt='f'):
    arrs = [to_arr(x) for x in args]
    shp = bshape([a.shape for a in arrs])
    # bshape treats ext const 1 as stretchable: but a symbolic dim equal to 1 at run time is not modelled
    vs = tuple(fresh(s) for s in shp)
    idx = [ex(v) for v in vs]
    body = f(*[a.at(bidx(a, idx)) for a in arrs])
    if dt is None:
        dt = join_dt(*[a.dt for a in arrs])
        if dt == 'b':
            dt = 'i'
    return Arr(shp, vs, body, dt, join_host([a.host for a in arrs]), any(a.tr for a in arrs))


def broadcast_to(a, shape):
    a = to_arr(a)
    shape = tuple(ex(s) for s in shape)
    if len(a.shape) == len(shape) and all(x is y for x, y in zip(a.shape, shape)):
        return a
    if len(a.shape) > len(shape):
        extra = len(a.shape) - len(shape)
        if all(s.const() == 1 for s in a.shape[:extra]):
            a = Arr(a.shape[extra:], a.vars[extra:], subst(a.body, {v.args[0]: ZERO for v in a.vars[:extra]}), a.dt, a.host, a.tr)
        else:
            raise Unsupported('broadcast_to lower rank')
    for k in range(1, len(a.shape) + 1):
        x, y = a.shape[-k], shape[-k]
        if x is not y and x.const() != 1:
            raise Unsupported('broadcast_to %s vs %s' % (a.shape, shape)) if x.const() is None or y.const() is None else PyRaise('ValueError')
    return mkarr(shape, lambda *i: a.at(bidx(a, list(i))), a.dt, a.host, a.tr)


PYOPS = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b,
         'Mod': lambda a, b: a % b, 'FloorDiv': lambda a, b: a // b, 'BitAnd': lambda a, b: a & b,
         'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b, 'LShift': lambda a, b: a << b,
         'RShift': lambda a, b: a >> b}


def binop(interp, op, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        raise Unsupported((a if isinstance(a, Unk) else b).reason)
    if isinstance(a, str) or isinstance(b, str):
        if op == 'Add' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == 'Mult':
            s, k = (a, b) if isinstance(a, str) else (b, a)
            if isinstance(k, int):
                return s * k
        if op == 'Mod':
            return a
        if op == 'BitOr':
            return None
        raise Unsupported('string operation')
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        if op in PYOPS:
            if op in ('Mod', 'FloorDiv') and b == 0:
                raise PyRaise('ZeroDivisionError', interp.where())
            return PYOPS[op](a, b)
        if op == 'Div':
            if b == 0:
                raise PyRaise('ZeroDivisionError', interp.where())
            return scalar(ex(Fraction(a, b)), 'f', 'py')
        if op == 'Pow':
            if b >= 0:
                return a ** b
            return scalar(ex(Fraction(a) ** b), 'f', 'py')
    seqt = (list, tuple, SymList)
    from .interp import SymParts
    if isinstance(a, seqt) and not isinstance(b, Arr) or isinstance(b, seqt) and not isinstance(a, Arr):
        if op == 'Add' and isinstance(a, seqt) and isinstance(b, seqt):
            return interp.list_concat(a, b)
    if (isinstance(a, seqt) or isinstance(b, seqt)) and op == 'Mult':
        s, k = (a, b) if isinstance(a, seqt) else (b, a)
        if isinstance(k, int):
            if isinstance(s, (list, tuple)):
                return s * k
        if isinstance(k, Arr) and k.host == 'py' and not k.shape and k.dt == 'i':
            if isinstance(s, (list, tuple)) and len(s) == 1:
                v = fresh(k.body)
                return SymList([(v, k.body)], s[0])
            raise Unsupported('list repetition')
    if isinstance(a, seqt) and isinstance(b, Arr) or isinstance(b, seqt) and isinstance(a, Arr):
        a, b = to_arr(a), to_arr(b)
    if op == 'BitOr' and not (is_num(a) and is_num(b)):
        return None  # typing unions
    if not (is_num(a) and is_num(b)):
        raise Unsupported('%s on %s and %s' % (op, type(a).__name__, type(b).__name__))
    if op == 'MatMult':
        return matmul(to_arr(a), to_arr(b))
    x, y = to_arr(a), to_arr(b)
    narrow_event(interp, x, y)
    if op == 'Add':
        return ew(lambda p, q: p + q, x, y, dt=None)
    if op == 'Sub':
        return ew(lambda p, q: p - q, x, y, dt=None)
    if op == 'Mult':
        r = ew(lambda p, q: p * q, x, y, dt=None)
        if x.dt == 'b' and y.dt == 'b':
            r.dt = 'b'
        return r
    if op == 'Div':
        def div(p, q):
            if q.const() == 0:
                raise Unsupported('division by zero')
            return p * pow_(q, ex(-1))
        return ew(div, x, y, dt='c' if 'c' in (x.dt, y.dt) else 'f')
    if op == 'Pow':
        r = ew(lambda p, q: pow_(p, q), x, y, dt=None)
        return r
    if op == 'Mod':
        return ew(mod_, x, y, dt=None)
    if op == 'FloorDiv':
        return ew(floordiv, x, y, dt=None)
    if op in ('BitAnd', 'BitOr', 'BitXor') and x.dt == 'b' and y.dt == 'b':
        f = {'BitAnd': lambda p, q: p * q, 'BitOr': lambda p, q: p + q - p * q,
             'BitXor': lambda p, q: p + q - p * q * 2}[op]
        return ew(f, x, y, dt='b')
    raise Unsupported('operator ' + op)


def narrow_event(interp, *xs):
    pass


# ---------------------------------------------------------------- contraction
def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise PyRaise('ValueError')
    dt = join_dt(a.dt, b.dt)
    host = join_host([a.host, b.host])
    tr = a.tr or b.tr
    a1, b1 = a.ndim == 1, b.ndim == 1
    n = a.shape[-1]
    nb = b.shape[0] if b1 else b.shape[-2]
    if n is not nb:
        if n.const() is not None and nb.const() is not None:
            raise PyRaise('ValueError')
        raise Unsupported('matmul of %s and %s' % (n, nb))
    ab = a.shape[:-2] if not a1 else ()
    bb = b.shape[:-2] if not b1 else ()
    batch = bshape([ab, bb])
    shp = batch + (() if a1 else (a.shape[-2],)) + (() if b1 else (b.shape[-1],))

    def f(*idx):
        bi = list(idx[:len(batch)])
        rest = list(idx[len(batch):])
        ia = [ZERO if ab[k].const() == 1 else bi[len(batch) - len(ab) + k] for k in range(len(ab))]
        ib = [ZERO if bb[k].const() == 1 else bi[len(batch) - len(bb) + k] for k in range(len(bb))]
        k = fresh(n)
        if not a1:
            ia = ia + [rest.pop(0)]
        ia = ia + [ex(k)]
        ib = ib + [ex(k)]
        if not b1:
            ib = ib + [rest.pop(0)]
        return mk_sum(k, n, a.at(ia) * b.at(ib))
    return mkarr(shp, f, dt, host, tr)


def dot(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(lambda x, y: x * y, a, b, dt=None)
    if b.ndim <= 2:
        return matmul(a, b)
    raise Unsupported('dot of rank > 2')


def einsum(spec, ops_):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins, out = spec, None
    terms = ins.split(',')
    arrs = [to_arr(o) for o in ops_]
    if len(terms) != len(arrs):
        raise PyRaise('ValueError')
    ell = 0
    for t, a in zip(terms, arrs):
        if '...' in t:
            ell = max(ell, a.ndim - len(t.replace('...', '')))
    ellc = [chr(0x100 + k) for k in range(ell)]
    full = []
    for t, a in zip(terms, arrs):
        if '...' in t:
            ne = a.ndim - len(t.replace('...', ''))
            t = t.replace('...', ''.join(ellc[ell - ne:]) if ne else '')
        if len(t) != a.ndim:
            raise PyRaise('ValueError')
        full.append(t)
    if out is None:
        cnt = {}
        for t in full:
            for ch in t:
                cnt[ch] = cnt.get(ch, 0) + 1
        out = ''.join(ellc) + ''.join(sorted(ch for ch in cnt if cnt[ch] == 1 and ch not in ellc))
    else:
        out = out.replace('...', ''.join(ellc))
    ext = {}
    for t, a in zip(full, arrs):
        for ch, s in zip(t, a.shape):
            if ch not in ext or ext[ch].const() == 1:
                ext[ch] = s
            elif s is not ext[ch] and s.const() != 1:
                if s.const() is not None and ext[ch].const() is not None:
                    raise PyRaise('ValueError')
                raise Unsupported('einsum sizes %s vs %s' % (s, ext[ch]))
    for ch in out:
        if ch not in ext:
            raise PyRaise('ValueError')
    summed = [ch for ch in ext if ch not in out]

    def f(*idx):
        m = dict(zip(out, idx))
        vs = {}
        for ch in summed:
            v = fresh(ext[ch])
            vs[ch] = v
            m[ch] = ex(v)
        e = ONE
        for t, a in zip(full, arrs):
            e = e * a.at([ZERO if s.const() == 1 and ext[ch].const() != 1 else m[ch] for ch, s in zip(t, a.shape)])
        for ch in reversed(summed):
            e = mk_sum(vs[ch], ext[ch], e)
        return e
    return mkarr([ext[ch] for ch in out], f, join_dt(*[a.dt for a in arrs]), join_host([a.host for a in arrs]),
                 any(a.tr for a in arrs))


def reduce_sum(a, axis=None, keepdims=False):
    a = to_arr(a)
    axes = norm_axes(axis, a.ndim)
    keep = [k for k in range(a.ndim) if k not in axes]
    shp = [a.shape[k] if k in keep else ONE for k in range(a.ndim)] if keepdims else [a.shape[k] for k in keep]

    def f(*idx):
        full = [None] * a.ndim
        it = list(idx)
        if keepdims:
            for k in range(a.ndim):
                if k in keep:
                    full[k] = it[k]
        else:
            for k in keep:
                full[k] = it.pop(0)
        vs = []
        for k in axes:
            v = fresh(a.shape[k])
            full[k] = ex(v)
            vs.append((v, a.shape[k]))
        e = a.at(full)
        for v, s in reversed(vs):
            e = mk_sum(v, s, e)
        return e
    return mkarr(shp, f, 'i' if a.dt == 'b' else a.dt, 'np' if a.host == 'py' else a.host, a.tr)


def reduce_prod(a, axis=None, keepdims=False):
    a = to_arr(a)
    axes = norm_axes(axis, a.ndim)
    keep = [k for k in range(a.ndim) if k not in axes]

    def f(*idx):
        full = [None] * a.ndim
        it = list(idx)
        for k in keep:
            full[k] = it.pop(0)
        vs = []
        for k in axes:
            v = fresh(a.shape[k])
            full[k] = ex(v)
            vs.append((v, a.shape[k]))
        e = a.at(full)
        for v, s in reversed(vs):
            e = mk_prod(v, s, e)
        return e
    r = mkarr([a.shape[k] for k in keep], f, a.dt, 'np' if a.host == 'py' else a.host, a.tr)
    if keepdims:
        for k in axes:
            r = expand(r, k)
    return r


def reduce_opaque(name, a, axis=None, keepdims=False, dt=None):
    """max / min / argmax ... over axes as an uninterpreted reduction"""
    a = to_arr(a)
    axes = norm_axes(axis, a.ndim)
    keep = [k for k in range(a.ndim) if k not in axes]
    n = size_const([a.shape[k] for k in axes])

    def f(*idx):
        full = [None] * a.ndim
        it = list(idx)
        for k in keep:
            full[k] = it.pop(0)
        vs = []
        for k in axes:
            v = fresh(a.shape[k])
            full[k] = ex(v)
            vs.append(v)
        e = a.at(full)
        if n is not None and n <= 64 and name in ('max', 'min', 'any', 'all'):
            import itertools
            vals = []
            for tup in itertools.product(*[range(int(a.shape[k].const())) for k in axes]):
                vals.append(subst(e, {v.args[0]: ex(t) for v, t in zip(vs, tup)}))
            cs = [x.const() for x in vals]
            if all(c is not None for c in cs):
                if name in ('any', 'all'):
                    r = any(c != 0 for c in cs) if name == 'any' else all(c != 0 for c in cs)
                    return ONE if r else ZERO
                return ex(max(cs) if name == 'max' else min(cs))
        if name in ('any', 'all') and a.dt != 'b':
            e = ONE - ind_eq(e)
        if name == 'all':
            r = ONE
            for v, k in zip(vs, axes):
                e = mk_prod(v, a.shape[k], e)
            return e
        if name == 'any':
            e = ONE - e
            for v, k in zip(vs, axes):
                e = mk_prod(v, a.shape[k], e)
            return ONE - e
        return mkfn(name, (mklam([a.shape[k] for k in axes], vs, e),))
    r = mkarr([a.shape[k] for k in keep], f, dt or a.dt, 'np' if a.host == 'py' else a.host, a.tr)
    if keepdims:
        for k in axes:
            r = expand(r, k)
    return r


def norm_axes(axis, nd):
    if axis is None:
        return list(range(nd))
    if isinstance(axis, Arr):
        axis = const_int(axis)
    if isinstance(axis, int):
        axis = [axis]
    out = []
    for k in axis:
        if isinstance(k, Arr):
            k = const_int(k)
        if k < -nd or k >= nd:
            raise PyRaise('ValueError')
        out.append(k % nd)
    return sorted(out)


def const_int(v):
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, Arr) and not v.shape:
        c = v.body.const()
        if c is not None and Fraction(c).denominator == 1:
            return int(c)
    raise Unsupported('static integer expected')


def as_E(v):
    if isinstance(v, E):
        return v
    if isinstance(v, (int, bool)):
        return ex(int(v))
    if isinstance(v, Arr) and size_const(v.shape) == 1:
        return v.at([ZERO] * v.ndim)
    raise Unsupported('scalar expected')


# ---------------------------------------------------------------- shape manipulation
def expand(a, axis):
    a = to_arr(a)
    nd = a.ndim + 1
    axis = axis % nd
    v = fresh(ONE)
    return Arr(a.shape[:axis] + (ONE,) + a.shape[axis:], a.vars[:axis] + (v,) + a.vars[axis:], a.body, a.dt, a.host, a.tr)


def squeeze(a, axis=None):
    a = to_arr(a)
    if axis is None:
        axes = [k for k in range(a.ndim) if a.shape[k].const() == 1]
    else:
        axes = norm_axes(axis, a.ndim)
        for k in axes:
            if a.shape[k].const() != 1:
                raise PyRaise('ValueError')
    m = {a.vars[k].args[0]: ZERO for k in axes}
    keep = [k for k in range(a.ndim) if k not in axes]
    return Arr([a.shape[k] for k in keep], [a.vars[k] for k in keep], subst(a.body, m), a.dt, a.host, a.tr)


def transpose(a, axes=None):
    a = to_arr(a)
    if axes is None:
        axes = list(range(a.ndim))[::-1]
    axes = [const_int(x) % a.ndim for x in axes]
    return Arr([a.shape[k] for k in axes], [a.vars[k] for k in axes], a.body, a.dt, a.host, a.tr)


def moveaxis(a, src, dst):
    src, dst = src % a.ndim, dst % a.ndim
    order = [k for k in range(a.ndim) if k != src]
    order.insert(dst, src)
    return transpose(a, order)


def prod_e(l):
    r = ONE
    for x in l:
        r = r * x
    return r


def reshape(a, shape):
    a = to_arr(a)
    shape = [ex(as_E(s)) for s in shape]
    total = prod_e(a.shape)
    neg1 = [k for k, s in enumerate(shape) if s.const() == -1]
    if neg1:
        others = prod_e([s for k, s in enumerate(shape) if k != neg1[0]])
        q = total * pow_(others, ex(-1)) if others is not ONE else total
        if not q.isint:
            c = q.const()
            if c is not None:
                raise PyRaise('ValueError')
        shape[neg1[0]] = q
    nt = prod_e(shape)
    if nt is not total:
        if nt.const() is not None and total.const() is not None:
            raise PyRaise('ValueError')
        raise Unsupported('reshape of %s to %s' % (a.shape, shape))
    src = [k for k in range(a.ndim) if a.shape[k].const() != 1]
    dst = [k for k in range(len(shape)) if shape[k].const() != 1]
    host = 'np' if a.host == 'py' else a.host

    # greedy grouping of equal-product blocks
    def f(*idx):
        full = [ZERO] * a.ndim
        i = j = 0
        S = [a.shape[k] for k in src]
        D = [shape[k] for k in dst]
        while i < len(S) or j < len(D):
            ai, bj = i, j
            if i >= len(S) or j >= len(D):
                raise Unsupported('reshape grouping')
            p, q = S[i], D[j]
            i += 1
            j += 1
            while p is not q:
                # extend the side that can still grow
                cp, cq = p.const(), q.const()
                grow_src = None
                if cp is not None and cq is not None:
                    grow_src = cp < cq
                elif (q * pow_(p, ex(-1))).isint:
                    grow_src = True
                elif (p * pow_(q, ex(-1))).isint:
                    grow_src = False
                else:
                    if i < len(S):
                        grow_src = True
                    else:
                        grow_src = False
                if grow_src:
                    if i >= len(S):
                        raise Unsupported('reshape grouping')
                    p = p * S[i]
                    i += 1
                else:
                    if j >= len(D):
                        raise Unsupported('reshape grouping')
                    q = q * D[j]
                    j += 1
            flat = ZERO
            for k in range(bj, j):
                flat = flat * D[k] + idx[dst[k]]
            if i - ai == 1:
                full[src[ai]] = flat
            else:
                for k in range(ai, i):
                    full[src[k]] = digit(flat, S[ai:i], k - ai)
        return a.at(full)
    return mkarr(shape, f, a.dt, host, a.tr)


def ravel(a):
    a = to_arr(a)
    return reshape(a, [prod_e(a.shape)])


def concat(arrs, axis=0):
    arrs = [to_arr(a) for a in arrs]
    axis = axis % arrs[0].ndim if arrs[0].ndim else 0
    nd = arrs[0].ndim
    if nd == 0:
        raise PyRaise('ValueError')
    for a in arrs:
        if a.ndim != nd:
            raise PyRaise('ValueError')
    arrs = [a for a in arrs if a.shape[axis].const() != 0] or arrs[:1]
    shp = list(arrs[0].shape)
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis and a.shape[k] is not shp[k]:
                if a.shape[k].const() is not None and shp[k].const() is not None:
                    raise PyRaise('ValueError')
                raise Unsupported('concatenate shapes')
    total = ZERO
    offs = []
    for a in arrs:
        offs.append(total)
        total = total + a.shape[axis]
    shp[axis] = total

    def f(*idx):
        idx = list(idx)
        i = idx[axis]
        r = None
        for a, o in reversed(list(zip(arrs, offs))):
            ii = list(idx)
            ii[axis] = (i - o) if a.shape[axis].const() != 1 else ZERO
            val = a.at(ii)
            r = val if r is None else select(ind_lt0(i - o - a.shape[axis]), val, r)
        return r
    host = join_host([a.host for a in arrs])
    r = mkarr(shp, f, join_dt(*[a.dt for a in arrs]), 'np' if host == 'py' else host, any(a.tr for a in arrs))
    return retable(r)


# ---------------------------------------------------------------- indexing
def norm_index(idx, ext, clamp=False):
    e = as_E(idx)
    c = e.const()
    n = ext.const()
    if c is not None:
        if c < 0:
            if n is not None and -c > n:
                if clamp:
                    return ZERO
                raise PyRaise('IndexError')
            return ext + e
        if n is not None and c >= n:
            if clamp:
                return ex(n - 1)
            raise PyRaise('IndexError')
        if clamp and n is None and not nonneg(ext - e - 1):
            # min(c, ext-1)
            return select(ind_lt0(e - ext), e, ext - 1)
        return e
    if nonneg(e):
        return e
    if nonneg(neg(e) - 1):
        return ext + e
    return wrap_index(e, ext)


def wrap_index(e, ext):
    return select(ind_lt0(e), ext + e, e)


def slice_bounds(s, ext):
    step = 1 if s.step is None else const_int(s.step)
    if step == 0:
        raise PyRaise('ValueError')

    def norm(x, default):
        if x is None:
            return default
        e = as_E(x)
        c = e.const()
        n = ext.const()
        if c is not None:
            if c < 0:
                if n is not None:
                    return ex(max(0 if step > 0 else -1, n + c))
                r = ext + e
                if nonneg(r):
                    return r
                return select(ind_lt0(r), ZERO, r)
            if n is not None:
                return ex(min(c, n if step > 0 else n - 1))
            if nonneg(ext - e):
                return e
            return select(ind_lt0(e - ext), e, ext)
        if nonneg(e) and nonneg(ext - e):
            return e
        if nonneg(neg(e) - 1) and nonneg(ext + e):
            return ext + e
        if nonneg(e):
            return select(ind_lt0(e - ext), e, ext)
        raise Unsupported('slice bound %s in %s' % (e, ext))
    if step > 0:
        st = norm(s.start, ZERO)
        en = norm(s.stop, ext)
        ln = en - st
        if step != 1:
            ln = -floor_(neg(ln) * Fraction(1, step)) if ln.const() is None else ex(max(0, -((-int(ln.const())) // step)))
    else:
        st = norm(s.start, ext - 1)
        if s.stop is None:
            en = ex(-1)
        else:
            en = norm(s.stop, None)
        ln = st - en
        k = -step
        if k != 1:
            ln = -floor_(neg(ln) * Fraction(1, k)) if ln.const() is None else ex(max(0, -((-int(ln.const())) // k)))
    c = ln.const()
    if c is not None:
        if c < 0:
            ln = ZERO
    elif not nonneg(ln):
        ln = select(ind_lt0(ln), ZERO, ln)
    return st, ln, ex(step)


def parse_index(a, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    out = []
    for x in idx:
        if isinstance(x, (list,)):
            x = to_arr(x)
        if isinstance(x, SymList):
            x = to_arr(x)
        if isinstance(x, tuple):
            x = to_arr(x)
        out.append(x)
    idx = out
    used = sum(1 for x in idx if x is not None and x is not ELL and not (isinstance(x, Arr) and x.dt == 'b' and x.shape))
    used += sum(x.ndim for x in idx if isinstance(x, Arr) and x.dt == 'b' and x.shape)
    if any(isinstance(x, Arr) and x.dt == 'b' and x.shape for x in idx):
        raise Unsupported('boolean mask indexing')
    if used > a.ndim:
        raise PyRaise('IndexError')
    nell = sum(1 for x in idx if x is ELL)
    if nell == 0:
        idx = idx + [ELL]
    res = []
    for x in idx:
        if x is ELL:
            res.extend([slice(None)] * (a.ndim - used))
        else:
            res.append(x)
    return res


def getitem(a, idx):
    a = to_arr(a)
    idx = parse_index(a, idx)
    clamp = a.host == 'jnp'
    # describe each source axis
    axis = 0
    adv = []       # positions of advanced (array) indices in source order
    plan = []      # entries: ('new',), ('slice', axis, st, ln, step), ('adv', axis, arr), ('int', axis, e)
    tr = a.tr
    for x in idx:
        if x is None:
            plan.append(('new',))
            continue
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                plan.append(('slice', axis, ZERO, a.shape[axis], ONE))
            else:
                st, ln, step = slice_bounds(x, a.shape[axis])
                plan.append(('slice', axis, st, ln, step))
        elif isinstance(x, (int, bool)) or (isinstance(x, Arr) and not x.shape):
            if isinstance(x, Arr):
                tr = tr or x.tr
                if x.dt == 'f':
                    raise PyRaise('TypeError')
            plan.append(('int', axis, norm_index(x, a.shape[axis], clamp)))
        elif isinstance(x, Arr):
            tr = tr or x.tr
            plan.append(('adv', axis, x))
            adv.append(len(plan) - 1)
        else:
            raise Unsupported('index %s' % type(x).__name__)
        axis += 1
    advs = [plan[k][2] for k in adv]
    # scalar ints mixed with advanced arrays act as advanced too; contiguity matters only then
    if adv:
        bs = bshape([x.shape for x in advs])
        pos = [k for k, p in enumerate(plan) if p[0] in ('adv', 'int')]
        contiguous = all(plan[k][0] in ('adv', 'int') for k in range(pos[0], pos[-1] + 1))
        first = pos[0]
    shp = []
    slots = []
    if adv and not contiguous:
        shp.extend(bs)
        slots.extend([('b', k) for k in range(len(bs))])
    for k, p in enumerate(plan):
        if p[0] == 'new':
            shp.append(ONE)
            slots.append(('n',))
        elif p[0] == 'slice':
            shp.append(p[3])
            slots.append(('s', k))
        elif p[0] in ('adv', 'int') and adv and contiguous and k == first:
            shp.extend(bs)
            slots.extend([('b', q) for q in range(len(bs))])

    def f(*oi):
        full = [None] * a.ndim
        bi = []
        for s, i in zip(slots, oi):
            if s[0] == 's':
                p = plan[s[1]]
                full[p[1]] = p[2] + p[4] * i
            elif s[0] == 'b':
                bi.append(i)
        for p in plan:
            if p[0] == 'int':
                full[p[1]] = p[2]
            elif p[0] == 'adv':
                x = p[2]
                e = x.at(bidx(x, bi))
                full[p[1]] = norm_elem_index(e, a.shape[p[1]], clamp)
        return a.at(full)
    r = mkarr(shp, f, a.dt, a.host if a.host != 'py' else 'np', tr)
    if a.host == 'np' and r.shape and not adv:
        r.view = a
    return r


def table_leaves(at):
    out = []
    for x in at.args[1]:
        if not isinstance(x, E):
            return None
        c = x.const()
        if c is not None:
            out.append(c)
            continue
        if len(x.terms) != 1:
            return None
        (m, cc), = x.terms.items()
        if cc != 1 or len(m.items) != 1 or m.items[0][1] != 1 or m.items[0][0].kind != 'fn' or m.items[0][0].args[0] != 'table' or m.items[0][0].args[3]:
            return None
        r = table_leaves(m.items[0][0])
        if r is None:
            return None
        out += r
    return out


def norm_elem_index(e, ext, clamp):
    c = e.const()
    n = ext.const()
    if c is not None:
        return norm_index(scalar(e, 'i'), ext, clamp)
    if nonneg(e):
        return e
    # tables of integer constants
    tb = [(m, cc) for m, cc in e.terms.items() if m.items]
    if len(tb) == 1 and len(tb[0][0].items) == 1 and tb[0][0].items[0][1] == 1:
        at, cc = tb[0][0].items[0][0], tb[0][1]
        if at.kind == 'fn' and at.args[0] == 'table' and not at.args[3]:
            off = sum(c2 for m, c2 in e.terms.items() if not m.items)
            lv = table_leaves(at)
            if lv is not None and any(v * cc + off < 0 for v in lv) and (n is None or all(-n <= v * cc + off < n for v in lv)):
                return mkfn('table', tuple(norm_elem_index(x * cc + ex(off), ext, clamp) for x in at.args[1]), at.args[2])
            return e
    if e.isint and all(x.kind in ('elem', 'fn', 'var', 'lt', 'eq', 'sum', 'scan') for m in e.terms for x, _ in m.items):
        for m in e.terms:
            for x, _ in m.items:
                if x.kind == 'elem' and x.args[0] not in X.ARRLO:
                    return e      # unknown integer data: assumed in range
                if x.kind == 'fn' and x.args[0] in ('argsort', 'searchsorted', 'argmin', 'argmax', 'digit', 'mod',
                                                    'floordiv', 'floor', 'table') or x.kind in ('scan', 'fn', 'sum'):
                    return e
    return wrap_index(e, ext)


def at_update(a, idx, v, mode):
    """functional update; mode set/add/multiply/max/min"""
    a = to_arr(a)
    v = to_arr(v)
    idx = parse_index(a, idx)
    axis = 0
    plan = []
    for x in idx:
        if x is None:
            raise Unsupported('newaxis in store')
        if isinstance(x, slice):
            st, ln, step = (ZERO, a.shape[axis], ONE) if x.start is None and x.stop is None and x.step is None \
                else slice_bounds(x, a.shape[axis])
            plan.append(('slice', st, ln, step, x))
        elif isinstance(x, (int, bool)) or (isinstance(x, Arr) and not x.shape):
            plan.append(('int', norm_index(x, a.shape[axis], False)))
        else:
            plan.append(('adv', x))
        axis += 1
    nadv = [k for k, p in enumerate(plan) if p[0] == 'adv']
    if nadv:
        return adv_update(a, plan, v, mode)
    sub = [p[2] for p in plan if p[0] == 'slice']
    v = broadcast_to(v, sub)
    vs = a.vars if v.body.fv.isdisjoint({q.args[0] for q in a.vars}) else tuple(fresh(s) for s in a.shape)
    iv = [ex(q) for q in vs]
    cond = ONE
    vi = []
    for k, p in enumerate(plan):
        i = iv[k]
        if p[0] == 'int':
            cond = cond * ind_eq(i - p[1])
        else:
            _, st, ln, step, x = p
            sc = step.const()
            if st is ZERO and ln is a.shape[k] and sc == 1:
                vi.append(i)
            elif sc == 1:
                cond = cond * (ONE - ind_lt0(i - st)) * ind_lt0(i - st - ln)
                vi.append(i - st)
            elif sc == -1:
                cond = cond * (ONE - ind_lt0(st - i)) * ind_lt0(st - i - ln)
                vi.append(st - i)
            else:
                raise Unsupported('strided store')
    new = v.at(vi)
    old = a.body if vs is a.vars else a.at(iv)
    body = combine(cond, old, new, mode)
    dt = a.dt if a.host == 'np' else join_dt(a.dt, v.dt)
    if a.host == 'np' and a.dt == 'i' and v.dt == 'f' and not new.isint:
        body = combine(cond, old, from_fn('trunc', (new,)), mode)
    return retable(Arr(a.shape, vs, body, dt, a.host, a.tr or v.tr))


def combine(cond, old, new, mode):
    if mode == 'set':
        return select(cond, new, old)
    if mode == 'add':
        return old + cond * new
    if mode == 'multiply':
        return select(cond, old * new, old)
    if mode == 'subtract':
        return old - cond * new
    if mode == 'divide':
        return select(cond, old * pow_(new, ex(-1)), old)
    raise Unsupported('at.' + mode)


def adv_update(a, plan, v, mode):
    """a.at[ind] with concrete integer index arrays: sequence of point updates"""
    advs = [p[1] for p in plan if p[0] == 'adv']
    bs = bshape([x.shape for x in advs])
    n = size_const(bs)
    if n is None or n > 64:
        if len(bs) == 1 and len(advs) >= 1 and mode in ('set', 'add'):
            # injective affine index vectors: a.at[i0 + arange(n)]
            return adv_affine(a, plan, v, mode, bs)
        raise Unsupported('scatter with symbolic index array')
    import itertools
    pos = [k for k, p in enumerate(plan) if p[0] in ('adv', 'int')]
    if any(plan[k][0] == 'slice' for k in range(pos[0], pos[-1] + 1)):
        raise Unsupported('scatter layout')
    nslice_before = sum(1 for p in plan[:pos[0]] if p[0] == 'slice')
    sub = [p[2] for p in plan[:pos[0]] if p[0] == 'slice'] + list(bs) + [p[2] for p in plan[pos[-1] + 1:] if p[0] == 'slice']
    v = broadcast_to(v, sub)
    cur = a
    for tup in itertools.product(*[range(int(s.const())) for s in bs]):
        t = [ex(x) for x in tup]
        ii = []
        for k, p in enumerate(plan):
            if p[0] == 'adv':
                e = p[1].at(bidx(p[1], t))
                ii.append(scalar(e, 'i', 'py'))
            elif p[0] == 'int':
                ii.append(scalar(p[1], 'i', 'py'))
            else:
                ii.append(p[4])
        vi = tuple([slice(None)] * nslice_before + [int(x) for x in tup])
        cur = at_update(cur, tuple(ii), getitem(v, vi), mode)
    return cur


def adv_affine(a, plan, v, mode, bs):
    advs = [(k, p[1]) for k, p in enumerate(plan) if p[0] == 'adv']
    n = bs[0]
    q = fresh(n)
    sol = None
    conds = []
    if any(p[0] == 'slice' for p in plan) and any(p[0] == 'slice' for p in plan[advs[0][0]:advs[-1][0] + 1]):
        raise Unsupported('scatter layout')
    vs = tuple(fresh(s) for s in a.shape)
    for k, x in advs:
        e = x.at([ex(q)]) if x.shape[0].const() != 1 else x.at([ZERO])
        lin, rest = linear_in(e, q)
        if lin is None:
            raise Unsupported('scatter index')
        c = lin.const()
        if c in (1, -1):
            s = (ex(vs[k]) - rest) * c
            if sol is None:
                sol = s
                conds.append((ONE - ind_lt0(s)) * ind_lt0(s - n))
            else:
                conds.append(ind_eq(ex(vs[k]) - subst(e, {q.args[0]: sol})))
        elif c == 0:
            conds.append(ind_eq(ex(vs[k]) - rest))
        else:
            raise Unsupported('scatter index stride')
    if sol is None:
        raise Unsupported('scatter with repeated index')
    cond = ONE
    for c in conds:
        cond = cond * c
    sub = []
    vi = []
    done = False
    for k, p in enumerate(plan):
        if p[0] == 'adv':
            if not done:
                sub.append(n)
                vi.append(sol)
                done = True
        elif p[0] == 'int':
            cond = cond * ind_eq(ex(vs[k]) - p[1])
        else:
            if not (p[1] is ZERO and p[3].const() == 1 and p[2] is a.shape[k]):
                cond = cond * (ONE - ind_lt0(ex(vs[k]) - p[1])) * ind_lt0(ex(vs[k]) - p[1] - p[2])
            sub.append(p[2])
            vi.append(ex(vs[k]) - p[1])
    v = broadcast_to(v, sub)
    body = combine(cond, a.at([ex(x) for x in vs]), v.at(vi), mode)
    return retable(Arr(a.shape, vs, body, join_dt(a.dt, v.dt), a.host, a.tr or v.tr))


def lib_value(path):
    from . import lib, libattr, libjax
    return lib.lib_value(path)


def call_lib(interp, path, args, kwargs):
    from . import lib, libattr, libjax
    return lib.call_lib(interp, path, args, kwargs)


def getattr_value(interp, v, attr):
    from . import lib, libattr, libjax
    return lib.getattr_value(interp, v, attr)
