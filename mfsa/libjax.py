"""JAX transformations, control flow, linear algebra, random numbers, statistics and TME."""
from .values import *
from .expr import *
from . import expr as X
from . import ops, lib, diff
from .ops import *
from .lib import REG, NPREG, reg, npreg, H, kwget, cast, shape_of, tri, sqrt_, mean_

J = 'jnp'


# ---------------------------------------------------------------- pytrees
def tmap(f, v):
    if isinstance(v, (int, bool, float)) and v is not None:
        return f(to_arr(v))
    if isinstance(v, Arr):
        return f(v)
    if isinstance(v, tuple):
        return tuple(tmap(f, x) for x in v)
    if isinstance(v, list):
        return [tmap(f, x) for x in v]
    if isinstance(v, dict):
        return {k: tmap(f, x) for k, x in v.items()}
    if isinstance(v, Inst):
        return Inst(v.cls, {k: tmap(f, x) for k, x in v.fields.items()})
    if isinstance(v, Unk):
        raise Unsupported(v.reason)
    if isinstance(v, SymList):
        return f(symlist_arr(v))
    return v


def take(a, ax, i):
    """a indexed at i along ax"""
    ax = ax % a.ndim
    vs = [fresh(s) for k, s in enumerate(a.shape) if k != ax]
    idx = [ex(v) for v in vs]
    idx.insert(ax, ex(i))
    return Arr(tuple(s for k, s in enumerate(a.shape) if k != ax), vs, a.at(idx), a.dt,
               J if a.host != 'np' else 'np', a.tr)


def lead(v, n, a, ax=0):
    """stack: new axis with variable v (extent n) on array a (body may mention v)"""
    ax = ax % (a.ndim + 1)
    sh, vs = list(a.shape), list(a.vars)
    nv = fresh(n)
    sh.insert(ax, n)
    vs.insert(ax, nv)
    return retable(Arr(sh, vs, subst(a.body, {v.args[0]: ex(nv)}), a.dt, J, a.tr))


def axes_tree(spec, v):
    """pairs (leaf fn) -> list of (leaf, axis) by walking"""
    return spec


def vmap_arg(v, ax, get, sizes):
    if ax is None:
        return v
    if isinstance(ax, (tuple, list)) and isinstance(v, (tuple, list)):
        if len(ax) != len(v):
            raise PyRaise('ValueError')
        return type(v)(vmap_arg(x, a, get, sizes) for x, a in zip(v, ax))
    a_ = const_int(ax)

    def f(x):
        if not -x.ndim <= a_ < x.ndim:
            raise PyRaise('ValueError')
        sizes.append(x.shape[a_ % x.ndim])
        if get is None:
            return x
        return take(x, a_, get)
    return tmap(f, v)


def out_tree(r, ox, v, n):
    if isinstance(ox, (tuple, list)) and isinstance(r, (tuple, list)):
        return type(r)(out_tree(x, o, v, n) for x, o in zip(r, ox))
    if ox is None:
        return r
    o = const_int(ox)
    return tmap(lambda a: lead(v, n, a, o), r)


@reg('jax.vmap')
def j_vmap(it, args, kw):
    b = kwget(args, kw, ['fun', 'in_axes', 'out_axes'])
    f = b['fun']
    inax = b.get('in_axes', 0)
    outax = b.get('out_axes', 0)

    def call(interp, a, k):
        if isinstance(inax, (tuple, list)):
            if len(inax) != len(a):
                raise PyRaise('ValueError', interp.where())
            axs = list(inax)
        else:
            axs = [inax] * len(a)
        sizes = []
        for x, q in zip(a, axs):
            vmap_arg(x, q, None, sizes)
        for x in k.values():
            vmap_arg(x, 0, None, sizes)
        if not sizes:
            raise PyRaise('ValueError', interp.where())
        n = sizes[0]
        for s in sizes[1:]:
            if s is not n:
                c = (s - n).const()
                if c is not None and c != 0 or (nonneg(s - n - 1) or nonneg(n - s - 1)):
                    raise PyRaise('ValueError', interp.where())
        v = fresh(n)
        i = ZERO if n.const() == 1 else ex(v)
        aa = [vmap_arg(x, q, i, []) for x, q in zip(a, axs)]
        kk = {q: vmap_arg(x, 0, i, []) for q, x in k.items()}
        interp.loops.append((v.args[0], n))
        try:
            r = interp.call(f, aa, kk)
        finally:
            interp.loops.pop()
        return out_tree(r, outax, v, n)
    return NativeFn(call, 'vmap')


def _identity(it, args, kw):
    if not args:
        return NativeFn(lambda i, a, k: a[0], 'jit')
    f = args[0]
    if not isinstance(f, (Closure, NativeFn, LibFn, BoundMethod, Inst, ClassV)):
        return f
    return f


for _p in ('jax.jit', 'jax.checkpoint', 'jax.remat', 'jax.block_until_ready', 'jax.device_put',
           'jax.named_call', 'jax.tree_util.Partial'):
    REG[_p] = _identity


@reg('jax.device_get')
def j_device_get(it, args, kw):
    if any(a.tr for a in _leaves(args[0], [])):
        it.event('host_conversion', what='device_get')
    return args[0]


@reg('jax.pure_callback', 'jax.experimental.io_callback')
def j_callback(it, args, kw):
    it.event('host_conversion', what='host callback')
    return it.call(args[0], list(args[2:]), {})


def _fresh_param(a):
    nm = fresh_array('u')
    return nm, mkarr(a.shape, lambda *i: elem(nm, i), 'f', J, True)


def _leaves(v, out):
    def f(a):
        out.append(a)
        return a
    tmap(f, v)
    return out


def jac(kind, has_value=False):
    def h(it, args, kw):
        b = kwget(args, kw, ['fun', 'argnums', 'has_aux'])
        f = b['fun']
        argnums = b.get('argnums', 0)
        aux = bool(b.get('has_aux', False))

        def call(interp, a, k):
            nums = [const_int(x) for x in argnums] if isinstance(argnums, (tuple, list)) else [const_int(argnums)]
            outs = []
            val = None
            for n in nums:
                x = a[n]
                if not isinstance(x, (Arr, int, float)):
                    raise Unsupported('differentiation with respect to a structure')
                x = to_arr(x)
                nm, p = _fresh_param(x)
                aa = list(a)
                aa[n] = p
                interp.diffdepth = getattr(interp, 'diffdepth', 0) + 1
                try:
                    r = interp.call(f, aa, k)
                finally:
                    interp.diffdepth -= 1
                auxv = None
                if aux:
                    r, auxv = r
                m = {nm: x.lam()}

                def back(q):
                    return Arr(q.shape, q.vars, subst(q.body, m), q.dt, J, q.tr or x.tr)

                def D(q):
                    q = to_arr(q)
                    if kind == 'grad' and q.shape:
                        raise PyRaise('TypeError', interp.where())
                    vs = [fresh(s) for s in x.shape]
                    db = diff.d(q.body, (nm, tuple(ex(v) for v in vs)))
                    if kind == 'hess':
                        ws = [fresh(s) for s in x.shape]
                        db = diff.d(db, (nm, tuple(ex(v) for v in ws)))
                        vs = vs + ws
                    return back(Arr(q.shape + tuple(x.shape) * (2 if kind == 'hess' else 1), q.vars + tuple(vs), db, 'f', J, True))
                outs.append(tmap(D, r))
                val = tmap(back, r)
                if aux:
                    auxv = tmap(back, auxv)
            g = tuple(outs) if isinstance(argnums, (tuple, list)) else outs[0]
            if has_value:
                return ((val, auxv) if aux else val, g)
            return (g, auxv) if aux else g
        return NativeFn(call, kind)
    return h


REG['jax.grad'] = jac('grad')
REG['jax.jacfwd'] = jac('jac')
REG['jax.jacrev'] = jac('jac')
REG['jax.jacobian'] = jac('jac')
REG['jax.hessian'] = jac('hess')
REG['jax.value_and_grad'] = jac('grad', True)


@reg('jax.jvp')
def j_jvp(it, args, kw):
    f, prim, tang = args[:3]
    Jf = []
    aa = list(prim)
    val = it.call(f, aa, {})
    tot = None
    for n, t in enumerate(tang):
        jv = it.call(jac('jac')(it, [f, n], {}), aa, {})
        x, t = to_arr(aa[n]), to_arr(t)

        def con(q, x=x, t=t):
            k = x.ndim
            osh = q.shape[:q.ndim - k]
            vs = [fresh(s) for s in osh]
            ws = [fresh(s) for s in x.shape]
            body = q.at([ex(v) for v in vs + ws]) * t.at([ex(w) for w in ws])
            for w, s in reversed(list(zip(ws, x.shape))):
                body = mk_sum(w, s, body)
            return Arr(osh, vs, body, 'f', J, True)
        c = tmap(con, jv)
        tot = c if tot is None else ops.binop(it, 'Add', tot, c)
    return (val, tot)


# ---------------------------------------------------------------- control flow
@reg('jax.lax.scan')
def l_scan(it, args, kw):
    b = kwget(args, kw, ['f', 'init', 'xs', 'length', 'reverse', 'unroll'])
    f, init, xs = b['f'], b['init'], b.get('xs')
    rev = bool(b.get('reverse', False))
    lv = _leaves(xs, []) if xs is not None else []
    if lv:
        n = lv[0].shape[0]
        for s in lv[1:]:
            if s.shape[0] is not n and ((s.shape[0] - n).const() not in (None, 0) or nonneg(s.shape[0] - n - 1) or nonneg(n - s.shape[0] - 1)):
                raise PyRaise('ValueError', it.where())
    else:
        n = as_E(b['length'])
    init = tmap(lambda a: Arr(a.shape, a.vars, a.body, a.dt, J, a.tr), init)

    def body(carry, t):
        i = (n - 1 - t) if rev else t
        x = tmap(lambda a: take(a, 0, i), xs) if xs is not None else None
        r = it.call(f, [carry[0], x], {})
        if not (isinstance(r, tuple) and len(r) == 2):
            raise Unsupported('scan body result')
        nc, y = r
        nc = _conv(carry[0], nc)
        return [nc], [y]
    fin, ys = it.scan_generic(body, [init], n, rev)
    p, y = ys[0]
    return (fin[0], tmap(lambda a: lead(p, n, a, 0), y))


def _conv(old, new):
    """python scalars in the new carry become arrays"""
    if isinstance(new, (int, bool, float)):
        return to_arr(new)
    return new


@reg('jax.lax.fori_loop')
def l_fori(it, args, kw):
    b = kwget(args, kw, ['lower', 'upper', 'body_fun', 'init_val'])
    lo, hi = as_E(b['lower']), as_E(b['upper'])
    n = hi - lo
    c = n.const()
    v = tmap(lambda a: Arr(a.shape, a.vars, a.body, a.dt, J, a.tr), b['init_val'])
    if c is not None and c <= 12:
        for k in range(int(max(c, 0))):
            v = it.call(b['body_fun'], [scalar(lo + k, 'i', J, True), v], {})
        return v

    def body(carry, t):
        return [it.call(b['body_fun'], [scalar(lo + t, 'i', J, True), carry[0]], {})], []
    fin, _ = it.scan_generic(body, [v], n)
    return fin[0]


@reg('jax.lax.map')
def l_map(it, args, kw):
    return it.call(j_vmap(it, [args[0]], {}), [args[1]], {})


def _pred(p):
    p = to_arr(p)
    if p.shape:
        raise PyRaise('TypeError')
    if p.dt == 'b':
        return p.body
    return ONE - ind_eq(p.body)


@reg('jax.lax.cond')
def l_cond(it, args, kw):
    b = kwget(args[:3], kw, ['pred', 'true_fun', 'false_fun'])
    opr = list(args[3:])
    if 'operand' in b:
        opr = [b['operand']]
    c = _pred(b['pred'])
    k = c.const()
    if k is not None:
        return it.call(b['true_fun'] if k else b['false_fun'], opr, {})
    tag = object()
    it.branch.append((tag, 0))
    try:
        x = it.call(b['true_fun'], opr, {})
        it.branch[-1] = (tag, 1)
        y = it.call(b['false_fun'], opr, {})
    finally:
        it.branch.pop()
    return it.merge(c, x, y)


@reg('jax.lax.switch')
def l_switch(it, args, kw):
    idx, br = args[0], list(it.iterate(args[1])) if not isinstance(args[1], (list, tuple)) else list(args[1])
    opr = list(args[2:])
    i = as_E(idx)
    c = i.const()
    n = len(br)
    if c is not None:
        return it.call(br[int(min(max(c, 0), n - 1))], opr, {})
    tag = object()

    def alt(k):
        it.branch.append((tag, k))
        try:
            return it.call(br[k], opr, {})
        finally:
            it.branch.pop()
    r = alt(n - 1)
    for k in range(n - 2, -1, -1):
        # clamped: index <= 0 -> first
        cond = ind_lt0(i - 1) if k == 0 else ind_eq(i - k)
        if k == 0 and nonneg(i):
            cond = ind_eq(i)
        r = it.merge(cond, alt(k), r)
    return r


@reg('jax.lax.select')
def l_select(it, args, kw):
    return NPREG['where'](it, J, args, kw)


@reg('jax.lax.stop_gradient')
def l_sg(it, args, kw):
    it.event('stop_gradient')
    return args[0]


@reg('jax.lax.lgamma', 'jax.scipy.special.gammaln', 'scipy.special.gammaln')
def l_lgamma(it, args, kw):
    def f(e):
        return unary('lgamma', e)
    return ew(f, to_arr(args[0]), dt='f')


def _lgamma(e):
    c = e.const()
    if c is not None and c in (1, 2):
        return ZERO
    return unary('lgamma', e)


@reg('jax.lax.dynamic_slice')
def l_ds(it, args, kw):
    raise Unsupported('dynamic_slice')


@reg('jax.lax.dynamic_slice_in_dim')
def l_dsd(it, args, kw):
    raise Unsupported('dynamic_slice_in_dim')


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('div', 'Div'), ('pow', 'Pow'), ('max', None), ('min', None)):
    if _o:
        REG['jax.lax.' + _n] = lambda it, a, k, _o=_o: ops.binop(it, _o, a[0], a[1])
for _n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tanh', 'abs', 'square', 'floor'):
    REG['jax.lax.' + _n] = lambda it, a, k, _n=_n: NPREG[_n](it, J, a, k)


# ---------------------------------------------------------------- linear algebra
def _msym(L):
    """is the matrix Lam symmetric under swap"""
    i, j = fresh(L.shape[0]), fresh(L.shape[1])
    return L.at((ex(i), ex(j))) is L.at((ex(j), ex(i)))


_symc = {}


def msym(L):
    r = _symc.get(L.uid)
    if r is None:
        r = _symc[L.uid] = _msym(L)
    return r


_eyec = {}


def is_eye(M):
    r = _eyec.get(M.uid)
    if r is None:
        r = False
        if len(M.body.terms) == 1:
            a, b = fresh(M.shape[0]), fresh(M.shape[1])
            r = M.at((ex(a), ex(b))) is ind_eq(ex(a) - ex(b))
        _eyec[M.uid] = r
    return r


def diag_lam(L):
    """diagonal matrix: return function d(i) or None"""
    if L.shape[0].const() == 1:
        return lambda i: L.at((ZERO, ZERO))
    return None


def _inv(args, out, ders=()):
    M = args[0]
    i, j = out
    if not ders:
        n = M.shape[0].const()
        if n == 1:
            return pow_(M.at((ZERO, ZERO)), ex(-1))
        if msym(M) and j.dg() < i.dg():
            i, j = j, i
        # inverse of an identity-like matrix
        if is_eye(M):
            return ind_eq(i - j)
    return ex(mkatom('fn', 'inv', tuple(args), (i, j), tuple(ders)))


SMART['inv'] = _inv


def _chol(args, out, ders=()):
    M = args[0]
    if not ders:
        if M.shape[0].const() == 1:
            return pow_(M.at((ZERO, ZERO)), ex(Fraction(1, 2)))
        i, j = out
        c = (i - j).const()
        if c is not None and c < 0:
            return ZERO
    return ex(mkatom('fn', 'chol', tuple(args), tuple(out), tuple(ders)))


SMART['chol'] = _chol


def _eig(name):
    def f(args, out, ders=()):
        M = args[0]
        if not ders and M.shape[0].const() == 1:
            return ONE if name == 'eigvec' else M.at((ZERO, ZERO))
        return ex(mkatom('fn', name, tuple(args), tuple(out), tuple(ders)))
    return f


SMART['eigvec'] = _eig('eigvec')
SMART['eigval'] = _eig('eigval')


def batched(a, core, f):
    """apply f(core Arr) over leading axes; returns Arr or tuple"""
    a = to_arr(a)
    nl = a.ndim - core
    if nl < 0:
        raise PyRaise('ValueError')
    bv = [fresh(s) for s in a.shape[:nl]]
    cv = [fresh(s) for s in a.shape[nl:]]
    sub = Arr(a.shape[nl:], cv, a.at([ex(v) for v in bv + cv]), a.dt, a.host, a.tr)
    r = f(sub)

    def wrap(q):
        return Arr(a.shape[:nl] + q.shape, tuple(bv) + q.vars, q.body, q.dt, J, q.tr)
    return tuple(wrap(q) for q in r) if isinstance(r, tuple) else wrap(r)


def symmetrize(a):
    return mkarr(a.shape, lambda i, j: (a.at([i, j]) + a.at([j, i])) / ex(2), a.dt, a.host, a.tr)


def chol_(a, sym=True):
    def f(m):
        s = m if (not sym or msym(m.lam())) else symmetrize(m)
        L = s.lam()
        return mkarr(m.shape, lambda i, j: mkfn('chol', (L,), (i, j)), 'f', J, a.tr)
    return batched(a, 2, f)


@reg('jax.lax.linalg.cholesky', 'jax.numpy.linalg.cholesky', 'numpy.linalg.cholesky')
def l_chol(it, args, kw):
    sym = kw.get('symmetrize_input', True)
    return chol_(to_arr(args[0]), True)


@reg('jax.scipy.linalg.cholesky', 'scipy.linalg.cholesky')
def js_chol(it, args, kw):
    b = kwget(args, kw, ['a', 'lower'])
    c = chol_(to_arr(b['a']))
    return c if b.get('lower') else moveaxis(c, -1, -2)


def inv_arr(m):
    L = m.lam()
    return mkarr(m.shape, lambda i, j: mkfn('inv', (L,), (i, j)), 'f', J, m.tr)


def tri_lower_of(a, lower):
    """(lower-triangular Arr T, transposed flag) with a's relevant triangle"""
    t = tri(a, lower)
    if lower:
        return t, False
    return transpose(t), True


def tsolve(a, b, left, lower, trans, unit):
    if a.ndim != 2:
        raise Unsupported('batched triangular solve')
    t, fl = tri_lower_of(a, lower)
    if unit:
        t = mkarr(t.shape, lambda i, j: select(ind_eq(i - j), ONE, t.at([i, j])), t.dt, t.host, t.tr)
    inv = inv_arr(t)
    if fl ^ bool(trans):
        inv = transpose(inv)
    if left:
        return H(J, matmul(inv, b))
    return H(J, matmul(b, inv))


@reg('jax.lax.linalg.triangular_solve')
def l_tsolve(it, args, kw):
    b = kwget(args, kw, ['a', 'b', 'left_side', 'lower', 'transpose_a', 'conjugate_a', 'unit_diagonal'])
    a, y = to_arr(b['a']), to_arr(b['b'])
    g = lambda n: bool(b.get(n, False))
    left = g('left_side')
    # jax 0.4.23 triangular_solve: b.ndim == a.ndim - 1 is expanded
    if y.ndim == a.ndim - 1:
        y2 = expand(y, -1) if left else expand(y, -2)
        r = tsolve(a, y2, left, g('lower'), g('transpose_a'), g('unit_diagonal'))
        return squeeze(r, (-1 if left else -2))
    return tsolve(a, y, left, g('lower'), g('transpose_a'), g('unit_diagonal'))


@reg('jax.scipy.linalg.solve_triangular', 'scipy.linalg.solve_triangular')
def js_st(it, args, kw):
    b = kwget(args, kw, ['a', 'b', 'trans', 'lower', 'unit_diagonal'])
    a, y = to_arr(b['a']), to_arr(b['b'])
    tr = b.get('trans', 0)
    tr = tr in (1, 2, 'T', 'C')
    if y.ndim == 1:
        return squeeze(tsolve(a, expand(y, -1), True, bool(b.get('lower', False)), tr, bool(b.get('unit_diagonal', False))), -1)
    return tsolve(a, y, True, bool(b.get('lower', False)), tr, bool(b.get('unit_diagonal', False)))


@reg('jax.numpy.linalg.inv', 'numpy.linalg.inv', 'jax.scipy.linalg.inv', 'scipy.linalg.inv')
def l_inv(it, args, kw):
    return batched(args[0], 2, inv_arr)


def solve_(a, b):
    if a.ndim != 2:
        raise Unsupported('batched solve')
    inv = inv_arr(a)
    if b.ndim in (1, 2):
        return H(J, matmul(inv, b))
    raise Unsupported('batched solve')


@reg('jax.numpy.linalg.solve', 'numpy.linalg.solve', 'jax.scipy.linalg.solve', 'scipy.linalg.solve')
def l_solve(it, args, kw):
    if kw.get('lower') or kw.get('trans'):
        raise Unsupported('solve options')
    return solve_(to_arr(args[0]), to_arr(args[1]))


class CholF:
    pass


@reg('jax.scipy.linalg.cho_factor', 'scipy.linalg.cho_factor')
def js_chof(it, args, kw):
    b = kwget(args, kw, ['a', 'lower'])
    c = chol_(to_arr(b['a']))
    lower = bool(b.get('lower', False))
    return (c if lower else moveaxis(c, -1, -2), lower)


def chol_of(c, lower):
    """matrix M such that c is its Cholesky factor (lower: c; else c^T), or None"""
    i, j = fresh(c.shape[0]), fresh(c.shape[1])
    body = c.at([ex(i), ex(j)] if lower else [ex(j), ex(i)])
    if len(body.terms) == 1:
        (m, co), = body.terms.items()
        if co == 1 and len(m.items) == 1 and m.items[0][1] == 1:
            at = m.items[0][0]
            if at.kind == 'fn' and at.args[0] == 'chol' and at.args[2] == (ex(i), ex(j)) and not at.args[3]:
                L = at.args[1][0]
                if i.args[0] not in L.fv and j.args[0] not in L.fv:
                    return L
    return None


@reg('jax.scipy.linalg.cho_solve', 'scipy.linalg.cho_solve')
def js_chos(it, args, kw):
    b = kwget(args, kw, ['c_and_lower', 'b'])
    c, lower = b['c_and_lower']
    c, y = to_arr(c), to_arr(b['b'])
    lower = bool(lower)
    if c.ndim != 2:
        raise Unsupported('batched cho_solve')
    if c.shape[0].const() == 1:
        m = mkarr(c.shape, lambda i, j: pow_(c.at([ZERO, ZERO]), ex(2)), 'f', J, c.tr)
        return H(J, matmul(inv_arr(m), y))
    L = chol_of(c, lower)
    if L is not None:
        vs, body = L.open()
        inv = inv_arr(Arr(L.shape, vs, body, 'f', J, c.tr))
        return H(J, matmul(inv, y))
    # c interpreted as triangular factor
    r = y if y.ndim == 2 else expand(y, -1)
    if lower:
        r = tsolve(c, r, True, True, False, False)
        r = tsolve(c, r, True, True, True, False)
    else:
        r = tsolve(c, r, True, False, True, False)
        r = tsolve(c, r, True, False, False, False)
    return r if y.ndim == 2 else squeeze(r, -1)


def eig_parts(a, sortflag, lower=True):
    s = a
    L = s.lam() if msym(s.lam()) else symmetrize(s).lam()
    n = a.shape[0]
    vec = mkarr((n, n), lambda i, j: mkfn('eigvec', (L,), (i, j)), 'f', J, a.tr)
    val = mkarr((n,), lambda j: mkfn('eigval', (L,), (j,)), 'f', J, a.tr)
    return vec, val


@reg('jax.lax.linalg.eigh')
def l_eigh(it, args, kw):
    b = kwget(args, kw, ['x', 'lower', 'symmetrize_input', 'sort_eigenvalues'])
    return batched(b['x'], 2, lambda a: eig_parts(a, True))


@reg('jax.numpy.linalg.eigh', 'numpy.linalg.eigh', 'jax.scipy.linalg.eigh', 'scipy.linalg.eigh')
def n_eigh(it, args, kw):
    v, w = batched(args[0], 2, lambda a: eig_parts(a, True))
    return (w, v)


@reg('jax.numpy.linalg.eigvalsh', 'numpy.linalg.eigvalsh')
def n_eigvalsh(it, args, kw):
    v, w = batched(args[0], 2, lambda a: eig_parts(a, True))
    return w


@reg('jax.scipy.linalg.eigh_tridiagonal')
def js_eigtri(it, args, kw):
    b = kwget(args, kw, ['d', 'e', 'eigvals_only'])
    d_, e_ = to_arr(b['d']), to_arr(b['e'])
    n = d_.shape[0]
    if not dim_eq(e_.shape[0], n - 1):
        raise PyRaise('ValueError', it.where())

    def el(i, j):
        return ind_eq(i - j) * d_.at([i]) + ind_eq(i - j - 1) * e_.at([j]) + ind_eq(j - i - 1) * e_.at([i])
    m = mkarr((n, n), el, 'f', J, d_.tr)
    vec, val = eig_parts(m, True)
    if b.get('eigvals_only', False):
        return val
    return (val, vec)


@reg('jax.numpy.linalg.det', 'numpy.linalg.det')
def n_det(it, args, kw):
    def f(a):
        n = a.shape[0].const()
        if n == 1:
            return scalar(a.at([ZERO, ZERO]), 'f', J, a.tr)
        L = a.lam()
        return scalar(from_fn('det', (L,)), 'f', J, a.tr)
    return batched(args[0], 2, f)


@reg('jax.numpy.linalg.slogdet', 'numpy.linalg.slogdet')
def n_slogdet(it, args, kw):
    a = to_arr(args[0])
    dt_ = n_det(it, [a], {})
    return (ew(lambda e: unary('sign', e), dt_), ew(lambda e: log_(abs_(e)), dt_))


@reg('jax.numpy.linalg.norm', 'numpy.linalg.norm')
def n_norm(it, args, kw):
    b = kwget(args, kw, ['x', 'ord', 'axis', 'keepdims'])
    a = to_arr(b['x'])
    o = b.get('ord')
    ax = b.get('axis')
    if ax is not None:
        ax = tuple(const_int(q) for q in ax) if isinstance(ax, (tuple, list)) else const_int(ax)
    nd = a.ndim if ax is None else (len(ax) if isinstance(ax, tuple) else 1)
    if o is None or o == 'fro' or (nd == 1 and isinstance(o, int) and o == 2):
        s = reduce_sum(ew(lambda e: e * e, a), ax, bool(b.get('keepdims', False)))
        return H(J, ew(sqrt_, s))
    if nd == 1 and isinstance(o, int) and o == 1:
        return H(J, reduce_sum(ew(abs_, a), ax, bool(b.get('keepdims', False))))
    raise Unsupported('norm order')


@reg('jax.numpy.linalg.matrix_power', 'numpy.linalg.matrix_power')
def n_mp(it, args, kw):
    a = to_arr(args[0])
    n = const_int(args[1])
    if n < 0:
        a, n = inv_arr(a), -n
    r = mkarr(a.shape, lambda i, j: ind_eq(i - j), a.dt, a.host, a.tr)
    for _ in range(n):
        r = matmul(r, a)
    return r


@reg('jax.scipy.linalg.expm', 'scipy.linalg.expm')
def js_expm(it, args, kw):
    a = to_arr(args[0])
    if a.ndim != 2:
        raise Unsupported('batched expm')
    L = a.lam()
    if a.shape[0].const() == 1:
        return mkarr(a.shape, lambda i, j: exp_(a.at([ZERO, ZERO])), 'f', J, a.tr)
    return mkarr(a.shape, lambda i, j: mkfn('expm', (L,), (i, j)), 'f', J, a.tr)


# ---------------------------------------------------------------- special / stats
@reg('jax.scipy.special.logsumexp', 'jax.nn.logsumexp', 'scipy.special.logsumexp')
def js_lse(it, args, kw):
    b = kwget(args, kw, ['a', 'axis', 'b', 'keepdims'])
    a = ew(exp_, to_arr(b['a']))
    if b.get('b') is not None:
        a = ops.binop(it, 'Mult', a, b['b'])
    ax = b.get('axis')
    ax = None if ax is None else const_int(ax)
    return H(J, ew(log_, reduce_sum(a, ax, bool(b.get('keepdims', False)))))


@reg('jax.nn.softmax')
def nn_softmax(it, args, kw):
    b = kwget(args, kw, ['x', 'axis'])
    e = ew(exp_, to_arr(b['x']))
    ax = const_int(b.get('axis', -1))
    return ops.binop(it, 'Div', e, reduce_sum(e, ax, True))


def _sig(e):
    return pow_(ONE + exp_(-e), ex(-1))


for _names, _f in ((('jax.nn.sigmoid', 'jax.scipy.special.expit', 'scipy.special.expit', 'jax.lax.logistic'), _sig),
                   (('jax.nn.log_sigmoid',), lambda e: -log_(ONE + exp_(-e))),
                   (('jax.nn.softplus',), lambda e: log_(ONE + exp_(e))),
                   (('jax.scipy.special.logit', 'scipy.special.logit'), lambda e: log_(e) - log_(ONE - e)),
                   (('jax.nn.silu', 'jax.nn.swish'), lambda e: e * _sig(e))):
    for _n in _names:
        REG[_n] = (lambda f: lambda it, args, kw: H(J, ew(f, to_arr(args[0]), dt='f')))(_f)


@reg('jax.nn.log_softmax')
def nn_log_softmax(it, args, kw):
    b = kwget(args, kw, ['x', 'axis'])
    x = to_arr(b['x'])
    return ops.binop(it, 'Sub', x, ew(log_, reduce_sum(ew(exp_, x), const_int(b.get('axis', -1)), True)))


@reg('jax.scipy.special.xlogy', 'scipy.special.xlogy')
def js_xlogy(it, args, kw):
    return H(J, ew(lambda x, y: x * log_(y), to_arr(args[0]), to_arr(args[1]), dt='f'))


@reg('jax.scipy.special.erf', 'scipy.special.erf', 'jax.lax.erf')
def js_erf(it, args, kw):
    return ew(lambda e: unary('erf', e), to_arr(args[0]))


@reg('jax.scipy.special.factorial')
def js_fact(it, args, kw):
    return ew(fact_, to_arr(args[0]))


def _lsc(it, x, loc, scale):
    return to_arr(x), to_arr(loc), to_arr(scale)


def norm_logpdf(x, m, s):
    return -(x - m) * (x - m) / (ex(2) * s * s) - log_(s) - log_(ex(2) * PI) / ex(2)


def norm_pdf(x, m, s):
    return exp_(-(x - m) * (x - m) / (ex(2) * s * s)) * pow_(s, ex(-1)) * pow_(ex(2) * PI, ex(Fraction(-1, 2)))


def _stat(f, names, defaults):
    def h(it, args, kw):
        b = kwget(args, kw, names)
        a = [to_arr(b[n]) if n in b else scalar(ex(dv)) for n, dv in zip(names, defaults)]
        return H(J, ew(f, *a))
    return h


for _pre in ('jax.scipy.stats.norm.', 'scipy.stats.norm.'):
    REG[_pre + 'logpdf'] = _stat(norm_logpdf, ['x', 'loc', 'scale'], [None, 0, 1])
    REG[_pre + 'pdf'] = _stat(norm_pdf, ['x', 'loc', 'scale'], [None, 0, 1])
    REG[_pre + 'cdf'] = _stat(lambda x, m, s: (ONE + unary('erf', (x - m) / (s * pow_(ex(2), ex(Fraction(1, 2)))))) / ex(2),
                              ['x', 'loc', 'scale'], [None, 0, 1])


def bern_pmf(k, p):
    # jax.scipy.stats.bernoulli: k==0 -> 1-p, k==1 -> p, else 0
    return from_fn('bernoulli_pmf', (k, p))


def _bern(args, out=(), ders=()):
    k, p = args
    if k.const() == 0:
        return ONE - p
    if k.const() == 1:
        return p
    return ex(mkatom('fn', 'bernoulli_pmf', (k, p), (), tuple(ders)))


SMART['bernoulli_pmf'] = _bern


@reg('jax.scipy.stats.bernoulli.pmf', 'scipy.stats.bernoulli.pmf')
def st_bern(it, args, kw):
    b = kwget(args, kw, ['k', 'p', 'loc'])
    loc = to_arr(b.get('loc', 0))
    return H(J, ew(lambda k, p, l: mkfn('bernoulli_pmf', (k - l, p)), to_arr(b['k']), to_arr(b['p']), loc))


@reg('jax.scipy.stats.bernoulli.logpmf', 'scipy.stats.bernoulli.logpmf')
def st_bernl(it, args, kw):
    return ew(log_, st_bern(it, args, kw))


def pois_logpmf(k, mu):
    return k * log_(mu) - mu - _lgamma(k + 1)


@reg('jax.scipy.stats.poisson.logpmf', 'scipy.stats.poisson.logpmf')
def st_pois(it, args, kw):
    b = kwget(args, kw, ['k', 'mu', 'loc'])
    return H(J, ew(lambda k, m, l: pois_logpmf(k - l, m), to_arr(b['k']), to_arr(b['mu']), to_arr(b.get('loc', 0))))


@reg('jax.scipy.stats.poisson.pmf', 'scipy.stats.poisson.pmf')
def st_poisp(it, args, kw):
    return ew(exp_, st_pois(it, args, kw))


@reg('jax.scipy.stats.uniform.pdf')
def st_unif(it, args, kw):
    raise Unsupported('uniform.pdf')


@reg('jax.scipy.stats.multivariate_normal.logpdf', 'scipy.stats.multivariate_normal.logpdf')
def st_mvn(it, args, kw):
    b = kwget(args, kw, ['x', 'mean', 'cov', 'allow_singular'])
    x, m, c = to_arr(b['x']), to_arr(b['mean']), to_arr(b['cov'])
    if not m.shape and not c.shape:
        return ew(lambda x_, m_, v_: norm_logpdf(x_, m_, sqrt_(v_)), x, m, c)
    if c.ndim != 2 or x.ndim < 1:
        raise Unsupported('multivariate_normal shapes')
    n = c.shape[0]
    if x.ndim < m.ndim:
        x = broadcast_to(x, m.shape)
    inv = inv_arr(c)
    L = chol_(c)

    def core(*lead_):
        i, j = fresh(n), fresh(n)

        def dev(q):
            mi = m.at([q]) if m.ndim == 1 else (m.at([]) if not m.shape else m.at(list(lead_) + [q]))
            return x.at(list(lead_) + [q]) - mi
        quad = mk_sum(i, n, mk_sum(j, n, dev(ex(i)) * inv.at([ex(i), ex(j)]) * dev(ex(j))))
        k = fresh(n)
        ld = mk_sum(k, n, log_(L.at([ex(k), ex(k)])))
        return -quad / ex(2) - ld - n * log_(ex(2) * PI) / ex(2)
    return mkarr(x.shape[:-1], core, 'f', J, True)


@reg('jax.scipy.stats.multivariate_normal.pdf', 'scipy.stats.multivariate_normal.pdf')
def st_mvnp(it, args, kw):
    return ew(exp_, st_mvn(it, args, kw))


# ---------------------------------------------------------------- random
def _key(it, k, what):
    k = to_arr(k)
    it.event('key_consume', key=k.lam(), what=what)
    return k


def rkey(path):
    return path


@reg('jax.random.PRNGKey', 'jax.random.key')
def r_key(it, args, kw):
    s = to_arr(args[0])
    it.event('key_new')
    return mkarr((2,), lambda c: mkfn('PRNGKey', (s.body,), (c,)), 'key', J, s.tr)


@reg('jax.random.split')
def r_split(it, args, kw):
    b = kwget(args, kw, ['key', 'num'])
    num = b.get('num', 2)
    if isinstance(num, (tuple, list)):
        ns = [as_E(x) for x in num]
    else:
        ns = [as_E(num)]
    k = _key(it, b['key'], 'split %s' % (tuple(show(q) for q in ns),))
    K = k.lam()
    return mkarr(tuple(ns) + (ex(2),), lambda *i: mkfn('rsplit', (K,) + tuple(ns), tuple(i)), 'key', J, True)


@reg('jax.random.fold_in')
def r_fold(it, args, kw):
    b = kwget(args, kw, ['key', 'data'])
    k = _key(it, b['key'], 'fold_in')
    K = k.lam()
    d = as_E(b['data'])
    return mkarr((2,), lambda c: mkfn('rfold', (K, d), (c,)), 'key', J, True)


def _rs(kind, it, key, shape, extra=(), dt='f'):
    k = _key(it, key, kind)
    K = k.lam()
    sh = tuple(shape)
    return mkarr(sh, lambda *i: mkfn('r' + kind, (K,) + sh + tuple(extra), tuple(i)), dt, J, True)


@reg('jax.random.normal')
def r_normal(it, args, kw):
    b = kwget(args, kw, ['key', 'shape', 'dtype'])
    return _rs('normal', it, b['key'], shape_of(b.get('shape', ())))


@reg('jax.random.uniform')
def r_uniform(it, args, kw):
    b = kwget(args, kw, ['key', 'shape', 'dtype', 'minval', 'maxval'])
    u = _rs('uniform', it, b['key'], shape_of(b.get('shape', ())))
    lo, hi = to_arr(b.get('minval', 0)), to_arr(b.get('maxval', 1))
    return ew(lambda x, l, h: l + (h - l) * x, u, lo, hi)


@reg('jax.random.permutation')
def r_perm(it, args, kw):
    b = kwget(args, kw, ['key', 'x'])
    x = b['x']
    if isinstance(x, Arr) and x.shape:
        p = _rs('perm', it, b['key'], (x.shape[0],), dt='i')
        return getitem(x, p)
    return _rs('perm', it, b['key'], (as_E(x),), dt='i')


@reg('jax.random.choice')
def r_choice(it, args, kw):
    b = kwget(args, kw, ['key', 'a', 'shape', 'replace', 'p', 'axis'])
    sh = shape_of(b.get('shape', ()))
    a = b['a']
    pool = a if isinstance(a, Arr) and a.shape else None
    n = pool.shape[0] if pool is not None else as_E(a)
    extra = [n]
    rp = b.get('replace', True)
    if rp is not True:
        extra.append(ex(7))
    if b.get('p') is not None:
        extra.append(to_arr(b['p']).lam())
    idx = _rs('choice', it, b['key'], sh, extra, 'i')
    idx = mkarr(idx.shape, lambda *i: mkfn('int:rchoice', (), (), ()) if False else idx.at(i), 'i', J, True)
    if pool is None:
        return idx
    return getitem(pool, idx)


@reg('jax.random.bernoulli')
def r_bern(it, args, kw):
    b = kwget(args, kw, ['key', 'p', 'shape'])
    p = to_arr(b.get('p', scalar(ex(Fraction(1, 2)))))
    sh = shape_of(b['shape']) if b.get('shape') is not None else p.shape
    p = broadcast_to(p, sh)
    return _rs('bernoulli', it, b['key'], sh, (p.lam(),), 'b')


@reg('jax.random.poisson')
def r_pois(it, args, kw):
    b = kwget(args, kw, ['key', 'lam', 'shape'])
    p = to_arr(b['lam'])
    sh = shape_of(b['shape']) if b.get('shape') is not None else p.shape
    p = broadcast_to(p, sh)
    return _rs('poisson', it, b['key'], sh, (p.lam(),), 'f')


@reg('jax.random.categorical')
def r_cat(it, args, kw):
    b = kwget(args, kw, ['key', 'logits', 'axis', 'shape'])
    lg = to_arr(b['logits'])
    sh = shape_of(b['shape']) if b.get('shape') is not None else lg.shape[:-1]
    return _rs('categorical', it, b['key'], sh, (lg.lam(),), 'i')


@reg('jax.random.multivariate_normal')
def r_mvn(it, args, kw):
    b = kwget(args, kw, ['key', 'mean', 'cov', 'shape'])
    m, c = to_arr(b['mean']), to_arr(b['cov'])
    sh = shape_of(b.get('shape', ())) if b.get('shape') is not None else ()
    z = _rs('normal', it, b['key'], tuple(sh) + m.shape)
    L = chol_(c)
    return ops.binop(it, 'Add', m, matmul(z, transpose(L)))


# ---------------------------------------------------------------- tree utils
def _tree_map(it, args, kw):
    f, t = args[0], args[1]
    if len(args) > 2:
        raise Unsupported('tree_map with several trees')
    return tmap(lambda a: it.call(f, [a], {}), t)


REG['jax.tree_util.tree_map'] = REG['jax.tree_map'] = _tree_map


# ---------------------------------------------------------------- TME (assumed third-party component)
def _flam_of(it, f, x):
    nm, p = _fresh_param(x)
    r = to_arr(it.call(f, [p], {}))
    return nm, r


def _split_lin(body, nm):
    """write body as [(coef, core)] with coef free of array nm; core a monomial/atom in nm"""
    out = []
    for m, c in body.terms.items():
        free = {a: e for a, e in m.items if nm not in a.fv and not (isinstance(e, E) and nm in e.fv)}
        dep = {a: e for a, e in m.items if a not in free}
        out.append((scale(from_factors(free), c), from_factors(dep)))
    return out


def tme_exp(nm, body, shape, x, dt, A, B, order):
    """linear functional applied to body(nm)"""
    parts = []
    for coef, core in _split_lin(body, nm):
        if nm not in core.fv:
            parts.append(coef * core)
            continue
        if len(core.terms) == 1:
            (m, c), = core.terms.items()
            if len(m.items) == 1 and m.items[0][1] == 1 and m.items[0][0].kind == 'sum':
                bs, b = open_sum(m.items[0][0])
                e = tme_exp(nm, b, shape, x, dt, A, B, order)
                for v, ext in reversed(bs):
                    e = mk_sum(v, ext, e)
                parts.append(scale(coef * e, c))
                continue
        F = mkflam((shape,), (nm,), (mklam((), (), core),))
        parts.append(coef * mkfn('tme.E', (F, x, dt, A, B, order), ()))
    return sum_list(parts)


def _tme_common(it, b):
    x = to_arr(b['x'])
    if x.ndim != 1:
        raise Unsupported('tme with state of rank %d' % x.ndim)
    dt = as_E(b['dt'])
    order = as_E(b.get('order', 3))
    n1, a = _flam_of(it, b['drift'], x)
    n2, g = _flam_of(it, b['dispersion'], x)
    A = mkflam((x.shape,), (n1,), (a.lam(),))
    B = mkflam((x.shape,), (n2,), (g.lam(),))
    return x, dt, order, A, B


@reg('tme.base_jax.expectation')
def tme_expectation(it, args, kw):
    b = kwget(args, kw, ['phi', 'x', 'dt', 'drift', 'dispersion', 'order'])
    x, dt, order, A, B = _tme_common(it, b)
    nm, r = _flam_of(it, b['phi'], x)
    return Arr(r.shape, r.vars, tme_exp(nm, r.body, x.shape, x.lam(), dt, A, B, order), 'f', J, True)


SYMFN.add('tme.cov')


@reg('tme.base_jax.mean_and_cov')
def tme_mc(it, args, kw):
    b = kwget(args, kw, ['x', 'dt', 'drift', 'dispersion', 'order'])
    x, dt, order, A, B = _tme_common(it, b)
    nm = fresh_array('u')
    m = mkarr(x.shape, lambda i: tme_exp(nm, elem(nm, (i,)), x.shape, x.lam(), dt, A, B, order), 'f', J, True)
    X_ = x.lam()
    c = mkarr(x.shape * 2, lambda i, j: mkfn('tme.cov', (X_, dt, A, B, order), (i, j)), 'f', J, True)
    return (m, c)
