"""Symbolic differentiation of IR terms with respect to elements of an array parameter."""
from .values import *
from .expr import *
from . import expr as X

ZERO_DER = {'floor', 'ceil', 'round', 'sign', 'argsort', 'searchsorted', 'argmin', 'argmax', 'mod', 'trunc',
            'stop_gradient', 'isnan', 'isfinite', 'fact', 'comb', 'fact2', 'digit'}
NO_DER = {'chol', 'eigvec', 'eigval', 'expm', 'roots', 'svd', 'qr', 'interp', 'sort', 'max', 'min', 'maxr', 'minr'}


def d_lam(l, target):
    vs, body = l.open()
    return vs, d(body, target)


def d(e, target, memo=None):
    """derivative of E wrt elem(target[0], target[1])"""
    if memo is None:
        memo = {}
    name = target[0]
    if name not in e.fv:
        return ZERO
    r = memo.get(e)
    if r is not None:
        return r
    parts = []
    for m, c in e.terms.items():
        if name not in m.fv:
            continue
        items = m.items
        for k, (a, x) in enumerate(items):
            rest = dict(items)
            del rest[a]
            if name in a.fv:
                da = d_atom(a, target, memo)
                if da.terms:
                    xm1 = (x - 1) if not isinstance(x, E) else x - ONE
                    f = mul(ex(x), pow_(ex(a), ex(xm1)))
                    parts.append(scale(mul(mul(from_factors(rest), f), da), c))
            if isinstance(x, E) and name in x.fv:
                dx = d(x, target, memo)
                if dx.terms:
                    la = ONE if a is X.EATOM else log_(ex(a))
                    parts.append(scale(mul(mul(from_factors(dict(items)), la), dx), c))
    r = sum_list(parts)
    memo[e] = r
    return r


def d_atom(a, target, memo):
    name, tidx = target
    k = a.kind
    if name not in a.fv:
        return ZERO
    if k == 'elem':
        if a.args[0] != name:
            # index depends on target: integer index, derivative zero
            return ZERO
        r = ONE
        for i, j in zip(a.args[1], tidx):
            r = mul(r, ind_eq(i - j))
        return r
    if k == 'paren':
        return d(a.args[0], target, memo)
    if k in ('lt', 'eq', 'rlt', 'rle', 'req', 'bool', 'var', 'sym'):
        return ZERO
    if k == 'sum':
        bs, body = open_sum(a)
        e = d(body, target)
        for v, ext in reversed(bs):
            e = mk_sum(v, ext, e)
        return e
    if k == 'prod':
        v, ext, body = open_prod(a)
        j = fresh(ext)
        dj = subst(d(body, target), {v.args[0]: ex(j)})
        others = mk_prod(v, ext, select(ind_eq(ex(v) - ex(j)), ONE, body))
        return mk_sum(j, ext, mul(dj, others))
    if k == 'fn':
        return d_fn(a, target, memo)
    raise Unsupported('derivative of %s' % k)


def d_fn(a, target, memo):
    fname, args, out, ders = a.args
    name = target[0]
    if fname in ZERO_DER or fname.startswith('int:'):
        return ZERO
    x = args[0] if args else None
    if fname == 'lump':
        return d(x, target, memo)
    if fname == 'table':
        cells = [d(c, target, memo) for c in args]
        return mkfn('table', tuple(cells), out)
    if not out and not ders and isinstance(x, E) and len(args) == 1:
        dx = d(x, target, memo)
        if fname == 'log':
            return mul(pow_(x, ex(-1)), dx)
        if fname == 'sin':
            return mul(unary('cos', x), dx)
        if fname == 'cos':
            return neg(mul(unary('sin', x), dx))
        if fname == 'tanh':
            return mul(ONE - pow_(unary('tanh', x), ex(2)), dx)
        if fname == 'sinh':
            return mul(unary('cosh', x), dx)
        if fname == 'cosh':
            return mul(unary('sinh', x), dx)
        if fname == 'abs':
            return mul(unary('sign', x), dx)
        if fname in ('real', 'imag', 'conj'):
            return unary(fname, dx)
        if fname == 'lgamma':
            return mul(unary('digamma', x), dx)
    if fname == 'inv' and not ders:
        M = args[0]
        n = M.shape[0]
        i, j = out
        p, q = fresh(n), fresh(n)
        dm = d(M.at((ex(p), ex(q))), target)
        body = mul(mul(mkfn('inv', (M,), (i, ex(p))), dm), mkfn('inv', (M,), (ex(q), j)))
        return neg(mk_sum(p, n, mk_sum(q, n, body)))
    if fname in NO_DER:
        raise Unsupported('derivative of %s' % fname)
    parts = []
    for n, x in enumerate(args):
        if isinstance(x, E):
            if name in x.fv:
                parts.append(mul(mkfn(fname, args, out, ders + ((n,),)), d(x, target, memo)))
        elif isinstance(x, Lam):
            if name in x.fv:
                vs, db = d_lam(x, target)
                body = mul(mkfn(fname, args, out, ders + ((n,) + tuple(ex(v) for v in vs),)), db)
                for v, s in reversed(list(zip(vs, x.shape))):
                    body = mk_sum(v, s, body)
                parts.append(body)
        elif isinstance(x, FLam):
            if name in x.fv:
                raise Unsupported('derivative through a functional')
    return sum_list(parts)
