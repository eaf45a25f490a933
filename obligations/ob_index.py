"""C06 multi-index sets, C07 index tables and extractors"""
from .common import *
import itertools

Q = 'mfs.multi_dims.multi_indices.'


def I(n):
    return scalar(n, 'i', 'py', False)


def grlex(d, u, l=0):
    out = []
    for s in range(l, u + 1):
        out += sorted(t for t in itertools.product(range(s + 1), repeat=d) if sum(t) == s)
    return out


def ints(v):
    """constant integer value of an abstract value, or Unsupported"""
    a = ops.to_arr(v)
    def one(e):
        k = e.const()
        if k is None:
            raise Unsupported('not a constant: %s' % show(e)[:80])
        return int(k) if k == int(k) else k
    if not a.shape:
        return one(a.body)
    n = [int(s.const()) for s in a.shape]
    return np.array([one(a.at(t)) for t in itertools.product(*map(range, n))]).reshape(n)


def const_arr(c, a, host='numpy.array'):
    def nest(v):
        return [nest(x) for x in v] if isinstance(v, (list, tuple, np.ndarray)) else I(int(v))
    return c.it.call(LibFn(host), [nest(a)], {})


BOX = [dict(d=d) for d in (1, 2, 3, 4, 5, 6, 8)]


def card(d, u, l):
    """#{alpha in N^d : l <= |alpha| <= u}"""
    return 0 if u < l else math.comb(u + d, d) - (math.comb(l - 1 + d, d) if l > 0 else 0)


@ob('C06', 'size of the index set', Q + 'sizeof_multi_indices', [{'_': 0}], cfgs=BOX)
def _(c):
    d = c.cfg['d']
    f = c.repo(Q + 'sizeof_multi_indices')
    bad = []
    for u in range(0, 13):
        for l in range(0, 14):
            g = ints(c.call(f, I(d), I(u), I(l)))
            e = card(d, u, l)
            if g != e:
                bad.append('sizeof(d=%d, upper=%d, lower=%d) = %s, expected %d' % (d, u, l, g, e))
        if ints(c.call(f, I(d), I(u))) != card(d, u, 0):
            bad.append('sizeof(d=%d, upper=%d) (default lower)' % (d, u))
    c.fact('size', not bad, bad[:3])


@ob('C06', 'size of the index set, any order', Q + 'sizeof_multi_indices', [dict(l=(1,), k=(1,))], [dict(l=1, k=1), dict(l=2, k=3), dict(l=4, k=2)], cfgs=BOX)
def _(c):
    d = c.cfg['d']
    f = c.repo(Q + 'sizeof_multi_indices')
    P = lambda n: ops.to_arr(scalar(n, 'i', 'py', False))

    def closed(u):           # #{alpha in N^d : |alpha| <= u} = (u+1)...(u+d)/d!
        r = ONE
        for j in range(1, d + 1):
            r = r * (u + ex(j)) / ex(j)
        return r
    c.equal('lower < upper', c.call(f, I(d), P(c.l + c.k), P(c.l)), scalar(closed(c.l + c.k) - closed(c.l - ONE), 'i', 'py'))
    c.equal('lower = 0', c.call(f, I(d), P(c.k), I(0)), scalar(closed(c.k), 'i', 'py'))
    c.equal('lower = upper', c.call(f, I(d), P(c.l), P(c.l)), scalar(closed(c.l) - closed(c.l - ONE), 'i', 'py'))
    c.equal('lower > upper', c.call(f, I(d), P(c.l), P(c.l + c.k)), scalar(ZERO, 'i', 'py'))



GEN = [dict(d=d, u=u, l=l) for d, u, l in ((1, 3, 0), (1, 4, 2), (2, 3, 0), (2, 5, 0), (2, 4, 2), (2, 3, 3), (3, 3, 0), (3, 4, 1), (3, 2, 2), (4, 3, 0), (4, 3, 2), (5, 2, 0), (1, 12, 0), (2, 11, 0), (2, 11, 10), (3, 7, 0), (3, 6, 5), (6, 2, 0), (6, 3, 2), (7, 2, 1), (3, 9, 0), (4, 6, 0), (2, 17, 3))]
# every lower degree for each upper degree of a box
GEN += [dict(d=d, u=u, l=l) for d, um in ((1, 8), (2, 8), (3, 5), (4, 4), (5, 3), (6, 2), (8, 2)) for u in range(um + 1) for l in range(u + 1) if dict(d=d, u=u, l=l) not in GEN]


@ob('C06', 'generated index set', Q + 'generate_graded_lexico_multi_indices', [{'_': 0}], cfgs=GEN)
def _(c):
    d, u, l = c.cfg['d'], c.cfg['u'], c.cfg['l']
    r = c.call(c.repo(Q + 'generate_graded_lexico_multi_indices'), I(d), I(u), I(l))
    g = ints(r)
    e = np.array(grlex(d, u, l))
    if g.shape != e.shape:
        c.fact('complete', False, 'shape %s, expected %s' % (g.shape, e.shape))
        return
    bad = [k for k in range(len(e)) if tuple(g[k]) != tuple(e[k])]
    c.fact('complete, duplicate-free, graded lexicographic', not bad, bad and 'row %d is %s, expected %s' % (bad[0], g[bad[0]], e[bad[0]]))
    if l == 0:
        c.equal('default lower sum', c.call(c.repo(Q + 'generate_graded_lexico_multi_indices'), I(d), I(u)), r)


@ob('C06', 'position of an index', Q + 'graded_lexico_indexof_multi_index', [{'_': 0}], cfgs=GEN)
def _(c):
    d, u, l = c.cfg['d'], c.cfg['u'], c.cfg['l']
    f = c.repo(Q + 'graded_lexico_indexof_multi_index')
    bad = []
    for k, t in enumerate(grlex(d, u, l)):
        for v in (tuple(I(x) for x in t), const_arr(c, t)):
            g = ints(c.call(f, v, I(l)))
            if g != k:
                bad.append('position of %s (lower sum %d) is %s, expected %d' % (t, l, g, k))
    for k, t in enumerate(grlex(d, u)):
        if ints(c.call(f, [I(x) for x in t])) != k:
            bad.append('position of %s is not %d' % (t, k))
    c.fact('position', not bad, bad[:3])


@ob('C06', 'successor of an index', Q + '_next_graded_lexico_multi_index', [{'_': 0}], cfgs=[dict(d=2, u=4), dict(d=3, u=3), dict(d=4, u=3), dict(d=2, u=12), dict(d=6, u=2), dict(d=3, u=7)])
def _(c):
    d, u = c.cfg['d'], c.cfg['u']
    f = c.repo(Q + '_next_graded_lexico_multi_index')
    bad = []
    L = grlex(d, u)
    for a, b in zip(L, L[1:]):
        v = const_arr(c, a)
        g = tuple(ints(c.call(f, v)))
        if g != b:
            bad.append('successor of %s is %s, expected %s' % (a, g, b))
        if tuple(ints(v)) != a:
            bad.append('argument %s modified' % (a,))
    c.fact('successor', not bad, bad[:3])


@ob('C07', 'Gram and Hankel tables', Q + 'gram_and_hankel_indices_graded_lexico', [{'_': 0}],
    cfgs=[dict(d=1, N=1), dict(d=1, N=4), dict(d=2, N=1), dict(d=2, N=2), dict(d=2, N=3), dict(d=2, N=4), dict(d=3, N=2), dict(d=3, N=3), dict(d=4, N=2), dict(d=1, N=7), dict(d=2, N=6), dict(d=3, N=4), dict(d=5, N=2), dict(d=6, N=2)])
def _(c):
    d, N = c.cfg['d'], c.cfg['N']
    g = ints(c.call(c.repo(Q + 'gram_and_hankel_indices_graded_lexico'), I(N), I(d)))
    B = grlex(d, N - 1)
    pos = {t: k for k, t in enumerate(grlex(d, 2 * N - 1))}
    e = np.zeros((d + 1, len(B), len(B)), int)
    for i, a in enumerate(B):
        for j, b in enumerate(B):
            s = tuple(x + y for x, y in zip(a, b))
            e[0, i, j] = pos[s]
            for k in range(d):
                e[k + 1, i, j] = pos[tuple(x + (q == k) for q, x in enumerate(s))]
    if g.shape != e.shape:
        c.fact('tables', False, 'shape %s, expected %s' % (g.shape, e.shape))
        return
    bad = np.argwhere(g != e)
    c.fact('tables', len(bad) == 0, len(bad) and 'entry %s is %s, expected %s' % (bad[0], g[tuple(bad[0])], e[tuple(bad[0])]))


@ob('C07 C04', 'one-dimensional Hankel tables', 'mfs.one_dim.quadtures.hankel_indices', [dict(n=None), dict(n=3)], [dict(n=2), dict(n=4)])
def _(c):
    g, h = c.call(c.repo('mfs.one_dim.quadtures.hankel_indices'), scalar(c.n, 'i', 'py'))
    c.equal('Gram', g, mkarr((c.n, c.n), lambda i, j: i + j, 'i'))
    c.equal('Hankel', h, mkarr((c.n, c.n), lambda i, j: i + j + ONE, 'i'))


M = 'mfs.multi_dims.moments.'
EX = [dict(d=d, N=N, batch=b) for d, N in ((1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2)) for b in (0, 1, 2)]


def moms(c):
    d, N, b = c.cfg['d'], c.cfg['N'], c.cfg['batch']
    pos = {t: k for k, t in enumerate(grlex(d, 2 * N - 1))}
    lead = (c.B1, c.B2)[:b]
    return d, N, pos, lead, c.arr('ms', lead + (ex(len(pos)),))


SZ = [dict(B1=None, B2=None), dict(B1=2, B2=2)]
IN = [dict(B1=2, B2=3)]


def unit(d, *ks):
    return tuple(sum(1 for k in ks if k == j) for j in range(d))


@ob('C07', 'extract_mean', M + 'extract_mean', SZ, IN, cfgs=EX)
def _(c):
    d, N, pos, lead, ms = moms(c)
    r = c.call(c.repo(M + 'extract_mean'), ms, I(d))
    for k in range(d):
        c.equal('mean[%d]' % k, c.it.call(LibFn('numpy.take'), [r, I(k)], {'axis': I(-1)}), mkarr(lead, lambda *i: ms.at(i + (ex(pos[unit(d, k)]),))))


@ob('C07', 'extract_cov', M + 'extract_cov', SZ, IN, cfgs=EX)
def _(c):
    d, N, pos, lead, ms = moms(c)
    r = c.call(c.repo(M + 'extract_cov'), ms, I(d))
    if ops.to_arr(r).ndim != len(lead) + 2:
        c.fact('rank', False, 'shape %s' % (ops.to_arr(r).shape,))
        return
    for k in range(d):
        for l in range(d):
            c.equal('cov[%d,%d]' % (k, l), mkarr(lead, lambda *i: ops.to_arr(r).at(i + (ex(k), ex(l)))), mkarr(lead, lambda *i: ms.at(i + (ex(pos[unit(d, k, l)]),))))


@ob('C07', 'extract_moments', M + 'extract_moments', SZ, IN, cfgs=EX)
def _(c):
    d, N, pos, lead, ms = moms(c)
    f = c.repo(M + 'extract_moments')
    for t, k in pos.items():
        c.equal('moment %s' % (t,), c.call(f, ms, const_arr(c, t)), mkarr(lead, lambda *i: ms.at(i + (ex(k),))))
    allt = list(pos)
    c.equal('all moments', c.call(f, ms, const_arr(c, allt)), ms)


@ob('C07', 'marginalise_moments', M + 'marginalise_moments', SZ, IN, cfgs=EX)
def _(c):
    d, N, pos, lead, ms = moms(c)
    f = c.repo(M + 'marginalise_moments')
    for ax in range(d):
        r = ops.to_arr(c.call(f, ms, I(d), I(N), I(ax)))
        c.fact('axis %d length' % ax, r.ndim == len(lead) + 1 and r.shape[-1].const() == 2 * N, 'shape %s' % (r.shape,))
        if not (r.ndim == len(lead) + 1 and r.shape[-1].const() == 2 * N):
            continue
        for p in range(2 * N):
            c.equal('axis %d order %d' % (ax, p), mkarr(lead, lambda *i: r.at(i + (ex(p),))),
                    mkarr(lead, lambda *i: ms.at(i + (ex(pos[tuple(p * (j == ax) for j in range(d))]),))))
