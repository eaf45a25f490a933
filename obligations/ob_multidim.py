"""C05, C02, C03: multidimensional quadrature and filters"""
from .common import *
from .ob_index import I, const_arr, grlex

Q = 'mfs.multi_dims.quadratures.'
F = 'mfs.multi_dims.filtering.'


def tables(N, d):
    B = grlex(d, N - 1)
    pos = {t: k for k, t in enumerate(grlex(d, 2 * N - 1))}
    e = np.zeros((d + 1, len(B), len(B)), int)
    for i, a in enumerate(B):
        for j, b in enumerate(B):
            s = tuple(x + y for x, y in zip(a, b))
            e[0, i, j] = pos[s]
            for k in range(d):
                e[k + 1, i, j] = pos[tuple(x + (q == k) for q, x in enumerate(s))]
    return np.array(list(pos)), e


def nd_points(ev, name, d, central=False, scaled=False):
    xs = np.array([[-1. + 2.3 * h01(ev.seed, name, 'x', j, k) for k in range(d)] for j in range(24)])
    ws = np.array([0.2 + h01(ev.seed, name, 'w', j) for j in range(24)])
    ws /= ws.sum()
    ws = ev.signed(ws, (xs ** 2).sum(axis=1), 4)
    if central:
        xs = xs - ws @ xs
    if scaled:
        xs = xs / np.sqrt(np.abs(ws @ xs ** 2))
    return ws, xs


def nd_moments(c, name, mis, central=False, scaled=False):
    def gen(ev):
        ws, xs = nd_points(ev, name, mis.shape[1], central, scaled)
        return np.array([ws @ np.prod(xs ** m, axis=1) for m in mis])
    return c.arr(name, (ex(len(mis)),), gen)


def sym_inds(c, d):
    """index tables as integer inputs of symbolic size; interpreted by real tables"""
    def gen(ev):
        return None
    return c.arr('inds', (ex(d + 1), c.n, c.n), dt='i', host='np', tr=False, nonneg=True)


DC = [dict(d=d, N=N, ldl=l, ms=m) for d, N in ((1, 2), (1, 3), (2, 2), (3, 2), (2, 3), (4, 2), (1, 5), (2, 4), (5, 2)) for l in (False, True) for m in ("none", "mean", "both") if not (l and (d, N) == (2, 4))]


@ob('C05', 'moment_quadrature_nd', Q + 'moment_quadrature_nd', [{'_': 0}], cfgs=DC)
def _(c):
    d, N = c.cfg['d'], c.cfg['N']
    mis, e = tables(N, d)
    ms = nd_moments(c, 'ms', mis)
    inds = const_arr(c, e)
    mean, scale = c.arr('mean', (ex(d),)), c.arr('scale', (ex(d),), positive=True)
    zero, one = (c.it.call(LibFn('jax.numpy.' + q), [I(d)], {}) for q in ('zeros', 'ones'))
    a = {'none': (), 'mean': (mean,), 'both': (mean, scale)}[c.cfg['ms']]
    b = {'none': (zero, one), 'mean': (mean, one), 'both': (mean, scale)}[c.cfg['ms']]
    for srt in (False, True):
        c.equal('rule sort=%s' % srt, c.call(c.repo(Q + 'moment_quadrature_nd'), ms, inds, *a, sort_nodes=srt, ldl=c.cfg['ldl']), c.call(c.spec('multidim.quadrature'), ms, inds, *b, c.cfg['ldl']))


def sym_setup(c, d, central=False, scaled=False, names=('ms',)):
    """index tables and multi-indices as integer inputs of any size; interpreted by the real tables"""
    def N_of(ev):
        n = int(round(ev.E(c.n, {})))
        for N in range(1, 12):
            if math.comb(N - 1 + d, d) == n:
                return N
        raise Inconclusive('no table of size %d' % n)
    inds = c.arr('inds', (ex(d + 1), c.n, c.n), lambda ev: tables(N_of(ev), d)[1], dt='i', host='np', tr=False, nonneg=True)
    mis = c.arr('mis', (c.z, ex(d)), lambda ev: tables(N_of(ev), d)[0], dt='i', host='np', tr=False, nonneg=True)

    def mom(name, central=False, scaled=False):
        def gen(ev):
            m = tables(N_of(ev), d)[0]
            ws, xs = nd_points(ev, name, d, central, scaled)
            return np.array([ws @ np.prod(xs ** q, axis=1) for q in m])
        return c.arr(name, (c.z,), gen)
    return inds, mis, mom


def zz(d, N):
    return dict(n=math.comb(N - 1 + d, d), z=math.comb(2 * N - 1 + d, d))


for _d, _Ns in ((1, (2, 3)), (2, (2,)), (3, (2,))):
    @ob('C05', 'moment_quadrature_nd, any size', Q + 'moment_quadrature_nd', [dict(n=None, z=None)], [zz(_d, N) for N in _Ns],
        cfgs=[dict(d=_d, ldl=l, ms=m) for l in (False, True) for m in ('none', 'mean', 'both')])
    def _(c):
        d = c.cfg['d']
        inds, mis, mom = sym_setup(c, d)
        ms = mom('ms')
        mean, scale = c.arr('mean', (ex(d),)), c.arr('scale', (ex(d),), positive=True)
        zero, one = (c.it.call(LibFn('jax.numpy.' + q), [I(d)], {}) for q in ('zeros', 'ones'))
        a = {'none': (), 'mean': (mean,), 'both': (mean, scale)}[c.cfg['ms']]
        b = {'none': (zero, one), 'mean': (mean, one), 'both': (mean, scale)}[c.cfg['ms']]
        c.equal('rule', c.call(c.repo(Q + 'moment_quadrature_nd'), ms, inds, *a, ldl=c.cfg['ldl']), c.call(c.spec('multidim.quadrature'), ms, inds, *b, c.cfg['ldl']))


@ob('C05', 'Cartesian products', Q + 'nd_cartesian_prod ' + Q + 'nd_cartesian_prod_indices', [dict(n=None, m=None), dict(n=3, m=2)], [dict(n=2, m=3), dict(n=3, m=2)], cfgs=[dict(d=d) for d in (1, 2, 3)])
def _(c):
    d = c.cfg['d']
    x2, x3 = c.arr('x2', (ex(d), c.n)), c.arr('x3', (ex(d), c.m, c.n))
    idx = c.call(c.repo(Q + 'nd_cartesian_prod_indices'), I(d), scalar(c.n, 'i', 'py'))
    f = c.repo(Q + 'nd_cartesian_prod')
    c.equal('default indices', c.call(f, x2), c.call(f, x2, idx))
    c.equal('matrix', c.call(f, x2, idx), c.call(c.spec('multidim.product2'), x2))
    c.equal('stack of matrices', c.call(f, x3, idx), c.call(c.spec('multidim.product3'), x3))


# ---------------------------------------------------------------- C02, C03
def nd_cond(ev, x, tag='cd', n=16):
    """pseudo-random discrete conditional distribution of a vector given the vector x"""
    x = np.asarray(x).real
    ck = (ev.seed, tag, n, len(x))
    if ck not in _CD:
        ws = np.array([0.2 + h01(ev.seed, tag, 'w', j) for j in range(n)])
        _CD[ck] = (ws / ws.sum(), *(np.array([[a * h01(ev.seed, tag, q, j, k) + b for k in range(len(x))] for j in range(n)]) for q, a, b in (('x', 2.4, -1.2), ('p', 6, 0))))
    ws, base, ph = _CD[ck]
    s = sum((k + 1) * v for k, v in enumerate(x))
    xs = base + 0.3 * np.sin(s + ph)
    return ev.signed(ws, (xs ** 2).sum(axis=1), 3), xs * ev.scale.get('cd', 1.0)


_CD = {}


def rowlam(x, lead):
    """the state row of x (..., d) at leading indices, as a lambda term"""
    v = fresh(x.shape[-1])
    return mklam((x.shape[-1],), (v,), x.at(tuple(lead) + (ex(v),)))


def as_order(n):
    """multi-index row or position"""
    return n


def nd_cb(c, name, d, kind, sig, mis):
    """conditional moment callback (x (q, d), idx, [mean, scale]) -> (q, K)"""
    def interp(ev, a, o, ders):
        ws, xs = nd_cond(ev, a[0])
        if sig == 'multi-index':
            m = np.array([int(round(v)) for v in np.asarray(a[1])])
        else:
            m = np.asarray(ev.array('mis', {}))[int(round(a[1]))].astype(int)
        if kind >= 1:
            xs = xs - np.asarray(a[2])
        if kind >= 2:
            xs = xs / np.asarray(a[3])
        return float(ws @ np.prod(xs ** m, axis=1))
    c.interps[name] = interp

    def f(x, idx, *ms):
        if x.ndim != 2 or len(ms) != kind or idx.ndim != (2 if sig == 'multi-index' else 1):
            raise PyRaise('TypeError')

        def body(q, k):
            order = rowlam(idx, (k,)) if sig == 'multi-index' else idx.at((k,))
            return mkfn(name, (rowlam(x, (q,)), order) + tuple(m.lam() if m.shape else m.body for m in ms))
        return mkarr((x.shape[0], idx.shape[0]), body, 'f', 'jnp', True)
    return c.native(f, name)


def nd_vec(c, name, which):
    def interp(ev, a, o, ders):
        ws, xs = nd_cond(ev, a[0])
        m = ws @ xs
        return float((m if which == 'mean' else np.abs(ws @ xs ** 2 - m ** 2))[o[0]])
    c.interps[name] = interp
    return lambda x: mkarr(x.shape, lambda q, k: mkfn(name, (rowlam(x, (q,)),), (k,)), 'f', 'jnp', True)


def nd_lik(c):
    c.interps['lik'] = lambda ev, a, o, d: ev.mag('lik', 14) * 0.6 + ev.mag('lik', 14) * 0.4 * smooth('lik', ev.seed, *(list(np.ravel(a[0])) + list(np.ravel(a[1]))))

    def f(y, x):
        if x.ndim != 1:
            raise PyRaise('TypeError')
        return scalar(mkfn('lik', (y.body if not y.shape else y.lam(), x.lam())), 'f', 'jnp', True)
    return c.native(f, 'measurement_cond_pdf')


FC = [dict(d=d, stable=s, sig=g, y=y) for d in (1, 2) for s in (False, True) for g in ('multi-index', 'index') for y in ('scalar', 'vector')
      if not (s and (g == 'index' or y == 'vector')) and not (d == 2 and y == 'vector' and g == 'index')]
FS = [dict(n=None, z=None, T=None, dy=None)]


def reg(name, fn, body):
    for _d, _Ns in ((1, (2, 1)), (2, (2,))):
        ob('C02 C03 C25 C26', name, F + fn, FS, [dict(zz(_d, N), T=2, dy=2) for N in _Ns], cfgs=[q for q in FC if q['d'] == _d])(body)


def fsetup(c):
    d, sig = c.cfg['d'], c.cfg['sig']
    inds, mis, mom = sym_setup(c, d)
    ys = c.arr('ys', (c.T,) if c.cfg['y'] == 'scalar' else (c.T, c.dy))
    which = mis if sig == 'multi-index' else c.it.call(LibFn('jax.numpy.arange'), [scalar(c.z, 'i', 'py')], {})
    return d, sig, inds, mis, mom, ys, which


def f_rms(c):
    d, sig, inds, mis, mom, ys, which = fsetup(c)
    cb, lik, m0, st = nd_cb(c, 'condraw', d, 0, sig, mis), nd_lik(c), mom('rms0'), c.cfg['stable']
    r = c.call(c.repo(F + 'moment_filter_nd_rms'), (cb, sig), lik, ys, (mis, inds), m0, stable=st)
    c.split3('rms filter', r, c.call(c.spec('multidim.filter_rms'), cb, lik, ys, mis, which, inds, m0, st))


def f_cms(c):
    d, sig, inds, mis, mom, ys, which = fsetup(c)
    cb, lik, m0, st = nd_cb(c, 'condcen', d, 1, sig, mis), nd_lik(c), mom('cms0', central=True), c.cfg['stable']
    cm, mean0 = c.native(nd_vec(c, 'condmean', 'mean')), c.arr('mean0', (ex(d),))
    r = c.call(c.repo(F + 'moment_filter_nd_cms'), (cb, sig), cm, lik, ys, (mis, inds), m0, mean0, stable=st)
    c.split3('cms filter', r, c.call(c.spec('multidim.filter_cms'), cb, cm, lik, ys, mis, which, inds, m0, mean0, st))


def f_scms(c):
    d, sig, inds, mis, mom, ys, which = fsetup(c)
    cb, lik, m0, st = nd_cb(c, 'condscen', d, 2, sig, mis), nd_lik(c), mom('scms0', central=True, scaled=True), c.cfg['stable']
    a, b = nd_vec(c, 'condmean', 'mean'), nd_vec(c, 'condvar', 'var')
    cmv = c.native(lambda x: (a(x), b(x)))
    mean0, scale0 = c.arr('mean0', (ex(d),)), c.arr('scale0', (ex(d),), positive=True)
    r = c.call(c.repo(F + 'moment_filter_nd_scms'), (cb, sig), cmv, lik, ys, (mis, inds), m0, mean0, scale0, stable=st)
    c.split3('scms filter', r, c.call(c.spec('multidim.filter_scms'), cb, cmv, lik, ys, mis, which, inds, m0, mean0, scale0, st))


reg('nd rms filter', 'moment_filter_nd_rms', f_rms)
reg('nd cms filter', 'moment_filter_nd_cms', f_cms)
reg('nd scms filter', 'moment_filter_nd_scms', f_scms)
for _n, _f in (('rms', f_rms), ('cms', f_cms), ('scms', f_scms)):
    ob('C02 C03', 'nd %s filter' % _n, F + 'moment_filter_nd_' + _n, FS, [dict(zz(3, 2), T=1, dy=2)], cfgs=[dict(d=3, stable=False, sig='index', y='scalar')])(_f)


@ob('C02', 'size mismatch is rejected', ' '.join(F + 'moment_filter_nd_' + k for k in ('rms', 'cms', 'scms')), [dict(n=None, z=None, T=None)], [dict(zz(2, 2), T=2)])
def _(c):
    d = 2
    inds, mis, mom = sym_setup(c, d)
    ys, lik = c.arr('ys', (c.T,)), nd_lik(c)
    mean0, scale0 = c.arr('mean0', (ex(d),)), c.arr('scale0', (ex(d),), positive=True)
    sig = 'multi-index'
    for delta in (1, -1):
        m0 = c.arr('m0', (c.z + ex(delta),))
        a, b = nd_vec(c, 'condmean', 'mean'), nd_vec(c, 'condvar', 'var')
        c.raises('rms', 'ValueError', c.repo(F + 'moment_filter_nd_rms'), (nd_cb(c, 'r', d, 0, sig, mis), sig), lik, ys, (mis, inds), m0)
        c.raises('cms', 'ValueError', c.repo(F + 'moment_filter_nd_cms'), (nd_cb(c, 'r', d, 1, sig, mis), sig), c.native(a), lik, ys, (mis, inds), m0, mean0)
        c.raises('scms', 'ValueError', c.repo(F + 'moment_filter_nd_scms'), (nd_cb(c, 'r', d, 2, sig, mis), sig), c.native(lambda x: (a(x), b(x))), lik, ys, (mis, inds), m0, mean0, scale0)
