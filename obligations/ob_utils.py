"""C15, C18, C20, C21, C22: integration rules, brute force, factorisations, mixtures, SDE utilities"""
from .common import *
from .ob_index import I, const_arr, grlex
from .ob_gauss import pd, fn_mc, fn_vec, S, sig
from .ob_onedim import vec_fn, smooth_fn
from .ob_smc import key, L
from .ob_moments_nd import idx

U = 'mfs.utils.'
Q = 'mfs.classical_filters_smoothers.quadratures.'
B = 'mfs.classical_filters_smoothers.brute_force.brute_force_filter'


# ---------------------------------------------------------------- C15
def ode_cb(c, extra):
    def f(m, P, *r):
        if len(r) != extra:
            raise PyRaise('TypeError')
        a = (m.lam(), P.lam()) + tuple(q.lam() for q in r)
        return (mkarr((c.d,), lambda i: mkfn('odem', a, (i,)), 'f', 'jnp', True), mkarr((c.d, c.d), lambda i, j: mkfn('odeP', a, (i, j)), 'f', 'jnp', True))
    return c.native(f, 'ode')


@ob('C15', 'Runge-Kutta', Q + 'rk4_m_cov', [dict(d=None), dict(d=2)], [dict(d=2)], cfgs=[dict(back=False), dict(back=True)])
def _(c):
    m, P, h = c.arr('m', (c.d,)), c.arr('P', (c.d, c.d)), c.scalar('h')
    if c.cfg['back']:
        f = ode_cb(c, 2)
        mf, vf = c.arr('mf', (c.d,)), c.arr('vf', (c.d, c.d))
        r = c.call(c.repo(Q + 'rk4_m_cov_backward'), f, m, P, mf, vf, h)
        g = NativeFn(lambda it, a, k: it.call(f, list(a) + [mf, vf], {}), 'ode')
    else:
        g = ode_cb(c, 0)
        r = c.call(c.repo(Q + 'rk4_m_cov'), g, m, P, h)
    c.equal('step', r, c.call(c.spec('gauss.rk4'), g, m, P, h))


def gm(k):
    r = 1
    for j in range(1, k, 2):
        r *= j
    return 0 if k % 2 else r


def field(c, inst, nm):
    return c.it.getattr(inst, nm)


def moments_ok(c, sg, d, idxs, npts):
    w, xi = field(c, sg, 'w'), field(c, sg, 'xi')
    c.equal('d', ops.to_arr(field(c, sg, 'd')), scalar(d))
    c.equal('n_points', ops.to_arr(field(c, sg, 'n_points')), scalar(npts))
    if tuple(x.const() for x in ops.to_arr(xi).shape) != (npts, d) or tuple(x.const() for x in ops.to_arr(w).shape) != (npts,):
        c.fact('shapes', False, 'points %s, weights %s' % (ops.to_arr(xi).shape, ops.to_arr(w).shape))
        return
    wb, xb = ops.to_arr(w), ops.to_arr(xi)
    for t in idxs:
        s = ZERO
        for i in range(npts):
            q = wb.at((ex(i),))
            for j, k in enumerate(t):
                if k:
                    q = q * pow_(xb.at((ex(i), ex(j))), ex(k))
            s = s + q
        e = 1
        for k in t:
            e *= gm(k)
        c.equal('moment %s' % (t,), scalar(s), scalar(e))


@ob('C15', 'cubature rule', S + '.cubature', [{'_': 0, '_mul': 3000}], cfgs=[dict(d=d) for d in (1, 2, 3, 4, 5)])
def _(c):
    d = c.cfg['d']
    sg = c.call(c.it.getattr(c.repo(S), 'cubature'), I(d))
    moments_ok(c, sg, d, grlex(d, 3), 2 * d)


@ob('C15', 'Gauss-Hermite rule', S + '.gauss_hermite', [{'_': 0, '_mul': 3000}],
    cfgs=[dict(d=1, n=n) for n in (1, 2, 3, 4, 5, 6, 8, 10)] + [dict(d=2, n=n) for n in (2, 3, 4, 5)] + [dict(d=3, n=2), dict(d=3, n=3), dict(d=4, n=2), dict(d=2, n=None)])
def _(c):
    d, n = c.cfg['d'], c.cfg['n']
    kw = dict(d=I(d)) if n is None else dict(d=I(d), order=I(n))
    n = n or 3
    sg = c.call(c.it.getattr(c.repo(S), 'gauss_hermite'), **kw)
    t = [q for q in itertools.product(range(2 * n), repeat=d)]
    if len(t) > 70:
        t = [q for q in t if sum(1 for k in q if k) <= 1 or sum(q) <= 4 or all(k in (2, 2 * n - 2) for k in q)]
    moments_ok(c, sg, d, t, n ** d)


@ob('C15', 'unscented', S + '.unscented', [{'_': 0}])
def _(c):
    c.raises('not implemented', 'NotImplementedError', c.it.getattr(c.repo(S), 'unscented'), I(2), scalar(1), scalar(2), scalar(0))


@ob('C15', 'sigma points', S + '.gen_sigma_points', [dict(dx=None, n=None, k=None), dict(dx=2, n=3, k=2)], [dict(dx=2, n=3, k=2)])
def _(c):
    sg = sig(c)
    m, Lc = c.arr('m', (c.dx,)), c.arr('L', (c.dx, c.dx))
    c.equal('placement', c.call(c.it.getattr(sg, 'gen_sigma_points'), m, Lc),
            mkarr((c.n, c.dx), lambda i, j: m.at((j,)) + _sum(c.dx, lambda q: Lc.at((j, q)) * elem('xi', (i, q))), 'f', 'jnp', True))
    ev = c.arr('ev', (c.n, c.k))
    c.equal('expectation', c.call(c.it.getattr(sg, 'expectation'), ev), mkarr((c.k,), lambda j: _sum(c.n, lambda i: elem('w', (i,)) * ev.at((i, j)))))
    e1 = c.arr('e1', (c.n,))
    c.equal('scalar expectation', c.call(c.it.getattr(sg, 'expectation'), e1), scalar(_sum(c.n, lambda i: elem('w', (i,)) * e1.at((i,)))))
    chi = c.arr('chi', (c.n, c.dx))
    f = c.native(lambda x: mkarr((x.shape[0], c.k), lambda i, j: mkfn('f', (Arr(x.shape[1:], x.vars[1:], subst(x.body, {x.vars[0].args[0]: ex(i)}), 'f', 'jnp', True).lam(),), (j,)), 'f', 'jnp', True), 'f')
    fx = c.it.call(f, [chi], {})
    c.equal('expectation from nodes', c.call(c.it.getattr(sg, 'expectation_from_nodes'), f, chi),
            mkarr((c.k,), lambda j: _sum(c.n, lambda i: elem('w', (i,)) * fx.at((i, j)))))


def _sum(n, f):
    v = fresh(ex(n))
    return mk_sum(v, ex(n), f(ex(v)))


@ob('C15', 'gaussian_expectation', Q + 'gaussian_expectation', [dict(T=None, _mul=3000), dict(T=2)], [dict(T=2)],
    cfgs=[dict(d=1, o=3, force=False), dict(d=1, o=4, force=True), dict(d=2, o=2, force=False), dict(d=1, o=None, force=True)])
def _(c):
    d, o, fo = c.cfg['d'], c.cfg['o'], c.cfg['force']
    sh = (c.T,) if fo else (c.T, d)
    sh2 = (c.T,) if fo else (c.T, d, d)
    ms, Ls = c.arr('ms', sh), c.arr('Ls', sh2)
    n = o or 10
    # vectorised function over the rows of (n, d)
    f = c.native(lambda x: mkarr(x.shape[:-1], lambda *i: mkfn('f', tuple(x.at(tuple(i) + (ex(k),)) for k in range(d)), ()), 'f', 'jnp', True), 'f')
    kw = {} if o is None else dict(order=I(o))
    if d != 1:
        kw['d'] = I(d)
    if fo:
        kw['force_shape'] = True
    r = c.call(c.repo(Q + 'gaussian_expectation'), ms, Ls, f, **kw)
    sg = c.call(c.it.getattr(c.repo(S), 'gauss_hermite'), d=I(d), order=I(n))
    w, xi = ops.to_arr(field(c, sg, 'w')), ops.to_arr(field(c, sg, 'xi'))

    def val(t):
        tot = ZERO
        for i in range(n ** d):
            p = []
            for j in range(d):
                q = ms.at((t,) if fo else (t, ex(j)))
                for k in range(d):
                    q = q + Ls.at((t,) if fo else (t, ex(j), ex(k))) * xi.at((ex(i), ex(k)))
                p.append(q)
            tot = tot + w.at((ex(i),)) * mkfn('f', tuple(p), ())
        return tot
    c.equal('value', r, mkarr((c.T,), val, 'f', 'jnp', True))


# ---------------------------------------------------------------- C20
def symm(c, n, name='a', shift=0.):
    def gen(ev):
        a = np.array([[2 * h01(ev.seed, name, i, j) - 1 for j in range(n)] for i in range(n)])
        s = (a + a.T) / 2
        if c.cfg.get('pd'):
            s = a @ a.T + 0.3 * np.eye(n)
        return s * ev.mag(name)
    return c.arr(name, (n, n), gen, sym=True)


@ob('C20', 'LDL', U + 'ldl', [{'_': 0, '_mul': 20}], cfgs=[dict(n=n, pd=p) for n in (1, 2, 3, 4, 5) for p in (0, 1)])
def _(c):
    a = symm(c, c.cfg['n'])
    l, d = c.call(c.repo(U + 'ldl'), a)
    c.equal('factors', (l, d), c.call(c.spec('utilities.ldl_ref'), a))
    c.equal('product', c.call(c.spec('utilities.lower_product'), l, d), a)


@ob('C20', 'modified Cholesky', U + 'ldl_chol', [{'_': 0, '_mul': 20}], cfgs=[dict(n=n, pd=p, eps=e) for n in (1, 2, 3, 4) for p in (0, 1) for e in (0, 1)])
def _(c):
    a = symm(c, c.cfg['n'])
    e = [c.scalar('eps', positive=True)] if c.cfg['eps'] else []
    c.equal('factor', c.call(c.repo(U + 'ldl_chol'), a, *e), c.call(c.spec('utilities.modified_cholesky'), a, *(e or [None])))


@ob('C20', 'Lanczos', U + 'lanczos', [{'_': 0, '_mul': 20}], cfgs=[dict(n=n, m=m) for n, m in ((3, 2), (4, 3), (5, 4), (2, 2), (4, 4))])
def _(c):
    n, m = c.cfg['n'], c.cfg['m']
    a, v = symm(c, n), c.arr('v', (n,))
    c.equal('recurrence', c.call(c.repo(U + 'lanczos'), a, v, I(m)), c.call(c.spec('utilities.lanczos'), a, v, I(m)))


@ob('C20', 'Lanczos Ritz', U + 'lanczos_ritz', [{'_': 0, '_mul': 20}], cfgs=[dict(n=n, m=m, kw=k) for n, m in ((3, 2), (4, 3)) for k in ('default', 'sort', 'nosort')])
def _(c):
    n, m = c.cfg['n'], c.cfg['m']
    a, v = symm(c, n), c.arr('v', (n,))
    kw = {'default': {}, 'sort': dict(sort_eigenvalues=True), 'nosort': dict(sort_eigenvalues=False)}[c.cfg['kw']]
    c.equal('pairs', c.call(c.repo(U + 'lanczos_ritz'), a, v, I(m), **kw), c.call(c.spec('utilities.ritz'), a, v, I(m), None))
    c.raises('tridiagonal solver', 'NotImplementedError', c.repo(U + 'lanczos_ritz'), a, v, I(m), True)


# ---------------------------------------------------------------- C21
def mixw(c, k):
    def gen(ev):
        w = np.array([0.2 + h01(ev.seed, 'mixw', i) for i in range(k)])
        return w / w.sum()
    return c.arr('weights', (k,), gen)


NAMES1 = ['means', 'variances', 'weights', 'mean', 'variance', 'rms', 'cms', 'scms']


@ob('C21', 'Gaussian sum 1D', U + 'GaussianSum1D', [dict(n=None, q=None, _mul=3000), dict(n=3, q=2)], [dict(n=3, q=2)], cfgs=[dict(k=k, N=N) for k in (1, 2, 3) for N in (None, 1, 2, 3, 4, 6)])
def _(c):
    k, N = c.cfg['k'], c.cfg['N']
    a = (c.arr('means', (k,)), c.arr('variances', (k,), positive=True), mixw(c, k))
    g = c.call(c.it.getattr(c.repo(U + 'GaussianSum1D'), 'new'), *a, **({} if N is None else dict(N=I(N))))
    s = c.call(c.spec('utilities.gs1'), *a, I(N or 2))
    for nm, v in zip(NAMES1, s):
        c.equal(nm, field(c, g, nm), v)
    xs = c.arr('xs', (c.n,))
    c.equal('pdf', c.call(c.it.getattr(g, 'pdf'), xs), c.call(c.spec('utilities.gs1_pdf'), *a, xs))
    if N in (None, 1):
        x0 = c.scalar('x0')
        one = mkarr((1,), lambda i: x0.body)
        c.equal('pdf of a scalar', c.call(c.it.getattr(g, 'pdf'), x0), c.call(c.spec('utilities.gs1_pdf'), *a, one))
        kk = key(c)
        c.equal('sampler', c.call(c.it.getattr(g, 'sampler'), kk, I(c.q)), c.call(c.spec('utilities.gs1_sample'), *a, kk, I(c.q)))


@ob('C21', 'Gaussian sum ND', U + 'GaussianSumND', [{'_': 0, '_mul': 3000}, {'_': 0}], cfgs=[dict(k=k, d=d, u=u) for k, d, u in ((1, 1, 3), (1, 2, 2), (2, 2, 3), (3, 2, 2), (2, 3, 2), (2, 1, 4))])
def _(c):
    k, d, u = c.cfg['k'], c.cfg['d'], c.cfg['u']
    means, covs, w = c.arr('means', (k, d)), pd(c, 'covs', ex(d), (k,)), mixw(c, k)
    t = grlex(d, u)
    g = c.call(c.it.getattr(c.repo(U + 'GaussianSumND'), 'new'), means, covs, w, const_arr(c, t))
    mean = mkarr((d,), lambda i: sum_list([w.at((ex(q),)) * means.at((ex(q), i)) for q in range(k)]), 'f', 'jnp', True)
    cov = mkarr((d, d), lambda i, j: sum_list([w.at((ex(q),)) * (covs.at((ex(q), i, j)) + (means.at((ex(q), i)) - mean.at((i,))) * (means.at((ex(q), j)) - mean.at((j,)))) for q in range(k)]), 'f', 'jnp', True)
    c.equal('d', ops.to_arr(field(c, g, 'd')), scalar(d))
    c.equal('means', field(c, g, 'means'), means)
    c.equal('covs', field(c, g, 'covs'), covs)
    c.equal('weights', field(c, g, 'weights'), w)
    c.equal('mean', field(c, g, 'mean'), mean)
    c.equal('cov', field(c, g, 'cov'), cov)

    def mom(al, cen):
        tot = ZERO
        for q in range(k):
            mu = mkarr((d,), lambda i: means.at((ex(q), i)) - (cen.at((i,)) if cen is not None else ZERO))
            cv = mkarr((d, d), lambda i, j: covs.at((ex(q), i, j)))
            tot = tot + w.at((ex(q),)) * ops.to_arr(c.call(c.spec('normal.mvn'), mu, cv, idx(al))).body
        return tot
    for nm, cen in (('rms', None), ('cms', mean)):
        v = ops.to_arr(field(c, g, nm))
        if tuple(s.const() for s in v.shape) != (len(t),):
            c.fact(nm, False, 'shape %s' % (v.shape,))
            continue
        for q, al in enumerate(t):
            c.equal('%s %s' % (nm, al), scalar(v.at((ex(q),))), scalar(mom(al, cen)))
    x = c.arr('x', (d,))
    p = c.call(c.spec('utilities.gsn_pdf'), means, covs, w, x)
    c.equal('pdf', c.call(c.it.getattr(g, 'pdf'), x), p)
    c.equal('logpdf', c.call(c.it.getattr(g, 'logpdf'), x), scalar(log_(ops.to_arr(p).body)))
    if k == 2:
        kk = key(c)
        c.equal('sampler', c.call(c.it.getattr(g, 'sampler'), kk, I(3)), c.call(c.spec('utilities.gsn_sample'), means, covs, w, kk, I(3)))


# ---------------------------------------------------------------- C22
@ob('C22', 'simulate_sde', U + 'simulate_sde', [dict(d=None, T=None, k=None), dict(d=2, T=2, k=2)], [dict(d=2, T=2, k=3), dict(d=1, T=3, k=1)],
    cfgs=[dict(kw=k, x0=x) for k in ('default', 'full', 'diag') for x in ('vector', 'scalar')])
def _(c):
    d = c.d if c.cfg['x0'] == 'vector' else ex(1)
    x0 = c.arr('x0', (d,) if c.cfg['x0'] == 'vector' else ())
    dt, kk = c.scalar('dt', positive=True), key(c)
    dg = c.cfg['kw'] == 'diag'
    full = fn_mc(c, 'trans', d)

    def mc(x, h):
        m, P = c.it.call(full, [x, h], {})
        if dg:
            P = mkarr(P.shape, lambda i, j: ind_eq(i - j) * P.at((i, j)), 'f', 'jnp', True)
        return m, P
    f = c.native(mc, 'm_and_cov')
    kw = {} if c.cfg['kw'] == 'default' else dict(diagonal_cov=dg, integration_steps=I(c.k))
    n = I(1) if c.cfg['kw'] == 'default' else I(c.k)
    r = c.call(c.repo(U + 'simulate_sde'), f, x0, dt, I(c.T), kk, **kw)
    xv = x0 if x0.shape else mkarr((1,), lambda i: x0.body, 'f', 'jnp', True)
    c.equal('trajectory', r, c.call(c.spec('utilities.simulate'), f, xv, dt, I(c.T), kk, dg, n))


@ob('C22', 'vmap_list_of_funcs', U + 'vmap_list_of_funcs', [dict(d=None), dict(d=2)], [dict(d=2)], cfgs=[dict(k=k, s=s) for k in (1, 2, 3, 5, 13) for s in ('scalar', 'vector')])
def _(c):
    sh = (c.d,) if c.cfg['s'] == 'vector' else ()
    fs = [c.native(lambda x, j=j: mkarr(sh, lambda *i: mkfn('f%d' % j, (L(x),), tuple(i)), 'f', 'jnp', True), 'f%d' % j) for j in range(c.cfg['k'])]
    x = c.arr('x', sh)
    r = ops.to_arr(c.call(c.call(c.repo(U + 'vmap_list_of_funcs'), fs), x))
    for j, f in enumerate(fs):
        e = c.it.call(f, [x], {})
        c.equal('value %d' % j, ops.getitem(r, I(j)), e)
    c.equal('count', scalar(r.shape[0]), scalar(len(fs)))


@ob('C22', 'posterior Cramer-Rao', U + 'posterior_cramer_rao', [dict(T=None, n=None, d=None, dy=None), dict(d=2, T=2, n=2, dy=1, _mul=20), dict(d=1, T=2, n=2, dy=1)],
    [dict(d=2, T=2, n=2, dy=1), dict(d=1, T=3, n=3, dy=2)], limit=100)
def _(c):
    def sf(name):
        return c.native(lambda a, b: scalar(mkfn(name, (a.lam(), b.lam()), ()), 'f', 'jnp', True), name)
    xs, ys, j0 = c.arr('xs', (c.T + 1, c.n, c.d)), c.arr('ys', (c.T, c.n, c.dy)), pd(c, 'j0', c.d)
    lt, ll = sf('logtrans'), sf('loglik')
    c.equal('information', c.call(c.repo(U + 'posterior_cramer_rao'), xs, ys, j0, lt, ll), c.call(c.spec('utilities.pcrb'), xs, ys, j0, lt, ll))


@ob('C22', 'gamma functions', U + 'gamma ' + U + 'factorial ' + U + 'binom', [{'_': 0}])
def _(c):
    x, k = c.scalar('x', positive=True), c.scalar('k', positive=True)
    c.gens['x'] = lambda ev: np.asarray(3 + h01(ev.seed, 'x'))
    c.gens['k'] = lambda ev: np.asarray(1 + h01(ev.seed, 'k'))
    G = lambda v: exp_(unary('lgamma', v))
    c.equal('gamma', c.call(c.repo(U + 'gamma'), x), scalar(G(x.body)))
    c.equal('factorial', c.call(c.repo(U + 'factorial'), x), scalar(G(x.body + 1)))
    c.equal('binom', c.call(c.repo(U + 'binom'), x, k), scalar(G(x.body + 1) / (G(k.body + 1) * G(x.body - k.body + 1))))


# ---------------------------------------------------------------- C18
def bf_setup(c):
    drift, disp = vec_fn(c, 'drift'), vec_fn(c, 'disp')
    c.interps['lik'] = lambda ev, a, o, d: 0.6 + 0.4 * smooth('lik', ev.seed, *(list(np.ravel(a[0])) + [a[1]]))

    def lik(y, x):
        return mkarr(x.shape, lambda *i: mkfn('lik', (L(y), x.at(i)), ()), 'f', 'jnp', True)

    def gx(ev):
        n = int(round(ev.E(ex(c.n), {})))
        return -1.0 + 0.5 * np.arange(n)
    xs = c.arr('xs', (c.n,), gx)
    c.interps['disp'] = None
    del c.interps['disp']
    dsp = smooth_fn(c, 'disp')
    base = c.interps['disp']
    c.interps['disp'] = lambda ev, a, o, ders: base(ev, a, o, ders) + (3.5 if not ders else 0)
    p0 = c.arr('p0', (c.n,), positive=True)
    ys = c.arr('ys', (c.T,) if c.cfg['y'] == 'scalar' else (c.T, 2))
    return drift, disp, c.native(lik, 'lik'), p0, xs, ys, c.scalar('dt', positive=True)


BC = [dict(m=m, k=k, y=y) for m in ('chapman-euler', 'chapman-tme-2', 'chapman-tme-3', 'kolmogorov', None) for k, y in ((None, 'scalar'), (1, 'vector'), (2, 'scalar'), (3, 'scalar'))]


@ob('C18 C25 C26', 'brute-force filter', B, [dict(n=5, T=2, _mul=20), dict(n=4, T=1, _mul=20)], cfgs=BC, limit=120)
def _(c):
    f, g, lik, p0, xs, ys, dt = bf_setup(c)
    m, k = c.cfg['m'], c.cfg['k']
    kw = {}
    if k is not None:
        kw['integration_steps'] = I(k)
    if m is not None:
        kw['pred_method'] = m
    r = c.call(c.repo(B), f, g, lik, p0, xs, ys, dt, **kw)
    m, k = m or 'chapman-tme-2', k or 1
    h = dt.body / k
    H = scalar(h, 'f', 'jnp', True)
    if m == 'kolmogorov':
        pred = c.call(c.spec('utilities.bf_kolmogorov'), f, g, xs, I(k), H)
    else:
        if m == 'chapman-euler':
            def ms(x):
                a, b = c.it.call(f, [x], {}), c.it.call(g, [x], {})
                return (mkarr(x.shape, lambda i: x.at((i,)) + h * a.at((i,)), 'f', 'jnp', True),
                        mkarr(x.shape, lambda i: b.at((i,)) * pow_(h, ex(Fraction(1, 2))), 'f', 'jnp', True))
        else:
            o = int(m[-1])
            ref = c.spec('sde1d.tme_mean_sd')

            def ms(x):
                return c.it.call(ref, [f, g, H, I(o), x], {})
        pred = c.call(c.spec('utilities.bf_chapman'), c.native(ms, 'ms'), xs, I(k))
    c.equal('densities', r, c.call(c.spec('utilities.bf'), pred, lik, p0, xs, ys))


@ob('C18', 'brute-force unknown method', B, [dict(n=4, T=2)], cfgs=[dict(y='scalar', m='fokker')])
def _(c):
    f, g, lik, p0, xs, ys, dt = bf_setup(c)
    c.raises('rejected', 'NotImplementedError', c.repo(B), f, g, lik, p0, xs, ys, dt, pred_method=c.cfg['m'])


# ---------------------------------------------------------------- C22: linear SDE
@ob('C22', 'discretise LTI SDE', U + 'discretise_lti_sde', [{'_': 0, '_mul': 20}], cfgs=[dict(d=d, w=w) for d in (1, 2, 3) for w in (1, 2, 3)] + [dict(d=d, w=1, drift='integrator') for d in (1, 2, 3)])
def _(c):
    d, w = c.cfg['d'], c.cfg['w']

    def gen(name, sh):
        return lambda ev: (2 * np.array([h01(ev.seed, name, i) for i in range(sh[0] * sh[1])]).reshape(sh) - 1) * ev.mag(name, 0.5)
    A, Bm = c.arr('A', (d, d), gen('A', (d, d))), c.arr('B', (d, w), gen('B', (d, w)))
    if c.cfg.get('drift'):
        A = const_arr(c, np.diag(np.ones(d - 1), 1), 'jax.numpy.array')
        Bm = const_arr(c, np.eye(d)[:, -1:], 'jax.numpy.array')
    dt = c.scalar('dt', positive=True)
    c.equal('transition and covariance', c.call(c.repo(U + 'discretise_lti_sde'), A, Bm, dt), c.call(c.spec('utilities.lti'), A, Bm, dt))
