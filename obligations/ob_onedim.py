"""C04, C08, C09, C10, C19: one-dimensional quadrature, moments, densities"""
from .common import *
from .ob_index import I, const_arr

Q = 'mfs.one_dim.quadtures.'
M = 'mfs.one_dim.moments.'
P = 'mfs.one_dim.pdf_approximations.'
U = 'mfs.utils.'
TF = [dict(ldl=a, sort=b) for a in (False, True) for b in (False, True)]


@ob('C04', 'moment_quadrature', Q + 'moment_quadrature', [dict(n=None), dict(n=3)], [dict(n=2), dict(n=3), dict(n=1)], cfgs=TF)
def _(c):
    ms, mean, scale = c.raw_moments('ms', c.n * 2), c.scalar('mean'), c.scalar('scale', positive=True)
    f = c.repo(Q + 'moment_quadrature')
    l, s = c.cfg['ldl'], c.cfg['sort']
    c.equal('rule', c.call(f, ms, mean, scale, sort_nodes=s, ldl=l), c.call(c.spec('onedim.quadrature'), ms, mean, scale, l))
    c.equal('default mean and scale', c.call(f, ms, sort_nodes=s, ldl=l), c.call(c.spec('onedim.quadrature'), ms, scalar(0), scalar(1), l))
    if not s:
        c.equal('default sorting', c.call(f, ms, mean, ldl=l), c.call(c.spec('onedim.quadrature'), ms, mean, scalar(1), l))


@ob('C04', 'moment_quadrature, odd number of moments', Q + 'moment_quadrature', [dict(n=None), dict(n=3)], [dict(n=2), dict(n=3)])
def _(c):
    ms, mean, scale = c.raw_moments('ms', c.n * 2 + 1), c.scalar('mean'), c.scalar('scale', positive=True)
    c.equal('rule', c.call(c.repo(Q + 'moment_quadrature'), ms, mean, scale), c.call(c.spec('onedim.quadrature'), ms, mean, scale, False))


@ob('C04', 'three-term recurrence rule', Q + '_gauss_quadrature_golub_welsch', [dict(n=5), dict(n=4), dict(n=3), dict(n=2)], cfgs=[dict(sort=False), dict(sort=True)])
def _(c):
    ms, mean, scale = c.raw_moments('ms', c.n * 2), c.scalar('mean'), c.scalar('scale', positive=True)
    c.equal('rule', c.call(c.repo(Q + '_gauss_quadrature_golub_welsch'), ms, mean, scale, c.cfg['sort']), c.call(c.spec('moments1d.golub_welsch'), ms, mean, scale))


def smooth_fn(c, name, nargs=1):
    """smooth scalar function of nargs scalars, with derivatives in the interpretation"""
    ks = None

    def interp(ev, a, o, ders):
        # f(x, ...) = sum_j A_j sin(w_j x + ...); derivative multi-index ders = positions differentiated
        tot = 0.
        for j in range(3):
            A = 0.5 + h01(ev.seed, name, 'A', j)
            ph = 6 * h01(ev.seed, name, 'ph', j)
            cf = []
            for k, v in enumerate(a):
                w = 0.4 + h01(ev.seed, name, 'w', j, k)
                cf.append(w)
                ph = ph + w * v
            q = 0
            for dpos in ders:
                A = A * cf[dpos[0] if isinstance(dpos, tuple) else dpos]
                q += 1
            tot = tot + A * np.sin(ph + q * np.pi / 2)
        return tot
    c.interps[name] = interp
    return c.native(lambda *x: scalar(mkfn(name, tuple(z.body for z in x)), 'f', 'jnp', True), name)


@ob('C04', 'taylor_quadrature', Q + 'taylor_quadrature', [dict(k=None), dict(k=3)], [dict(k=3)], cfgs=[dict(order=o, nop=q) for o in (0, 1, 2, 3, 4, 6) for q in (0, 2)])
def _(c):
    r, q = c.cfg['order'], c.cfg['nop']
    f = smooth_fn(c, 'f', 1 + q)
    cms, mean = c.arr('cms', (ex(r + 1) + c.k,)), c.scalar('mean')
    opr = [c.scalar('op%d' % j) for j in range(q)]
    impl = c.call(c.repo(Q + 'taylor_quadrature'), f, cms, mean, I(r), *opr)
    g = f
    tot = c.it.call(g, [mean] + opr, {})
    for j in range(1, r + 1):
        g = c.it.call(LibFn('jax.grad'), [g], {})
        t = ops.to_arr(c.it.call(g, [mean] + opr, {}))
        tot = scalar(ops.to_arr(tot).body + t.body * cms.at((ex(j),)) / ex(math.factorial(j)))
    c.equal('sum of derivatives times central moments over factorials', impl, tot)


@ob('C04', 'make_derivatives', Q + 'make_derivatives', [{'_': 0}], cfgs=[dict(order=o) for o in (0, 2, 3)])
def _(c):
    f = smooth_fn(c, 'f', 2)
    x, y = c.scalar('x'), c.scalar('y')
    for arg in (0, 1):
        L = c.call(c.repo(Q + 'make_derivatives'), f, I(c.cfg['order']), I(arg))
        c.fact('number of derivatives', len(L) == c.cfg['order'] + 1, 'list of length %d' % len(L))
        g = f
        for j, h in enumerate(L):
            c.equal('derivative %d' % j, c.call(h, x, y), c.it.call(g, [x, y], {}))
            g = c.it.call(LibFn('jax.grad'), [g], {'argnums': I(arg)})


@ob('C04 C19', 'characteristic_fn', M + 'characteristic_fn', [dict(n=None), dict(n=3)], [dict(n=2), dict(n=3)])
def _(c):
    ms, mean, scale, z = c.raw_moments('ms', c.n * 2), c.scalar('mean'), c.scalar('scale', positive=True), c.scalar('z')
    c.equal('E exp(i z X)', c.call(c.repo(M + 'characteristic_fn'), z, ms, mean, scale), c.call(c.spec('moments1d.characteristic_fn'), z, ms, mean, scale))


# ---------------------------------------------------------------- C08
SS = [dict(s=(2,)), dict(s=5), dict(s=3)]
SI = [dict(s=2), dict(s=3), dict(s=6)]


@ob('C08', 'raw_to_central', M + 'raw_to_central', SS, SI)
def _(c):
    rms = c.arr('rms', (c.s,))
    c.equal('binomial identity', c.call(c.repo(M + 'raw_to_central'), rms), c.call(c.spec('moments1d.raw_to_central'), rms))


@ob('C08', 'central_to_raw', M + 'central_to_raw', SS, SI)
def _(c):
    cms, mean = c.arr('cms', (c.s,)), c.scalar('mean')
    c.equal('binomial identity', c.call(c.repo(M + 'central_to_raw'), cms, mean), c.call(c.spec('moments1d.central_to_raw'), cms, mean))


@ob('C08', 'raw_to_scaled', M + 'raw_to_scaled', [dict(s=(3,)), dict(s=5)], [dict(s=3), dict(s=6)])
def _(c):
    rms, scale = c.raw_moments('rms', c.s), c.scalar('scale', positive=True)
    f = c.repo(M + 'raw_to_scaled')
    c.equal('given scale', c.call(f, rms, scale), c.call(c.spec('moments1d.raw_to_scaled'), rms, scale))
    sd = scalar((rms.at((ex(2),)) - rms.at((ex(1),)) ** 2) ** ex(Fraction(1, 2)), "f", "jnp", True)
    c.equal('standard deviation', c.call(f, rms), c.call(c.spec('moments1d.raw_to_scaled'), rms, sd))


@ob('C08', 'scaled_to_central', M + 'scaled_to_central', SS, SI)
def _(c):
    sms, scale = c.arr('sms', (c.s,)), c.scalar('scale', positive=True)
    c.equal('scaling', c.call(c.repo(M + 'scaled_to_central'), sms, scale), c.call(c.spec('moments1d.scaled_to_central'), sms, scale))


@ob('C08', 'round trip central', M + 'raw_to_central ' + M + 'central_to_raw', [dict(s=5), dict(s=3)])
def _(c):
    rms = c.arr('rms', (c.s,))
    c.gens['rms'] = lambda ev: np.array([1.] + [2 * h01(ev.seed, 'rms', k) - 1 for k in range(1, int(c.s.const()))])
    rms = ops.to_arr(c.it.call(LibFn('jax.numpy.concatenate'), [[c.it.call(LibFn('jax.numpy.ones'), [I(1)], {}), c.arr('rms', (c.s - ONE,))]], {}))
    c.gens.pop('rms')
    mean = scalar(rms.at((ONE,)), 'f', 'jnp', True)
    c.equal('raw -> central -> raw', c.call(c.repo(M + 'central_to_raw'), c.call(c.repo(M + 'raw_to_central'), rms), mean), rms)


@ob('C08', 'cumulants', M + 'sms_to_cumulants', [dict(s=s) for s in (4,)], cfgs=[dict(s=s) for s in (2, 3, 4, 6, 8, 10)])
def _(c):
    s = c.cfg['s']
    mean, scale = c.scalar('mean'), c.scalar('scale', positive=True)
    one = c.it.call(LibFn('jax.numpy.array'), [[scalar(1), scalar(0)]], {})
    sms = ops.to_arr(c.it.call(LibFn('jax.numpy.concatenate'), [[one, c.arr('sms', (ex(s - 2),))]], {}))
    cms = c.call(c.spec('moments1d.scaled_to_central'), sms, scale)
    c.equal('cumulants', c.call(c.repo(M + 'sms_to_cumulants'), sms, mean, scale), c.call(c.spec('moments1d.cumulants'), cms, mean))
    z = scalar(0)
    c.equal('cumulants, zero mean', c.call(c.repo(M + 'sms_to_cumulants'), sms, z, scale), c.call(c.spec('moments1d.cumulants'), cms, z))


def bell_ref(n, k, xs):
    """partial Bell polynomial from its generating function: n! [t^n] (sum_j x_j t^j / j!)^k / k!"""
    poly = {0: ONE}
    for _ in range(k):
        new = {}
        for a, v in poly.items():
            for j in range(1, n - a + 1):
                new[a + j] = new.get(a + j, ZERO) + v * xs[j - 1] / ex(math.factorial(j))
        poly = new
    return poly.get(n, ZERO) * ex(math.factorial(n)) / ex(math.factorial(k))


@ob('C08 C19', 'partial Bell polynomials', U + 'partial_bell', [{'_': 0}], cfgs=[dict(n=n) for n in range(0, 10)])
def _(c):
    n = c.cfg['n']
    xs = c.arr('xs', (ex(max(n, 1)),))
    X_ = [xs.at((ex(j),)) for j in range(max(n, 1))]
    for k in range(0, n + 1):
        c.equal('B_%d,%d' % (n, k), c.call(c.repo(U + 'partial_bell'), I(n), I(k), xs), scalar(bell_ref(n, k, X_)))


@ob('C08 C19', 'complete Bell polynomials', U + 'complete_bell', [{'_': 0}], cfgs=[dict(n=n) for n in range(0, 10)])
def _(c):
    n = c.cfg['n']
    xs = c.arr('xs', (ex(max(n, 1)),))
    X_ = [xs.at((ex(j),)) for j in range(max(n, 1))]
    tot = ZERO
    for k in range(0, n + 1):
        tot = tot + bell_ref(n, k, X_)
    c.equal('B_%d' % n, c.call(c.repo(U + 'complete_bell'), I(n), xs), scalar(tot))


# ---------------------------------------------------------------- C09
@ob('C09', 'scalar normal moments', ' '.join(M + x for x in ('central_moment_of_normal', 'raw_moment_of_normal', 'raw_moment_of_standard_normal')), [{'_': 0}], cfgs=[dict(p=p) for p in range(0, 17)])
def _(c):
    p = c.cfg['p']
    mean, var = c.scalar('mean'), c.scalar('var', positive=True)
    c.equal('central', c.call(c.repo(M + 'central_moment_of_normal'), var, I(p)), c.call(c.spec('moments1d.normal_central'), var, I(p)))
    c.equal('raw', c.call(c.repo(M + 'raw_moment_of_normal'), mean, var, I(p)), c.call(c.spec('moments1d.normal_raw'), mean, var, I(p)))
    c.equal('standard', c.call(c.repo(M + 'raw_moment_of_standard_normal'), I(p)), c.call(c.spec('moments1d.normal_central'), scalar(1), I(p)))


# ---------------------------------------------------------------- C19
@ob('C19', 'Hermite polynomials', U + 'hermite_probabilist', [{'_': 0}], cfgs=[dict(n=n) for n in range(0, 13)])
def _(c):
    x = c.scalar('x')
    c.equal('He_n', c.call(c.repo(U + 'hermite_probabilist'), I(c.cfg['n']), x), c.call(c.spec('moments1d.hermite'), I(c.cfg['n']), x))


# ---------------------------------------------------------------- C10
def vec_fn(c, name, dim_=None):
    """elementwise smooth function accepting a scalar or a (1,) state (as tme calls it)"""
    smooth_fn(c, name)

    def f(x):
        return mkarr(x.shape, lambda *i: mkfn(name, (x.at(i),)), 'f', 'jnp', True)
    return c.native(f, name)


def five(c, fac, ref):
    xs, ce, sc = c.arr('xs', (c.k,)), c.scalar('c'), c.scalar('s', positive=True)
    K = 2 * c.cfg['N']
    ns = c.it.call(LibFn('jax.numpy.arange'), [I(K)], {})
    if c.cfg.get('sub'):
        ns = const_arr(c, [K - 1, 0, 2 % K], 'jax.numpy.array')
    e = ref(xs, ns, ce, sc)
    if len(fac) != 5:
        c.fact('five functions', False, '%d functions' % len(fac))
        return
    c.equal('raw moments', c.call(fac[0], xs, ns), e[0])
    c.equal('central moments', c.call(fac[1], xs, ns, ce), e[1])
    c.equal('scaled central moments', c.call(fac[2], xs, ns, ce, sc), e[2])
    c.equal('mean', c.call(fac[3], xs), e[3])
    c.equal('mean and variance', c.call(fac[4], xs), e[4])


NS = [dict(k=None), dict(k=2)]
NI = [dict(k=2)]
NC = [dict(N=N, sub=s) for N in (1, 2, 3) for s in (False, True)]


@ob('C10 C25', 'Euler-Maruyama moments', M + 'sde_cond_moments_euler', NS, NI, cfgs=NC)
def _(c):
    f, g, dt = vec_fn(c, 'drift'), vec_fn(c, 'disp'), c.scalar('dt', positive=True)
    N = c.cfg['N']
    fac = c.call(c.repo(M + 'sde_cond_moments_euler'), f, g, dt, I(N))
    five(c, fac, lambda xs, ns, ce, sc: c.call(c.spec('sde1d.euler'), f, g, dt, I(2 * N), xs, ns, ce, sc))


@ob('C10 C25', 'TME-normal moments', M + 'sde_cond_moments_tme_normal', NS, NI, cfgs=NC)
def _(c):
    f, g, dt = vec_fn(c, 'drift'), vec_fn(c, 'disp'), c.scalar('dt', positive=True)
    N = c.cfg['N']
    for o in (2, 3):
        fac = c.call(c.repo(M + 'sde_cond_moments_tme_normal'), f, g, dt, I(o), I(N))
        five(c, fac, lambda xs, ns, ce, sc: c.call(c.spec('sde1d.tme_normal'), f, g, dt, I(o), I(2 * N), xs, ns, ce, sc))


@ob('C10 C25', 'TME moments', M + 'sde_cond_moments_tme', NS, NI, cfgs=NC)
def _(c):
    f, g, dt = vec_fn(c, 'drift'), vec_fn(c, 'disp'), c.scalar('dt', positive=True)
    for o in (2, 3):
        fac = c.call(c.repo(M + 'sde_cond_moments_tme'), f, g, dt, I(o))
        five(c, fac, lambda xs, ns, ce, sc: c.call(c.spec('sde1d.tme_plain'), f, g, dt, I(o), xs, ns, ce, sc))


# ---------------------------------------------------------------- C19 (continued)
@ob('C19', 'Gram-Charlier', P + 'gram_charlier', [dict(k=None), dict(k=2)], [dict(k=2)], cfgs=[dict(K=K) for K in (2, 3, 4, 6, 8)])
def _(c):
    K = c.cfg['K']
    head = [c.scalar('mu'), c.scalar('var', positive=True)]
    kap = ops.to_arr(c.it.call(LibFn('jax.numpy.concatenate'), [[c.it.call(LibFn('jax.numpy.array'), [head], {}), c.arr('kap', (ex(K - 2),))]], {}))
    xs = c.arr('xs', (c.k,))
    X_ = [ZERO, ZERO] + [kap.at((ex(j),)) for j in range(2, K)]
    bells = []
    for j in range(K + 1):
        tot = ZERO
        for q in range(0, j + 1):
            tot = tot + bell_ref(j, q, X_[:j] + [ZERO])
        bells.append(scalar(tot))
    pdf = c.call(c.repo(P + 'gram_charlier'), kap)
    c.equal('density', c.call(pdf, xs), c.call(c.spec('pdfs.gram_charlier'), kap, bells, xs))


@ob('C19', 'Legendre expansion', P + 'legendre_poly_expansion', [dict(k=None), dict(k=2)], [dict(k=2)], cfgs=[dict(K=K) for K in (1, 2, 3, 5, 6, 8, 9)])
def _(c):
    rms, a, w, xs = c.arr('rms', (ex(c.cfg['K']),)), c.scalar('a', lambda ev: np.array(ev.mag('a') * (0.4 if ev.regime == 0 else -2.7 if ev.regime == 1 else 3.1))), c.scalar('w', positive=True), c.arr('xs', (c.k,))
    b = scalar(a.body + w.body, 'f', 'jnp', True)
    f = c.repo(P + 'legendre_poly_expansion')
    c.equal('density', c.call(c.call(f, rms, a, b), xs), c.call(c.spec('pdfs.legendre_expansion'), rms, a, b, xs))
    c.equal('default interval', c.call(c.call(f, rms), xs), c.call(c.spec('pdfs.legendre_expansion'), rms, scalar(-1), scalar(1), xs))


@ob('C19', 'truncated cumulant-generating function', P + 'truncated_cumulant_generating_function', [dict(s=None), dict(s=4)], [dict(s=3), dict(s=5)])
def _(c):
    z, ms, mean, scale = c.scalar('z'), c.raw_moments('ms', c.s), c.scalar('mean'), c.scalar('scale', positive=True)
    f = c.repo(P + 'truncated_cumulant_generating_function')
    c.equal('K(z)', c.call(f, z, ms, mean, scale), c.call(c.spec('pdfs.truncated_cgf'), z, ms, mean, scale))
    c.equal('K(z), raw', c.call(f, z, ms), c.call(c.spec('pdfs.truncated_cgf'), z, ms, scalar(0), scalar(1)))


@ob('C19', 'inverse Fourier', P + 'inverse_fourier', [dict(k=(2,)), dict(k=4)], [dict(k=3), dict(k=5)])
def _(c):
    x, zs, cfs = c.scalar('x'), c.arr('zs', (c.k,)), c.arr('cfs', (c.k,))
    c.equal('density', c.call(c.repo(P + 'inverse_fourier'), x, cfs, zs), c.call(c.spec('pdfs.inverse_fourier'), x, cfs, zs))


@ob('C19', 'characteristic function of a tabulated density', M + 'characteristic_from_pdf', [dict(k=(2,)), dict(k=4)], [dict(k=3), dict(k=5)])
def _(c):
    z, xs, ps = c.scalar('z'), c.arr('xs', (c.k,)), c.arr('ps', (c.k,))
    c.equal('E exp(i z X)', c.call(c.repo(M + 'characteristic_from_pdf'), z, ps, xs), c.call(c.spec('pdfs.characteristic_from_pdf'), z, ps, xs))


@ob('C19', 'saddle point', P + 'saddle_point', [dict(k=2), dict(k=1)], [dict(k=2)], cfgs=[dict(S=S) for S in (4, 5)])
def _(c):
    sms, mean, scale, xs = c.raw_moments('sms', c.cfg['S'], central=True, scaled=True), c.scalar('mean'), c.scalar('scale', positive=True), c.arr('xs', (c.k,))
    f = c.call(c.call(c.repo(P + 'saddle_point'), sms, mean, scale), xs)
    c.known('density', f, lambda: c.call(c.spec('pdfs.saddle'), sms, mean, scale, xs, 'roots'),
            lambda: c.call(c.spec('pdfs.saddle'), sms, mean, scale, xs, 'recorded'))
