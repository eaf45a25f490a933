"""C09 (multivariate), C11: multidimensional closed-form moments and conditional-moment factories"""
from .common import *
from .ob_index import I, const_arr, grlex
from .ob_gauss import pd

M = 'mfs.multi_dims.moments.'


def idx(t):
    return [I(int(k)) for k in t]


def np_sym(c, name, d, host):
    """symmetric positive definite input held by numpy or jax"""
    a = pd(c, name, ex(d))
    return Arr(a.shape, a.vars, a.body, 'f', host, host == 'jnp')


KC = [dict(d=d, u=u, host=h) for d, u in ((1, 11), (2, 5), (3, 4), (4, 2)) for h in ('np', 'jnp')]


@ob('C09', 'multivariate normal raw moments (Kan)', M + 'raw_moments_mvn_kan', [{'_': 0, '_mul': 3000}, {'_': 0}], cfgs=KC)
def _(c):
    d, u, h = c.cfg['d'], c.cfg['u'], c.cfg['host']
    mean = c.arr('mean', (d,))
    mean = Arr(mean.shape, mean.vars, mean.body, 'f', h, h == 'jnp')
    cov = np_sym(c, 'cov', d, h)
    for t in grlex(d, u):
        for nm, mi in (('tuple', tuple(idx(t))), ('array', const_arr(c, t))):
            if nm == 'array' and sum(t) > 3:
                continue
            c.equal('%s %s' % (t, nm), c.call(c.repo(M + 'raw_moments_mvn_kan'), mean, cov, mi), c.call(c.spec('normal.mvn'), mean, cov, idx(t)))


@ob('C09', 'multivariate normal central moments (Kan)', M + 'central_moments_mvn_kan', [{'_': 0, '_mul': 3000}, {'_': 0}], cfgs=KC)
def _(c):
    d, u, h = c.cfg['d'], c.cfg['u'], c.cfg['host']
    cov = np_sym(c, 'cov', d, h)
    zero = c.it.call(LibFn('jax.numpy.zeros'), [I(d)], {})
    for t in grlex(d, u):
        for nm, mi in (('tuple', tuple(idx(t))), ('array', const_arr(c, t))):
            if nm == 'array' and sum(t) > 3:
                continue
            c.equal('%s %s' % (t, nm), c.call(c.repo(M + 'central_moments_mvn_kan'), cov, mi), c.call(c.spec('normal.mvn'), zero, cov, idx(t)))


@ob('C09', 'multivariate normal raw moments (MGF)', M + 'raw_moments_mvn_mgf', [{'_': 0, '_mul': 3000}, {'_': 0}], cfgs=[dict(d=1, u=7), dict(d=2, u=4), dict(d=3, u=3)])
def _(c):
    d, u = c.cfg['d'], c.cfg['u']
    mean, cov = c.arr('mean', (d,)), pd(c, 'cov', ex(d))
    for t in grlex(d, u):
        c.equal('%s' % (t,), c.call(c.repo(M + 'raw_moments_mvn_mgf'), mean, cov, tuple(idx(t))), c.call(c.spec('normal.mvn'), mean, cov, idx(t)))


SHIFT = (0., 1.9, -1.6)


@ob('C09', 'uniform moments', M + 'moments_nd_uniform', [{'_': 0, '_mul': 3000}, {'_': 0}], cfgs=[dict(d=d, u=u, means=m) for d, u in ((1, 12), (2, 5), (3, 3), (4, 2)) for m in (False, True)])
def _(c):
    d, u = c.cfg['d'], c.cfg['u']
    bounds = [(c.scalar('lo%d' % k), c.scalar('hi%d' % k)) for k in range(d)]
    for k in range(d):
        # intervals around zero, on its right and on its left
        c.gens['lo%d' % k] = lambda ev, k=k: np.asarray(-0.5 - h01(ev.seed, 'lo', k) + SHIFT[(ev.seed + k) % 3])
        c.gens['hi%d' % k] = lambda ev, k=k: np.asarray(0.3 + h01(ev.seed, 'hi', k) + SHIFT[(ev.seed + k) % 3])
    ms = [c.scalar('c%d' % k) for k in range(d)]
    for t in grlex(d, u):
        a = [bounds, tuple(idx(t))] + ([ms] if c.cfg['means'] else [])
        c.equal('%s' % (t,), c.call(c.repo(M + 'moments_nd_uniform'), *a),
                c.call(c.spec('normal.uniform'), bounds, idx(t), ms if c.cfg['means'] else [scalar(0)] * d))


# ---------------------------------------------------------------- C11
def vfn(c, name, *shape):
    def f(x):
        if x.ndim != 1:
            raise PyRaise('TypeError')
        return mkarr(shape, lambda *i: mkfn(name, (x.lam(),), tuple(ex(q) for q in i)), 'f', 'jnp', True)
    return c.native(f, name)


def five(c, fac, ref, second):
    d = c.cfg['d']
    xs, ce, sc = c.arr('xs', (2, d)), c.arr('ce', (d,)), c.arr('sc', (d,), positive=True)
    if not isinstance(fac, tuple) or len(fac) != 5:
        c.fact('five functions', False, 'returns %s' % type(fac).__name__)
        return
    c.equal('raw moments', c.call(fac[0], xs, second), c.call(ref[0], xs, second))
    c.equal('central moments', c.call(fac[1], xs, second, ce), c.call(ref[1], xs, second, ce))
    c.equal('scaled central moments', c.call(fac[2], xs, second, ce, sc), c.call(ref[2], xs, second, ce, sc))
    c.equal('mean', c.call(fac[3], xs), c.call(ref[3], xs))
    c.equal('mean and variance', c.call(fac[4], xs), c.call(ref[4], xs))


FC = [dict(d=1, dw=1, u=4), dict(d=2, dw=2, u=3), dict(d=2, dw=1, u=2), dict(d=2, dw=3, u=2), dict(d=3, dw=2, u=2)]
SZ = [{'_': 0, '_mul': 400}, {'_': 0, '_mul': 20}]


def setup(c):
    d = c.cfg['d']
    f, g, dt = vfn(c, 'drift', d), vfn(c, 'disp', d, c.cfg['dw']), c.scalar('dt', positive=True)
    t = grlex(d, c.cfg['u'])
    pos = list(range(len(t)))
    if c.cfg.get('perm'):
        pos = pos[::-2]
    return f, g, dt, const_arr(c, t), [idx(q) for q in t], const_arr(c, pos, 'jax.numpy.array'), t


@ob('C11 C25', 'Euler-Maruyama moments', M + 'sde_cond_moments_euler_maruyama', SZ, cfgs=FC + [dict(d=2, dw=2, u=2, perm=1)])
def _(c):
    f, g, dt, mi, li, pos, t = setup(c)
    five(c, c.call(c.repo(M + 'sde_cond_moments_euler_maruyama'), f, g, dt, mi), c.call(c.spec('normal.euler'), f, g, dt, li), pos)


@ob('C11 C25', 'TME-normal moments', M + 'sde_cond_moments_tme_normal', SZ, cfgs=[dict(q, o=o) for q in FC[:4] + [dict(d=2, dw=2, u=2, perm=1)] for o in (2, 3)])
def _(c):
    f, g, dt, mi, li, pos, t = setup(c)
    o = c.cfg['o']
    five(c, c.call(c.repo(M + 'sde_cond_moments_tme_normal'), f, g, dt, I(o), mi), c.call(c.spec('normal.tme_normal'), f, g, dt, I(o), li), pos)


@ob('C11 C25', 'TME moments', M + 'sde_cond_moments_tme', SZ, cfgs=[dict(q, o=o) for q in FC + [dict(d=2, dw=2, u=2, perm=1)] for o in (2, 3)])
def _(c):
    f, g, dt, mi, li, pos, t = setup(c)
    o = c.cfg['o']
    jmi = const_arr(c, t, 'jax.numpy.array')
    five(c, c.call(c.repo(M + 'sde_cond_moments_tme'), f, g, dt, I(o)), c.call(c.spec('normal.tme_law'), f, g, dt, I(o)), jmi)
