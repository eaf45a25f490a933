"""C16, C03, C26: particle filters and resampling"""
from .common import *
from .ob_index import I

P = 'mfs.classical_filters_smoothers.smc.'
R = 'mfs.classical_filters_smoothers.resampling.'


def key(c, name='key'):
    return c.arr(name, (2,), dt='key') if False else input_array(name, (ex(2),))


def pshape(c):
    return (c.n, c.d) if c.cfg['x'] == 'vector' else (c.n,)


def L(a):
    return a.body if not a.shape else a.lam()


def init_cb(c):
    def f(k, n):
        sh = (as_dim(n),) + pshape(c)[1:]
        return mkarr(sh, lambda *i: mkfn('init', (k.lam(),), tuple(i)), 'f', 'jnp', True)
    return c.native(f, 'init_sampler')


def as_dim(n):
    return n.body if isinstance(n, Arr) else ex(n)


def trans_cb(c, name):
    def f(x, *r):
        return mkarr(x.shape, lambda *i: mkfn(name, (L(x),) + tuple(L(q) for q in r), tuple(i)), 'f', 'jnp', True)
    return c.native(f, name)


def row(x, i):
    return x.at((i,)) if x.ndim == 1 else Arr(x.shape[1:], x.vars[1:], subst(x.body, {x.vars[0].args[0]: ex(i)}), 'f', 'jnp', True).lam()


def dens_cb(c, name, pos):
    """elementwise density; pos = positions of particle arguments, the others are whole"""
    c.interps[name] = lambda ev, a, o, d: ev.mag(name, 9) * (0.6 + 0.4 * smooth(name, ev.seed, *[v for q in a for v in np.ravel(q)]))

    def f(*a):
        n = a[pos[0]].shape[0]
        return mkarr((n,), lambda i: mkfn(name, tuple(row(q, i) if k in pos else L(q) for k, q in enumerate(a)), ()), 'f', 'jnp', True)
    return c.native(f, name)


def resamp_cb(c):
    def it(ev, a, o, d):
        n = int(round(ev.E(ex(c.n), {})))
        u = h01(ev.seed, 'rs', o, *['%.9g' % v for q in a for v in np.ravel(q)])
        return int(u * n)
    c.interps['resamp'] = it

    def f(w, k):
        return mkarr((c.n,), lambda i: mkfn('resamp', (w.lam(), k.lam()), (i,), isint=True), 'i', 'jnp', True)
    return c.native(f, 'resampling')


def pick_cb(c, rs):
    from mfsa import ops
    return NativeFn(lambda it, a, k: ops.getitem(ops.to_arr(a[0]), it.call(rs, [a[1], a[2]], {})), 'pick')


def ys_of(c):
    return c.arr('ys', (c.T,) if c.cfg['y'] == 'scalar' else (c.T, c.dy))


SZ = [dict(n=None, d=None, T=None, dy=None), dict(n=3, d=2, T=2, dy=2, _mul=20)]
IN = [dict(n=4, d=2, T=2, dy=2), dict(n=3, d=1, T=3, dy=3)]
CF = [dict(x=x, y=y) for x in ('scalar', 'vector') for y in ('scalar', 'vector')]


@ob('C16 C03 C25 C26', 'bootstrap filter', P + 'bootstrap_filter', SZ, IN, cfgs=[dict(q, kw=k) for q in CF for k in ('default', 'false')])
def _(c):
    rs = resamp_cb(c)
    tr, li, ini, ys, k = trans_cb(c, 'trans'), dens_cb(c, 'lik', (1,)), init_cb(c), ys_of(c), key(c)
    kw = {} if c.cfg['kw'] == 'default' else dict(conti_resampling=False)
    r = c.call(c.repo(P + 'bootstrap_filter'), tr, li, ys, ini, k, I(c.n), rs, **kw)
    s = c.call(c.spec('smc.bootstrap'), tr, li, ys, ini, k, I(c.n), pick_cb(c, rs))
    c.split3('bootstrap', r, s)


@ob('C16 C03 C25 C26', 'bootstrap filter continuous', P + 'bootstrap_filter', SZ, IN, cfgs=[dict(x='scalar', y=y) for y in ('scalar', 'vector')])
def _(c):
    rs = resamp_cb(c)
    tr, li, ini, ys, k = trans_cb(c, 'trans'), dens_cb(c, 'lik', (1,)), init_cb(c), ys_of(c), key(c)
    r = c.call(c.repo(P + 'bootstrap_filter'), tr, li, ys, ini, k, I(c.n), rs, conti_resampling=True)
    pick = NativeFn(lambda it, a, kw: it.call(c.spec('smc.continuous'), [a[0], a[1], I(c.n), a[2]], {}), 'pick')
    s = c.call(c.spec('smc.bootstrap'), tr, li, ys, ini, k, I(c.n), pick)
    c.split3('bootstrap', r, s)


@ob('C16 C25 C26', 'particle filter', P + 'particle_filter', SZ, IN, cfgs=CF)
def _(c):
    rs = resamp_cb(c)
    a = (trans_cb(c, 'prop'), dens_cb(c, 'propd', (0, 1)), dens_cb(c, 'transd', (0, 1)), dens_cb(c, 'lik', (1,)), ys_of(c), init_cb(c), key(c), I(c.n))
    c.equal('particles', c.call(c.repo(P + 'particle_filter'), *a, rs), c.call(c.spec('smc.particle'), *a, pick_cb(c, rs)))


def wts(c):
    def gen(ev):
        n = int(round(ev.E(ex(c.n), {})))
        w = np.array([h01(ev.seed, 'wts', i) ** 3 for i in range(n)])
        # rounding can leave the total short of (or beyond) one: exaggerated here so that the points beyond the total are exercised
        return w / w.sum() * {None: 1.0, 'short': 0.6, 'long': 1.3}[c.cfg.get('total')]
    return c.arr('wts', (c.n,), gen)


@ob('C16', 'resampling', R + 'systematic', [dict(n=None), dict(n=4), dict(n=7, _also=1), dict(n=1, _also=1)], [dict(n=5), dict(n=1), dict(n=8), dict(n=13)],
    cfgs=[dict(f=f, total=t) for f in ('systematic', 'stratified', 'multinomial') for t in (None, 'short', 'long')])
def _(c):
    w, k = wts(c), key(c)
    r = c.call(c.repo(R + c.cfg['f']), w, k)
    c.equal('indices', r, c.call(c.spec('smc.' + c.cfg['f']), w, k))
    c.equal('valid indices', r, c.call(c.spec('smc.clip'), r, I(c.n)))


@ob('C16', 'continuous resampling', R + 'continuous_resampling', [dict(n=None, m=None), dict(n=5, m=4)], [dict(n=5, m=5), dict(n=6, m=3), dict(n=3, m=7)])
def _(c):
    w, k = wts(c), key(c)
    x = c.arr('x', (c.n,))
    c.equal('samples', c.call(c.repo(R + 'continuous_resampling'), x, w, I(c.m), k), c.call(c.spec('smc.continuous'), x, w, I(c.m), k))
