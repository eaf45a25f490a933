from .common import *

Q = 'mfs.one_dim.filtering.'


def lik_cb(c, ydims):
    c.interps['lik'] = lambda ev, a, o, d: ev.mag('lik', 14) * 0.6 + ev.mag('lik', 14) * 0.4 * smooth('lik', ev.seed, *(list(np.ravel(a[0])) + [a[1]]))

    def f(y, x):
        if x.shape:
            raise PyRaise('TypeError')      # documented: scalar state
        return scalar(mkfn('lik', (y.body if not y.shape else y.lam(), x.body)), 'f', 'jnp', True)
    return c.native(f, 'measurement_cond_pdf')


def raw_cb(c):
    def interp(ev, a, o, d):
        ws, xs = cond_dist(ev, a[0])
        return float(ws @ xs ** int(round(a[1])))
    c.interps['condraw'] = interp
    return c.native(lambda x, n: mkarr(x.shape + n.shape, lambda *i: mkfn('condraw', (x.at(i[:x.ndim]), n.at(i[x.ndim:]))), 'f', 'jnp', True))


def cen_cb(c):
    def interp(ev, a, o, d):
        ws, xs = cond_dist(ev, a[0])
        return float(ws @ (xs - a[2]) ** int(round(a[1])))
    c.interps['condcen'] = interp

    def f(x, n, m):
        return mkarr(x.shape + n.shape, lambda *i: mkfn('condcen', (x.at(i[:x.ndim]), n.at(i[x.ndim:]), m.body)), 'f', 'jnp', True)
    return c.native(f)


def scen_cb(c):
    def interp(ev, a, o, d):
        ws, xs = cond_dist(ev, a[0])
        return float(ws @ ((xs - a[2]) / a[3]) ** int(round(a[1])))
    c.interps['condscen'] = interp

    def f(x, n, m, s):
        return mkarr(x.shape + n.shape, lambda *i: mkfn('condscen', (x.at(i[:x.ndim]), n.at(i[x.ndim:]), m.body, s.body)), 'f', 'jnp', True)
    return c.native(f)


def mean_i(ev, a, o, d):
    ws, xs = cond_dist(ev, a[0])
    return float(ws @ xs)


def var_i(ev, a, o, d):
    ws, xs = cond_dist(ev, a[0])
    return abs(float(ws @ xs ** 2 - (ws @ xs) ** 2))


def ew_cb(c, name):
    return c.native(lambda x: mkarr(x.shape, lambda *i: mkfn(name, (x.at(i),)), 'f', 'jnp', True))


def ys_of(c):
    return c.arr('ys', (c.T,) if c.cfg['y'] == 'scalar' else (c.T, c.dy))


SIZES = [dict(n=None, T=None, dy=None), dict(n=2, T=2, dy=2)]
INST = [dict(n=2, T=3, dy=2), dict(n=3, T=2, dy=3), dict(n=1, T=2, dy=2)]
CFG = [dict(stable=s, y=y) for s in (False, True) for y in ('scalar', 'vector')]


@ob('C01 C03 C25 C26', 'rms filter', Q + 'moment_filter_rms', SIZES, INST, cfgs=CFG)
def _(c):
    args = [raw_cb(c), lik_cb(c, 0), c.raw_moments('rms0', c.n * 2), ys_of(c)]
    st = c.cfg['stable']
    c.split3('rms filter', c.call(c.repo(Q + 'moment_filter_rms'), *args, stable=st), c.call(c.spec('onedim.filter_rms'), *args, st))


@ob('C01 C03 C25 C26', 'cms filter', Q + 'moment_filter_cms', SIZES, INST, cfgs=CFG)
def _(c):
    c.interps['condmean'] = mean_i
    args = [cen_cb(c), ew_cb(c, 'condmean'), lik_cb(c, 0), c.raw_moments('cms0', c.n * 2, central=True), c.scalar('mean0'), ys_of(c)]
    st = c.cfg['stable']
    c.split3('cms filter', c.call(c.repo(Q + 'moment_filter_cms'), *args, stable=st), c.call(c.spec('onedim.filter_cms'), *args, st))


@ob('C01 C03 C25 C26', 'scms filter', Q + 'moment_filter_scms', SIZES, INST[:2], cfgs=CFG)
def _(c):
    c.interps['condmean'] = mean_i
    c.interps['condvar'] = var_i
    a, b = ew_cb(c, 'condmean'), ew_cb(c, 'condvar')
    mv = NativeFn(lambda it, x, k: (it.call(a, x, k), it.call(b, x, k)), 'mean_var')
    args = [scen_cb(c), mv, lik_cb(c, 0), c.raw_moments('scms0', c.n * 2, central=True, scaled=True), c.scalar('mean0'),
            c.scalar('scale0', positive=True), ys_of(c)]
    st = c.cfg['stable']
    c.split3('scms filter', c.call(c.repo(Q + 'moment_filter_scms'), *args, stable=st), c.call(c.spec('onedim.filter_scms'), *args, st))
