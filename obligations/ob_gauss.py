"""C12, C13, C14, C03, C26: Gaussian filters and smoothers"""
from .common import *
from .ob_index import I, const_arr
from mfsa.evalir import PSDFN

G = 'mfs.classical_filters_smoothers.gfs.'
S = 'mfs.classical_filters_smoothers.quadratures.SigmaPoints'
X.SYMFN.update(('transcov', 'meascov'))
PSDFN.update(('transcov', 'meascov'))


def pd(c, name, n, lead=()):
    def gen(ev):
        d = int(round(ev.E(ex(n), {})))
        L = [int(round(ev.E(ex(q), {}))) for q in lead]
        out = np.zeros(tuple(L) + (d, d))
        for t in np.ndindex(*L):
            a = np.array([[0.6 * (2 * h01(ev.seed, name, t, i, j) - 1) for j in range(d)] for i in range(d)])
            out[t] = a @ a.T + np.eye(d) * (0.7 + 0.3 * h01(ev.seed, name, t, 'd'))
            out[t] *= ev.mag(name)
        return out
    return c.arr(name, tuple(lead) + (n, n), gen, sym=True)


def fn_mc(c, name, dout):
    """opaque x -> (mean (dout,), cov (dout, dout)) with extra scalar arguments"""
    def f(x, *r):
        if x.ndim != 1:
            raise PyRaise('TypeError')
        a = (x.lam(),) + tuple(q.body if not q.shape else q.lam() for q in r)
        return (mkarr((dout,), lambda i: mkfn(name + 'mean', a, (i,)), 'f', 'jnp', True),
                mkarr((dout, dout), lambda i, j: mkfn(name + 'cov', a, (i, j)), 'f', 'jnp', True))
    return c.native(f, name)


def fn_vec(c, name, *shape):
    def f(x):
        if x.ndim != 1:
            raise PyRaise('TypeError')
        return mkarr(shape, lambda *i: mkfn(name, (x.lam(),), tuple(i)), 'f', 'jnp', True)
    return c.native(f, name)


V1 = [dict(dx=2, dy=3, T=2, _mul=20), dict(dx=2, dy=2, T=1, _mul=20)]
V2 = [dict(dx=3, dy=2, T=2, _mul=20), dict(dx=3, dy=2, T=1, _mul=20)]
G1 = [dict(dx=None, dy=1, T=None), dict(dx=2, dy=1, T=2, _mul=20)]
GI1 = [dict(dx=2, dy=1, T=3), dict(dx=1, dy=1, T=2)]
SS = [dict(dx=None, T=(1,)), dict(dx=2, T=3, _mul=20)]
SI = [dict(dx=2, T=3), dict(dx=1, T=2), dict(dx=3, T=2)]


def reg(props, name, anchor, body, **kw):
    for cf in kw.pop('cfgs', [{}]):
        ob(props, name, anchor, V1, cfgs=[dict(cf, dy='3')], **kw)(body)
        ob(props, name, anchor, V2, cfgs=[dict(cf, dy='2')], **kw)(body)
        ob(props, name, anchor, G1, GI1, cfgs=[dict(cf, dy='scalar')], **kw)(body)


def prior(c):
    return c.arr('m0', (c.dx,)), pd(c, 'v0', c.dx), c.scalar('dt', positive=True), c.arr('ys', (c.T, c.dy))


def filt(c):
    return c.arr('mfs', (c.T, c.dx)), pd(c, 'vfs', c.dx, (c.T,)), c.scalar('dt', positive=True)


def b_kf(c):
    m0, v0, dt, ys = prior(c)
    a = (c.arr('F', (c.dx, c.dx)), pd(c, 'Q', c.dx), c.arr('H', (c.dy, c.dx)), pd(c, 'R', c.dy), m0, v0, ys)
    c.split3('kf', c.call(c.repo(G + 'kf'), *a), c.call(c.spec('gauss.kf'), *a))


reg('C12 C03 C25 C26', 'Kalman filter', G + 'kf', b_kf)


@ob('C12 C25 C26', 'RTS smoother', G + 'rts', SS, SI)
def _(c):
    mfs, vfs, dt = filt(c)
    a = (c.arr('F', (c.dx, c.dx)), pd(c, 'Q', c.dx), mfs, vfs)
    c.equal('rts', c.call(c.repo(G + 'rts'), *a), c.call(c.spec('gauss.rts'), *a))


def b_ekf(c):
    m0, v0, dt, ys = prior(c)
    a = (fn_mc(c, 'trans', c.dx), fn_mc(c, 'meas', c.dy), m0, v0, dt, ys)
    c.split3('ekf', c.call(c.repo(G + 'ekf'), *a, **c.cfg.get('kw', {})), c.call(c.spec('gauss.ekf'), *a))


FJ = [dict(), dict(kw=dict(fwd_jacobian=True)), dict(kw=dict(fwd_jacobian=False))]
reg('C13 C03 C25 C26', 'EKF', G + 'ekf', b_ekf, cfgs=FJ)


@ob('C13 C25 C26', 'EKS', G + 'eks', SS, SI)
def _(c):
    mfs, vfs, dt = filt(c)
    a = (fn_mc(c, 'trans', c.dx), mfs, vfs, dt)
    c.equal('eks', c.call(c.repo(G + 'eks'), *a), c.call(c.spec('gauss.eks'), *a))


def b_cdekf(c):
    m0, v0, dt, ys = prior(c)
    a = (fn_vec(c, 'drift', c.dx), fn_vec(c, 'disp', c.dx, c.dw), fn_mc(c, 'meas', c.dy), m0, v0, dt, ys)
    c.split3('cd_ekf', c.call(c.repo(G + 'cd_ekf'), *a, **c.cfg.get('kw', {})), c.call(c.spec('gauss.cd_ekf'), *a))


for _cf in FJ:
    ob('C13 C03 C25 C26', 'CD-EKF', G + 'cd_ekf', [dict(dx=2, dy=2, dw=1, T=2, _mul=20), dict(dx=2, dy=2, dw=1, T=1, _mul=20)],
       cfgs=[dict(_cf, dy='vector')])(b_cdekf)
    ob('C13 C03 C25 C26', 'CD-EKF', G + 'cd_ekf', [dict(dx=2, dy=1, dw=3, T=2, _mul=20), dict(dx=1, dy=1, dw=2, T=2, _mul=20)],
       cfgs=[dict(_cf, dy='scalar')])(b_cdekf)


CS = [[dict(dx=2, T=3, dw=1, _mul=20)], [dict(dx=1, T=3, dw=2, _mul=20)]]


def b_cdeks(c):
    mfs, vfs, dt = filt(c)
    a = (fn_vec(c, 'drift', c.dx), fn_vec(c, 'disp', c.dx, c.dw), mfs, vfs, dt)
    c.equal('cd_eks', c.call(c.repo(G + 'cd_eks'), *a), c.call(c.spec('gauss.cd_eks'), *a))


for _k, _sz in enumerate(CS):
    ob('C13 C25 C26', 'CD-EKS', G + 'cd_eks', _sz, cfgs=[dict(size=_k)])(b_cdeks)


# ---------------------------------------------------------------- sigma points
def sig(c):
    def gw(ev):
        n = int(round(ev.E(ex(c.n), {})))
        w = np.array([0.2 + h01(ev.seed, 'w', i) for i in range(n)])
        return w / w.sum()

    def gx(ev):
        n, d = (int(round(ev.E(ex(q), {}))) for q in (c.n, c.dx))
        w = gw(ev)
        x = np.array([[2 * h01(ev.seed, 'xi', i, j) - 1 for j in range(d)] for i in range(n)])
        x = x - w @ x
        S = (x.T * w) @ x
        return np.linalg.solve(np.linalg.cholesky(S), x.T).T
    w = c.arr('w', (c.n,), gw)
    xi = c.arr('xi', (c.n, c.dx), gx)
    return c.call(c.repo(S), d=I(c.dx), n_points=I(c.n), w=w, wc=None, xi=xi)


def b_sgpf(c):
    m0, v0, dt, ys = prior(c)
    sg = sig(c)
    kw = c.cfg.get('kw', {})
    mm = fn_mc(c, 'meas', c.dy)
    if kw.get('const_measurement_cov'):
        R = pd(c, 'R', c.dy)
        inner = mm
        mm = c.native(lambda x: (c.it.call(inner, [x], {})[0], R), 'meas')
    a = (fn_mc(c, 'trans', c.dx), mm, sg, m0, v0, dt, ys)
    c.split3('sgp', c.call(c.repo(G + 'sgp_filter'), *a, **kw), c.call(c.spec('gauss.sgp_filter'), *a, False))


CC = [dict(), dict(kw=dict(const_measurement_cov=False)), dict(kw=dict(const_measurement_cov=True))]
for _cf in CC:
    ob('C14 C03 C25 C26', 'sigma-point filter', G + 'sgp_filter', [dict(dx=2, dy=3, T=2, n=5, _mul=20), dict(dx=2, dy=2, T=1, n=4, _mul=20)],
       cfgs=[dict(_cf, dy='3')])(b_sgpf)
    ob('C14 C03 C25 C26', 'sigma-point filter', G + 'sgp_filter', [dict(dx=3, dy=1, T=2, n=6, _mul=20), dict(dx=1, dy=1, T=2, n=3, _mul=20)],
       cfgs=[dict(_cf, dy='1')])(b_sgpf)


def b_sgps(c):
    mfs, vfs, dt = filt(c)
    a = (fn_mc(c, 'trans', c.dx), sig(c), mfs, vfs, dt)
    c.equal('sgp_smoother', c.call(c.repo(G + 'sgp_smoother'), *a), c.call(c.spec('gauss.sgp_smoother'), *a))


for _k, _sz in enumerate(([dict(dx=2, T=3, n=5, _mul=20)], [dict(dx=3, T=2, n=6, _mul=20)])):
    ob('C14 C25 C26', 'sigma-point smoother', G + 'sgp_smoother', _sz, cfgs=[dict(size=_k)])(b_sgps)


def b_cdsgpf(c):
    m0, v0, dt, ys = prior(c)
    sg = sig(c)
    kw = c.cfg.get('kw', {})
    mm = fn_mc(c, 'meas', c.dy)
    if kw.get('const_measurement_cov'):
        R = pd(c, 'R', c.dy)
        inner = mm
        mm = c.native(lambda x: (c.it.call(inner, [x], {})[0], R), 'meas')
    a = (fn_vec(c, 'drift', c.dx), c.arr('L', (c.dx, c.dw)), mm, sg, m0, v0, dt, ys)
    c.split3('cd_sgp', c.call(c.repo(G + 'cd_sgp_filter'), *a, **kw), c.call(c.spec('gauss.cd_sgp_filter'), *a, False))


for _cf in CC:
    ob('C14 C03 C25 C26', 'CD sigma-point filter', G + 'cd_sgp_filter', [dict(dx=2, dy=2, dw=1, T=2, n=4, _mul=20), dict(dx=2, dy=2, dw=1, T=1, n=4, _mul=20)],
       cfgs=[dict(_cf, dy='2')])(b_cdsgpf)
    ob('C14 C03 C25 C26', 'CD sigma-point filter', G + 'cd_sgp_filter', [dict(dx=1, dy=1, dw=2, T=2, n=3, _mul=20)], cfgs=[dict(_cf, dy='1')])(b_cdsgpf)


def b_cdsgps(c):
    mfs, vfs, dt = filt(c)
    a = (fn_vec(c, 'drift', c.dx), c.arr('L', (c.dx, c.dw)), sig(c), mfs, vfs, dt)
    c.equal('cd_sgp_smoother', c.call(c.repo(G + 'cd_sgp_smoother'), *a), c.call(c.spec('gauss.cd_sgp_smoother'), *a))


for _k, _sz in enumerate(([dict(dx=2, T=3, n=4, dw=1, _mul=20)], [dict(dx=1, T=3, n=3, dw=2, _mul=20)])):
    ob('C14 C25 C26', 'CD sigma-point smoother', G + 'cd_sgp_smoother', _sz, cfgs=[dict(size=_k)])(b_cdsgps)
