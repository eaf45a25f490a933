"""C23: the shipped state-space models are self-consistent.

The model factories are lowered; the simulated trajectory is a term over the random draws and the initial state.  Draws are
interpreted as the two-point law +-1 (which all consistent schemes treat alike to first order: E w = 0, E w^2 = 1) and Taylor moment
expansions by their first-order generator; the term is then compared with the Euler polygon of the exported drift and dispersion over
the exported time step, for both signs.  Measurements are compared as distributions: the share of u in (0, 1) giving y = 1."""
from .common import *
from .ob_index import I, const_arr, grlex

M1 = 'mfs.one_dim.ss_models.'
MN = 'mfs.multi_dims.ss_models.'


class WeakEv(Ev):
    """sg: value of every standard normal draw (0: varying); u: value of every uniform draw; uc: position of every component choice"""
    sg, u, uc = 1.0, 0.5, 0.5

    def f_rnormal(self, a, args, o, env):
        K = self.lam(args[0], env).a
        k = (tuple(np.round(np.real(K).ravel(), 9)), o)
        self.draws.add(k)
        return self.sg if self.sg else 2.0 * (h01(k) < 0.5) - 1 if not o else 3 * (h01(o) - 0.5)

    def f_runiform(self, a, args, o, env):
        return self.u

    def f_rbernoulli(self, a, args, o, env):
        L = args[-1]
        return 1 if self.u < self.re(L.body, dict(env, **dict(zip(L.names, o)))) else 0

    def _pick(self, p):
        return int(min(len(p) - 1, np.searchsorted(np.cumsum(p / np.sum(p)), self.uc)))

    def f_rchoice(self, a, args, o, env):
        n = int(round(self.E(args[1 + len(o)], env)))
        p = self.lam(args[-1], env).a if isinstance(args[-1], Lam) else np.ones(n)
        return self._pick(np.real(p))

    def f_rcategorical(self, a, args, o, env):
        lg = np.real(self.lam(args[-1], env).a)
        return self._pick(np.exp(lg[o] if lg.ndim > 1 else lg))

    def _ab(self, args, env):
        xs, dt, A, B, order = args
        x, h, q = np.real(self.lam(xs, env).a), self.re(dt, env), self.re(order, env)
        a = np.real(self.apply(A, env, [x])[0]).reshape(-1)
        b = np.real(self.apply(B, env, [x])[0])
        b = b.reshape(x.shape[0], -1) if b.ndim != 1 or x.shape[0] > 1 else b.reshape(1, -1)
        return x, h, q, a, b

    def f_tme_E(self, a, args, o, env):
        x, h, q, f, b = self._ab(args[1:], env)
        F = lambda z: complex(self.apply(args[0], env, [z])[0].item()).real
        if q < 1:
            return F(x)
        d, e = x.shape[0], 1e-4
        s, I_, f0 = 0.0, np.eye(d), F(x)
        C = b @ b.T
        for i in range(d):
            s += f[i] * (F(x + e * I_[i]) - F(x - e * I_[i])) / (2 * e)
            s += 0.5 * C[i, i] * (F(x + e * I_[i]) - 2 * f0 + F(x - e * I_[i])) / e ** 2
            for j in range(i):
                s += C[i, j] * (F(x + e * (I_[i] + I_[j])) - F(x + e * (I_[i] - I_[j])) - F(x - e * (I_[i] - I_[j])) + F(x - e * (I_[i] + I_[j]))) / (4 * e * e)
        return f0 + h * s

    def f_tme_cov(self, a, args, o, env):
        x, h, q, f, b = self._ab(args, env)
        return (h * (b @ b.T)).item(o) if q >= 1 else 0.0


def num(ev, v):
    A = ops.to_arr(v)
    sh = tuple(int(round(ev.E(s, {}))) for s in A.shape)
    out = np.array([complex(ev.E(A.at(t), {})).real for t in np.ndindex(*sh)]).reshape(sh)
    return out


def grid(c, dt, T, ts):
    e = Ev({}, {}, {}, seed=1)
    h, n = float(num(e, dt)), int(round(float(num(e, T))))
    t = ops.to_arr(ts)
    c.fact('time grid', t.ndim == 1 and int(round(e.E(t.shape[0], {}))) == n, 'the grid has %s times for T = %d' % (t.shape, n))
    w = num(e, ts)
    bad = [k for k in range(min(n, len(w))) if abs(w[k] - h * (k + 1)) > 1e-7 * (1 + abs(w[k]))]
    c.fact('time grid spacing', not bad, 'time %s is %s, expected %s' % (bad[:1], w[bad[0]] if bad else '', h * (bad[0] + 1) if bad else ''))
    return h, n


def path(c, label, xs, x0v, drift, disp, h, T, d, start):
    """xs: term (T,) or (T, d); start: input name of the initial state or None (then x0v is a term)"""
    A = ops.to_arr(xs)
    X0 = c.arr('xq', (d,))
    fd, gd = c.call(drift, X0), c.call(disp, X0)
    tot = 0
    for seed in (1, 2):
        inp = np.array([0.3 + 0.8 * h01(os.environ.get('VERIF_SEED', 1), seed, 'x0', i) for i in range(d)])
        got, ref = {}, {}
        for sg in (1.0, -1.0):
            ev = WeakEv({}, {'x0': inp, 'key': np.array([0.31, 0.77])}, c.interps, seed=seed)
            ev.sg, ev.uc, ev.draws = sg, 0.25 + 0.5 * (seed - 1), set()
            x0 = inp if start else num(ev, x0v).reshape(-1)
            n0 = len(ev.draws)
            sh = tuple(int(round(ev.E(s, {}))) for s in A.shape)
            if sh[0] != T:
                c.fact(label + ' length', False, 'the trajectory has %d states for %d steps' % (sh[0], T))
                return
            val, cnt = [], []
            for t in range(2):
                val.append(np.array([complex(ev.E(A.at((t,) + q), {})).real for q in np.ndindex(*sh[1:])]))
                cnt.append(len(ev.draws) - n0)
            N = (cnt[1] - cnt[0]) / d
            if cnt[0] == 0:
                c.fact(label, False, 'the state after the first interval involves no noise')
                return
            if cnt[0] == cnt[1]:
                e2 = WeakEv({}, {'x0': inp, 'key': np.array([0.31, 0.77])}, c.interps, seed=seed)
                e2.draws = set()
                e2.E(A.at((T - 1,) + (0,) * (len(sh) - 1)), {})
                if len(e2.draws) < cnt[0]:
                    c.fact(label, False, 'the last state involves fewer noise draws (%d) than the first (%d): not in time order' % (len(e2.draws), cnt[0]))
                    return
            if N != int(N) or N < 1 or cnt[0] != cnt[1] - cnt[0]:
                raise Unsupported('draws per interval: %s' % cnt)
            N = int(N)
            x, out = x0.copy(), []

            def fg(z):
                e = Ev({}, {'xq': z}, c.interps, seed=1)
                g = num(e, gd)
                return num(e, fd).reshape(-1), g if g.ndim == 2 else g.reshape(1, -1) if d == 1 else np.diag(g)
            for t in range(2):
                for _ in range(N):
                    a, b = fg(x)
                    x = x + a * h / N + b @ np.full(b.shape[1], sg) * math.sqrt(h / N)
                out.append(x)
            got[sg], ref[sg] = (x0, val), (x0, out)
        for t in range(2):
            scale = np.abs(ref[1.0][1][t] - ref[-1.0][1][t]).max()
            for i in range(d):
                tot += 1
                odd = (got[1.0][1][t][i] - got[-1.0][1][t][i]) - (ref[1.0][1][t][i] - ref[-1.0][1][t][i])
                even = (got[1.0][1][t][i] + got[-1.0][1][t][i]) - (ref[1.0][1][t][i] + ref[-1.0][1][t][i])
                base = abs(ref[1.0][1][t][i] + ref[-1.0][1][t][i] - ref[1.0][0][i] - ref[-1.0][0][i])
                dr = max(h * abs(fg(ref[1.0][0])[0]).max(), base)
                if abs(odd) > 5e-3 * scale or abs(even) > 1e-3 * dr + 1e-9:
                    c.fact(label, False, 'state %d after interval %d: %s (noise +1) and %s (noise -1), expected %s and %s from the exported drift and dispersion over %d substeps of %g' % (
                        i, t, got[1.0][1][t][i], got[-1.0][1][t][i], ref[1.0][1][t][i], ref[-1.0][1][t][i], N, h / N))
                    return
    c.results.append((label, 'agree', 'first-order agreement with the exported drift and dispersion at %d states, both signs, %d substeps per interval' % (tot, N)))


def key(c):
    return c.arr('key', (2,), lambda ev: np.array([0.31, 0.77]))


def unpack(c, r, k=9):
    if not isinstance(r, (tuple, list)) or len(r) != k:
        c.fact('nine values', False, 'the model returns %s values' % (len(r) if isinstance(r, (tuple, list)) else 'no tuple of'))
        raise Unsupported('model interface')
    return r


def bern(c, pmf, em, args):
    p = c.call(em, *args)
    for y in (0, 1):
        c.equal('pmf of y=%d' % y, c.call(pmf, scalar(y, 'i', 'jnp'), *args), p if y else ops.binop(c.it, 'Sub', scalar(1), p))


@ob('C23', 'Benes-Bernoulli model', M1 + 'benes_bernoulli', [{'_': 0, '_mul': 20}], limit=250, cfgs=[dict(N=2), dict(N=3)])
def _(c):
    N = c.cfg['N']
    dt, T, ts, init, drift, disp, em, pmf, sim = unpack(c, c.call(c.repo(M1 + 'benes_bernoulli'), I(N)))
    h, n = grid(c, dt, T, ts)
    init_law(c, init, N)
    x = c.scalar('x')
    bern(c, pmf, em, (x,))
    x0 = c.arr('x0', (1,))
    path(c, 'simulated trajectory', c.call(sim, x0, key(c)), None, drift, disp, h, n, 1, True)


def init_law(c, g, N):
    """length of the stored moments"""
    for f in ('rms', 'cms', 'scms'):
        v = ops.to_arr(c.it.getattr(g, f))
        c.fact('initial %s' % f, v.shape[0].const() == 2 * N, '%s initial moments for N = %d' % (v.shape, N))


@ob('C23', 'Well-Poisson model', M1 + 'well_poisson', [{'_': 0, '_mul': 20}], limit=250, cfgs=[dict(N=2, p=3.0), dict(N=3, p=2.5)])
def _(c):
    N = c.cfg['N']
    p1 = scalar(ex(Fraction(c.cfg['p'])), 'f', 'py')
    dt, T, ts, init, drift, disp, em, pmf, sim = unpack(c, c.call(c.repo(M1 + 'well_poisson'), p1, I(N)))
    h, n = grid(c, dt, T, ts)
    init_law(c, init, N)
    x, p, y = c.scalar('x'), c.scalar('p'), c.scalar('y', positive=True)
    c.gens['y'] = lambda ev: np.asarray(float(int(5 * h01(ev.seed, 'y'))))
    lam = c.call(em, x, p)
    c.equal('pmf', c.call(pmf, y, x, p), c.it.call(LibFn('jax.scipy.stats.poisson.pmf'), [y, lam], {}))
    dr = c.native(lambda z: ops.to_arr(c.it.call(drift, [z, p1], {})), 'drift')
    x0 = c.arr('x0', (1,))
    path(c, 'simulated trajectory', c.call(sim, x0, key(c)), None, dr, disp, h, n, 1, True)


@ob('C23', 'prey-predator model', MN + 'prey_predator', [{'_': 0, '_mul': 20}], limit=250)
def _(c):
    mi = const_arr(c, grlex(2, 3))
    dt, T, ts, gs, drift, disp, em, pmf, sim = unpack(c, c.call(c.repo(MN + 'prey_predator'), mi))
    h, n = grid(c, dt, T, ts)
    for f in ('rms', 'cms'):
        v = ops.to_arr(c.it.getattr(gs, f))
        c.fact('initial %s' % f, v.shape[0].const() == 10, '%s initial moments for 10 multi-indices' % (v.shape,))
    x = c.arr('x', (2,))
    em0 = c.native(lambda z: ops.to_arr(c.it.call(em, [getitem0(c, z)], {})), 'em')
    bern(c, pmf, em0, (x,))
    k = key(c)
    r = c.call(sim, k)
    if not isinstance(r, (tuple, list)) or len(r) != 3:
        raise Unsupported('simulator interface')
    x0, xs, ys = r
    ref = ops.to_arr(c.call(c.it.getattr(gs, 'sampler'), k, I(1)))
    for u in (0.1, 0.3, 0.7, 0.9):
        for sg in (1.0, -1.0):
            ev = WeakEv({}, {'key': np.array([0.31, 0.77])}, c.interps, seed=1)
            ev.sg, ev.uc, ev.draws = sg, u, set()
            a, b = num(ev, x0).reshape(-1), num(ev, ref).reshape(-1)
            if a.shape != b.shape or np.abs(a - b).max() > 1e-6:
                c.fact('initial state', False, 'the simulated initial state %s is not a draw from the exported initial law (%s) for component choice %s, noise %s' % (a, b, u, sg))
                return
    c.results.append(('initial state', 'agree', 'equals a draw from the exported initial law'))
    path(c, 'simulated trajectory', xs, x0, drift, disp, h, n, 2, None)
    # measurements: share of u giving y = 1
    Y = ops.to_arr(ys)
    xq = c.arr('xq', (2,))
    p1 = c.call(pmf, scalar(1, 'i', 'jnp'), xq)
    sh = tuple(q.const() for q in Y.shape)
    c.fact('one measurement per state', sh == (n,), 'measurements of shape %s for %d states' % (sh, n))
    us = [(k + 0.5) / 200 for k in range(200)]
    A = ops.to_arr(xs)
    for sg, uc in ((0, 0.2), (-1.0, 0.8)):
        ev = WeakEv({}, {'key': np.array([0.31, 0.77])}, c.interps, seed=1)
        ev.sg, ev.uc, ev.draws = sg, uc, set()
        for t in (0, 1, 3):
            z = np.array([complex(ev.E(A.at((t, i)), {})).real for i in range(2)])
            ps = float(num(Ev({}, {'xq': z}, c.interps, seed=1), p1))
            ones, snap = 0, dict(ev.memo)
            for u in us:
                ev.memo, ev.u = dict(snap), u
                ones += int(round(complex(ev.E(Y.at((t,)), {})).real))
            ev.memo = snap
            if abs(ones / 200 - ps) > 0.006:
                c.fact('simulated measurements', False, 'measurement %d is 1 with probability about %.3f, the exported probability function gives %.3f' % (t, ones / 200, ps))
                return
    c.results.append(('simulated measurements', 'agree', 'probability of y = 1 agrees with the exported probability function at 6 states'))


def getitem0(c, z):
    return scalar(z.at((ex(0),)), 'f', 'jnp', True)
