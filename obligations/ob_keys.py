"""C17: random keys are used linearly.

Rule: lower each key-taking routine; every draw, split and callback that consumes a key is recorded with its key term, closed over
the enclosing loops.  At each size the key terms of all consumption instances (every loop index) are numbered by random
interpretation; two draws with one number, a draw on a split key, two different splits of a key, or a key that does not change with the
caller's key are violations."""
import ast
from .common import *
from .ob_index import I
from .ob_utils import U, field, mixw, fn_mc, pd
from .ob_smc import key, trans_cb, dens_cb, init_cb, resamp_cb, ys_of, wts, P, R
from mfsa.check import REPO


def uses(c, f, pos, kw='key'):
    """callback that consumes its argument number pos as a key"""
    def g(it, a, k):
        q = a[pos] if len(a) > pos else k[kw]
        q = ops.to_arr(q)
        it.event('key_consume', key=q.lam(), what='callback ' + getattr(f, 'name', ''))
        return it.call(f, a, k)
    return NativeFn(g, getattr(f, 'name', 'callback'))


def where(e):
    st = [s for s in e['stack'] if s and not s.startswith('specs.')]
    return '%s:%s' % (st[-1] if st else e['func'], e['line'])


def decide(c):
    evs = [e for e in c.it.events if e['kind'] == 'key_consume']
    for e in c.it.events:
        if e['kind'] == 'key_new':
            c.fact('keys come from the caller', False, 'a new key is created at %s' % where(e))
    if not evs:
        raise Unsupported('no key consumption found')
    insts = c.ob.insts if c.symbolic else [{}]
    n = 0
    for inst in insts:
        dims = dict(c.concrete)
        dims.update(inst)
        s0 = 1000 * int(os.environ.get('VERIF_SEED', '1') or 1)
        g1, g2 = dict(c.gens), dict(c.gens)
        g1['key'] = lambda ev: np.array([0.31, 0.77])
        g2['key'] = lambda ev: np.array([0.52, 0.13])
        evA, evB = Ev(dims, g1, c.interps, seed=s0), Ev(dims, g2, c.interps, seed=s0)
        seen = {}
        for e in evs:
            K = e['key']

            def rec(k, env):
                if k == len(e['loops']):
                    yield dict(env)
                    return
                v, ext = e['loops'][k]
                for q in range(int(round(evA.E(ext, env)))):
                    env[v] = q
                    yield from rec(k + 1, env)
            for env in rec(0, {}):
                n += 1
                if n > 20000:
                    raise Unsupported('too many key uses')
                a = tuple(np.round(np.real(evA.lam(K, env).a).ravel(), 10))
                b = tuple(np.round(np.real(evB.lam(K, env).a).ravel(), 10))
                at = {v: q for v, q in env.items()}
                if a == b:
                    c.results.append(('keys come from the caller', 'violation', 'the key used at %s (%s) does not depend on the given key' % (where(e), e['what'])))
                    return
                for f, fat in seen.get(a, []):
                    if any(x[0] is y[0] and x[1] != y[1] for x, y in zip(e['branch'], f['branch'])):
                        continue
                    if e['what'].startswith(('split', 'fold_in')) and e['what'] == f['what']:
                        continue
                    c.results.append(('every draw has its own key', 'violation',
                                      'one key is consumed twice: by %s at %s%s and by %s at %s%s' % (
                                          f['what'], where(f), ' (iteration %s)' % sorted(fat.values()) if fat else '',
                                          e['what'], where(e), ' (iteration %s)' % sorted(at.values()) if at else '')))
                    return
                seen.setdefault(a, []).append((e, at))
    c.results.append(('every draw has its own key', 'agree', '%d consumption sites, %d instances, all keys distinct and derived from the given key' % (len(evs), n)))


SZ = [dict(n=None, d=None, T=None, dy=None), dict(n=3, d=2, T=3, dy=1, _mul=20)]
IN = [dict(n=2, d=2, T=3, dy=1), dict(n=3, d=1, T=1, dy=2), dict(n=2, d=3, T=4, dy=1)]
CF = [dict(x=x, y='scalar') for x in ('scalar', 'vector')]


@ob('C17', 'keys of the bootstrap filter', P + 'bootstrap_filter', SZ, IN, cfgs=[dict(q, conti=k) for q in CF for k in (False, True) if not (k and q['x'] == 'vector')])
def _(c):
    rs = uses(c, resamp_cb(c), 1)
    kw = dict(conti_resampling=True) if c.cfg['conti'] else {}
    c.call(c.repo(P + 'bootstrap_filter'), uses(c, trans_cb(c, 'trans'), 1), dens_cb(c, 'lik', (1,)), ys_of(c), uses(c, init_cb(c), 0), key(c), I(c.n), rs, **kw)
    decide(c)


@ob('C17', 'keys of the particle filter', P + 'particle_filter', SZ, IN, cfgs=CF)
def _(c):
    rs = uses(c, resamp_cb(c), 1)
    c.call(c.repo(P + 'particle_filter'), uses(c, trans_cb(c, 'prop'), 2), dens_cb(c, 'propd', (0, 1)), dens_cb(c, 'transd', (0, 1)), dens_cb(c, 'lik', (1,)),
           ys_of(c), uses(c, init_cb(c), 0), key(c), I(c.n), rs)
    decide(c)


@ob('C17', 'keys of resampling', R + 'systematic', [dict(n=None), dict(n=4)], [dict(n=5), dict(n=1)], cfgs=[dict(f=f) for f in ('systematic', 'stratified', 'multinomial')])
def _(c):
    c.call(c.repo(R + c.cfg['f']), wts(c), key(c))
    decide(c)


@ob('C17', 'keys of continuous resampling', R + 'continuous_resampling', [dict(n=None, m=None), dict(n=5, m=4)], [dict(n=5, m=5)])
def _(c):
    c.call(c.repo(R + 'continuous_resampling'), c.arr('x', (c.n,)), wts(c), I(c.m), key(c))
    decide(c)


@ob('C17', 'keys of simulate_sde', U + 'simulate_sde', [dict(d=None, T=None, k=None), dict(d=2, T=2, k=2)], [dict(d=2, T=3, k=2), dict(d=1, T=1, k=3)],
    cfgs=[dict(kw=k) for k in ('default', 'full', 'diag')])
def _(c):
    kw = {} if c.cfg['kw'] == 'default' else dict(diagonal_cov=c.cfg['kw'] == 'diag', integration_steps=I(c.k))
    c.call(c.repo(U + 'simulate_sde'), fn_mc(c, 'trans', c.d), c.arr('x0', (c.d,)), c.scalar('dt', positive=True), I(c.T), key(c), **kw)
    decide(c)


@ob('C17', 'keys of the Gaussian sum samplers', U + 'GaussianSum1D.sampler ' + U + 'GaussianSumND.sampler', [dict(n=None), dict(n=3)], [dict(n=3)], cfgs=[dict(d=1), dict(d=2)])
def _(c):
    k = 2
    if c.cfg['d'] == 1:
        g = c.call(c.it.getattr(c.repo(U + 'GaussianSum1D'), 'new'), c.arr('means', (k,)), c.arr('variances', (k,), positive=True), mixw(c, k), N=I(2))
    else:
        from .ob_index import const_arr, grlex
        g = c.call(c.it.getattr(c.repo(U + 'GaussianSumND'), 'new'), c.arr('means', (k, 2)), pd(c, 'covs', ex(2), (k,)), mixw(c, k), const_arr(c, grlex(2, 2)))
    c.it.events.clear()
    c.call(c.it.getattr(g, 'sampler'), key(c), I(c.n))
    decide(c)


M1 = 'mfs.one_dim.ss_models.'
MN = 'mfs.multi_dims.ss_models.'


@ob('C17', 'keys of the model simulators', M1 + 'benes_bernoulli ' + M1 + 'well_poisson ' + MN + 'prey_predator', [{'_': 0, '_mul': 20}], limit=200,
    cfgs=[dict(m=m) for m in ('benes_bernoulli', 'well_poisson', 'prey_predator')])
def _(c):
    m = c.cfg['m']
    if m == 'prey_predator':
        from .ob_index import const_arr, grlex
        r = c.call(c.repo(MN + m), const_arr(c, grlex(2, 2)))
        c.it.events.clear()
        c.call(r[-1], key(c))
    else:
        r = c.call(c.repo(M1 + m), *([scalar(3, 'f', 'py')] if m == 'well_poisson' else []))
        c.it.events.clear()
        c.call(r[-1], c.arr('x0', (1,)), key(c))
    decide(c)
