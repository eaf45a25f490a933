"""Reference one-dimensional transition-moment functions: x is a scalar state, n a scalar order."""
import math
import jax
import jax.numpy as jnp
import tme.base_jax as tme
from specs.moments1d import normal_raw


def gauss(m, v, ns):
    N = ns.shape[0]
    return m, v


def normal_table(mean, var, K):
    return jnp.array([normal_raw(mean, var, p) for p in range(K)])


def euler(drift, dispersion, dt, K, xs, ns, c, s):
    def law(x):
        return x + drift(x) * dt, dispersion(x) * dispersion(x) * dt

    raw = jnp.array([[normal_table(*law(x), K)[n] for n in ns] for x in xs])
    cen = jnp.array([[normal_table(law(x)[0] - c, law(x)[1], K)[n] for n in ns] for x in xs])
    sc = jnp.array([[normal_table(law(x)[0] - c, law(x)[1], K)[n] / s ** n for n in ns] for x in xs])
    mean = jnp.array([law(x)[0] for x in xs])
    var = jnp.array([law(x)[1] for x in xs])
    return raw, cen, sc, mean, (mean, var)


def tme_normal(drift, dispersion, dt, order, K, xs, ns, c, s):
    def law(x):
        m, v = tme.mean_and_cov(jnp.array([x]), dt, drift, dispersion, order=order)
        return m[0], v[0, 0]

    raw = jnp.array([[normal_table(*law(x), K)[n] for n in ns] for x in xs])
    cen = jnp.array([[normal_table(law(x)[0] - c, law(x)[1], K)[n] for n in ns] for x in xs])
    sc = jnp.array([[normal_table(law(x)[0] - c, law(x)[1], K)[n] / s ** n for n in ns] for x in xs])
    mean = jnp.array([tme.expectation(lambda u: u, jnp.array([x]), dt, drift, dispersion, order=order)[0] for x in xs])
    mean2 = jnp.array([law(x)[0] for x in xs])
    var = jnp.array([law(x)[1] for x in xs])
    return raw, cen, sc, mean, (mean2, var)


def tme_plain(drift, dispersion, dt, order, xs, ns, c, s):
    def ex(phi, x):
        return tme.expectation(phi, jnp.array([x]), dt, drift, dispersion, order=order)[0]

    raw = jnp.array([[ex(lambda u: u ** n, x) for n in ns] for x in xs])
    cen = jnp.array([[ex(lambda u: (u - c) ** n, x) for n in ns] for x in xs])
    sc = jnp.array([[ex(lambda u: ((u - c) / s) ** n, x) for n in ns] for x in xs])
    mean = jnp.array([ex(lambda u: u, x) for x in xs])

    def law(x):
        m, v = tme.mean_and_cov(jnp.array([x]), dt, drift, dispersion, order=order)
        return m[0], v[0, 0]

    return raw, cen, sc, mean, (jnp.array([law(x)[0] for x in xs]), jnp.array([law(x)[1] for x in xs]))


def tme_mean_sd(drift, disp, dt, order, xs):
    """per-state mean and standard deviation of the Taylor-expansion Gaussian transition"""
    def one(x):
        m, c = tme.mean_and_cov(jnp.array([x]), dt, drift, disp, order=order)
        return m[0], jnp.sqrt(c[0, 0])
    return jax.vmap(one)(xs)
