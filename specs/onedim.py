"""Reference formulas for the one-dimensional part (lowered by the analyser, never executed)."""
import jax
import jax.numpy as jnp


def ldl_pivots(m):
    """A = L D L^T with negative pivots replaced (reference recursion)"""
    raise NotImplementedError


def quadrature(ms, mean, scale, ldl):
    n = ms.shape[0] // 2
    i = jnp.arange(n)
    G = ms[i[:, None] + i[None, :]]
    H = ms[i[:, None] + i[None, :] + 1]
    if ldl:
        from specs.linalg import ldl_chol
        L = ldl_chol(G)
    else:
        L = jnp.linalg.cholesky(G)
    Li = jnp.linalg.inv(L)
    K = Li @ H @ Li.T
    vals, vecs = jnp.linalg.eigh(K)
    return vecs[0, :] ** 2, mean + scale * vals


def filter_rms(cond_moments, lik, rms0, ys, stable):
    N = rms0.shape[0]
    orders = jnp.arange(N)

    def step(carry, y):
        rms, nell = carry
        w, x = quadrature(rms, 0., 1., stable)
        pred = w @ cond_moments(x, orders)
        w, x = quadrature(pred, 0., 1., stable)
        like = jax.vmap(lambda z: lik(y, z))(x)
        evidence = jnp.sum(w * like)
        post = jnp.sum(w[:, None] * like[:, None] * x[:, None] ** orders[None, :], axis=0) / evidence
        return (post, nell - jnp.log(evidence)), post

    (_, nell), out = jax.lax.scan(step, (rms0, 0.), ys)
    return out, nell


def filter_cms(cond_moments, cond_mean, lik, cms0, mean0, ys, stable):
    N = cms0.shape[0]
    orders = jnp.arange(N)

    def step(carry, y):
        cms, mean, nell = carry
        w, x = quadrature(cms, mean, 1., stable)
        mp = jnp.sum(w * cond_mean(x))
        pred = w @ cond_moments(x, orders, mp)
        w, x = quadrature(pred, mp, 1., stable)
        like = jax.vmap(lambda z: lik(y, z))(x)
        evidence = jnp.sum(w * like)
        mu = jnp.sum(w * like * x) / evidence
        post = jnp.sum(w[:, None] * like[:, None] * (x[:, None] - mu) ** orders[None, :], axis=0) / evidence
        return (post, mu, nell - jnp.log(evidence)), (post, mu)

    (_, _, nell), (a, b) = jax.lax.scan(step, (cms0, mean0, 0.), ys)
    return a, b, nell


def filter_scms(cond_moments, cond_mean_var, lik, scms0, mean0, scale0, ys, stable):
    N = scms0.shape[0]
    orders = jnp.arange(N)

    def step(carry, y):
        scms, mean, scale, nell = carry
        w, x = quadrature(scms, mean, scale, stable)
        cm, cv = cond_mean_var(x)
        mp = jnp.sum(w * cm)
        sp = jnp.sqrt(jnp.sum(w * cv))
        pred = w @ cond_moments(x, orders, mp, sp)
        w, x = quadrature(pred, mp, sp, stable)
        like = jax.vmap(lambda z: lik(y, z))(x)
        evidence = jnp.sum(w * like)
        mu = jnp.sum(w * like * x) / evidence
        sd = jnp.sqrt(jnp.sum(w * like * (x - mu) ** 2) / evidence)
        post = jnp.sum(w[:, None] * like[:, None] * ((x[:, None] - mu) / sd) ** orders[None, :], axis=0) / evidence
        return (post, mu, sd, nell - jnp.log(evidence)), (post, mu, sd)

    (_, _, _, nell), (a, b, c) = jax.lax.scan(step, (scms0, mean0, scale0, 0.), ys)
    return a, b, c, nell
