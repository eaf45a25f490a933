"""Reference formulas for the multidimensional part."""
import jax
import jax.numpy as jnp


def quadrature(ms, inds, mean, scale, ldl):
    d = inds.shape[0] - 1
    n = inds.shape[1]
    G = ms[inds[0]]
    if ldl:
        from specs.linalg import ldl_chol
        L = ldl_chol(G)
    else:
        L = jnp.linalg.cholesky(G)
    Li = jnp.linalg.inv(L)
    ops = [jnp.linalg.eigh(Li @ ms[inds[k + 1]] @ Li.T) for k in range(d)]
    # tensor over (i_1, ..., i_d)
    W = ops[0][1][0, :]
    for k in range(1, d):
        T = jnp.sum(ops[k - 1][1][:, :, None] * ops[k][1][:, None, :], axis=0)
        W = W[..., None] * T
    W = W * ops[d - 1][1][0, :]
    cols = []
    for k in range(d):
        v = ops[k][0] * scale[k] + mean[k]
        v = v.reshape((1,) * k + (n,) + (1,) * (d - 1 - k))
        cols.append(jnp.broadcast_to(v, (n,) * d).reshape(-1))
    return W.reshape(-1), jnp.stack(cols, axis=1)


def monomials(x, mis):
    """(z, d), (K, d) -> (z, K)"""
    return jnp.prod(x[:, None, :] ** mis[None, :, :], axis=2)


def filter_rms(cond, lik, ys, mis, which, inds, rms0, stable):
    d = mis.shape[1]
    zero, one = jnp.zeros(d), jnp.ones(d)

    def step(carry, y):
        rms, nell = carry
        w, x = quadrature(rms, inds, zero, one, stable)
        pred = w @ cond(x, which)
        w, x = quadrature(pred, inds, zero, one, stable)
        wl = w * jax.vmap(lambda z: lik(y, z))(x)
        evidence = jnp.sum(wl)
        post = wl @ monomials(x, mis) / evidence
        return (post, nell - jnp.log(evidence)), post

    (_, nell), out = jax.lax.scan(step, (rms0, 0.), ys)
    return out, nell


def filter_cms(cond, cond_mean, lik, ys, mis, which, inds, cms0, mean0, stable):
    d = mis.shape[1]
    one = jnp.ones(d)

    def step(carry, y):
        cms, mean, nell = carry
        w, x = quadrature(cms, inds, mean, one, stable)
        mp = w @ cond_mean(x)
        pred = w @ cond(x, which, mp)
        w, x = quadrature(pred, inds, mp, one, stable)
        wl = w * jax.vmap(lambda z: lik(y, z))(x)
        evidence = jnp.sum(wl)
        mu = wl @ x / evidence
        post = wl @ monomials(x - mu[None, :], mis) / evidence
        return (post, mu, nell - jnp.log(evidence)), (post, mu)

    (_, _, nell), (a, b) = jax.lax.scan(step, (cms0, mean0, 0.), ys)
    return a, b, nell


def filter_scms(cond, cond_mean_var, lik, ys, mis, which, inds, scms0, mean0, scale0, stable):
    d = mis.shape[1]

    def step(carry, y):
        scms, mean, scale, nell = carry
        w, x = quadrature(scms, inds, mean, scale, stable)
        cm, cv = cond_mean_var(x)
        mp = w @ cm
        sp = jnp.sqrt(w @ cv)
        pred = w @ cond(x, which, mp, sp)
        w, x = quadrature(pred, inds, mp, sp, stable)
        wl = w * jax.vmap(lambda z: lik(y, z))(x)
        evidence = jnp.sum(wl)
        mu = wl @ x / evidence
        sd = jnp.sqrt(wl @ (x - mu[None, :]) ** 2 / evidence)
        post = wl @ monomials((x - mu[None, :]) / sd[None, :], mis) / evidence
        return (post, mu, sd, nell - jnp.log(evidence)), (post, mu, sd)

    (_, _, _, nell), (a, b, e) = jax.lax.scan(step, (scms0, mean0, scale0, 0.), ys)
    return a, b, e, nell


def product2(x):
    """(d, n) -> (n^d, d), last coordinate fastest"""
    d, n = x.shape
    cols = []
    for k in range(d):
        cols.append(jnp.broadcast_to(x[k].reshape((1,) * k + (n,) + (1,) * (d - 1 - k)), (n,) * d).reshape(-1))
    return jnp.stack(cols, axis=1)


def product3(x):
    """(d, m, n) -> (n^d, m, d)"""
    d, m, n = x.shape
    return jnp.stack([product2(x[:, j, :]) for j in range(m)], axis=1)
