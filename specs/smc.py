"""Reference particle filters and resampling."""
import jax
import jax.numpy as jnp


def bootstrap(trans, lik, ys, init, key, n, pick):
    """pick(samples, normalised weights, key) -> resampled particles"""
    k0, k1 = jax.random.split(key)
    x = init(k0, n)

    def step(carry, e):
        x, nell = carry
        kt, kr = jax.random.split(e[1])
        x = trans(x, kt)
        w = lik(e[0], x)
        nell = nell - jnp.log(jnp.sum(w) / n)
        x = pick(x, w / jnp.sum(w), kr)
        return (x, nell), x

    (_, nell), out = jax.lax.scan(step, (x, 0.), (ys, jax.random.split(k1, ys.shape[0])))
    return out, nell


def particle(prop, propd, transd, lik, ys, init, key, n, pick):
    k0, k1 = jax.random.split(key)
    x = init(k0, n)

    def step(x, e):
        kp, kr = jax.random.split(e[1])
        new = prop(x, e[0], kp)
        w = lik(e[0], new) * transd(new, x) / propd(new, x, e[0])
        x = pick(new, w / jnp.sum(w), kr)
        return x, x

    return jax.lax.scan(step, x, (ys, jax.random.split(k1, ys.shape[0])))[1]


def inverse_cdf(w, us):
    """smallest index whose cumulative weight reaches u, limited to valid indices"""
    n = w.shape[0]
    below = jnp.where(jnp.cumsum(w)[None, :] < us[:, None], 1, 0)
    return jnp.minimum(jnp.sum(below, axis=1), n - 1)


def systematic(w, key):
    n = w.shape[0]
    return inverse_cdf(w, (jnp.arange(n) + jax.random.uniform(key, ())) / n)


def stratified(w, key):
    n = w.shape[0]
    return inverse_cdf(w, (jnp.arange(n) + jax.random.uniform(key, (n,))) / n)


def multinomial(w, key):
    n = w.shape[0]
    e = -jnp.log(jax.random.uniform(key, (n + 1,)))
    z = jnp.cumsum(e)
    return inverse_cdf(w, z[:n] / z[n])


def continuous(x, w, n, key):
    order = jnp.argsort(x)
    x, w = x[order], w[order]
    mid = jnp.cumsum(w) - w / 2
    u = (jnp.arange(n) + jax.random.uniform(key, (n,))) / n
    return jnp.interp(u, mid, x)


def clip(i, n):
    return jnp.maximum(jnp.minimum(i, n - 1), 0)
