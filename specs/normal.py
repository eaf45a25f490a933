"""Reference moments of multivariate laws and transition laws of SDE discretisations."""
import jax
import jax.numpy as jnp
import tme.base_jax as tme


def mvn(mean, cov, alpha):
    """E[prod x_i^alpha_i], x ~ N(mean, cov), by Gaussian integration by parts"""
    d = len(alpha)
    for i in range(d):
        if alpha[i] > 0:
            rest = [alpha[j] - (1 if j == i else 0) for j in range(d)]
            r = mean[i] * mvn(mean, cov, rest)
            for j in range(d):
                if rest[j] > 0:
                    less = [rest[k] - (1 if k == j else 0) for k in range(d)]
                    r = r + cov[i, j] * rest[j] * mvn(mean, cov, less)
            return r
    return 1.0


def uniform(bounds, alpha, means):
    r = 1.0
    for (a, b), k, m in zip(bounds, alpha, means):
        s = 0.0
        for j in range(k + 1):
            s = s + (b - m) ** j * (a - m) ** (k - j)
        r = r * s / (k + 1)
    return r


def normal_law(mc, indices):
    """five functions of the Gaussian transition law x -> mc(x); moments addressed by position"""
    def raw(x, m, s, k):
        mu, cov = mc(x)
        v = jnp.array([mvn([(mu[i] - m[i]) for i in range(len(a))], cov, a) for a in indices])
        q = jnp.array(indices)[k]
        return v[k] / jnp.prod(s ** q)
    one = lambda x: jnp.ones(x.shape[1])
    zero = lambda x: jnp.zeros(x.shape[1])

    def table(x, pos, m, s):
        return jnp.stack([jnp.stack([raw(x[i], m, s, pos[j]) for j in range(pos.shape[0])]) for i in range(x.shape[0])])
    return (lambda x, p: table(x, p, zero(x), one(x)), lambda x, p, m: table(x, p, m, one(x)), table,
            lambda x: jnp.stack([mc(x[i])[0] for i in range(x.shape[0])]),
            lambda x: (jnp.stack([mc(x[i])[0] for i in range(x.shape[0])]),
                       jnp.stack([jnp.stack([mc(x[i])[1][k, k] for k in range(x.shape[1])]) for i in range(x.shape[0])])))


def euler(drift, disp, dt, indices):
    return normal_law(lambda x: (x + dt * drift(x), dt * (disp(x) @ disp(x).T)), indices)


def tme_normal(drift, disp, dt, order, indices):
    return normal_law(lambda x: tme.mean_and_cov(x, dt, drift, disp, order=order), indices)


def tme_law(drift, disp, dt, order):
    def e(phi, x):
        return tme.expectation(phi, x, dt, drift, disp, order=order)

    def power(u, m, s, q):
        r = 1.0
        for k in range(u.shape[0]):
            r = r * ((u[k] - m[k]) / s[k]) ** q[k]
        return r

    def table(x, idx, m, s):
        return jnp.stack([jnp.stack([e(lambda u: power(u, m, s, idx[j]), x[i]) for j in range(idx.shape[0])]) for i in range(x.shape[0])])
    mc = lambda x: tme.mean_and_cov(x, dt, drift, disp, order=order)
    return (lambda x, p: table(x, p, jnp.zeros(x.shape[1]), jnp.ones(x.shape[1])), lambda x, p, m: table(x, p, m, jnp.ones(x.shape[1])), table,
            lambda x: jnp.stack([mc(x[i])[0] for i in range(x.shape[0])]),
            lambda x: (jnp.stack([mc(x[i])[0] for i in range(x.shape[0])]),
                       jnp.stack([jnp.stack([mc(x[i])[1][k, k] for k in range(x.shape[1])]) for i in range(x.shape[0])])))
