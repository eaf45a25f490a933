"""Reference factorisations, mixtures, discretisations, simulators."""
import math
import jax
import jax.numpy as jnp
import jax.scipy


# ---- factorisations
def lower_product(l, d):
    return (l * d[None, :]) @ l.T


def ldl_ref(a):
    """elimination: symmetric Schur complements"""
    n = a.shape[0]
    cols = []
    piv = []
    s = [[a[i, j] for j in range(n)] for i in range(n)]
    for k in range(n):
        p = s[k][k]
        piv.append(p)
        cols.append([0. if i < k else (1. if i == k else s[i][k] / p) for i in range(n)])
        s = [[s[i][j] - s[i][k] * s[j][k] / p if i > k and j > k else 0. for j in range(n)] for i in range(n)]
    return jnp.array([[cols[j][i] for j in range(n)] for i in range(n)]), jnp.array(piv)


def modified_cholesky(a, eps):
    l, d = ldl_ref(a)
    if eps is None:
        eps = 1e-8 * jnp.sqrt(jnp.sum(a ** 2))
    return l * jnp.where(d < 0, eps, jnp.sqrt(jnp.abs(d)))[None, :]


def lanczos(a, v0, m):
    vs = [v0]
    al = [jnp.sum((a @ v0) * v0)]
    be = []
    w = a @ v0 - al[0] * v0
    for k in range(1, m):
        b = jnp.sqrt(jnp.sum(w ** 2))
        v = w / b
        x = jnp.sum((a @ v) * v)
        w = a @ v - x * v - b * vs[k - 1]
        vs.append(v)
        al.append(x)
        be.append(b)
    return jnp.stack(vs, axis=1), jnp.stack(al), jnp.stack(be) if m > 1 else jnp.zeros((0,))


def ritz(a, v0, m, f):
    """sum_k f(eigenvalue_k) * ritz vector_k component: permutation-free summary"""
    nrm = jnp.sqrt(jnp.sum(v0 ** 2))
    vs, al, be = lanczos(a, v0 / nrm, m)
    t = jnp.array([[al[i] if i == j else (be[min(i, j)] if abs(i - j) == 1 else 0.) for j in range(m)] for i in range(m)])
    u, e = jax.lax.linalg.eigh(t)
    r = (vs @ u) * (u[0, :] * nrm)[None, :]
    return r, e


# ---- mixtures
def normal_raw(m, v, p):
    """E x^p, x ~ N(m, v)"""
    if p == 0:
        return 1.
    if p == 1:
        return m
    return m * normal_raw(m, v, p - 1) + (p - 1) * v * normal_raw(m, v, p - 2)


def gs1(means, variances, weights, n):
    K = means.shape[0]
    mean = sum([weights[k] * means[k] for k in range(K)])
    var = sum([weights[k] * (variances[k] + means[k] ** 2) for k in range(K)]) - mean ** 2
    mom = lambda c: jnp.array([sum([weights[k] * normal_raw(means[k] - c, variances[k], p) for k in range(K)]) for p in range(2 * n)])
    rms, cms = mom(0.), mom(mean)
    return means, variances, weights, mean, var, rms, cms, jnp.array([cms[p] / var ** (p / 2) for p in range(2 * n)])


def gs1_pdf(means, variances, weights, xs):
    return jnp.sum(weights[None, :] * jnp.exp(-(xs[:, None] - means[None, :]) ** 2 / (2 * variances[None, :])) / jnp.sqrt(2 * math.pi * variances[None, :]), axis=1)


def gs1_sample(means, variances, weights, key, n):
    k1, k2 = jax.random.split(key)
    c = jax.random.choice(k2, means.shape[0], (n,), p=weights)
    return means[c] + jnp.sqrt(variances[c]) * jax.random.normal(k1, (n,))


def gsn_pdf(means, covs, weights, x):
    d = means.shape[1]
    r = 0.
    for k in range(means.shape[0]):
        e = x - means[k]
        q = jnp.sum(e * (jnp.linalg.inv(covs[k]) @ e))
        r = r + weights[k] * jnp.exp(-q / 2) / ((2 * math.pi) ** (d / 2) * jnp.prod(jnp.diagonal(jnp.linalg.cholesky(covs[k]))))
    return r


def gsn_sample(means, covs, weights, key, n):
    k1, k2 = jax.random.split(key)
    c = jax.random.choice(k2, means.shape[0], (n,), p=weights)
    z = jax.random.normal(k1, (n, means.shape[1]))
    return jnp.stack([means[c[i]] + jnp.linalg.cholesky(covs[c[i]]) @ z[i] for i in range(n)])


# ---- SDE utilities
def simulate(mc, x0, dt, T, key, diagonal, steps):
    k, _ = jax.random.split(key)
    d = x0.shape[0]
    z = jax.random.normal(k, (T, steps, d))
    h = dt / steps

    def sub(x, e):
        m, c = mc(x, h)
        r = jnp.diag(jnp.sqrt(jnp.diagonal(c))) if diagonal else jnp.linalg.cholesky(c)
        return m + r @ e, None

    def step(x, e):
        x, _ = jax.lax.scan(sub, x, e)
        return x, x
    return jax.lax.scan(step, x0, z)[1]


def pcrb(xs, ys, j0, lt, ll):
    """xs (T+1, n, d), ys (T, n, ...): Tichavsky recursion"""
    n = xs.shape[1]
    T = ys.shape[0]

    def h(f, i, j, a, b):
        return jax.jacfwd(jax.jacfwd(f, argnums=i), argnums=j)(a, b)

    def step(J, e):
        y, x, s = e
        d11 = -jnp.mean(jax.vmap(lambda a, b: h(lt, 1, 1, a, b))(x, s), axis=0)
        d21 = -jnp.mean(jax.vmap(lambda a, b: h(lt, 0, 1, a, b))(x, s), axis=0)   # d/dx_t (rows) d/dx_{t-1} (columns)
        d22 = -jnp.mean(jax.vmap(lambda a, b: h(lt, 0, 0, a, b))(x, s), axis=0) - jnp.mean(jax.vmap(lambda a, b: h(ll, 1, 1, a, b))(y, x), axis=0)
        J = d22 - d21 @ jnp.linalg.inv(J + d11) @ d21.T
        return J, J
    return jax.lax.scan(step, j0, (ys, xs[1:], xs[:T]))[1]


# ---- brute force
def bf(pred, lik, p0, xs, ys):
    dx = xs[1:] - xs[:-1]

    def integral(f):
        return jnp.sum((f[1:] + f[:-1]) / 2 * dx)

    def step(p, y):
        q = lik(y, xs) * pred(p, integral)
        q = q / integral(q)
        return q, q
    return jax.lax.scan(step, p0, ys)[1]


def bf_chapman(mean_sd, xs, n):
    """mean_sd: state -> (mean, standard deviation)"""
    m, s = mean_sd(xs)

    def pred(p, integral):
        for _ in range(n):
            p = jax.vmap(lambda x: integral(p * jnp.exp(-(x - m) ** 2 / (2 * s ** 2)) / (s * jnp.sqrt(2 * math.pi))))(xs)
        return p
    return pred


def bf_kolmogorov(drift, disp, xs, n, ddt):
    h = xs[1] - xs[0]

    def gradient(p):
        k = p.shape[0]
        inner = (p[2:] - p[:k - 2]) / (2 * h)
        return jnp.concatenate([(p[1:2] - p[0:1]) / h, inner, (p[k - 1:] - p[k - 2:k - 1]) / h])

    f0, f1 = drift(xs), jax.vmap(jax.grad(drift))(xs)
    g = lambda x: disp(x) * disp(x)
    g0, g1, g2 = g(xs), jax.vmap(jax.grad(g))(xs), jax.vmap(jax.grad(jax.grad(g)))(xs)

    def pred(p, integral):
        for _ in range(n):
            d1 = gradient(p)
            d2 = gradient(d1)
            p = p + ddt * (-f1 * p - f0 * d1 + 0.5 * (g2 * p + 2 * g1 * d1 + g0 * d2))
        return p
    return pred


# ---- linear SDE: Van Loan's block exponential
def lti(A, B, dt):
    d = A.shape[0]
    M = jnp.concatenate([jnp.concatenate([-A, B @ B.T], axis=1), jnp.concatenate([jnp.zeros((d, d)), A.T], axis=1)], axis=0)
    E = jax.scipy.linalg.expm(M * dt)
    F = E[d:, d:].T
    return F, F @ E[:d, d:]
