"""Reference formulas: moment representations, closed-form moments, cumulants, expansions."""
import math
import jax
import jax.numpy as jnp


def raw_to_central(rms):
    s = rms.shape[0]
    return jnp.array([sum(math.comb(n, j) * rms[j] * (-rms[1]) ** (n - j) for j in range(n + 1)) for n in range(s)])


def central_to_raw(cms, mean):
    s = cms.shape[0]
    return jnp.array([sum(math.comb(n, j) * cms[j] * mean ** (n - j) for j in range(n + 1)) for n in range(s)])


def raw_to_scaled(rms, scale):
    c = raw_to_central(rms)
    return jnp.array([c[n] / scale ** n for n in range(rms.shape[0])])


def scaled_to_central(sms, scale):
    return jnp.array([sms[n] * scale ** n for n in range(sms.shape[0])])


def cumulants(cms, mean):
    """kappa_n = mu_n - sum_{m=1}^{n-1} C(n-1, m-1) kappa_m mu_{n-m} about the mean (kappa_1 = 0 there)"""
    N = cms.shape[0]
    k = [None, 0.]
    for n in range(2, N):
        k.append(cms[n] - sum(math.comb(n - 1, m - 1) * k[m] * cms[n - m] for m in range(1, n)))
    return jnp.array([mean] + k[2:])


def double_factorial(n):
    r = 1
    while n > 1:
        r = r * n
        n = n - 2
    return r


def normal_central(variance, p):
    if p % 2 == 1:
        return 0.
    return variance ** (p // 2) * double_factorial(p - 1)


def normal_raw(mean, variance, p):
    """E X^p by the recursion E X^p = mean E X^(p-1) + (p-1) variance E X^(p-2)"""
    a, b = 1., mean
    if p == 0:
        return a
    for q in range(2, p + 1):
        a, b = b, mean * b + (q - 1) * variance * a
    return b


def hermite(n, x):
    a, b = 1., x
    if n == 0:
        return a
    for q in range(2, n + 1):
        a, b = b, x * b - (q - 1) * a
    return b


def legendre(n, x):
    a, b = 1., x
    if n == 0:
        return a
    for q in range(2, n + 1):
        a, b = b, ((2 * q - 1) * x * b - (q - 1) * a) / q
    return b


def characteristic_fn(z, ms, mean, scale):
    from specs.onedim import quadrature
    w, x = quadrature(ms, mean, scale, False)
    return jnp.sum(w * jnp.exp(1j * z * x))


def trapezoid(f, x):
    return jnp.sum((x[1:] - x[:-1]) * (f[1:] + f[:-1]) / 2)


def golub_welsch(sms, mean, scale):
    """rule with n - 1 nodes from the n x n moment matrix"""
    n = sms.shape[0] // 2
    i = jnp.arange(n - 1)
    G = sms[i[:, None] + i[None, :]]
    H = sms[i[:, None] + i[None, :] + 1]
    Li = jnp.linalg.inv(jnp.linalg.cholesky(G))
    vals, vecs = jnp.linalg.eigh(Li @ H @ Li.T)
    return vecs[0, :] ** 2, mean + scale * vals
