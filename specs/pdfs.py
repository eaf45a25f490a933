"""Reference density expansions (x scalar)."""
import math
import jax
import jax.numpy as jnp
from specs.moments1d import hermite, legendre, trapezoid


def gram_charlier(kappa, bells, xs):
    """normal density times sum_j B_j(0, 0, k_3, ..) / (j! sigma^j) He_j((x - mu)/sigma)"""
    K = kappa.shape[0]
    mu, var = kappa[0], kappa[1]
    sd = jnp.sqrt(var)
    u = (xs - mu) / sd
    tot = 0.
    for j in range(K + 1):
        tot = tot + bells[j] / math.factorial(j) / sd ** j * hermite(j, u)
    return jnp.exp(-u * u / 2) / (sd * jnp.sqrt(2 * math.pi)) * tot


def legendre_expansion(rms, a, b, xs):
    """sum_k (2k+1)/(b-a) E[P_k(U)] P_k(u),  U = (2X - a - b)/(b - a)"""
    K = rms.shape[0]
    um = [sum(math.comb(n, j) * 2 ** j * rms[j] * (-(a + b)) ** (n - j) for j in range(n + 1)) / (b - a) ** n for n in range(K)]
    u = (2 * xs - a - b) / (b - a)
    tot = 0. * xs
    for k in range(K):
        # coefficients of P_k by the recurrence on coefficient lists
        p, q = [1.], [0., 1.]
        if k == 0:
            q = p
        for m in range(2, k + 1):
            r = [0.] + [(2 * m - 1) / m * v for v in q]
            r = [v - ((m - 1) / m * p[i] if i < len(p) else 0.) for i, v in enumerate(r)]
            p, q = q, r
        e = sum(v * um[i] for i, v in enumerate(q))
        tot = tot + (2 * k + 1) / (b - a) * e * legendre(k, u)
    return tot


def truncated_cgf(z, ms, mean, scale):
    return z * mean + jnp.log(sum(ms[n] * (z * scale) ** n / math.factorial(n) for n in range(ms.shape[0])))


def inverse_fourier(x, cfs, zs):
    return jnp.real(trapezoid(jnp.exp(-1j * x * zs) * cfs, zs)) / (2 * math.pi)


def characteristic_from_pdf(z, ps, xs):
    return trapezoid(jnp.exp(1j * z * xs) * ps, xs)


def saddle(sms, mean, scale, xs, which):
    """exp(K(s) - s x) / sqrt(2 pi K''(s)) at K'(s) = x; which = 'roots': z = s scale is the real root of
    (mean - x) M(z) + scale M'(z) nearest to (x - mean)/scale;
    which = 'recorded': the selection runs over the polynomial's coefficients (known finding)"""
    S = sms.shape[0]
    coef = [sms[n] / math.factorial(n) for n in range(S)]

    def M(z):
        return sum(coef[n] * z ** n for n in range(S))

    def M1(z):
        return sum(coef[n] * n * z ** (n - 1) for n in range(1, S))

    def M2(z):
        return sum(coef[n] * n * (n - 1) * z ** (n - 2) for n in range(2, S))

    def one(x):
        # descending powers of (mean - x) M + scale M'
        desc = [(mean - x) * coef[n] + (scale * (n + 1) * coef[n + 1] if n + 1 < S else 0.) for n in range(S)]
        p = jnp.array([desc[S - 1 - k] for k in range(S)])
        if which == 'roots':
            cand, guess = jnp.roots(p, strip_zeros=False), (x - mean) / scale
        else:
            cand, guess = p, (x - mean) / scale ** 2
        real = jnp.where(jnp.abs(cand.imag) < 1e-8, cand, jnp.inf)
        z = jnp.real(cand[jnp.argmin(jnp.abs(real - (jnp.array([guess]) + 0j)))])
        s = z / scale
        m = M(z)
        k2 = scale ** 2 * (M2(z) / m - (M1(z) / m) ** 2)
        return jnp.exp(s * mean + jnp.log(m) - s * x) / jnp.sqrt(2 * math.pi * k2)

    return jax.vmap(one)(xs)
