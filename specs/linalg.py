import jax.numpy as jnp


def ldl(A):
    n = A.shape[0]
    idx = jnp.arange(n)
    L = jnp.zeros((n, n))
    d = jnp.zeros((n,))
    for j in range(n):
        # pivots and columns computed so far occupy columns < j; later columns of L and entries of d are zero
        dj = A[j, j] - jnp.sum(L[j, :] ** 2 * d)
        col = (A[:, j] - L @ (L[j, :] * d)) / dj
        d = jnp.where(idx == j, dj, d)
        L = jnp.where(idx[None, :] == j, jnp.where(idx > j, col, jnp.where(idx == j, 1., 0.))[:, None], L)
    return L, d


def ldl_chol(A):
    L, d = ldl(A)
    eps = 1e-8 * jnp.sqrt(jnp.sum(A ** 2))
    return L * jnp.where(d < 0, eps, jnp.sqrt(d))[None, :]
