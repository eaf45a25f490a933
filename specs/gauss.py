"""Reference Gaussian filters and smoothers."""
import math
import jax
import jax.numpy as jnp


def nlpdf(r, S):
    """negative log density of N(0, S) at r"""
    d = r.shape[0]
    return 0.5 * (jnp.sum(r * (jnp.linalg.inv(S) @ r)) + d * jnp.log(2 * math.pi)) + jnp.sum(jnp.log(jnp.diagonal(jnp.linalg.cholesky(S))))


def correct(m, P, r, S, C):
    """condition on residual r with covariance S and cross covariance C = cov(x, y)"""
    K = C @ jnp.linalg.inv(S)
    return m + K @ r, P - K @ S @ K.T, nlpdf(r, S)


def run(predict, update, m0, v0, ys):
    def step(carry, y):
        m, P, nell = carry
        m, P = predict(m, P)
        m, P, inc = update(m, P, y)
        return (m, P, nell + inc), (m, P, nell + inc)

    _, out = jax.lax.scan(step, (m0, v0, 0.), ys)
    return out


def smooth(back, mfs, vfs):
    T = mfs.shape[0]

    def step(carry, e):
        m, P = back(e[0], e[1], carry[0], carry[1])
        return (m, P), (m, P)

    _, (ms, Ps) = jax.lax.scan(step, (mfs[T - 1], vfs[T - 1]), (mfs[:T - 1], vfs[:T - 1]), reverse=True)
    return jnp.concatenate([ms, mfs[T - 1:]], axis=0), jnp.concatenate([Ps, vfs[T - 1:]], axis=0)


def lin_update(H, R):
    def update(m, P, y):
        return correct(m, P, y - H @ m, H @ P @ H.T + R, P @ H.T)
    return update


def kf(F, Q, H, R, m0, v0, ys):
    return run(lambda m, P: (F @ m, F @ P @ F.T + Q), lin_update(H, R), m0, v0, ys)


def rts_step(D, mf, vf, mp, vp, ms, vs):
    """D = cov(x_k, x_{k+1})"""
    G = D @ jnp.linalg.inv(vp)
    return mf + G @ (ms - mp), vf + G @ (vs - vp) @ G.T


def rts(F, Q, mfs, vfs):
    return smooth(lambda mf, vf, ms, vs: rts_step(vf @ F.T, mf, vf, F @ mf, F @ vf @ F.T + Q, ms, vs), mfs, vfs)


def ekf_update(meas):
    def update(m, P, y):
        h, R = meas(m)
        H = jax.jacfwd(lambda u: meas(u)[0])(m)
        return correct(m, P, y - h, H @ P @ H.T + R, P @ H.T)
    return update


def ekf(trans, meas, m0, v0, dt, ys):
    def predict(m, P):
        f, Q = trans(m, dt)
        J = jax.jacfwd(lambda u: trans(u, dt)[0])(m)
        return f, J @ P @ J.T + Q
    return run(predict, ekf_update(meas), m0, v0, ys)


def eks(trans, mfs, vfs, dt):
    def back(mf, vf, ms, vs):
        f, Q = trans(mf, dt)
        J = jax.jacfwd(lambda u: trans(u, dt)[0])(mf)
        return rts_step(vf @ J.T, mf, vf, f, J @ vf @ J.T + Q, ms, vs)
    return smooth(back, mfs, vfs)


def rk4(f, m, P, h):
    a, A = f(m, P)
    b, B = f(m + h / 2 * a, P + h / 2 * A)
    c, C = f(m + h / 2 * b, P + h / 2 * B)
    d, D = f(m + h * c, P + h * C)
    return m + h / 6 * (a + 2 * b + 2 * c + d), P + h / 6 * (A + 2 * B + 2 * C + D)


def cd_ekf(drift, disp, meas, m0, v0, dt, ys):
    def ode(m, P):
        J = jax.jacfwd(drift)(m)
        L = disp(m)
        return drift(m), J @ P + P @ J.T + L @ L.T
    return run(lambda m, P: rk4(ode, m, P, dt), ekf_update(meas), m0, v0, ys)


def cd_eks(drift, disp, mfs, vfs, dt):
    def back(mf, vf, ms, vs):
        def ode(m, P):
            J = jax.jacfwd(drift)(m)
            Q = disp(m) @ disp(m).T
            A = J + Q @ jnp.linalg.inv(vf)
            return drift(m) + Q @ jnp.linalg.inv(vf) @ (m - mf), A @ P + P @ A.T - Q
        return rk4(ode, ms, vs, -dt)
    return smooth(back, mfs, vfs)


def points(sg, m, P):
    L = jnp.linalg.cholesky(P)
    return m[None, :] + sg.xi @ L.T


def sg_predict(trans, sg, dt):
    def predict(m, P):
        X = points(sg, m, P)
        f, Q = jax.vmap(lambda x: trans(x, dt))(X)
        mp = sg.w @ f
        vp = jnp.einsum('i,ij,ik->jk', sg.w, f - mp, f - mp) + jnp.einsum('i,ijk->jk', sg.w, Q)
        return mp, vp
    return predict


def sg_update(meas, sg, const):
    def update(m, P, y):
        X = points(sg, m, P)
        h, R = jax.vmap(meas)(X)
        hp = sg.w @ h
        S = jnp.einsum('i,ij,ik->jk', sg.w, h, h) - jnp.outer(hp, hp)
        if const:
            S = S + R[0]
        else:
            S = S + jnp.einsum('i,ijk->jk', sg.w, R)
        C = jnp.einsum('i,ij,ik->jk', sg.w, X, h) - jnp.outer(m, hp)
        return correct(m, P, y - hp, S, C)
    return update


def sgp_filter(trans, meas, sg, m0, v0, dt, ys, const):
    def predict(m, P):
        X = points(sg, m, P)
        f, Q = jax.vmap(lambda x: trans(x, dt))(X)
        mp = sg.w @ f
        vp = jnp.einsum('i,ij,ik->jk', sg.w, f, f) + jnp.einsum('i,ijk->jk', sg.w, Q) - jnp.outer(mp, mp)
        return mp, vp
    return run(predict, sg_update(meas, sg, const), m0, v0, ys)


def sgp_smoother(trans, sg, mfs, vfs, dt):
    def back(mf, vf, ms, vs):
        X = points(sg, mf, vf)
        f, Q = jax.vmap(lambda x: trans(x, dt))(X)
        mp = sg.w @ f
        vp = jnp.einsum('i,ij,ik->jk', sg.w, f, f) + jnp.einsum('i,ijk->jk', sg.w, Q) - jnp.outer(mp, mp)
        D = jnp.einsum('i,ij,ik->jk', sg.w, X, f) - jnp.outer(mf, mp)
        return rts_step(D, mf, vf, mp, vp, ms, vs)
    return smooth(back, mfs, vfs)


def sg_ode(drift, L, sg, m, P):
    X = points(sg, m, P)
    f = jax.vmap(drift)(X)
    A = jnp.einsum('i,ij,ik->jk', sg.w, X - m[None, :], f)
    return sg.w @ f, A + A.T + L @ L.T


def cd_sgp_filter(drift, L, meas, sg, m0, v0, dt, ys, const):
    return run(lambda m, P: rk4(lambda a, b: sg_ode(drift, L, sg, a, b), m, P, dt), sg_update(meas, sg, const), m0, v0, ys)


def cd_sgp_smoother(drift, L, sg, mfs, vfs, dt):
    Q = L @ L.T

    def back(mf, vf, ms, vs):
        def ode(m, P):
            f, A = sg_ode(drift, L, sg, m, P)
            G = Q @ jnp.linalg.inv(vf)
            return f + G @ (m - mf), A + G @ P + P @ G.T - 2 * Q
        return rk4(ode, ms, vs, -dt)
    return smooth(back, mfs, vfs)
