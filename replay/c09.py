from common import *
from fake import *
from gpcm.normal import NaturalNormal


def post(r, n):
    mu, S = r.randn(n), pdm(r, n, 0.2, 1.0)
    return mu, S, NaturalNormal(jnp.array(np.linalg.solve(S, mu)[:, None]), jnp.array(np.linalg.inv(S)))


def ref_from_m2(d, t, mu, u2, mz, z2):
    """Predictive moments for independent factors with given first and second moments."""
    m1, m2 = [], []
    for A, Bz, c, I in terms(d, t):
        m1.append(mu @ I @ mz)
        m2.append(np.sum(A * u2) + np.sum(Bz * z2) + c + np.einsum("ij,kl,ik,jl->", I, I, u2, z2))
    m1, m2 = np.array(m1), np.array(m2)
    return m1, m2 - m1 ** 2 + d.noise


def build(k, scheme, r):
    n_u, n_z = [(3, 2), (1, 1), (2, 4), (1, 3), (4, 1)][k % 5]
    mat = ["dense", "lowrank", "plain"][k % 3]
    d = make(r, n_u, n_z, mat=mat, noise=[None, 1e-2, 10.0][k % 3])
    n = [5, 1, 2, 9][k % 4]
    t, y = np.sort(r.uniform(0, 5, n)), r.randn(n) * 3
    t2 = np.sort(r.uniform(-1, 6, [4, 7, 1][k % 3]))
    return d, t, y, t2, Fake(scheme, d)(), n_u, n_z


def cond(m, t, y):
    m = m.condition(t, y)
    return m if m.instantiated else m()


def out(p):
    m, v = p
    return dn(m), dn(v)


def mf(k):
    r = rng("c09mf", k)
    d, t, y, t2, m, n_u, n_z = build(k, "mean-field-ca", r)
    m1, v = out(m.predict(t2))
    rm, rv = ref_from_m2(d, t2, np.zeros(n_u), np.linalg.inv(d.K_u), np.zeros(n_z), np.linalg.inv(d.K_z))
    close("mean before conditioning", m1, rm, 1e-7)
    close("variance before conditioning", v, rv, 1e-7)
    for step in range(2):
        mu, S, qu = post(r, n_u)
        mz, Sz, qz = post(r, n_z)
        m.approximation.q_u, m.approximation.q_z = qu, qz
        m = cond(m, t, y)
        # storing a newer posterior does not change the prediction
        m.approximation.q_u, m.approximation.q_z = post(r, n_u)[2], post(r, n_z)[2]
        m1, v = out(m.predict(t2))
        rm, rv = ref_from_m2(d, t2, mu, S + np.outer(mu, mu), mz, Sz + np.outer(mz, mz))
        close(f"mean after {step + 1} steps", m1, rm, 1e-7)
        close(f"variance after {step + 1} steps", v, rv, 1e-7)
        a, b = [dn(x) for x in m.approximation.predict_z()]
        close("feature means", a, mz, 1e-7)
        close("feature variances", b, np.diag(Sz), 1e-7)


def st(k):
    r = rng("c09st", k)
    d, t, y, t2, m, n_u, n_z = build(k, "structured", r)
    N = [6, 3, 1, 4][k % 4]
    iz = np.linalg.inv(d.K_z)
    m1, v = out(m.predict(t2, num_samples=50))
    close("mean before conditioning", m1, np.zeros(len(t2)), atol=1e-7)
    # the variance is affine in the average of u u'; for one filter variable it is that of the samples
    sv = []
    for A, Bz, c, I in terms(d, t2):
        sv.append((A + I @ iz @ I.T, np.sum(Bz * iz) + c))
    if n_u == 1:
        q = [(x - d.noise - b) / a[0, 0] for x, (a, b) in zip(v, sv)]
        close("variance before conditioning", np.array(q), np.full(len(q), q[0]), 1e-6)
        true("variance of the samples", 0.2 < q[0] * d.K_u[0, 0] < 2.5)
    for step in range(2):
        us = [r.randn(n_u, 1) for _ in range(N)]
        zs = [r.randn(n_z, 1) for _ in range(N)]
        m.approximation.q_u_samples = [jnp.array(u) for u in us]
        m.approximation.q_z_samples = [jnp.array(z) for z in zs]
        m = cond(m, t, y)
        M1, M2 = [], []
        for u in us:
            u = u.ravel()
            P = d.K_z + sum(x[1] + np.outer(x[3].T @ u, x[3].T @ u) for x in terms(d, t)) / d.noise
            S = np.linalg.inv(P)
            mz = S @ sum(yy * (x[3].T @ u) for x, yy in zip(terms(d, t), y)) / d.noise
            z2 = S + np.outer(mz, mz)
            a, b = [], []
            for A, Bz, c, I in terms(d, t2):
                a.append(u @ I @ mz)
                b.append(u @ A @ u + np.sum(Bz * z2) + c + u @ I @ z2 @ I.T @ u)
            M1.append(a)
            M2.append(b)
        rm = np.mean(M1, 0)
        rv = np.mean(M2, 0) - rm ** 2 + d.noise
        m1, v = out(m.predict(t2))
        close(f"mean after {step + 1} steps", m1, rm, 1e-7)
        close(f"variance after {step + 1} steps", v, rv, 1e-7)
        rm = np.mean(M1[:2], 0)
        m1, v = out(m.predict(t2, num_samples=2))
        close("limited number of samples", m1, rm, 1e-7)
        close("variance, limited number of samples", v, np.mean(M2[:2], 0) - rm ** 2 + d.noise, 1e-7)
        a, b = [dn(x) for x in m.approximation.predict_z()]
        Z = np.concatenate(zs, 1)
        close("feature means", a, Z.mean(1), 1e-7)
        close("feature variances", b, Z.var(1), 1e-7)


def simulate(k):
    """Average by simulation of an actual Gaussian model (the moments themselves)."""
    r = rng("c09sim", k)
    d, t, y, t2, m, n_u, n_z = build(k, "mean-field-ca", r)
    mu, S, qu = post(r, n_u)
    mz, Sz, qz = post(r, n_z)
    m.approximation.q_u, m.approximation.q_z = qu, qz
    m = cond(m, t, y)
    m1, v = out(m.predict(t2))
    U = mu + r.randn(4000, n_u) @ np.linalg.cholesky(S).T
    Z = mz + r.randn(4000, n_z) @ np.linalg.cholesky(Sz).T
    for q, (A, Bz, c, I) in enumerate(terms(d, t2)):
        f = np.einsum("ni,ij,nj->n", U, I, Z)
        s = f ** 2 + np.einsum("ni,ij,nj->n", U, A, U) + np.einsum("ni,ij,nj->n", Z, Bz, Z) + c
        true(f"mean {m1[q]} {f.mean()}", abs(m1[q] - f.mean()) < 7 * f.std() / 63)
        true(f"second moment", abs(v[q] - d.noise + m1[q] ** 2 - s.mean()) < 7 * s.std() / 63)


def real(kind):
    from gpcm import GPCM, CGPCM, RGPCM
    r = rng("c09real", kind)
    t = np.linspace(0, 4, 6)
    M = {"gpcm": GPCM, "cgpcm": CGPCM, "rgpcm": RGPCM}[kind]
    kw = dict(window=2, scale=1, noise=0.3, n_u=4, t=t)
    kw.update(dict(n_z=5) if kind != "rgpcm" else dict(m_max=3))
    m = M(scheme="mean-field-ca", **kw)()
    m1, v = out(m.predict(t))
    close("mean of the prior", m1, np.zeros(6), atol=1e-8)
    close("variance of the prior", v, np.asarray(m.compute_i_hx(t, t)) * np.ones(6) + 0.3, 1e-6)


N = 20 if THOROUGH else 5
for k in range(N):
    case(f"mean-field[{k}]", lambda: mf(k), dict(k=k), kind=f"mf{k}")
    case(f"structured[{k}]", lambda: st(k), dict(k=k), kind=f"st{k}")
    if k < 2 or THOROUGH:
        case(f"simulate[{k}]", lambda: simulate(k), dict(k=k), kind=f"sim{k}")
for kind in ("gpcm", "cgpcm", "rgpcm"):
    case(f"model[{kind}]", lambda: real(kind), dict(model=kind), kind="real" + kind)
done("models with arbitrary integrals and priors, before and after one and two conditioning steps, both schemes")
