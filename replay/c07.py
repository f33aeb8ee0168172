from common import *
from fake import *
from gpcm.normal import NaturalNormal


def nat(f, n):
    """Natural parameters of the density proportional to exp(f), f quadratic."""
    _, g, H = quad_of(f, n)
    return g, -H


def check(what, q, lam, prec):
    close(what + " precision", dn(q.prec), prec, 1e-7)
    close(what + " lam", dn(q.lam).ravel(), lam, 1e-7)
    m = np.linalg.solve(prec, lam)
    close(what + " mean", dn(q.mean).ravel(), m, 1e-6)


def one(k):
    r = rng("c07", k)
    n_u, n_z = [(3, 2), (1, 1), (2, 4), (1, 3), (4, 1), (5, 5)][k % 6]
    n = [5, 1, 2, 9][k % 4]
    mat = ["dense", "lowrank", "plain"][k % 3]
    scheme = ["structured", "mean-field-ca"][k % 2]
    d = make(r, n_u, n_z, mat=mat, noise=[None, 1e-2, 10.0][k % 3])
    t, y = np.sort(r.uniform(0, 5, n)), r.randn(n) * [1, 3, 0][k % 3]
    m = Fake(scheme, d)()
    a = m.approximation
    ts = a.construct_terms(t, y)
    for rep in range(2):
        z = r.randn(n_z, 1) * [1, 5][rep]
        u = r.randn(n_u, 1) * [1, 5][rep]
        lam, prec = nat(lambda x: exp_loglik(d, t, y, x, z.ravel()) - 0.5 * x @ d.K_u @ x, n_u)
        check("q(u|z)", a.q_u_optimal(ts, jnp.array(z)), lam, prec)
        lam, prec = nat(lambda x: exp_loglik(d, t, y, u.ravel(), x) - 0.5 * x @ d.K_z @ x, n_z)
        check("q(z|u)", a.q_z_optimal(ts, jnp.array(u)), lam, prec)
    # mean field: average over the other factor, by exact quadrature over sigma points
    S, mu = pdm(r, n_z), r.randn(n_z)
    lam, prec = nat(lambda x: avg(lambda z: exp_loglik(d, t, y, x, z), mu, S) - 0.5 * x @ d.K_u @ x, n_u)
    qz = NaturalNormal(jnp.array(np.linalg.solve(S, mu)[:, None]), jnp.array(np.linalg.inv(S)))
    check("mean-field q(u)", a.q_u_optimal_mean_field(ts, qz), lam, prec)
    S, mu = pdm(r, n_u), r.randn(n_u)
    lam, prec = nat(lambda x: avg(lambda u: exp_loglik(d, t, y, u, x), mu, S) - 0.5 * x @ d.K_z @ x, n_z)
    qu = NaturalNormal(jnp.array(np.linalg.solve(S, mu)[:, None]), jnp.array(np.linalg.inv(S)))
    check("mean-field q(z)", a.q_z_optimal_mean_field(ts, qu), lam, prec)


def avg(f, mu, S):
    """Exact average of a quadratic function under N(mu, S)."""
    L = np.linalg.cholesky(S) * np.sqrt(len(mu))
    return np.mean([f(mu + s * L[:, k]) for k in range(len(mu)) for s in (1, -1)])


for k in range(36 if THOROUGH else 9):
    case(f"conditionals[{k}]", lambda: one(k), dict(k=k), kind=f"c{k}")


def real(kind):
    from gpcm import GPCM, CGPCM, RGPCM
    r = rng("c07real", kind)
    t = np.linspace(0, 4, 7)
    y = r.randn(7)
    M = {"gpcm": GPCM, "cgpcm": CGPCM, "rgpcm": RGPCM}[kind]
    kw = dict(window=2, scale=1, noise=0.3, n_u=4, n_z=5, t=t) if kind != "rgpcm" else dict(window=2, scale=1, noise=0.3, n_u=4, m_max=3, t=t)
    m = M(scheme="structured", **kw)()
    a = m.approximation
    ts = a.construct_terms(t, y)
    K_u, K_z = dn(m.K_u), dn(m.K_z)
    trm = gterms(np.linalg.inv(K_u), np.linalg.inv(K_z), dn(m.compute_i_hx(t, t)), dn(m.compute_I_ux()), dn(m.compute_I_hz(t)), dn(m.compute_I_uz(t)))
    n_u, n_z = len(K_u), len(K_z)
    z, u = r.randn(n_z), r.randn(n_u)
    s = 0.3
    P = K_u + sum(A + np.outer(I @ z, I @ z) for A, _, _, I in trm) / s
    close("prec u", dn(a.q_u_optimal(ts, jnp.array(z[:, None])).prec), P, 1e-6)
    close("lam u", dn(a.q_u_optimal(ts, jnp.array(z[:, None])).lam).ravel(), sum(yy * (x[3] @ z) for yy, x in zip(y, trm)) / s, 1e-6)
    P = K_z + sum(x[1] + np.outer(x[3].T @ u, x[3].T @ u) for x in trm) / s
    close("prec z", dn(a.q_z_optimal(ts, jnp.array(u[:, None])).prec), P, 1e-6)
    close("lam z", dn(a.q_z_optimal(ts, jnp.array(u[:, None])).lam).ravel(), sum(yy * (x[3].T @ u) for yy, x in zip(y, trm)) / s, 1e-6)


for kind in ("gpcm", "cgpcm", "rgpcm"):
    case(f"model[{kind}]", lambda: real(kind), dict(model=kind), kind="real" + kind)
done("models with arbitrary integrals and priors (dense, plain and Woodbury matrices); the conditional is read off the exponentiated expected log-likelihood by exact differences; also the three shipped models")
