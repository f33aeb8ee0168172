from common import *
from fake import *
from gpcm.normal import NaturalNormal
import jax


def avg2(f, mu, S):
    """Exact average of a quadratic function under N(mu, S)."""
    L = np.linalg.cholesky(S) * np.sqrt(len(mu))
    return np.mean([f(mu + s * L[:, k]) for k in range(len(mu)) for s in (1, -1)])


def setq(a, r, n_u, n_z):
    mu, S = r.randn(n_u), pdm(r, n_u, 0.2, 1.0)
    mz, Sz = r.randn(n_z), pdm(r, n_z, 0.2, 1.0)
    a.q_u = NaturalNormal(jnp.array(np.linalg.solve(S, mu)[:, None]), jnp.array(np.linalg.inv(S)))
    a.q_z = NaturalNormal(jnp.array(np.linalg.solve(Sz, mz)[:, None]), jnp.array(np.linalg.inv(Sz)))
    return mu, S, mz, Sz


def build(k, scheme, r):
    n_u, n_z = [(3, 2), (1, 1), (2, 4), (1, 3), (4, 1)][k % 5]
    n = [5, 1, 2, 9][k % 4]
    mat = ["dense", "lowrank", "plain"][k % 3]
    d = make(r, n_u, n_z, mat=mat, noise=[None, 1e-2, 10.0][k % 3])
    t, y = np.sort(r.uniform(0, 5, n)), r.randn(n) * [1, 3, 0][k % 3]
    m = Fake(scheme, d)()
    return d, t, y, m, n_u, n_z


def prior(steps, d, old):
    if not steps:
        return (np.zeros(d.n_u), np.linalg.inv(d.K_u), np.zeros(d.n_z), np.linalg.inv(d.K_z))
    return old


def value(el):
    if isinstance(el, tuple):
        el = el[-1]
    return float(np.asarray(el))


def mf(k):
    r = rng("c08mf", k)
    d, t, y, m, n_u, n_z = build(k, "mean-field-ca", r)
    old = None
    for steps in range(3 if k % 2 else 2):
        a = m.approximation
        if steps:
            m = m.condition(t, y)
            m = m() if not m.instantiated else m
            a = m.approximation
        cur = setq(a, r, n_u, n_z)
        pu, Pu, pz, Pz = prior(steps, d, old)
        st = B.create_random_state(jnp.float64, seed=0)

        def obj(mu, S, mz, Sz):
            e = avg2(lambda u: avg2(lambda z: exp_loglik(d, t, y, u, z), mz, Sz), mu, S)
            return e - kl_normal(mu, S, pu, Pu) - kl_normal(mz, Sz, pz, Pz)

        def nt(mu, S):
            return NaturalNormal(jnp.array(np.linalg.solve(S, mu)[:, None]), jnp.array(np.linalg.inv(S)))
        mu, S, mz, Sz = cur
        ref = obj(*cur)
        close(f"elbo after {steps} steps", value(a.elbo(st, t, y)), ref, 1e-7)
        close("elbo, global state", value(m.elbo(t, y)), ref, 1e-7)
        if steps == 0:
            ts = a.construct_terms(t, y)
            q = a.q_z_optimal_mean_field(ts, nt(mu, S))
            rz = obj(mu, S, dn(q.mean).ravel(), dn(q.var))
            close("elbo collapsed over z", value(a.elbo(st, t, y, collapsed="z")), rz, 1e-7)
            q = a.q_u_optimal_mean_field(ts, nt(mz, Sz))
            ru = obj(dn(q.mean).ravel(), dn(q.var), mz, Sz)
            close("elbo collapsed over u", value(a.elbo(st, t, y, collapsed="u")), ru, 1e-7)
            true("collapsing improves", rz >= ref - 1e-8 * (1 + abs(ref)) and ru >= ref - 1e-8 * (1 + abs(ref)))
        raises("bad option", Exception, lambda: a.elbo(st, t, y, collapsed="x"))
        old = cur


def log_marg(d, t, y, u):
    """log of the integral of prior(z) times exponentiated expected log-likelihood."""
    f0 = exp_loglik(d, t, y, u, np.zeros(d.n_z))
    g = np.zeros(d.n_z)
    H = np.zeros((d.n_z, d.n_z))
    for (A, Bz, c, I), yy in zip(terms(d, t), y):
        g += yy * (I.T @ u) / d.noise
        H += (Bz + np.outer(I.T @ u, I.T @ u)) / d.noise
    P = d.K_z + H
    return f0 + 0.5 * np.linalg.slogdet(d.K_z)[1] - 0.5 * np.linalg.slogdet(P)[1] + 0.5 * g @ np.linalg.solve(P, g)


def quad_marg(d, t, y, u):
    """The same by numerical integration (one-dimensional z)."""
    from scipy.integrate import quad
    c = log_marg(d, t, y, u)
    f = lambda z: np.exp(exp_loglik(d, t, y, u, np.array([z])) + logp0(d.K_z, np.array([z])) - c)
    P = d.K_z[0, 0] + sum((x[1][0, 0] + (x[3].T @ u)[0] ** 2) for x in terms(d, t)) / d.noise
    mu = sum(yy * (x[3].T @ u)[0] for x, yy in zip(terms(d, t), y)) / d.noise / P
    return c + np.log(quad(f, mu - 12 / np.sqrt(P), mu + 12 / np.sqrt(P), limit=200, points=[mu])[0])


def st(k):
    r = rng("c08st", k)
    d, t, y, m, n_u, n_z = build(k, "structured", r)
    old = None
    for steps in range(2):
        a = m.approximation
        if steps:
            m = m.condition(t, y)
            m = m() if not m.instantiated else m
            a = m.approximation
        mu, S, mz, Sz = cur = setq(a, r, n_u, n_z)
        pu, Pu, _, _ = prior(steps, d, old)
        ts = a.construct_terms(t, y)
        for _ in range(2):
            u = r.randn(n_u)
            ref = log_marg(d, t, y, u)
            if n_z == 1:
                close("reference", quad_marg(d, t, y, u), ref, 1e-6)
            close("log marginal", float(np.asarray(a.log_Z_u(ts, jnp.array(u[:, None])))), ref, 1e-7)
        state = B.create_random_state(jnp.float64, seed=3)
        num = 4
        # which samples were used is observed through the noise of the same state
        _, us = a.q_u.sample(state, num)
        us = dn(us)
        got = value(a.elbo_collapsed_z(state, t, y, num_samples=num))
        ref = np.mean([log_marg(d, t, y, us[:, i]) for i in range(num)]) - kl_normal(mu, S, pu, Pu)
        close(f"collapsed elbo after {steps} steps", got, ref, 1e-7)
        u0, z0 = r.randn(n_u, 1), r.randn(n_z, 1)
        for ns in (1, 2, 4, 8):
            o = a.elbo_gibbs(state, t, y, jnp.array(u0), jnp.array(z0), num_samples=ns)
            uu = dn(o[2]).ravel()
            lp = 0.5 * -len(uu) * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(Pu)[1] - 0.5 * (uu - pu) @ np.linalg.solve(Pu, uu - pu)
            close(f"Gibbs elbo after {steps} steps and {ns} sweeps", float(np.asarray(o[1])), log_marg(d, t, y, uu) + lp, 1e-7)
        out = a.elbo_gibbs(state, t, y, jnp.array(u0), jnp.array(z0), num_samples=3)
        _, el, u, z = out
        u = dn(u).ravel()
        lp = 0.5 * -len(u) * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(Pu)[1] - 0.5 * (u - pu) @ np.linalg.solve(Pu, u - pu)
        close(f"Gibbs elbo after {steps} steps", float(np.asarray(el)), log_marg(d, t, y, u) + lp, 1e-7)
        true("sample shapes", dn(out[2]).shape == (n_u, 1) and dn(out[3]).shape == (n_z, 1))
        true("moved", not np.allclose(u, u0.ravel()))
        old = cur


N = 30 if THOROUGH else 6
for k in range(N):
    case(f"mean-field[{k}]", lambda: mf(k), dict(k=k), kind=f"mf{k}")
    case(f"structured[{k}]", lambda: st(k), dict(k=k), kind=f"st{k}")


def est():
    """The structured objective fits a mean-field solution first and averages over its samples."""
    r = rng("c08est")
    d, t, y, m, n_u, n_z = build(0, "structured", r)
    a = m.approximation
    state = B.create_random_state(jnp.float64, seed=5)
    got = value(a.elbo(state, t, y, num_samples=5))
    mu, S = dn(a.q_u.mean).ravel(), dn(a.q_u.var)
    _, us = a.q_u.sample(state, 5)
    us = dn(us)
    ref = np.mean([log_marg(d, t, y, us[:, i]) for i in range(5)]) - kl_normal(mu, S, np.zeros(n_u), np.linalg.inv(d.K_u))
    close("structured elbo", got, ref, 1e-7)
    # the fit: mean-field fixed point
    ts = a.construct_terms(t, y)
    q = a.q_u_optimal_mean_field(ts, a.q_z)
    close("fixed point", dn(q.mean).ravel(), mu, 1e-3)


case("structured-elbo", est, {}, kind="est")
done("models with arbitrary integrals and priors before and after conditioning; exact averages by sigma points; log marginal by completing the square and by quadrature")
