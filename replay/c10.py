from common import *
from fake import *
from gpcm import GPCM, CGPCM, RGPCM
from gpcm.exppoly import var
from gpcm.normal import NaturalNormal


def build(k, r):
    n_u, n_z = [(3, 2), (1, 1), (2, 4), (5, 3), (4, 1)][k % 5]
    mat = ["dense", "lowrank", "plain"][k % 3]
    d = make(r, n_u, n_z, mat=mat, noise=[0.5, 4.0, 0.02][k % 3])
    return d, n_u, n_z


def full_ux(d, K):
    """An asymmetric dependence on both times."""
    pass


def kref(d, iu, t1, t2, u):
    I = np.asarray(d.f_ux(jnp.asarray(t1), jnp.asarray(t2)))
    h = np.asarray(d.f_hx(jnp.asarray(t1)[:, None], jnp.asarray(t2)[None, :]))
    return h - np.einsum("ij,abji->ab", iu, I) + np.einsum("i,abij,j->ab", iu @ u, I, iu @ u)


def approx(k):
    r = rng("c10", k)
    d, n_u, n_z = build(k, r)
    cx, cy = pdm(r, n_u), r.randn(n_u, n_u)
    d.f_ux = lambda a, b: jnp.cos(a + 0.3)[:, None, None, None] * jnp.sin(b - 0.2)[None, :, None, None] * jnp.array(cx)[None, None] + (a[:, None] - 2 * b[None, :])[:, :, None, None] * jnp.array(cy)[None, None]
    m = Fake("structured", d)()
    iu = np.linalg.inv(d.K_u)
    for n1, n2 in ((4, 3), (1, 5), (1, 1), (3, 3)):
        t1, t2 = r.uniform(-2, 2, n1), r.uniform(-2, 2, n2)
        for s in (1.0, 10.0, 0.0):
            u = s * r.randn(n_u)
            close("kernel approximation", dn(m.kernel_approx(t1, t2, u)), kref(d, iu, t1, t2, u), 1e-7)
    u = r.randn(n_u)
    # the argument is not the whitened variable
    close("same times", dn(m.kernel_approx(t1, t1, jnp.array(u))), kref(d, iu, t1, t1, u), 1e-7)


def kernel_samples(k):
    r = rng("c10k", k)
    d, n_u, n_z = build(k, r)
    iu = np.linalg.inv(d.K_u)
    m = Fake("structured", d)()
    us = [r.randn(n_u, 1) for _ in range(5)]
    m.approximation.q_u_samples = [jnp.array(u) for u in us]
    m.approximation.q_z_samples = [jnp.array(r.randn(n_z, 1)) for _ in range(5)]
    t, y = np.arange(3.0), r.randn(3)
    m = m.condition(t, y)
    m = m if m.instantiated else m()
    tk = np.linspace(0, 3, 6) + (k % 2) * 0.5
    ref = np.array([kref(d, iu, tk, np.zeros(1), d.K_u @ u.ravel())[:, 0] for u in us])
    a, ks = m.sample_kernel(tk, num_samples=5)
    close("lags", np.asarray(a), tk, 1e-12)
    close("kernel samples", dn(ks), ref, 1e-7)
    a, ks = m.sample_kernel(t_k=tk, num_samples=3)
    close("fewer kernel samples", dn(ks), ref[:3], 1e-7)
    a, ks = m.sample_kernel(tk)
    close("all kernel samples", dn(ks), ref, 1e-7)
    a, ks = m.sample_kernel()
    close("default lags", np.asarray(a), np.linspace(0, m.extent, 300), 1e-9)
    p = m.predict_kernel(tk, num_samples=5)
    close("kernel mean", np.asarray(p.mean), ref.mean(0), 1e-7)
    close("kernel samples of the summary", np.sort(np.asarray(p.all_samples), 1), np.sort(ref.T, 1), 1e-7)


def kernel_samples_mf(k):
    """Moments of the kernel samples before and after conditioning."""
    r = rng("c10m", k)
    d, n_u, n_z = build(k, r)
    iu = np.linalg.inv(d.K_u)
    m = Fake(["mean-field-ca", "structured"][k % 2], d)()
    tk = np.array([0.0, 1.0, 2.5])
    N = 1500

    def check(what, mu, S):
        _, ks = m.sample_kernel(tk, num_samples=N)
        ks = dn(ks)
        true(what + " shape", ks.shape == (N, 3))
        I = np.asarray(d.f_ux(jnp.asarray(tk), jnp.zeros(1)))[:, 0]
        h = np.asarray(d.f_hx(jnp.asarray(tk), jnp.zeros(3)))
        U = mu + r.randn(200000, n_u) @ np.linalg.cholesky(S).T
        for j in range(3):
            q = np.einsum("ni,ij,nj->n", U, I[j], U)
            ref = h[j] - np.trace(iu @ I[j]) + q
            true(f"{what} mean {ks[:, j].mean()} {ref.mean()}", abs(ks[:, j].mean() - ref.mean()) < 7 * ref.std() / np.sqrt(N))
            qs = np.quantile(ref, [0.2, 0.5, 0.8])
            for a, p in zip(qs, [0.2, 0.5, 0.8]):
                true(f"{what} quantile {p}", abs(np.mean(ks[:, j] <= a) - p) < 7 * 0.5 / np.sqrt(N))
    B.set_random_seed(k)
    check("prior", np.zeros(n_u), iu)
    if k % 2 == 0:
        mu, S = r.randn(n_u), pdm(r, n_u, 0.1, 0.6)
        m.approximation.q_u = NaturalNormal(jnp.array(np.linalg.solve(S, mu)[:, None]), jnp.array(np.linalg.inv(S)))
        m.approximation.q_z
        m = m.condition(np.arange(3.0), np.arange(3.0))
        m = m if m.instantiated else m()
        check("posterior", mu, S)


def proj(K):
    K = (K + K.T) / 2
    w, v = np.linalg.eigh(K)
    return (v * np.maximum(w, 0)) @ v.T


def prior_sample(k):
    r = rng("c10s", k)
    d, n_u, n_z = build(k, r)
    norm = bool(k % 2)
    if norm:
        d.noise = 0.05
    cx = pdm(r, n_u, 1, 3)
    if norm:         # a kernel with a power far from one, so that normalising matters
        cx = cx * 6 / np.trace(np.linalg.inv(d.K_u) @ cx)
    d.f_ux = lambda a, b: jnp.exp(-0.3 * (a[:, None] - b[None, :]) ** 2)[:, :, None, None] * jnp.array(cx)[None, None]
    d.f_hx = lambda a, b: jnp.exp(-0.3 * (a - b) ** 2) * (0.2 + np.sum(np.linalg.inv(d.K_u) * cx))
    iu = np.linalg.inv(d.K_u)
    m = Fake("structured", d)
    t = np.array([0.0, 0.4, 1.5, 4.0])
    N = 1200
    B.set_random_seed(10 + k)
    W, K0 = [], []
    base = np.exp(-0.3 * (t[:, None] - t[None]) ** 2)
    for q in range(N):
        K, y = m.sample(t, normalise=norm) if q % 2 or norm else m.sample(t)
        K, y = dn(K), dn(y)
        true("shapes", K.shape == (4, 4) and y.shape == (4,))
        # the kernel is one of the family: base * s
        s = K[0, 0]
        close("kernel of the family", K, base * s, 1e-6)
        if norm:
            close("unit variance", s, 1.0, 1e-9)
        K0.append(s)
        W.append(np.linalg.solve(np.linalg.cholesky(proj(K) + d.noise * np.eye(4)), y))
    W = np.array(W)
    close("whitened mean", W.mean(0), np.zeros(4), atol=6.5 / np.sqrt(N))
    close("whitened covariance", W.T @ W / N, np.eye(4), atol=10 / np.sqrt(N))
    if not norm:
        U = r.randn(100000, n_u) @ np.linalg.cholesky(d.K_u).T @ iu
        ref = 0.2 + np.einsum("ni,ij,nj->n", U, cx, U)
        for p in (0.2, 0.5, 0.8):
            true("distribution of the kernel", abs(np.mean(np.array(K0) <= np.quantile(ref, p)) - p) < 7 * 0.5 / np.sqrt(N))


def k_h(kind, k):
    r = rng("c10h", kind, k)
    M = {"gpcm": GPCM, "cgpcm": CGPCM}[kind]
    t = np.linspace(0, 4, 6)
    kw = dict(window=float(r.uniform(0.5, 4)), scale=float(r.uniform(0.3, 1.2)), n_u=4, n_z=5, t=t)
    if kw["scale"] > kw["window"]:
        kw["scale"] = 0.5 * kw["window"]
    if k % 2:
        kw["alpha_t"] = float(r.uniform(0.3, 3))
    m = M(scheme="structured", **kw)
    if k % 3 == 0:
        m = m()
    x, y = r.uniform(0, 2, 5), r.uniform(0, 2, 4)
    if kind == "gpcm":
        x, y = x - 1, y - 1
    sym = dn(m.k_h(var("a"), var("b")).eval(a=x[:, None], b=y[None, :]))
    fn = dn(m.k_h()(x[:, None], y[:, None]))
    close("kernel of the filter", fn, sym, 1e-8)
    a2, al, ga = float(m.alpha_t) ** 2, float(m.alpha), float(m.gamma)
    close("closed form", sym, a2 * np.exp(-al * (x[:, None] ** 2 + y[None] ** 2) - ga * (x[:, None] - y[None]) ** 2), 1e-8)
    if kind == "cgpcm":
        close("outside the support", dn(m.k_h()(-x[:, None] - 0.1, y[:, None])), np.zeros((5, 4)), 1e-12)
        close("outside the support", dn(m.k_h()(x[:, None], -y[:, None] - 0.1)), np.zeros((5, 4)), 1e-12)


def real(kind):
    M = {"gpcm": GPCM, "cgpcm": CGPCM, "rgpcm": RGPCM}[kind]
    r = rng("c10r", kind)
    t = np.linspace(0, 4, 6)
    kw = dict(window=2, scale=1, noise=0.3, n_u=4, t=t)
    kw.update(dict(n_z=5) if kind != "rgpcm" else dict(m_max=3))
    m = M(scheme="structured", **kw)()
    iu = np.linalg.inv(dn(m.K_u))
    t1, t2 = np.array([0.0, 1.0, 2.0]), np.array([0.5, 1.0])
    I = dn(m.compute_I_ux(t1, t2))
    h = dn(m.compute_i_hx(t1[:, None], t2[None, :]))
    u = r.randn(len(iu))
    ref = h - np.einsum("ij,abji->ab", iu, I) + np.einsum("i,abij,j->ab", iu @ u, I, iu @ u)
    close("kernel approximation", dn(m.kernel_approx(t1, t2, u)), ref, 1e-5)


N = 12 if THOROUGH else 5
for k in range(N):
    case(f"kernel_approx[{k}]", lambda: approx(k), dict(k=k), kind=f"a{k}")
    case(f"kernel_samples[{k}]", lambda: kernel_samples(k), dict(k=k), kind=f"k{k}")
    if k < 3 or THOROUGH:
        case(f"kernel_moments[{k}]", lambda: kernel_samples_mf(k), dict(k=k), kind=f"m{k}")
        case(f"prior_sample[{k}]", lambda: prior_sample(k), dict(k=k), kind=f"s{k}", limit=120)
for kind in ("gpcm", "cgpcm"):
    for k in range(6):
        case(f"k_h[{kind},{k}]", lambda: k_h(kind, k), dict(model=kind, k=k), kind=f"h{kind}{k}")
for kind in ("gpcm", "cgpcm", "rgpcm"):
    case(f"model[{kind}]", lambda: real(kind), dict(model=kind), kind="real" + kind)
done("models with arbitrary integrals (asymmetric in the two times), random filter samples; moments and quantiles of drawn kernels; whitening of prior samples")
