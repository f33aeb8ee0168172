from common import *
from fake import *
import contextlib
import io
import gpcm.approx as ga
from gpcm.normal import NaturalNormal

CA = ["mean-field-ca"]
GR = ["mean-field-gradient", "mean-field-collapsed-gradient", "mean-field-ca-gradient", "mean-field-ca-collapsed-gradient", "mean-field"]


class Learn(Fake):
    def __prior__(self):
        Fake.__prior__(self)
        self.noise = self.ps.positive(self.D.noise, name="noise")


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def data(k):
    r = rng("c12", k)
    n_u, n_z = [(2, 3), (3, 2), (1, 1)][k % 3]
    d = make(r, n_u, n_z, noise=[0.5, 2.0, 1.0][k % 3], mat=["dense", "lowrank"][k % 2])
    n = [6, 3, 1][k % 3]
    return r, d, np.sort(r.uniform(0, 4, n)), r.randn(n) * 2


def opt_u(d, t, y, noise, mz, z2):
    P, l = d.K_u.copy(), 0
    for (A, Bz, c, I), yi in zip(terms(d, t), y):
        P = P + (A + I @ z2 @ I.T) / noise
        l = l + yi * I @ mz / noise
    return l, P


def opt_z(d, t, y, noise, mu, u2):
    P, l = d.K_z.copy(), 0
    for (A, Bz, c, I), yi in zip(terms(d, t), y):
        P = P + (Bz + I.T @ u2 @ I) / noise
        l = l + yi * I.T @ mu / noise
    return l, P


def mom(l, P):
    S = np.linalg.inv(P)
    return S @ l, S + np.outer(S @ l, S @ l)


def nat(q):
    return dn(q.lam)[:, 0], dn(q.prec)


def sweeps(d, t, y, noise, qz, k):
    lz, Pz = qz
    n, stop = 0, None
    lu = Pu = None
    last = None
    for n in range(k):
        lu, Pu = opt_u(d, t, y, noise, *mom(lz, Pz))
        lz, Pz = opt_z(d, t, y, noise, *mom(lu, Pu))
    return (lu, Pu), (lz, Pz)


def cmp(what, q, ref, tol=1e-6):
    l, P = nat(q)
    close(what + " weighted mean", l, ref[0], tol)
    close(what + " precision", P, ref[1], tol)


def init(m, r, d):
    m.approximation.q_u = NaturalNormal(jnp.array(r.randn(d.n_u, 1)), jnp.array(pdm(r, d.n_u)))
    m.approximation.q_z = NaturalNormal(jnp.array(r.randn(d.n_z, 1)), jnp.array(pdm(r, d.n_z)))


def ca(k, iters, steps=0, optimal=False):
    r, d, t, y = data(k)
    model = Learn("mean-field-ca", d)
    m = model()
    for s in range(steps):
        init(m, r, d)
        model = model.condition(t, y)
        m = model()
    init(m, r, d)
    if optimal:
        l, P = opt_u(d, t, y, d.noise, *mom(*nat(m.approximation.q_z)))
        m.approximation.q_u = NaturalNormal(jnp.array(l[:, None]), jnp.array(P))
    qu0, qz0 = nat(m.approximation.q_u), nat(m.approximation.q_z)
    quiet(model.fit, t, y, iters=iters)
    m = model()
    close("noise is kept", dn(m.noise), d.noise, 1e-9)
    if iters == 0:
        cmp("q(u)", m.approximation.q_u, qu0)
        cmp("q(z)", m.approximation.q_z, qz0)
        return
    ru, rz = sweeps(d, t, y, d.noise, qz0, iters)
    cmp(f"q(u) after {iters} sweeps", m.approximation.q_u, ru, 1e-4 if iters > 20 else 1e-7)
    cmp(f"q(z) after {iters} sweeps", m.approximation.q_z, rz, 1e-4 if iters > 20 else 1e-7)
    # z is the last factor which was updated
    cmp("q(z) is optimal", m.approximation.q_z, opt_z(d, t, y, d.noise, *mom(*nat(m.approximation.q_u))))
    model.condition(t, y).predict(np.array([0.5, 1.0]))


def ca_callback(k):
    """Pairs of the sweeps by the callback of the coordinate ascent."""
    f = getattr(ga, "_fit_mean_field_ca", None)
    if f is None:
        return
    r, d, t, y = data(k)
    m = Learn("mean-field-ca", d)()
    init(m, r, d)
    qz0 = nat(m.approximation.q_z)
    got = []
    quiet(f, m, jnp.asarray(t), jnp.asarray(y), iters=400, callback=lambda a, b: got.append((nat(a), nat(b))))
    lz = qz0
    diffs = []
    prev = None
    for i, (a, b) in enumerate(got):
        ru = opt_u(d, t, y, d.noise, *mom(*lz))
        close(f"q(u) of sweep {i}", a[0], ru[0], 1e-6)
        close(f"precision of q(u) of sweep {i}", a[1], ru[1], 1e-6)
        rz = opt_z(d, t, y, d.noise, *mom(*a))
        close(f"q(z) of sweep {i}", b[0], rz[0], 1e-6)
        close(f"precision of q(z) of sweep {i}", b[1], rz[1], 1e-6)
        lz = b
        if prev is not None:
            diffs.append(max(np.max(np.abs(x - z)) for p, q in zip((a, b), prev) for x, z in zip(p, q)))
        prev = a, b
    # Stops once a sweep changes nothing, and not before.
    true("stops once nothing changes", len(got) == 400 or (len(diffs) and diffs[-1] < 1e-4))
    true("does not stop while something changes", all(x > 1e-8 for x in diffs[:-1]))
    cmp("stored q(u)", m.approximation.q_u, got[-1][0])
    cmp("stored q(z)", m.approximation.q_z, got[-1][1])


def elbo(m, t, y):
    return float(dn(m().elbo(t, y)))


def gradient(k, scheme, iters, steps=0):
    r, d, t, y = data(k)
    model = Learn(scheme, d)
    m = model()
    for s in range(steps):
        init(m, r, d)
        model = model.condition(t, y)
        m = model()
    init(m, r, d)
    before = elbo(model, t, y)
    quiet(model.fit, t, y, iters=iters)
    m = model()
    after = elbo(model, t, y)
    true(f"objective improves: from {before} to {after}", after >= before - 1e-6 * abs(before))
    noise = float(dn(m.noise))
    a = m.approximation
    if scheme not in ("mean-field-gradient",):
        cmp("q(z) is optimal", a.q_z, opt_z(d, t, y, noise, *mom(*nat(a.q_u))))
    if iters >= 100:
        true("noise is trained", abs(noise - d.noise) > 1e-4)
        if scheme in ("mean-field-ca-gradient", "mean-field-ca-collapsed-gradient", "mean-field"):
            cmp("q(u) is optimal", a.q_u, opt_u(d, t, y, noise, *mom(*nat(a.q_z))), 1e-2)
        if scheme == "mean-field-ca-collapsed-gradient":
            pass
    model.condition(t, y).predict(np.array([0.5, 1.0]))


def case_ins(scheme):
    r, d, t, y = data(0)
    quiet(Learn(scheme, d).fit, t, y, iters=10)


def white(l, P, x):
    """Standardise samples: columns."""
    L = np.linalg.cholesky(P)
    return L.T @ (x - np.linalg.solve(P, l))


def structured(k, iters, hyp, steps=0, **kw):
    r, d, t, y = data(k)
    model = Learn("structured", d)
    m = model()
    for s in range(steps):
        m.approximation.q_u_samples = [jnp.array(r.randn(d.n_u, 1))] * 2
        m.approximation.q_z_samples = [jnp.array(r.randn(d.n_z, 1))] * 2
        init(m, r, d)
        model = model.condition(t, y)
        m = model()
    quiet(model.fit, t, y, iters=iters, optimise_hypers=hyp, **kw)
    m = model()
    us, zs = dn(m.approximation.q_u_samples), dn(m.approximation.q_z_samples)
    true(f"number of samples of u: {us.shape}", us.shape == (d.n_u, 1000))
    true(f"number of samples of z: {zs.shape}", zs.shape == (d.n_z, 1000))
    noise = float(dn(m.noise))
    if hyp is False:
        close("noise is kept", noise, d.noise, 1e-9)
    else:
        true("noise is trained", abs(noise - d.noise) > 1e-6)
    ez = np.array([white(*opt_z(d, t, y, noise, us[:, i], np.outer(us[:, i], us[:, i])), zs[:, i]) for i in range(1000)])
    chk("z given u", ez)
    if iters < 2000:
        eu = np.array([white(*opt_u(d, t, y, noise, zs[:, i], np.outer(zs[:, i], zs[:, i])), us[:, i + 1]) for i in range(999)])
        chk("u given z", eu)
        chk2("noise of u and z", eu, ez[:999])
        chk2("noise of u and next z", eu, ez[1:])
    true("samples differ", len({tuple(x) for x in np.round(us.T, 12)}) == 1000 and len({tuple(x) for x in np.round(zs.T, 12)}) == 1000)
    model.condition(t, y).predict(np.array([0.5, 1.0]))


def chk(what, e):
    n, p = e.shape
    s = n ** 0.5
    true(f"{what}: mean of the standardised samples {e.mean(0)}", np.all(np.abs(e.mean(0)) < 5.5 / s))
    C = e.T @ e / n
    true(f"{what}: covariance of the standardised samples {C}", np.all(np.abs(C - np.eye(p)) < 8 / s))
    chk2(what + ", consecutive", e[1:], e[:-1])


def chk2(what, a, b):
    C = a.T @ b / len(a)
    true(f"{what}: uncorrelated {C}", np.all(np.abs(C) < 5.5 / len(a) ** 0.5))


def unknown(s):
    r, d, t, y = data(0)
    raises(f"scheme {s!r}", ValueError, lambda: Fake(s, d)())


for k in range(3):
    for iters in [0, 1, 2, 7]:
        case(f"ca-{k}-{iters}", lambda: ca(k, iters), kind=f"ca{iters}")
    case(f"ca-callback-{k}", lambda: ca_callback(k), kind="cb")
for k in range(3):
    case(f"ca-optimal-start-{k}", lambda: ca(k, 2 + k, 0, True), kind="caopt")
case("ca-conditioned", lambda: ca(0, 3, 2))
case("ca-long", lambda: ca(0, 3000 if THOROUGH else 1000), limit=100)
for s in ["structured", "mean-field-CA", "Mean-Field-Gradient", "MEAN-FIELD", "mean-field-ca-collapsed-GRADIENT", "Structured"][: 6 if THOROUGH else 4]:
    case(f"case-{s}", lambda: case_ins(s))
for s in GR:
    case(f"gradient-{s}", lambda: gradient(0, s, 200), kind=s, limit=100)
    if THOROUGH or s in ("mean-field-gradient", "mean-field-ca-gradient"):
        case(f"gradient-conditioned-{s}", lambda: gradient(1, s, 50, 1), kind=s + "c", limit=100)
for k in range(3 if THOROUGH else 2):
    case(f"structured-{k}", lambda: structured(k, 1000, False), kind="structured", limit=100)
case("structured-long", lambda: structured(0, 2500, False), limit=100)
case("structured-short", lambda: structured(1, 10, False), limit=100)
case("structured-one", lambda: structured(0, 1, False), limit=100)
case("structured-hypers", lambda: structured(0, 100, True), limit=100)
case("structured-hypers-number", lambda: structured(1, 40, True, 1, num_samples=3), limit=100)
for s in ["", "mean-field-cb", "structure", "mean-field-gradient-ca", "gibbs", "meanfield", "ca"]:
    case(f"unknown-{s}", lambda: unknown(s), kind="unknown")
done("every scheme on models with arbitrary integrals: sweeps and Gibbs draws against the optimal factors in plain numpy, iterations, conditioning, unknown names")
