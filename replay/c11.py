from common import *
from fake import *
import contextlib
import io
from gpcm.normal import NaturalNormal
from varz.spec import Struct


class Learn(Fake):
    def __prior__(self):
        Fake.__prior__(self)
        self.noise = self.ps.positive(self.D.noise, name="noise")
        self.other = self.ps.unbounded(1.5, name="other")


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def post(r, n):
    mu, S = r.randn(n), pdm(r, n, 0.2, 1.0)
    return mu, S, NaturalNormal(jnp.array(np.linalg.solve(S, mu)[:, None]), jnp.array(np.linalg.inv(S)))


def same(what, q, mu, S):
    close(what + " mean", dn(q.mean), mu[:, None], 1e-6)
    close(what + " variance", dn(q.var), S, 1e-6)


def cond(m, t, y, inst):
    m2 = m.condition(t, y)
    return m2 if m2.instantiated else m2()


def steps(k, scheme, num, inst):
    """Keep conditioning: as instance, or as model which is instantiated again."""
    r = rng("c11", k, scheme, num)
    n_u, n_z = [(3, 2), (2, 4), (1, 1)][k % 3]
    d = make(r, n_u, n_z)
    t, y = np.array([0.3, 1.0]), np.array([1.0, -0.5])
    model = Learn(scheme, d)
    m = model()
    same("initial prior for u", m.approximation.p_u, np.zeros(n_u), np.linalg.inv(d.K_u))
    same("initial prior for z", m.approximation.p_z, np.zeros(n_z), np.linalg.inv(d.K_z))
    hist = []
    for s in range(num):
        mu, S, qu = post(r, n_u)
        mz, Sz, qz = post(r, n_z)
        m.approximation.q_u, m.approximation.q_z = qu, qz
        same("stored q(u)", m.approximation.q_u, mu, S)
        same("stored q(z)", m.approximation.q_z, mz, Sz)
        # reading does not depend on the instance
        if not inst:
            same("stored q(u), other instance", model().approximation.q_u, mu, S)
        hist.append((mu, S, mz, Sz))
        if inst:
            m.condition(t, y)
        else:
            model = model.condition(t, y)
            m = model()
        same(f"prior for u after {s + 1} steps", m.approximation.p_u, mu, S)
        same(f"prior for z after {s + 1} steps", m.approximation.p_z, mz, Sz)
        # A new posterior for further observations leaves the prior alone.
        m.approximation.q_u, m.approximation.q_z = post(r, n_u)[2], post(r, n_z)[2]
        same("prior for u after storing", m.approximation.p_u, mu, S)
        same("prior for z after storing", m.approximation.p_z, mz, Sz)


def samples(k, num):
    r = rng("c11s", k, num)
    n_u, n_z = [(3, 2), (2, 4), (1, 1)][k % 3]
    d = make(r, n_u, n_z)
    t, y = np.array([0.3, 1.0]), np.array([1.0, -0.5])
    m = Learn("structured", d)()
    for s in range(num):
        c = [1, 7, 3, 12][(s + k) % 4]
        u, z = r.randn(n_u, c), r.randn(n_z, c)
        a = m.approximation
        if s % 2:  # overwrite
            a.q_u_samples = [jnp.array(x) for x in r.randn(2, n_u, 1)]
            a.q_z_samples = [jnp.array(x) for x in r.randn(5, n_z, 1)]
        a.q_u_samples = [jnp.array(u[:, i:i + 1]) for i in range(c)]
        a.q_z_samples = [jnp.array(z[:, i:i + 1]) for i in range(c)]
        close("samples of u", dn(a.q_u_samples), u)
        close("samples of z", dn(a.q_z_samples), z)
        m.condition(t, y)
        close("prior samples of u", dn(m.approximation.p_u_samples), u)
        close("prior samples of z", dn(m.approximation.p_z_samples), z)
        m.approximation.q_u_samples = [jnp.array(r.randn(n_u, 1)) for i in range(3)]
        m.approximation.q_z_samples = [jnp.array(r.randn(n_z, 1)) for i in range(3)]
        close("prior samples of u after storing", dn(m.approximation.p_u_samples), u)
        close("prior samples of z after storing", dn(m.approximation.p_z_samples), z)


def trained(vs, names):
    if not names:
        inds = vs.get_latent_vars(return_indices=True)
    else:
        inds = vs.get_latent_vars(*names, return_indices=True)
    inv = {i: n for n, i in vs.name_to_index.items()}
    return {inv[i] for i in inds}


def ignore(num):
    r = rng("c11i", num)
    d = make(r, 2, 2)
    t, y = np.array([0.3, 1.0]), np.array([1.0, -0.5])
    m = Learn("mean-field-ca", d)()
    for s in range(num + 1):
        a = m.approximation
        a.q_u, a.q_z  # make them
        pre = lambda w, i: {f"q_{w}[{i}].lam", f"q_{w}[{i}].prec"}
        allv = {"noise", "other"}
        for i in range(s + 1):
            allv |= pre("u", i) | pre("z", i)
        true("names of variables", set(m.vs.names) == allv)
        for prev in (True, False):
            for cur in (True, False, "u", "z"):
                if not prev and s not in (0, num):
                    continue
                out = set()
                if prev:
                    for i in range(s):
                        out |= pre("u", i) | pre("z", i)
                if cur is True or cur == "u":
                    out |= pre("u", s)
                if cur is True or cur == "z":
                    out |= pre("z", s)
                got = trained(m.vs, a.ignore_qs(prev, cur))
                true(f"excluded for previous={prev}, current={cur} after {s} steps: {sorted(allv - got)}", got == allv - out)
                got = trained(m.vs, a.ignore_qs(previous=prev, current=cur))
                true(f"excluded for previous={prev}, current={cur} after {s} steps", got == allv - out)
            for bad in ("x", "both", 3):
                raises(f"current={bad}", ValueError, lambda: a.ignore_qs(previous=prev, current=bad))
        m.condition(t, y)


def snap(vs):
    return {n: np.array(B.to_numpy(B.dense(vs[n])), copy=True) for n in vs.names}


def fitting(scheme, steps_, hyper):
    r = rng("c11f", scheme, steps_)
    d = make(r, 2, 2)
    t, y = np.array([0.3, 1.0]), np.array([1.0, -0.5])
    model = Learn(scheme, d)
    m = model()
    for s in range(steps_):
        m.approximation.q_u, m.approximation.q_z = post(r, 2)[2], post(r, 2)[2]
        if scheme == "structured":
            m.approximation.q_u_samples = [jnp.array(r.randn(2, 1)) for _ in range(3)]
            m.approximation.q_z_samples = [jnp.array(r.randn(2, 1)) for _ in range(3)]
        model = model.condition(t, y)
        m = model()
    old = snap(model.vs)
    kw = {"iters": 10}
    if scheme == "structured":
        kw["optimise_hypers"] = hyper
    quiet(model.fit, t, y, **kw)
    new = snap(model.vs)
    for n, v in old.items():
        if any(n.startswith(f"q_{w}[{i}]") for w in "uz" for i in range(steps_)):
            close(f"{n} after fitting", new[n], v, 1e-12)
        elif n in ("noise", "other") and not hyper:
            close(f"{n} after fitting", new[n], v, 1e-12)
    for n in new:
        if n not in old:
            true(f"{n} belongs to the newest posterior", n.startswith(f"q_u[{steps_}].") or n.startswith(f"q_z[{steps_}]."))


def objective(k):
    """The objective uses the posterior before the last step as prior."""
    r = rng("c11o", k)
    d = make(r, 2, 3)
    t, y = np.array([0.3, 1.0]), np.array([1.0, -0.5])
    new = post(r, 2), post(r, 3)
    vals = []
    for j in range(3):
        m = Fake("mean-field-ca", d)()
        pu = (np.zeros(2), np.linalg.inv(d.K_u))
        pz = (np.zeros(3), np.linalg.inv(d.K_z))
        for s in range(j):
            qu, qz = post(r, 2), post(r, 3)
            m.approximation.q_u, m.approximation.q_z = qu[2], qz[2]
            m.condition(t, y)
            pu, pz = qu[:2], qz[:2]
        m.approximation.q_u, m.approximation.q_z = new[0][2], new[1][2]
        e = float(dn(m.elbo(t, y)))
        vals.append(e + kl_normal(new[0][0], new[0][1], *pu) + kl_normal(new[1][0], new[1][1], *pz))
    close("objective without the divergences", vals, [vals[0]] * 3, 1e-6)


for scheme in ["mean-field-ca", "structured"]:
    for inst in (True, False):
        case(f"steps-{scheme}-{inst}", lambda: steps(0, scheme, 4, inst), kind=f"steps{inst}")
    case(f"many-steps-{scheme}", lambda: steps(1, scheme, 12, True), kind="many")
for k in range(4 if THOROUGH else 2):
    case(f"samples-{k}", lambda: samples(k, 3 + 9 * (k == 1)), kind="samples")
case("ignore-0", lambda: ignore(0))
case("ignore-3", lambda: ignore(3))
case("ignore-12", lambda: ignore(12), limit=120)
for s in (0, 1, 2):
    case(f"fit-ca-{s}", lambda: fitting("mean-field-ca", s, False))
    case(f"fit-structured-{s}", lambda: fitting("structured", s, False))
case("fit-structured-hypers", lambda: fitting("structured", 1, True))
for sch in ["mean-field-gradient", "mean-field-collapsed-gradient", "mean-field-ca-gradient", "mean-field-ca-collapsed-gradient"]:
    case(f"fit-{sch}", lambda: fitting(sch, 2, True), limit=100)
for k in range(2):
    case(f"objective-{k}", lambda: objective(k), kind="objective")
done("sequences of up to 12 conditioning steps, posteriors and samples stored and read back, every option of ignore_qs, fits after conditioning")
