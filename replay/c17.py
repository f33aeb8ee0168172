import os
import shutil
import tempfile
from common import *
from fake import *
from gpcm import GPCM
from gpcm.normal import NaturalNormal

TMP = tempfile.mkdtemp()
count = [0]


class Learn(Fake):
    """With parameters of all kinds."""

    def __init__(self, scheme, data, vals):
        Fake.__init__(self, scheme, data)
        self.vals = vals

    def __prior__(self):
        v = self.vals
        d = self.D
        self.noise = self.ps.positive(v[0], name="noise")
        self.b = self.ps.bounded(v[1], lower=-3, upper=3, name="b")
        self.un = self.ps.unbounded(jnp.array([v[2], v[0]]), name="un")
        self.pd = self.ps.pd(jnp.array([[2.0, v[1]], [v[1], 3.0]]), name="pd")
        self.hid = self.ps.unbounded(v[2] * 2, name="hid", visible=False)
        self.n_u, self.n_z = d.n_u, d.n_z
        self.extent = 4.0
        from gpcm.model import AbstractGPCM
        AbstractGPCM.__prior__(self)


def vals(r):
    return [float(np.exp(r.uniform(-1, 1))), float(r.uniform(-1, 1)), float(r.randn())]


def state(vs):
    return {n: np.array(B.to_numpy(B.dense(vs[n])), copy=True) for n in vs.names}


def vis(vs):
    inds = set(vs.get_latent_vars(return_indices=True))
    return {n: (vs.name_to_index[n] in inds) for n in vs.names}


def post(r, n):
    return NaturalNormal(jnp.array(r.randn(n, 1)), jnp.array(pdm(r, n)))


def build(r, d, scheme, steps, extra=()):
    m = Learn(scheme, d, vals(r))()
    a = m.approximation
    for s in range(steps):
        a.q_u, a.q_z = post(r, d.n_u), post(r, d.n_z)
        if scheme == "structured":
            a.q_u_samples = [jnp.array(r.randn(d.n_u, 1)) for _ in range(4)]
            a.q_z_samples = [jnp.array(r.randn(d.n_z, 1)) for _ in range(4)]
        if s < steps - 1:
            m = m.condition(np.array([0.5, 1.0]), np.array([1.0, -1.0]))
            m = m if m.instantiated else m()
            a = m.approximation
    for n in extra:
        m.vs.unbounded(float(r.randn()), name=n)
    return m


def run(src, dst, what):
    count[0] += 1
    p = os.path.join(TMP, f"m{count[0]}.pickle")
    sv = state(src.vs)
    sb = vis(src.vs)
    src.save(p)
    for n, v in state(src.vs).items():
        close(f"saving keeps {n}", v, sv[n], 1e-12)
    old, ov = state(dst.vs), vis(dst.vs)
    dst.load(p)
    new, nv = state(dst.vs), vis(dst.vs)
    true("names after loading", set(new) == set(old) | set(sv))
    for n, v in sv.items():
        close(f"value of {n}", new[n], v, 1e-7)
    for n in old:
        if n not in sv:
            close(f"other variable {n}", new[n], old[n], 1e-12)
        true(f"visibility of {n}", nv[n] == ov[n])
    for n in new:
        if n not in old:
            true(f"{n} is not trained", not nv[n])
    # The loaded file can be saved and loaded again.
    p2 = p + "2"
    dst.save(p2)
    fresh = Fake("structured", dst.D) if hasattr(dst, "D") else None
    if fresh is not None:
        fresh.load(p2)
        for n, v in new.items():
            close(f"value of {n} after a second round", state(fresh.vs)[n], v, 1e-7)
        true("nothing is trained", not any(vis(fresh.vs).values()))
    os.remove(p)
    os.remove(p2)


def use(k, scheme):
    """A restored model predicts as the saved model."""
    r = rng("c17u", k, scheme)
    d = make(r, 3, 2)
    t, y, t2 = np.array([0.3, 1.0, 2.0]), np.array([1.0, -1.0, 0.5]), np.array([0.0, 1.5])
    src = build(r, d, scheme, 1)
    p = os.path.join(TMP, f"u{k}{scheme}.pickle")
    src.save(p)
    for dst in [Learn(scheme, d, vals(rng(k))), Learn(scheme, d, vals(rng(k)))(), build(rng("o", k), d, scheme, 1)]:
        dst.load(p)
        a, b = dst(), src()
        for nm in ["q_u", "q_z"]:
            close(nm + " mean", dn(getattr(a.approximation, nm).mean), dn(getattr(b.approximation, nm).mean), 1e-6)
            close(nm + " variance", dn(getattr(a.approximation, nm).var), dn(getattr(b.approximation, nm).var), 1e-6)
        close("noise", dn(a.noise), dn(b.noise), 1e-7)
        close("matrix", dn(a.pd), dn(b.pd), 1e-6)
        a, b = a.condition(t, y), b.condition(t, y)
        (ma, va), (mb, vb) = a.predict(t2), b.predict(t2)
        close("prediction", dn(ma), dn(mb), 1e-5)
        close("prediction variance", dn(va), dn(vb), 1e-5)
    os.remove(p)


def real(k):
    r = rng("c17r", k)
    mk = lambda n: GPCM(scheme="mean-field-ca", window=1, scale=0.5, noise=n, n_u=5, n_z=5, t=(0, 1))
    src, dst = mk(0.3)(), mk(0.9)()
    src.approximation.q_u, src.approximation.q_z
    run(src, dst, "real")


try:
    for k in range(6 if THOROUGH else 3):
        for scheme in ["structured", "mean-field-ca"]:
            d = make(rng("c17d", k), 3, 2)
            mk = lambda tag, steps, extra=(): build(rng("c17", k, scheme, tag), d, scheme, steps, extra)
            case(f"into-uninitialised-{scheme}-{k}", lambda: run(mk("a", 1 + k), Learn(scheme, d, vals(rng(k))), 0), kind="fresh")
            case(f"into-same-{scheme}-{k}", lambda: run(mk("b", 1 + k), mk("c", 1 + k), 0), kind="same")
            case(f"into-less-{scheme}-{k}", lambda: run(mk("d", 3), mk("e", 1), 0), kind="less")
            case(f"into-more-{scheme}-{k}", lambda: run(mk("f", 1), mk("g", 3, ("x", "other")), 0), kind="more")
            case(f"mixed-{scheme}-{k}", lambda: run(mk("h", 2, ("y",)), mk("i", 3, ("x", "other")), 0), kind="mixed")
            case(f"use-{scheme}-{k}", lambda: use(k, scheme), kind="use")
    case("many-steps", lambda: run(build(rng("m"), make(rng("md"), 2, 2), "structured", 12), build(rng("m2"), make(rng("md"), 2, 2), "structured", 2), 0))
    case("real", lambda: real(0))
finally:
    shutil.rmtree(TMP)
done("models with parameters of every kind, several conditioning steps, receivers with fewer, the same, more or no variables")
