from common import *
import jax.numpy as jnp
import lab.jax as B
from gpcm import GPCM, CGPCM
from numpy.polynomial.legendre import leggauss

dn = lambda x: np.asarray(B.to_numpy(B.dense(x)), dtype=float)
G = leggauss(24)


def grid(lo, hi, panels):
    """Composite Gauss-Legendre nodes and weights."""
    e = np.linspace(lo, hi, panels + 1)
    c, h = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    x = (c[:, None] + h[:, None] * G[0][None]).ravel()
    w = (h[:, None] * G[1][None]).ravel()
    return x, w


class Ref:
    def __init__(self, p, causal):
        self.p, self.causal = p, causal

    def kh(self, a, b):
        p = self.p
        return p["alpha_t"] ** 2 * np.exp(-p["alpha"] * (a ** 2 + b ** 2) - p["gamma"] * (a - b) ** 2)

    def kxs(self, a, b):
        return self.p["omega_t"] * np.exp(-self.p["omega"] * (a - b) ** 2)

    def nodes(self, centre, upper=None):
        R = 9.0 / np.sqrt(min(self.p["alpha"], self.p["omega"]))
        n = 24
        if self.causal and upper is not None:
            return grid(min(centre, upper) - R, upper, n)
        return grid(centre - R, centre + R, n)

    def K_u(self, tu):
        return self.kh(tu[:, None], tu[None])

    def K_z(self, tz):
        out = np.zeros((len(tz), len(tz)))
        for i, a in enumerate(tz):
            x, w = self.nodes(a)
            for j, b in enumerate(tz):
                out[i, j] = np.sum(w * self.kxs(a, x) * self.kxs(x, b))
        return out

    def hx(self, t1, t2):
        x, w = self.nodes((t1 + t2) / 2, min(t1, t2))
        return np.sum(w * self.kh(t1 - x, t2 - x))

    def ux(self, t1, t2, tu):
        x, w = self.nodes((t1 + t2) / 2, min(t1, t2))
        a = self.kh(t1 - x[:, None], tu[None])
        b = self.kh(tu[None], t2 - x[:, None])
        return np.einsum("n,ni,nj->ij", w, a, b)

    def uz(self, t, tu, tz):
        x, w = self.nodes(t, t)
        a = self.kh(t - x[:, None], tu[None])
        b = self.kxs(x[:, None], tz[None])
        return np.einsum("n,ni,nj->ij", w, a, b)

    def hz(self, t, tz):
        x, w = self.nodes(t, t)
        k = self.kh(t - x[:, None], t - x[None])
        a = self.kxs(x[:, None], tz[None]) * w[:, None]
        return a.T @ k @ a


def build(k, causal):
    r = rng("c03", k, causal)
    p = dict(alpha=float(np.exp(r.uniform(-1.2, 1.2))), gamma=float(np.exp(r.uniform(-1.5, 1.2))), omega=float(np.exp(r.uniform(-1, 1.2))), alpha_t=float(np.exp(r.uniform(-1, 1))))
    kind = k % 4
    if kind == 1:
        del p["alpha_t"]
    nu, nz = [(3, 2), (2, 4), (1, 3), (4, 2)][k % 4]
    tu = r.uniform(0 if causal else -2, 2, nu)
    tz = r.uniform(-3, 3, nz)
    if kind == 2:
        tu = np.sort(tu)
        tz = np.linspace(-1, 2, nz)
    cls = [GPCM, CGPCM][(k + causal) % 2]
    kw = dict(p, t_u=tu, t_z=tz, scheme="mean-field-ca", noise=0.1)
    if cls is GPCM:
        kw["causal"] = bool(causal)
    elif not causal:
        kw["causal"] = False
    m = cls(**kw)()
    q = {n: float(dn(getattr(m, n))) for n in ["alpha", "gamma", "omega", "alpha_t", "omega_t"]}
    return r, m, Ref(q, causal), dn(m.t_u), dn(m.t_z)


def run(k, causal):
    r, m, ref, tu, tz = build(k, causal)
    T = 1e-5
    close("K_u", dn(m.compute_K_u()), ref.K_u(tu), 1e-8)
    close("K_z", dn(m.compute_K_z()), ref.K_z(tz), T)
    n = [3, 1, 2][k % 3]
    t = r.uniform(-2, 3, n)
    s = r.uniform(-2, 3, [2, 3, 1][k % 3])
    j = jnp.asarray
    close("i_hx", dn(m.compute_i_hx(j(t), j(t))), [ref.hx(a, a) for a in t], T)
    close("i_hx of pairs", dn(m.compute_i_hx(j(t[:, None]), j(s[None]))), [[ref.hx(a, b) for b in s] for a in t], T)
    close("i_hx of the first", dn(m.compute_i_hx(j(t))), [ref.hx(a, 0) for a in t], T)
    close("i_hx of the second", dn(m.compute_i_hx(t2=j(t))), [ref.hx(0, a) for a in t], T)
    close("i_hx without times", dn(m.compute_i_hx()), ref.hx(0, 0), T)
    close("I_ux", dn(m.compute_I_ux(j(t), j(s))), [[ref.ux(a, b, tu) for b in s] for a in t], T)
    close("I_ux of the first", dn(m.compute_I_ux(j(t))), [ref.ux(a, 0, tu) for a in t], T)
    close("I_ux of the second", dn(m.compute_I_ux(t2=j(t))), [ref.ux(0, a, tu) for a in t], T)
    close("I_ux without times", dn(m.compute_I_ux()), ref.ux(0, 0, tu), T)
    close("I_uz", dn(m.compute_I_uz(j(t))), [ref.uz(a, tu, tz) for a in t], T)
    close("I_hz", dn(m.compute_I_hz(j(t))), [ref.hz(a, tz) for a in t], T)


for k in range(24 if THOROUGH else 8):
    for causal in (False, True):
        case(f"integrals-{k}-{causal}", lambda: run(k, causal), (k, causal), kind=f"{k % 4}{causal}")
done("random parameters, inducing points and times for the acausal and causal model against composite Gauss-Legendre quadrature")
