from common import *
import jax.numpy as jnp
import lab.jax as B
from gpcm import RGPCM
from numpy.polynomial.legendre import leggauss

dn = lambda x: np.asarray(B.to_numpy(B.dense(x)), dtype=float)
G = leggauss(24)


def grid(edges, h=0.5):
    """Composite Gauss-Legendre between sorted break points."""
    xs, ws = [np.zeros(0)], [np.zeros(0)]
    edges = np.unique(edges)
    for lo, hi in zip(edges[:-1], edges[1:]):
        e = np.linspace(lo, hi, int(np.ceil((hi - lo) / h)) + 1)
        c, d = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
        xs.append((c[:, None] + d[:, None] * G[0][None]).ravel())
        ws.append((d[:, None] * G[1][None]).ravel())
    return np.concatenate(xs), np.concatenate(ws)


class Ref:
    """The filter is white noise times a causal exponential window; the excitation a Matern-1/2."""

    def __init__(self, p, a, b, M, ms):
        self.p, self.a, self.b, self.M, self.ms = p, a, b, M, ms

    def om(self, m):
        return 2 * np.pi * (m if m <= self.M else m - self.M) / (self.b - self.a)

    def beta(self, m, s):
        """Cross-covariance of feature m and the excitation at s, also outside the interval."""
        L = self.p["lam"]
        mid = np.cos(self.om(m) * (s - self.a)) if m <= self.M else np.sin(self.om(m) * (s - self.a))
        out = np.where(s < self.a, np.exp(-L * (self.a - s)), np.where(s > self.b, np.exp(-L * (s - self.b)), 0.0))
        if m > self.M:
            out = 0 * out
        return np.where((s >= self.a) & (s <= self.b), mid, out)

    def dbeta(self, m, s):
        w = self.om(m)
        return -w * np.sin(w * (s - self.a)) if m <= self.M else w * np.cos(w * (s - self.a))

    def K_z(self):
        """Gram matrix in the reproducing kernel Hilbert space of exp(-lam |t|) on [a, b]."""
        L = self.p["lam"]
        x, w = grid(np.linspace(self.a, self.b, 40))
        n = len(self.ms)
        out = np.zeros((n, n))
        f = lambda m, s: np.cos(self.om(m) * (s - self.a)) if m <= self.M else np.sin(self.om(m) * (s - self.a))
        for i, m in enumerate(self.ms):
            for j, k in enumerate(self.ms):
                fm, fk = f(m, x), f(k, x)
                val = np.sum(w * (self.dbeta(m, x) * self.dbeta(k, x) + L ** 2 * fm * fk)) / (2 * L)
                val += 0.5 * (f(m, self.a) * f(k, self.a) + f(m, self.b) * f(k, self.b))
                out[i, j] = val
        return out

    def K_u(self, tu):
        g, gt = self.p["gamma"], self.p["gamma_t"]
        out = np.zeros((len(tu), len(tu)))
        for i, x in enumerate(tu):
            for j, y in enumerate(tu):
                lo = max(x, y)
                s, w = grid(np.array([lo, lo + 45 / g]), 2 / g)
                out[i, j] = np.sum(w * gt ** 2 * np.exp(-g * (s - x) - g * (s - y)))
        return out

    def hx(self, t1, t2):
        p = self.p
        s, w = grid(np.array([0, 40 / p["alpha"]]), 1 / p["alpha"])
        return np.sum(w * p["alpha_t"] ** 2 * np.exp(-2 * p["alpha"] * s)) * np.exp(-p["lam"] * abs(t1 - t2))

    def c(self, u, tau):
        """Covariance of the inducing variable at u with the white noise at tau times the window."""
        p = self.p
        return p["alpha_t"] * p["gamma_t"] * np.exp(-p["gamma"] * (u - tau) - p["alpha"] * tau)

    def ux(self, t1, t2, tu):
        p = self.p
        n = len(tu)
        out = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                # the filter at tau1 enters at time t1 - tau1; (t1, second) and (t2, first) belong together
                br = np.array([0.0, tu[j]])
                x, wx = grid(br)
                tot = 0.0
                for a, wa in zip(x, wx):
                    k = a + (t2 - t1)
                    b2 = np.array([0.0, tu[i]] + ([k] if 0 < k < tu[i] else []))
                    y, wy = grid(b2)
                    tot += wa * self.c(tu[j], a) * np.sum(wy * self.c(tu[i], y) * np.exp(-p["lam"] * np.abs((t1 - a) - (t2 - y))))
                out[i, j] = tot
        return out

    def uz(self, t, tu):
        out = np.zeros((len(tu), len(self.ms)))
        for i, u in enumerate(tu):
            x, w = grid(np.array([0.0, u]), 0.1)
            for j, m in enumerate(self.ms):
                out[i, j] = np.sum(w * self.c(u, x) * self.beta(m, t - x))
        return out

    def hz(self, t):
        p = self.p
        out = np.zeros((len(self.ms), len(self.ms)))
        x, w = grid(np.array([0.0, t - self.a, t - self.a + 40 / p["alpha"]]), 0.2)
        win = p["alpha_t"] ** 2 * np.exp(-2 * p["alpha"] * x)
        bs = [self.beta(m, t - x) for m in self.ms]
        for i in range(len(bs)):
            for j in range(len(bs)):
                out[i, j] = np.sum(w * win * bs[i] * bs[j])
        return out


def build(k):
    r = rng("c04", k)
    alpha = float(np.exp(r.uniform(-0.5, 1)))
    p = dict(alpha=alpha, gamma=alpha * float(r.uniform(0.15, 0.6)), lam=float(np.exp(r.uniform(-1, 1))), alpha_t=float(np.exp(r.uniform(-1, 1))), gamma_t=float(np.exp(r.uniform(-1, 1))))
    M = [2, 3, 1, 4][k % 4]
    full = np.arange(2 * M + 1)
    kind = k % 6
    if kind == 1:
        full = full[::-1].copy()
    elif kind in (2, 3):
        full = r.permutation(full)
    if kind in (3, 4):
        full = full[: max(1, len(full) - 2)]
    if kind == 5:
        full = r.permutation(full)[: max(2, M)]
    if k % 12 == 7:
        full = full[full > 0]
    nu = [3, 2, 4][k % 3]
    tu = np.concatenate([[0.0], np.sort(r.uniform(0.2, 2, nu - 1))])
    if k % 4 == 3:
        tu = r.permutation(tu)
    n = [2, 1, 3][k % 3]
    t = r.uniform(2.2, 5, n)
    a, b = -0.3 + r.uniform(-1, 0), 5.5 + r.uniform(0, 2)
    m = RGPCM(scheme="mean-field-ca", noise=0.1, a=float(a), b=float(b), m_max=M, ms=jnp.asarray(full) if k % 2 else full, t_u=tu, **p)()
    q = {nm: float(dn(getattr(m, nm))) for nm in p}
    return r, m, Ref(q, float(a), float(b), M, [int(x) for x in full]), dn(m.t_u), t


def run(k):
    r, m, ref, tu, t = build(k)
    T = 1e-6
    close("K_u", dn(m.compute_K_u()), ref.K_u(tu), T)
    close("K_z", dn(m.compute_K_z()), ref.K_z(), T)
    j = jnp.asarray
    s = r.uniform(-2, 3, 2)
    close("i_hx", dn(m.compute_i_hx(j(t), j(t))), [ref.hx(a, a) for a in t], T)
    close("i_hx of pairs", dn(m.compute_i_hx(j(t[:, None]), j(s[None]))), [[ref.hx(a, b) for b in s] for a in t], T)
    close("i_hx of the first", dn(m.compute_i_hx(j(t))), [ref.hx(a, 0) for a in t], T)
    close("i_hx of the second", dn(m.compute_i_hx(t2=j(t))), [ref.hx(0, a) for a in t], T)
    close("i_hx without times", dn(m.compute_i_hx()), ref.hx(0, 0), T)
    s = np.concatenate([s[:1], t[:1]])
    close("I_ux", dn(m.compute_I_ux(j(t[:2]), j(s))), [[ref.ux(a, b, tu) for b in s] for a in t[:2]], T)
    close("I_ux of the first", dn(m.compute_I_ux(j(t[:1]))), [ref.ux(a, 0, tu) for a in t[:1]], T)
    close("I_ux of the second", dn(m.compute_I_ux(t2=j(t[:1]))), [ref.ux(0, a, tu) for a in t[:1]], T)
    close("I_ux without times", dn(m.compute_I_ux()), ref.ux(0, 0, tu), T)
    close("I_uz", dn(m.compute_I_uz(j(t))), [ref.uz(a, tu) for a in t], T)
    close("I_hz", dn(m.compute_I_hz(j(t))), [ref.hz(a) for a in t], T)


def perm(k):
    """The entry of a feature does not depend on its position."""
    r = rng("c04p", k)
    M = 3
    tu = np.array([0.0, 0.7, 1.5])
    t = np.array([2.0, 3.3])
    kw = dict(alpha=1.0, gamma=0.4, lam=0.8, alpha_t=1.2, gamma_t=0.9, a=-0.5, b=6.0, m_max=M, t_u=tu, scheme="mean-field-ca")
    base = RGPCM(ms=jnp.arange(7), **kw)()
    sel = [np.array([6, 0, 3, 1]), np.array([4]), np.array([0]), np.array([5, 6, 4]), np.array([3, 2, 1]), r.permutation(7), np.array([0, 6]), np.array([2, 0])][k]
    m = RGPCM(ms=jnp.asarray(sel), **kw)()
    close("K_z", dn(m.compute_K_z()), dn(base.compute_K_z())[np.ix_(sel, sel)], 1e-9)
    j = jnp.asarray
    close("I_uz", dn(m.compute_I_uz(j(t))), dn(base.compute_I_uz(j(t)))[:, :, sel], 1e-9)
    close("I_hz", dn(m.compute_I_hz(j(t))), dn(base.compute_I_hz(j(t)))[:, sel][:, :, sel], 1e-9)


for k in range(8):
    case(f"features-{k}", lambda: perm(k), k, kind="perm")
for k in range(24 if THOROUGH else 12):
    case(f"integrals-{k}", lambda: run(k), k)
done("random parameters, inducing points, feature subsets and orders, times inside the interval, against composite Gauss-Legendre quadrature")
