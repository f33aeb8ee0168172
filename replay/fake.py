"""A model with arbitrary given integrals, and reference formulas in plain numpy."""
import numpy as np
import lab.jax as B
import jax.numpy as jnp
from matrix import Dense, Diagonal, LowRank
from gpcm.model import AbstractGPCM
from types import SimpleNamespace


def dn(x):
    return np.asarray(B.to_numpy(B.dense(x)), dtype=float)


def pdm(r, n, lo=0.5, hi=3.0):
    q, _ = np.linalg.qr(r.randn(n, n))
    m = (q * r.uniform(lo, hi, n)) @ q.T
    return (m + m.T) / 2


class Fake(AbstractGPCM):
    name = "Fake"

    def __init__(self, scheme, data):
        AbstractGPCM.__init__(self, scheme)
        self.D = data

    def __prior__(self):
        d = self.D
        self.noise = jnp.asarray(d.noise)
        self.n_u, self.n_z = d.n_u, d.n_z
        self.extent = 4.0
        AbstractGPCM.__prior__(self)

    def compute_K_u(self):
        return self.D.K_u_m

    def compute_K_z(self):
        return self.D.K_z_m

    def _ix(self, t):
        return np.round(np.asarray(t)).astype(int)

    def compute_i_hx(self, t1=None, t2=None):
        d = self.D
        if t1 is None or t2 is None:
            t1 = 0.0 if t1 is None else t1
            t2 = 0.0 if t2 is None else t2
        return d.f_hx(jnp.asarray(t1), jnp.asarray(t2))

    def compute_I_ux(self, t1=None, t2=None):
        d = self.D
        if t1 is None and t2 is None:
            return jnp.asarray(d.I_ux0)
        return d.f_ux(jnp.asarray(t1), jnp.asarray(t2))

    def compute_I_hz(self, t):
        return self.D.f_hz(jnp.asarray(t))

    def compute_I_uz(self, t):
        return self.D.f_uz(jnp.asarray(t))


def make(r, n_u=3, n_z=2, noise=None, mat="dense", ksym=True):
    d = SimpleNamespace()
    d.n_u, d.n_z = n_u, n_z
    d.noise = float(noise if noise is not None else np.exp(r.uniform(-2, 1)))
    if mat == "dense":
        d.K_u, d.K_z = pdm(r, n_u), pdm(r, n_z)
        d.K_u_m, d.K_z_m = Dense(jnp.array(d.K_u)), Dense(jnp.array(d.K_z))
    elif mat == "plain":
        d.K_u, d.K_z = pdm(r, n_u), pdm(r, n_z)
        d.K_u_m, d.K_z_m = jnp.array(d.K_u), jnp.array(d.K_z)
    else:
        d.K_u = pdm(r, n_u)
        d.K_u_m = Dense(jnp.array(d.K_u))
        dg, l = r.uniform(0.5, 2, n_z), r.randn(n_z, 1)
        d.K_z = np.diag(dg) + l @ l.T
        d.K_z_m = Diagonal(jnp.array(dg)) + LowRank(left=jnp.array(l))
    K = 3
    # integrals as smooth functions of time with arbitrary coefficients
    cu = [r.randn(n_u, n_z) for _ in range(K)]
    ch = [pdm(r, n_z, 0.5, 1.5) for _ in range(K)]
    cx = pdm(r, n_u, 4, 8)
    w = r.uniform(0.3, 2, (4, K))
    fz = lambda t, k, j: jnp.cos(w[j, k] * t + k + j)
    d.f_uz = lambda t: sum(fz(t, k, 0)[:, None, None] * jnp.array(cu[k])[None] for k in range(K)) * 0.6
    d.f_hz = lambda t: sum((3.0 + fz(t, k, 1))[:, None, None] * jnp.array(ch[k])[None] for k in range(K))
    d.f_hx = lambda a, b: 30.0 * jnp.exp(-0.3 * (a - b) ** 2)
    d.I_ux0 = cx
    d.f_ux = lambda a, b: jnp.cos(a)[:, None, None, None] * jnp.cos(b)[None, :, None, None] * jnp.array(cx)[None, None] + 0 * a[:, None, None, None]
    return d


def terms(d, t):
    """Per-observation matrices A_i, B_i, c_i, I_i in plain numpy."""
    memo = d.__dict__.setdefault("memo", {})
    key = np.asarray(t).tobytes()
    if key not in memo:
        memo[key] = terms_(d, t)
    return memo[key]


def terms_(d, t):
    K_u, K_z = d.K_u, d.K_z
    iu, iz = np.linalg.inv(K_u), np.linalg.inv(K_z)
    I_uz = np.asarray(d.f_uz(jnp.asarray(t)))
    I_hz = np.asarray(d.f_hz(jnp.asarray(t)))
    I_hx = np.asarray(d.f_hx(jnp.asarray(t), jnp.asarray(t)))
    I_ux = np.asarray(d.I_ux0)
    return gterms(iu, iz, I_hx, I_ux, I_hz, I_uz)


def gterms(iu, iz, I_hx, I_ux, I_hz, I_uz):
    out = []
    for i in range(len(I_uz)):
        I = I_uz[i]
        sz = I @ iz @ I.T
        su = I.T @ iu @ I
        out.append((I_ux - sz, I_hz[i] - su, I_hx[i] - np.trace(iu @ I_ux) - np.trace(iz @ I_hz[i]) + np.trace(iu @ sz), I))
    return out


def moments(d, t, u, z):
    """First two moments of the function at t given u and z (vectors)."""
    m1, m2 = [], []
    for A, Bz, c, I in terms(d, t):
        f = u @ I @ z
        m1.append(f)
        m2.append(f ** 2 + u @ A @ u + z @ Bz @ z + c)
    return np.array(m1), np.array(m2)


def exp_loglik(d, t, y, u, z):
    """Expected Gaussian log-likelihood given u and z."""
    m1, m2 = moments(d, t, u, z)
    return np.sum(-0.5 * np.log(2 * np.pi * d.noise) - (y ** 2 - 2 * y * m1 + m2) / (2 * d.noise))


def quad_of(f, n, h=1.0):
    """A quadratic function as (constant, gradient at zero, Hessian), exactly by differences."""
    e = np.eye(n) * h
    f0 = f(np.zeros(n))
    g = np.array([(f(e[i]) - f(-e[i])) / (2 * h) for i in range(n)])
    H = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i == j:
                H[i, i] = (f(e[i]) - 2 * f0 + f(-e[i])) / h ** 2
            elif i < j:
                H[i, j] = H[j, i] = (f(e[i] + e[j]) - f(e[i] - e[j]) - f(-e[i] + e[j]) + f(-e[i] - e[j])) / (4 * h ** 2)
    return f0, g, H


def kl_normal(m1, S1, m2, S2):
    P2 = np.linalg.inv(S2)
    dm = m2 - m1
    return 0.5 * (np.trace(P2 @ S1) + dm @ P2 @ dm - len(m1) + np.linalg.slogdet(S2)[1] - np.linalg.slogdet(S1)[1])


def logp0(K, x):
    """Log-density of the prior with precision K at x."""
    return 0.5 * np.linalg.slogdet(K)[1] - 0.5 * len(x) * np.log(2 * np.pi) - 0.5 * x @ K @ x
