from common import *
import jax
import jax.numpy as jnp
import lab.jax as B
from gpcm.util import hessian, laplace_approximation, maximum_a_posteriori
import contextlib, io
dn = lambda x: np.asarray(B.to_numpy(B.dense(x)), dtype=float)


def quiet(f):
    def g(*a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)
    return g


def pdm(r, n):
    q = np.linalg.qr(r.randn(n, n))[0]
    return (q * r.uniform(0.5, 3, n)) @ q.T


def funs(r, n):
    P, c = pdm(r, n), r.randn(n, 1)
    w = r.randn(n)
    a = r.randn(n, n)
    P = (P + P.T) / 2
    yield "gauss", lambda x: -0.5 * jnp.sum((x - c) * (P @ (x - c))), lambda x: -P, c
    yield "logcosh", lambda x: -jnp.sum(jnp.logaddexp(a @ x, -(a @ x))) - 0.5 * jnp.sum(x ** 2), lambda x: -np.eye(n) - a.T @ np.diag(1 / np.cosh((a @ x)[:, 0]) ** 2) @ a, np.zeros((n, 1))
    yield "quartic", lambda x: -jnp.sum((x - c) ** 4) - jnp.sum((x - c) ** 2) * 0.5, lambda x: -np.diag(12 * (x - c)[:, 0] ** 2 + 1), c


def hess(f, h, x):
    g = dn(hessian(f, jnp.asarray(x)))
    close("Hessian", g, h(x), 1e-7)
    close("symmetry", g, g.T, 1e-12)


def lap(f, h, c, x0, fe=None, he=None):
    d = laplace_approximation(f, jnp.asarray(x0), fe) if fe is not None else laplace_approximation(f, jnp.asarray(x0))
    m, S = dn(d.mean), dn(d.var)
    close("mode", m, c, 1e-3)
    m2 = dn(maximum_a_posteriori(f, jnp.asarray(x0)))
    close("optimiser", m, m2, 1e-9)
    H = (he or h)(m)
    w, v = np.linalg.eigh(-(H + H.T) / 2)
    pos = w > 1e-9 * np.max(np.abs(w))
    close("covariance", S, (v[:, pos] / w[pos]) @ v[:, pos].T, 1e-4)


def bimodal(x0, c, width=1.0):
    f = lambda x: jnp.logaddexp(jnp.sum(-0.5 * (x - c) ** 2), jnp.sum(-0.5 * (x + c) ** 2))
    d = quiet(laplace_approximation)(f, jnp.asarray(x0))
    s = np.sign(x0[0, 0])
    close("mode from the start", dn(d.mean), s * c * np.ones_like(x0), 1e-2)


def badshape(x):
    raises("not a column", ValueError, lambda: hessian(lambda v: jnp.sum(v ** 2), jnp.asarray(x)))


for n in [1, 2, 4, 6]:
    r = rng("c18", n)
    for nm, f, h, c in funs(r, n):
        for j in range(4 if THOROUGH else 2):
            x = r.randn(n, 1)
            case(f"hessian-{nm}-{n}-{j}", lambda: hess(f, h, x), (nm, n, x.ravel().tolist()), kind="h" + nm)
        x = r.randn(n, 1)
        case(f"laplace-{nm}-{n}", lambda: quiet(lap)(f, h, c, x), (nm, n, x.ravel().tolist()), kind="l" + nm)
    fs = list(funs(r, n))
    # a separate density for the Hessian
    f0, h0, c0 = fs[0][1:]
    fe, he = fs[1][1:3]
    case(f"eval-{n}", lambda: quiet(lap)(f0, h0, c0, np.zeros((n, 1)), fe, he), n, kind="eval")
    # an indefinite Hessian of the evaluation density
    s = np.array([1.0, -1.0, 0.5, 2.0, -3.0, 1.0])[:n] if n > 1 else np.array([1.0])
    case(f"indefinite-{n}", lambda: quiet(lap)(f0, h0, c0, np.zeros((n, 1)), lambda x: -0.5 * jnp.sum(s[:, None] * x ** 2), lambda x: -np.diag(s)), n, kind="indefinite")
for x0 in [2.0, -2.0, 5.0, -1.5]:
    case(f"bimodal-{x0}", lambda: bimodal(np.full((1, 1), x0), 4.0), x0)
for x in [np.ones(3), np.ones((1, 3)), np.ones((3, 2)), np.ones((3, 1, 1)), np.ones(()), np.ones((2, 2))]:
    case(f"shape-{x.shape}", lambda: badshape(x), x.shape)
done("densities with analytic Hessians, starts, separate evaluation densities, indefinite Hessians, invalid shapes")
