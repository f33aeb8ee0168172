from common import *
import itertools
import lab as B
import lab.jax
import jax.numpy as jnp
from matrix import Diagonal, Dense
from scipy.stats import multivariate_normal
from stheno import Normal
from gpcm.normal import NaturalNormal


def dn(x):
    return np.asarray(B.to_numpy(B.dense(x)), dtype=float)


def pdm(r, n, scale=1.0, cond=1.0):
    a = r.randn(n, n)
    q, _ = np.linalg.qr(a)
    ev = scale * np.exp(r.uniform(-cond, cond, n))
    m = (q * ev) @ q.T
    return (m + m.T) / 2


def mk(prec, kind):
    if kind == "diag":
        return Diagonal(np.diag(prec).copy()), np.diag(np.diag(prec))
    if kind == "dense":
        return Dense(prec), prec
    if kind == "jax":
        return jnp.array(prec), prec
    return prec, prec


def check_moments(nat, lam, prec, order):
    S = np.linalg.inv(prec)
    mu = S @ lam
    want = {"mean": mu, "var": S, "m2": S + mu @ mu.T}
    for q in order:
        close(q, dn(getattr(nat, q)), want[q], 1e-7)
    true("dim", int(nat.dim) == prec.shape[0])


def kl_ref(lam, prec, lam2, prec2):
    S, S2 = np.linalg.inv(prec), np.linalg.inv(prec2)
    m, m2 = S @ lam, S2 @ lam2
    d = m2 - m
    return 0.5 * (np.trace(prec2 @ S) + float((d.T @ prec2 @ d).item()) - len(prec) + np.linalg.slogdet(S2)[1] - np.linalg.slogdet(S)[1])


kinds = ["np", "dense", "diag", "jax"]
N = 60 if THOROUGH else 14
for k in range(N):
    r = rng("c06", k)
    n = [1, 2, 3, 5, 4, 7][k % 6]
    kind = kinds[(k // 2) % 4]
    prec0 = pdm(r, n, scale=[1, 1e-2, 30][k % 3], cond=[0.5, 2, 3][k % 3])
    lam = r.randn(n, 1) * [1, 10, 0][k % 3] if k % 5 else np.zeros((n, 1))
    p, prec = mk(prec0, kind)
    prec2_0 = pdm(r, n, cond=1.5)
    lam2 = r.randn(n, 1)
    p2, prec2 = mk(prec2_0, kinds[k % 4])
    inp = dict(n=n, kind=kind, lam=lam.ravel().tolist(), prec=prec.tolist())
    new = lambda: NaturalNormal(jnp.array(lam) if kind == "jax" else lam, p)
    for order in list(itertools.permutations(["mean", "var", "m2"])) + [["m2", "m2", "mean", "mean", "var", "var"]]:
        case(f"moments[{k}]", lambda: check_moments(new(), lam, prec, order), dict(inp, order=list(order)), kind=f"moments-{kind}-{n}")

    def kl():
        q, o = new(), NaturalNormal(lam2, p2)
        ref = kl_ref(lam, prec, lam2, prec2)
        close("kl", float(q.kl(o)), ref, 1e-7)
        # again, after reading everything
        q.m2, q.var, q.mean, o.m2, o.mean
        close("kl again", float(q.kl(o)), ref, 1e-7)
        close("kl other direction", float(o.kl(q)), kl_ref(lam2, prec2, lam, prec), 1e-7)
        close("kl self", float(q.kl(new())), 0, 1e-7)
        check_moments(q, lam, prec, ["mean", "var", "m2"])
    case(f"kl[{k}]", kl, inp, kind=f"kl-{kind}")

    def logpdf():
        q = new()
        S = np.linalg.inv(prec)
        for s in (1.0, 5.0, 0.0):
            x = s * r.randn(n, 1)
            ref = multivariate_normal((S @ lam).ravel(), (S + S.T) / 2, allow_singular=False).logpdf(x.ravel())
            close("logpdf", float(q.logpdf(x)), ref, 1e-7)
    case(f"logpdf[{k}]", logpdf, inp, kind=f"logpdf-{kind}")

    def conv():
        S = np.linalg.inv(prec)
        S = (S + S.T) / 2
        m = r.randn(n, 1)
        Sm = Diagonal(np.diag(S).copy()) if kind == "diag" else (jnp.array(S) if kind == "jax" else S)
        nat = NaturalNormal.from_normal(Normal(m, Sm))
        close("prec", dn(nat.prec), prec, 1e-7)
        close("lam", dn(nat.lam), prec @ m, 1e-7)
        back = nat.to_normal()
        close("mean", dn(back.mean), m, 1e-7)
        close("var", dn(back.var), S, 1e-7)
        n2 = NaturalNormal.from_normal(new().to_normal())
        close("lam roundtrip", dn(n2.lam), lam, 1e-6)
        close("prec roundtrip", dn(n2.prec), prec, 1e-6)
    case(f"conversion[{k}]", conv, inp, kind=f"conv-{kind}")

    if k < (12 if THOROUGH else 6):
        def sample():
            M = 120_000
            q = new()
            state = B.create_random_state(np.float64 if kind != "jax" else jnp.float64, seed=k)
            for call in ("positional", "kw", "global"):
                if call == "global":
                    x = q.sample(num=M)
                else:
                    state, x = q.sample(state, M) if call == "positional" else q.sample(state, num=M)
                x = dn(x)
                true(f"shape {x.shape}", x.shape == (n, M))
                S = np.linalg.inv(prec)
                L = np.linalg.cholesky(prec)
                w = L.T @ (x - S @ lam)          # cov(w) = L' S L = I
                tol = 6.5 / np.sqrt(M)
                close("whitened mean", w.mean(1), np.zeros(n), atol=tol)
                close("whitened covariance", w @ w.T / M, np.eye(n), atol=tol * 1.6)
                close("successive samples are independent", w[:, 1:] @ w[:, :-1].T / M, np.zeros((n, n)), atol=tol * 1.6)
            state, a = q.sample(state)
            state, b = q.sample(state)
            true("fresh draws", n == 0 or not np.allclose(dn(a), dn(b)))
            true("shape of one sample", dn(a).shape == (n, 1))
        case(f"sample[{k}]", sample, inp, kind=f"sample-{kind}")
done("random and structured precisions (dense, diagonal, numpy, JAX), zero and large means, all reading orders; a case is distinct by kind and dimension")
