from common import *
import jax.numpy as jnp
from gpcm.util import summarise_samples, autocorr

NOM = {"68": 0.68, "95": 0.95, "99": 0.99}


def band(s, lo, hi, p):
    """The band lies between the outermost and contains the nominal mass by its empirical quantiles."""
    n = len(s)
    # levels of the quantiles: equal tails of at most (1 - p) / 2
    close_lo, close_hi = np.quantile(s, (1 - p) / 2, axis=0), np.quantile(s, 1 - (1 - p) / 2, axis=0)
    true(f"{p} band encloses the quantiles", np.all(lo <= close_lo + 1e-9 * (1 + np.abs(close_lo))) and np.all(hi >= close_hi - 1e-9 * (1 + np.abs(close_hi))))
    true(f"{p} band is within the samples", np.all(lo >= s.min(0) - 1e-9 * (1 + np.abs(s.min(0)))) and np.all(hi <= s.max(0) + 1e-9 * (1 + np.abs(s.max(0)))))
    if n > 1:
        mid = np.sort(s, axis=0)
        # equal tails: the empirical levels of the two ends mirror each other
        lv = lambda x: np.array([np.interp(v, c, np.linspace(0, 1, n)) if np.all(np.diff(c) > 0) else np.nan for v, c in zip(np.ravel(x), mid.reshape(n, -1).T)])
        a, b = lv(lo), lv(hi)
        ok = ~np.isnan(a) & ~np.isnan(b)
        close(f"{p} band has equal tails", (a + b)[ok], np.ones(ok.sum()), 1e-6)
        true(f"{p} band is not wider than half of its tails", np.all(a[ok] >= (1 - p) / 8))


def summ(shape, db, r, conv):
    s = np.exp(r.randn(*shape)) if db else r.randn(*shape)
    x = np.arange(shape[-1]) * 0.5
    q = summarise_samples(conv(x), conv(s), db=db)
    T = (lambda v: 10 * np.log10(v)) if db else (lambda v: v)
    U = (lambda v: 10 ** (v / 10)) if db else (lambda v: v)
    close("inputs", q.x, x)
    close("mean", q.mean, T(np.mean(s, axis=0)), 1e-8)
    if not db:
        close("variance", q.var, np.mean((s - s.mean(0)) ** 2, axis=0), 1e-8)
    prev = None
    for nm, p in NOM.items():
        lo, hi = getattr(q, f"err_{nm}_lower"), getattr(q, f"err_{nm}_upper")
        true("shape of the band", np.shape(lo) == shape[1:] and np.shape(hi) == shape[1:])
        band(s, U(lo), U(hi), p)
        if prev is not None:
            true("bands are nested", np.all(lo <= prev[0] + 1e-12) and np.all(hi >= prev[1] - 1e-12))
        prev = lo, hi
    al = np.asarray(q.all_samples)
    rev = np.transpose(T(s), tuple(reversed(range(s.ndim))))
    close("all samples", al, rev, 1e-8)
    pk = np.asarray(q.samples)
    n = shape[0]
    true("number of picks", pk.shape == rev.shape[:-1] + (min(n, 3),))
    used = []
    for j in range(pk.shape[-1]):
        m = [i for i in range(n) if np.allclose(rev[..., i], pk[..., j], rtol=1e-10, atol=1e-10)]
        true("a pick is one of the samples", len(m) >= 1)
        used.append(m[0])
    true("picks are not repeated", len(set(used)) == len(used))


def acf(x, lags, cov, window):
    x = np.asarray(x, float).reshape(-1)
    n = len(x)
    z = x - x.sum() / n
    L = n - 1 if lags is None else min(lags, n - 1)
    out = []
    for k in range(L + 1):
        tot = 0.0
        for i in range(n - k):
            tot += z[i] * z[i + k]
        out.append(tot / (n if window else n - k))
    out = np.array(out)
    return out if cov else out / out[0]


def auto(shape, lags, cov, window, r, conv):
    x = r.randn(*shape) + 3
    kw = {}
    if lags is not None:
        kw["lags"] = lags
    if cov:
        kw["cov"] = True
    if window:
        kw["window"] = True
    close("autocorrelation", np.asarray(autocorr(conv(x), **kw)), acf(x, lags, cov, window), 1e-8)
    kw = dict(lags=lags, cov=cov, window=window)
    close("autocorrelation", np.asarray(autocorr(conv(x), **kw)), acf(x, lags, cov, window), 1e-8)


i = 0
for shape in [(1, 4), (2, 3), (3, 5), (4, 1), (10, 6), (100, 3), (1000, 2), (7,), (5, 3, 2), (2000, 1)]:
    for db in (False, True):
        for rep in range(3 if THOROUGH else 1):
            i += 1
            r = rng("c16", shape, db, rep)
            sh = shape if len(shape) > 1 else (shape[0], 2)
            case(f"summary-{sh}-{db}-{rep}", lambda: summ(sh, db, r, [np.asarray, jnp.asarray][i % 2]), (sh, db))
for n in [(2,), (3,), (8,), (21,), (4, 3), (50, 1)]:
    for lags in [None, 0, 1, 2, 5, 100]:
        for cov in (False, True):
            for window in (False, True):
                r = rng("c16a", n, lags, cov, window)
                i += 1
                case(f"autocorr-{n}-{lags}-{cov}-{window}", lambda: auto(n, lags, cov, window, r, [np.asarray, jnp.asarray][i % 2]), (n, lags, cov, window), kind=f"a{cov}{window}{lags}")
done("sample arrays of several shapes and sizes, linear and decibel; series, lags, covariances, windows against explicit sums")
