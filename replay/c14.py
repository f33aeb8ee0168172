from common import *
import jax.numpy as jnp
from gpcm.util import estimate_psd


def ref(k, n_zero, dt):
    """Cosine sum over the symmetric periodic extension."""
    k = np.concatenate([k, np.zeros(n_zero)])
    m = len(k)
    N = 2 * m - 2
    out = []
    for j in range(N // 2 + 1):
        w = 2 * np.pi * j / N
        ph = np.cos(w * np.arange(m))
        out.append(k[0] + 2 * np.sum(k[1:-1] * ph[1:-1]) + k[-1] * ph[-1])
    out = np.array(out)
    all_ = np.concatenate([out, out[1:-1][::-1]])
    return np.arange(N // 2) / (N * dt), out, all_, N


def run(k, n_zero, dt, t0, exact, conv):
    n = len(k)
    t = np.arange(n) * dt
    kw = {} if n_zero is None else {"n_zero": n_zero}
    nz = 2000 if n_zero is None else n_zero
    fr, ps = estimate_psd(conv(t), conv(k), **kw)
    fr, ps = np.asarray(fr), np.asarray(ps)
    rf, re, all_, N = ref(k, nz, dt)
    close("frequencies", fr, rf, 1e-9)
    true("density is non-negative", np.all(ps >= 0))
    true("density is finite", np.all(np.isfinite(ps)))
    power = np.sum(np.abs(all_)) / (N * dt)
    rp = np.abs(re)[: N // 2] * k[0] / power
    if exact:
        close("density", ps, rp, 1e-7)
        # the total power: two sides and the highest frequency
        close("power", ps[0] + 2 * np.sum(ps[1:]) + np.abs(re[-1]) * k[0] / power, k[0] * N * dt, 1e-8)
    else:
        # negative values can be treated in more than one way; the power cannot exceed the kernel
        true("power", ps[0] + 2 * np.sum(ps[1:]) <= k[0] * N * dt * (1 + 1e-8))
    with np.errstate(divide="ignore"):
        fd, pd = estimate_psd(conv(t), conv(k), db=True, **kw)
        close("frequencies in decibels", np.asarray(fd), rf, 1e-9)
        big = rp > 1e-9 * np.max(rp)
        close("decibels", np.asarray(pd)[big], (10 * np.log10(ps))[big], 1e-7)


def kernel(kind, r, n):
    if kind == "white":
        k = np.zeros(n)
        k[0] = np.exp(r.randn())
        return k
    if kind == "fir":
        L = r.randint(1, max(2, n))
        h = r.randn(L)
        a = np.correlate(h, h, "full")[L - 1:]
        k = np.zeros(n)
        k[:L] = a
        return k
    if kind == "exp":
        return np.exp(-r.uniform(0.05, 3) * np.arange(n)) * np.exp(r.randn())
    if kind == "indef":
        k = r.randn(n)
        k[0] = abs(k[0]) + 0.1
        return k
    if kind == "osc":
        return np.cos(r.uniform(0.1, 3) * np.arange(n)) * np.maximum(1 - np.arange(n) / n, 0)


c = 0
for kind in ["white", "fir", "exp", "indef", "osc"]:
    for i in range(8 if THOROUGH else 4):
        r = rng("c14", kind, i)
        n = [2, 3, 10, 50, 4, 7, 100, 20][i % 8]
        nz = [None, 1, 7, 100, None, 2, 50, None][(i + c) % 8]
        dt = [1.0, 0.1, 3.7, 1e-3][(i + c) % 4]
        conv = [np.asarray, jnp.asarray][i % 2]
        k = kernel(kind, r, n)
        # Only a tail of zeros guarantees that the extension has the sign of the transform.
        case(f"{kind}-{i}", lambda: run(k, nz, dt, 0, kind in ("white", "fir") , conv), (kind, n, nz, dt), kind=f"{kind}{nz}")
    c += 1
for t0, dt in [(0.1, 0.5), (-1.0, 0.5), (1e-3, 0.5), (5.0, 0.5), (1e-9, 1e-9), (-3e-12, 1e-12), (1e-7, 0.5), (2e-15, 1e-15)]:
    case(f"start-{t0}", lambda: raises("a grid not starting at zero", ValueError, lambda: estimate_psd(np.arange(5) * dt + t0, np.ones(5))), t0)
for s in [1e-12, 1e-20, 1e12]:
    # the power of the kernel in other units
    def scaled(s=s):
        r = rng("c14", "scaled")
        k = kernel("fir", r, 20)
        t = np.arange(20) * 0.5
        f, p = estimate_psd(t, k)
        g, q = estimate_psd(t, s * k)
        close("density in other units", np.asarray(q) / s, np.asarray(p), 1e-9)
        with np.errstate(divide="ignore"):
            g, q = estimate_psd(t, s * k, db=True)
        big = np.asarray(p) > 1e-9 * np.max(p)
        close("decibels in other units", np.asarray(q)[big], (10 * np.log10(np.asarray(p)) + 10 * np.log10(s))[big], 1e-7)
    case(f"scaled-{s}", scaled, s)
done("kernels (white noise, exact autocovariances, exponential, oscillating, indefinite), grids, paddings, against an explicit cosine sum")
