from common import *
import jax.numpy as jnp
from gpcm.util import closest_psd
import lab.jax as B
from matrix import Dense, Diagonal


def ref(a):
    s = (a + a.T) / 2
    w, v = np.linalg.eigh(s)
    p = (v * np.maximum(w, 0)) @ v.T
    pos = w > 1e-9 * max(1e-300, np.max(np.abs(w)))
    q = (v[:, pos] / w[pos]) @ v[:, pos].T
    return p, q


def rot(r, n):
    return np.linalg.qr(r.randn(n, n))[0]


def run(a, wrap, inv=True):
    p, q = ref(a)
    g = np.asarray(B.to_numpy(B.dense(closest_psd(wrap(a)))))
    sc = np.max(np.abs(a)) if a.size else 1
    sc = sc if sc > 0 else 1
    close("projection", g / sc, p / sc, 1e-6)
    close("symmetry", g / sc, g.T / sc, 1e-9)
    true("no negative eigenvalue", np.min(np.linalg.eigvalsh((g + g.T) / 2)) >= -1e-8 * sc)
    if inv:
        gi = np.asarray(B.to_numpy(B.dense(closest_psd(wrap(a), inv=True))))
        close("pseudo-inverse", gi * sc, q * sc, 1e-5)


for w in witnesses():
    for i in range(4):
        q = rot(rng("c15w", i), len(w["spectrum"]))
        case(f"{w['case']}-{i}", lambda: run((q * np.array(w["spectrum"])) @ q.T, jnp.asarray), w["spectrum"])
wraps = [jnp.asarray, lambda x: Dense(jnp.asarray(x)), np.asarray]
for i in range(40 if THOROUGH else 16):
    r = rng("c15", i)
    n = [1, 2, 3, 5, 8, 4][i % 6]
    sc = [1.0, 1e3, 1e-3][i % 3]
    case(f"general-{i}", lambda: run(r.randn(n, n) * sc, wraps[i % 3]), (n, sc), kind="general")
spectra = [[1, -1], [2, -2, 1], [1, 1, -1, -1], [3, 3, 3], [-1, -2, -3], [0, 0], [1, 0, 0], [5, -5, 0, 0], [1, 1, 1, -1], [2, -1, -1, 0.5], [1.0], [-1.0], [0.0],
           [1, -1, 2, -2, 3, -3], [1e-3, 1], [1, -1 + 1e-9], [1, 1 + 1e-9, -1]]
for j, w in enumerate(spectra):
    for i in range(3 if THOROUGH else 2):
        r = rng("c15s", j, i)
        n = len(w)
        q = rot(r, n) if i else np.eye(n)
        skew = r.randn(n, n)
        a = (q * np.array(w, float)) @ q.T + (skew - skew.T) * (i == 1)
        case(f"spectrum-{j}-{i}", lambda: run(a, wraps[j % 3]), (w, "rotated" if i else "diagonal"), kind="s" + str(j))
for i in range(4):
    r = rng("c15p", i)
    n = 2 + i
    L = r.randn(n, n)
    a = L @ L.T
    case(f"psd-{i}", lambda: close("a positive definite matrix is kept", np.asarray(closest_psd(jnp.asarray(a))), a, 1e-8), n, kind="psd")
case("anti", lambda: run(np.array([[0.0, 3.0], [-3.0, 0.0]]), wraps[0]))
case("offdiag", lambda: run(np.array([[0.0, 1.0], [1.0, 0.0]]), wraps[0]))
done("square matrices: general, repeated and paired eigenvalues, rank deficient, scaled; reference by the symmetric eigendecomposition")
