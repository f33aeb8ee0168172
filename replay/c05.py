from common import *
import warnings
warnings.simplefilter("ignore")
import lab.jax as B
from gpcm import GPCM, CGPCM, RGPCM


def dn(x):
    return np.asarray(B.to_numpy(B.dense(x)), dtype=float)


def spaced(what, t):
    d = np.diff(t)
    close(what + " equally spaced", d, np.full(len(d), d.mean()), 1e-9)
    true(what + " increasing", len(d) == 0 or d.mean() > 0)


def reach(what, m, t_max):
    """The window at the last inducing point is exp(-pi)."""
    a = float(m.alpha)
    w = np.exp(-a * t_max) if m.name == "RGPCM" else np.exp(-a * t_max ** 2)
    close(what, w, np.exp(-np.pi), 1e-9)


def consistent(m0, names):
    want = {n: np.array(dn(getattr(m0, n))) for n in names}
    m = m0()
    for n in names:
        close("instantiated " + n, dn(getattr(m, n)), want[n], 1e-6)
        close("constructed " + n + " unchanged", dn(getattr(m0, n)), want[n], 1e-9)
    return m


def gp(kind, kw, t):
    M = {"gpcm": GPCM, "cgpcm": CGPCM, "gpcm-causal": lambda **k: GPCM(causal=True, **k)}[kind]
    causal = kind != "gpcm"
    m = M(t=t, **kw)
    tu, tz = dn(m.t_u), dn(m.t_z)
    spaced("t_u", tu)
    spaced("t_z", tz)
    reach("reach", m, tu[-1])
    true("lag zero", np.min(np.abs(tu)) < 1e-9 * (1 + tu[-1]))
    true("counts", len(tu) == m.n_u and len(tz) == m.n_z)
    cap, capz = kw.get("n_u_cap", 300), kw.get("n_z_cap", 300)
    pad = 2 if causal else 1
    if "n_u" not in kw:
        true(f"cap of t_u {len(tu)} {cap}", len(tu) <= cap + pad)
        if cap == 300:
            true("two points per wiggle", len(tu) >= min(cap, 4 * kw["window"] / kw["scale"]))
    else:
        true("requested t_u", kw["n_u"] <= len(tu) <= kw["n_u"] + pad)
    if causal:
        close("padding", tu[0], -2 * (tu[1] - tu[0]), 1e-9)
        # padding does not change the spacing of the points from zero to the end of the window
    else:
        close("symmetric", tu, -tu[::-1], 1e-9)
    ext = kw.get("extend_t_z", False)
    if not ext:
        close("t_z covers", tz[[0, -1]], [np.min(t), np.max(t)], 1e-9)
        if "n_z" not in kw:
            true("cap of t_z", len(tz) <= capz)
        else:
            true("requested t_z", len(tz) == kw["n_z"])
    else:
        base = M(t=t, **dict(kw, extend_t_z=False))
        bz = dn(base.t_z)
        close("same spacing", tz[1] - tz[0], bz[1] - bz[0], 1e-9)
        true("covers the filter", tz[0] <= np.min(t) - tu[-1] + 1e-9)
        if causal:
            close("not extended to the right", tz[-1], np.max(t), 1e-9)
        else:
            true("covers the filter on the right", tz[-1] >= np.max(t) + tu[-1] - 1e-9)
        true("no more than needed", tz[0] > np.min(t) - tu[-1] - 1.001 * (bz[1] - bz[0]) - 1e-9)
        close("contains the original points", min(abs(tz - bz[0])), 0, 1e-7)
    # unit power, before and after instantiation
    close("unit power", dn(m.compute_i_hx()), 1.0, 1e-7)
    close("unit power anywhere", dn(m.compute_i_hx(np.array([0.7, -2.0]), np.array([0.7, -2.0]))), np.ones(2), 1e-7)
    close("inter-domain variance", np.diag(dn(m.compute_K_z())), np.ones(len(tz)), 1e-7)
    if len(tu) < 60 and len(tz) < 60:
        i = consistent(m, ["noise", "alpha", "alpha_t", "gamma", "omega", "omega_t", "t_u", "t_z"])
        close("unit power, instantiated", dn(i.compute_i_hx()), 1.0, 1e-6)
        close("inter-domain variance, instantiated", np.diag(dn(i.compute_K_z())), np.ones(len(tz)), 1e-6)


def rg(kw, t):
    m = RGPCM(t=t, **kw)
    tu = dn(m.t_u)
    spaced("t_u", tu)
    close("lag zero", tu[0], 0, 1e-12)
    reach("reach", m, tu[-1])
    true("counts", len(tu) == m.n_u and len(m.ms) == m.n_z)
    if "n_u" not in kw:
        true("cap of t_u", len(tu) <= kw.get("n_u_cap", 300))
    else:
        true("requested t_u", len(tu) == kw["n_u"])
    if "m_max" not in kw and "n_z" not in kw:
        true("cap of the features", len(m.ms) <= 2 * kw.get("m_max_cap", 150) + 1)
    if "n_z" in kw:
        true("requested features", kw["n_z"] <= m.n_z <= kw["n_z"] + 2)
    true("interval", m.a <= np.min(t) - tu[-1] + 1e-9 and m.b >= np.max(t) - 1e-9)
    close("unit power", dn(m.compute_i_hx()), 1.0, 1e-7)
    close("unit power anywhere", dn(m.compute_i_hx(np.array([0.7, -2.0]), np.array([0.7, -2.0]))), np.ones(2), 1e-7)
    close("filter variance", np.diag(dn(m.compute_K_u())), np.ones(len(tu)), 1e-7)
    true("transform slower than window", float(m.gamma) < float(m.alpha))
    if len(tu) < 60 and m.n_z < 60:
        i = consistent(m, ["noise", "alpha", "alpha_t", "lam", "gamma", "gamma_t", "t_u"])
        true("transform slower than window, instantiated", float(i.gamma) < float(i.alpha))
        close("filter variance, instantiated", np.diag(dn(i.compute_K_u())), np.ones(len(tu)), 1e-6)
        r = rng("c05", str(kw))
        for s in (0.5, 3.0, 10.0):
            v = m.vs.get_latent_vector()
            m.vs.set_latent_vector(np.asarray(v) + s * r.randn(len(np.asarray(v))))
            try:
                j = m()
            except Exception:
                continue      # a kernel matrix of wild parameters may not be invertible
            true("transform slower than window, learned", float(j.gamma) < float(j.alpha))


def kws(k):
    r = rng("c05kw", k)
    w = float(np.exp(r.uniform(-2, 2)))
    s = w * float(r.choice([1.2, 1.0, 0.5, 0.25, 0.1]))
    kw = dict(window=w, scale=s, noise=float(np.exp(r.uniform(-6, 0))))
    T = w * float(r.uniform(1, 5))
    t = np.sort(r.uniform(0, T, 20)) + float(r.randn())
    t[-1] = t[0] + T
    if k % 3 == 1:
        kw["n_u"] = int(r.choice([2, 3, 4, 5, 8, 9, 20]))
    if k % 4 == 2:
        kw["n_u_cap"] = int(r.choice([4, 5, 6, 10, 11]))
    return kw, t, r


for k in range(60 if THOROUGH else 16):
    kw, t, r = kws(k)
    for kind in ("gpcm", "cgpcm", "gpcm-causal"):
        q = dict(kw)
        if k % 5 == 1:
            q["n_z"] = int(r.choice([2, 3, 7, 12]))
        if k % 5 == 2:
            q["n_z_cap"] = int(r.choice([3, 4, 9]))
        if k % 2 == 1:
            q["extend_t_z"] = True
        if k % 7 == 3:
            q.update(fix_noise=True, fix_window=True, fix_scale=True)
        if q.get("n_u") == 2 and kind == "gpcm":
            pass
        if k < 4 or k % 3 == 0 or kind == "gpcm":
            case(f"{kind}[{k}]", lambda: gp(kind, q, t), dict(model=kind, **q, t0=t[0], t1=t[-1]), kind=f"{kind}{k}")
    q = dict(kw)
    if k % 5 == 1:
        q["n_z"] = int(r.choice([2, 3, 7, 12]))
    if k % 5 == 2:
        q["m_max"] = int(r.choice([1, 3, 9]))
    if k % 5 == 3:
        q["m_max_cap"] = int(r.choice([2, 3, 9]))
    if k % 7 == 3:
        q.update(fix_noise=True, fix_window=True, fix_scale=True)
    case(f"rgpcm[{k}]", lambda: rg(q, t), dict(model="rgpcm", **q, t0=t[0], t1=t[-1]), kind=f"rgpcm{k}")
# long and fine: the caps are hit
case("cap gpcm", lambda: gp("gpcm", dict(window=1.0, scale=0.01), np.linspace(0, 10, 50)), kind="cap")
case("cap cgpcm", lambda: gp("cgpcm", dict(window=1.0, scale=0.01), np.linspace(0, 10, 50)), kind="cap")
case("cap rgpcm", lambda: rg(dict(window=1.0, scale=0.01), np.linspace(0, 10, 50)), kind="cap")
done("random windows, scales, caps, numbers of inducing points, causal or not, fixed or learned parameters, random learned values")
