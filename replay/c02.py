import itertools
from common import *
import jax.numpy as jnp
import lab.jax as B
from scipy import integrate as si
from scipy.stats import multivariate_normal as mvn
from scipy.special import erf
from gpcm.exppoly import var, const, Poly, Term, Factor, ExpPoly
from numpy.polynomial.legendre import leggauss

dn = lambda x: np.asarray(B.to_numpy(B.dense(x)), dtype=float)
G = leggauss(24)


def grid(lo, hi, h=0.6):
    if hi <= lo:
        x, w = grid(hi, lo, h) if hi < lo else (np.zeros(1), np.zeros(1))
        return x, -w
    e = np.linspace(lo, hi, int(np.ceil((hi - lo) / h)) + 1)
    c, d = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    return (c[:, None] + d[:, None] * G[0][None]).ravel(), (d[:, None] * G[1][None]).ravel()


R = 14.0


def quad_poly(r, ivs, fvs, mag=1.0):
    """Concave quadratic in the integration variables, with free variables in the other coefficients."""
    n = len(ivs)
    L = r.randn(n, n) * 0.5
    A = -(L @ L.T + np.diag(r.uniform(0.6, 1.5, n)))
    p = Poly()
    for i in range(n):
        for j in range(n):
            if A[i, j] != 0:
                p = p + const(float(A[i, j])) * var(ivs[i]) * var(ivs[j])
    lin = []
    for i in range(n):
        c = const(float(r.randn()) * mag)
        k = r.randint(4)
        if k >= 1 and fvs:
            c = c + const(float(r.randn()) * 0.6) * var(fvs[0])
        if k >= 2 and fvs:
            c = c + const(float(r.randn()) * 0.2) * var(fvs[-1]) ** 2
        if k == 3:
            c = Poly()
        lin.append(c)
        p = p + c * var(ivs[i])
    p = p + const(float(r.randn()) * 0.5)
    for f in fvs:
        p = p + const(float(-abs(r.randn())) * 0.3) * var(f) ** 2 + const(float(r.randn()) * 0.3) * var(f)
    return p


def val(p, at):
    return np.asarray(p.eval(**at), dtype=float)


def ref(ep, lims, at):
    """Tensor product quadrature."""
    xs, ws = [], []
    for lo, hi in lims.values():
        x, w = grid(-R if np.isinf(lo) else lo, R if np.isinf(hi) else hi)
        xs.append(x)
        ws.append(w)
    m = dict(zip(lims, np.meshgrid(*xs, indexing="ij")))
    W = 1
    for i, w in enumerate(ws):
        W = W * w.reshape([-1 if k == i else 1 for k in range(len(ws))])
    with np.errstate(over="ignore"):
        v = float(dn(ep.const)) * np.exp(val(ep.poly, {**at, **m}))
    return np.sum(W * v)


def symbolic(r, x):
    """A limit: a number, or a polynomial which takes that value."""
    return x


def full(k):
    r = rng("c02f", k)
    n = [1, 2, 3, 1][k % 4]
    ivs, fvs = ["x", "y", "w"][:n], ["s", "t"][: k % 3]
    ep = ExpPoly(float(r.randn()), quad_poly(r, ivs, fvs))
    for j in range(2):
        at = {f: float(r.randn()) for f in fvs}
        order = list(r.permutation(ivs))
        if n < 3:
            e = ref(ep, {v: (-np.inf, np.inf) for v in ivs}, at)
        else:
            e = exact(ep, ivs, at)
        g = float(dn(ep.integrate(*order, **at)))
        close(f"integral over {order} at {at}", g, e, 1e-7)
        g = float(dn(ep.integrate_box(*[(v, -np.inf, np.inf) for v in order], **at)))
        close(f"box integral over {order} at {at}", g, e, 1e-7)
        g = float(dn(ep.integrate_box(*[(v, np.inf, np.inf) for v in order], **at)))
        close(f"box integral with infinite limits of any sign at {at}", g, e, 1e-7)
    # values as tensors
    if fvs:
        at = {f: r.randn(4) for f in fvs}
        g = dn(ep.integrate(*ivs, **at))
        e = [exact(ep, ivs, {f: float(v[i]) for f, v in at.items()}) for i in range(4)]
        close("integral for a tensor of values", g, e, 1e-7)
    # integration over some of the variables gives a function of the others
    if n > 1:
        at = {**{f: float(r.randn()) for f in fvs}, ivs[0]: float(r.randn())}
        close("partial integral", float(dn(ep.integrate(*ivs[1:], **at))), exact(ep, ivs[1:], at), 1e-7)


def exact(ep, ivs, at):
    """Exact: quadratic coefficients by differences."""
    n = len(ivs)
    f = lambda x: float(val(ep.poly, {**at, **dict(zip(ivs, x))}))
    e = np.eye(n)
    f0 = f(np.zeros(n))
    H = np.zeros((n, n))
    g = np.zeros(n)
    for i in range(n):
        g[i] = (f(e[i]) - f(-e[i])) / 2
        for j in range(n):
            H[i, j] = (f(e[i] + e[j]) - f(e[i] - e[j]) - f(e[j] - e[i]) + f(-e[i] - e[j])) / 4
    P = -H
    return float(dn(ep.const)) * np.exp(f0 + 0.5 * g @ np.linalg.solve(P, g)) * (2 * np.pi) ** (n / 2) / np.sqrt(np.linalg.det(P))


def half(k):
    r = rng("c02h", k)
    n = 1 + k % 2
    ivs, fvs = ["x", "y"][:n], ["s", "t"][: k % 3]
    ep = ExpPoly(float(r.randn()), quad_poly(r, ivs, fvs, [1.0, 3.0][k % 2]))
    for j in range(2):
        at = {f: float(r.randn()) for f in fvs}
        e = ref(ep, {v: (-np.inf, 0.0) for v in ivs}, at)
        for order in itertools.permutations(ivs):
            if n == 2:
                a2 = {f: np.array([v]) for f, v in at.items()} or {"dummy": np.ones(1)}
            g = float(np.squeeze(dn(ep.integrate_half(*order, **at)))) if n == 1 or fvs else None
            if g is not None:
                close(f"half-line integral over {order} at {at}", g, e, 1e-5)


def lim(r, kind, at):
    """(argument, value)"""
    if kind == "-inf":
        return -np.inf, -np.inf
    if kind == "inf":
        return np.inf, np.inf
    if kind == "num":
        v = float(r.uniform(-2, 2))
        return v, v
    if kind == "int":
        v = int(r.randint(-2, 3))
        return v, float(v)
    if kind == "var":
        return var("L"), at["L"]
    if kind == "poly":
        c = float(r.randn())
        p = var("L") - const(c) * var("s") + const(0.5)
        return p, at["L"] - c * at["s"] + 0.5
    if kind == "tensor":
        v = jnp.asarray(float(r.uniform(-2, 2)))
        return v, float(v)


def box(k, kinds):
    r = rng("c02b", k, kinds)
    n = len(kinds)
    ivs = ["x", "y", "w"][:n]
    at = {"s": float(r.randn()), "t": float(r.randn()), "L": float(r.uniform(-1.5, 1.5))}
    ep = ExpPoly(float(r.randn()), quad_poly(r, ivs, ["s", "t"], [1.0, 3.0][k % 2]))
    args, lims = [], {}
    for v, (a, b) in zip(ivs, kinds):
        (lo, lov), (hi, hiv) = lim(r, a, at), lim(r, b, at)
        args.append((v, lo, hi))
        lims[v] = (lov, hiv)
    if k % 3 == 1:
        args = args[::-1]
    g = float(np.squeeze(dn(ep.integrate_box(*args, **at))))
    fin = {v: l for v, l in lims.items()}
    e = ref(ep, fin, at)
    close(f"box integral with limits {lims} at {at}", g, e, 2e-5)


def dependent(k):
    """Quadrants of strongly dependent variables: one variable done in closed form, the
    other by quadrature."""
    from scipy.special import log_ndtr

    r = rng("c02d", k)
    rho = [0.97, -0.97, 0.99, -0.99, 0.999, -0.999][k % 6]
    s1, s2, m1, m2 = np.exp(r.uniform(-1, 1)), np.exp(r.uniform(-1, 1)), 0.3 * r.randn(), 0.3 * r.randn()
    P = np.linalg.inv([[s1**2, rho * s1 * s2], [rho * s1 * s2, s2**2]])
    h = P @ [m1, m2]
    x, y = var("x"), var("y")
    p = (-0.5 * P[0, 0]) * x**2 + (-0.5 * P[1, 1]) * y**2 + (-P[0, 1]) * x * y + h[0] * x + h[1] * y
    ep = ExpPoly(1.5, p)
    u = np.linspace(-12 * s1 + m1, 0, 400001)
    c = s2 * np.sqrt(1 - rho**2)
    f = np.exp(-0.5 * ((u - m1) / s1) ** 2 + log_ndtr((0 - m2 - rho * s2 / s1 * (u - m1)) / c))
    w = np.ones(len(u))
    w[1:-1:2], w[2:-1:2] = 4, 2
    prob = np.sum(w * f) * (u[1] - u[0]) / 3 / np.sqrt(2 * np.pi) / s1
    e = 1.5 * 2 * np.pi / np.sqrt(np.linalg.det(P)) * np.exp(0.5 * h @ np.linalg.solve(P, h)) * prob
    for order in (("x", "y"), ("y", "x")):
        g = float(np.squeeze(dn(ep.integrate_half(*order, dummy=np.ones(1)))))
        close(f"quadrant integral over {order} with correlation {rho}", g, e, 1e-5)


def ops(k):
    r = rng("c02o", k)
    p, q = quad_poly(r, ["x"], ["s"]), quad_poly(r, ["y"], ["s"])
    c, d = float(r.randn()), float(r.randn())
    f, g = ExpPoly(c, p), ExpPoly(d, q)
    at = {"x": float(r.randn()), "y": float(r.randn()), "s": float(r.randn())}
    ev = lambda h, **u: float(dn(h.eval(**{**at, **u})))
    vf, vg = c * np.exp(val(p, at)), d * np.exp(val(q, at))
    close("value", ev(f), vf, 1e-9)
    close("value without constant", ev(ExpPoly(p)), vf / c, 1e-9)
    close("product", ev(f * g), vf * vg, 1e-9)
    close("negation", ev(-f), -vf, 1e-9)
    close("scaling", ev(2.5 * f), 2.5 * vf, 1e-9)
    close("scaling", ev(f * -3), -3 * vf, 1e-9)
    sh = var("y") * 0.5 - const(d) * var("s")
    v = 0.5 * at["y"] - d * at["s"]
    close("substitution", ev(f.substitute("x", sh)), ev(f, x=v), 1e-9)
    close("translation", ev(f.translate_var("x", sh)), ev(f, x=at["x"] + v), 1e-9)
    close("substitution by itself", ev(f.substitute("x", const(2) - var("x"))), ev(f, x=2 - at["x"]), 1e-9)
    close("substitution of an absent variable", ev(f.substitute("absent", sh)), vf, 1e-9)
    close("operand", ev(f), vf, 1e-12)
    w = jnp.asarray(r.randn(3))
    close("scaling by a tensor", dn((f * w).eval(**at)), vf * np.asarray(w), 1e-9)


def scaled(k):
    """Integrals in other units of the integration variables."""
    r = rng("c02s", k)
    n = 1 + k % 2
    ivs = ["x", "y"][:n]
    at = {"s": float(r.randn()), "t": float(r.randn())}
    ep = ExpPoly(float(r.randn()), quad_poly(r, ivs, ["s", "t"]))
    c = [1e5, 1e-5, 1e4, 1e-6][(k // 2) % 4]
    ep2 = ep
    for v in ivs:
        ep2 = ep2.substitute(v, const(1 / c) * var(v))
    kinds = [[(-np.inf, 0.3), (-0.4, np.inf)], [(-0.7, 0.9), (-np.inf, -0.2)], [(-np.inf, 0.1), (-np.inf, np.inf)]][k % 3][:n]
    lims = dict(zip(ivs, kinds))
    e = ref(ep, lims, at)
    # infinite limits stay infinite
    g = float(np.squeeze(dn(ep2.integrate_box(*[(v, *(c * x for x in l)) for v, l in lims.items()], **at)))) / c ** n
    close(f"box integral with limits {lims} in units of {c} at {at}", g, e, 2e-5)
    e = exact(ep, ivs, at)
    close(f"full integral in units of {c}", float(dn(ep2.integrate(*ivs, **at))) / c ** n, e, 1e-6)


def refuse(p, names, how):
    ep = ExpPoly(1.0, p)
    at = {"s": 0.5, "y": 0.3, "x": 0.2}
    if how == "full":
        f = lambda: ep.integrate(*names, **at)
    elif how == "half":
        f = lambda: ep.integrate_half(*names, **at)
    elif how == "box":
        f = lambda: ep.integrate_box(*[(n, -np.inf, 1.0) for n in names], **at)
    elif how == "boxlow":
        f = lambda: ep.integrate_box(*[(n, -1.0, np.inf) for n in names], **at)
    else:
        f = lambda: ep.integrate_box(*[(n, -np.inf, np.inf) for n in names], **at)
    try:
        v = f()
    except Exception:
        return
    raise Bad(f"integral of exp({p}) over {names} is not refused: {v}")


M = 4 if THOROUGH else 1
for k in range(12 * M):
    case(f"full-{k}", lambda: full(k), k, kind=f"full{k % 4}")
for k in range(12 * M):
    case(f"half-{k}", lambda: half(k), k, kind=f"half{k % 2}")
for k in range(6 * M):
    case(f"dependent-{k}", lambda: dependent(k), k, kind="dependent")
one = [("-inf", "num"), ("num", "inf"), ("num", "num"), ("var", "inf"), ("-inf", "var"), ("poly", "var"), ("int", "poly"), ("inf", "num"), ("num", "tensor"), ("var", "num"), ("-inf", "int"), ("poly", "inf")]
for k in range(2 * M):
    for j, a in enumerate(one):
        case(f"box1-{a}-{k}", lambda: box(k, (a,)), a, kind=f"box1{a}")
pairs = [("-inf", "inf"), ("-inf", "var"), ("num", "inf"), ("num", "num"), ("poly", "var"), ("var", "inf"), ("-inf", "num")]
for k in range(M):
    for a in pairs:
        for b in pairs:
            if a == b == ("-inf", "inf"):
                continue
            case(f"box2-{a}-{b}-{k}", lambda: box(k + pairs.index(a), (a, b)), (a, b), kind="box2")
for k in range(12 * M):
    case(f"scaled-{k}", lambda: scaled(k), k, kind="scaled")
for k in range(10 * M):
    case(f"operations-{k}", lambda: ops(k), k, kind="ops")
x, y, s = var("x"), var("y"), var("s")
bad = {"linear": x - y ** 2, "cubic": -(x ** 2) - x ** 3, "quartic": -(x ** 4), "absent": -(y ** 2), "cubic2": -(x ** 2) + x * x * x * 0.1, "quartic2": -(x ** 2) - 0.5 * x ** 4 + s,
       "constant": const(1.0)}
for nm, p in bad.items():
    for how in ["full", "half", "box", "boxlow", "boxfull"]:
        case(f"refused-{nm}-{how}", lambda: refuse(p, ["x"], how), (nm, how), kind="refused" + how)
bad2 = {"cubic": -(x ** 2) - y ** 2 - y ** 3, "linear": -(x ** 2) - y, "cubic1": -(x ** 3) - y ** 2 + x}
for nm, p in bad2.items():
    for how in ["half", "box", "boxlow", "boxfull"]:
        case(f"refused2-{nm}-{how}", lambda: refuse(p, ["x", "y"], how), (nm, how), kind="refused2" + how)
done("concave quadratic exponents in up to three variables, full, half, box integrals with finite, infinite and symbolic limits against quadrature; operations; refused exponents")
