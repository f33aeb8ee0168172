"""C06: contracts of gpcm.normal.NaturalNormal, discharged for symbolic dimension, precision and
precision-weighted mean."""
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE
from pyvc.values import *
from pyvc.lib import pd, tens, m_inv, m_mm, mat_transpose, binop, m_logdet, Obj

ASSUMPTIONS = [
    "real arithmetic: floating-point rounding is not part of the contracts",
    "B.chol, B.cholsolve, B.pd_inv, B.logdet, B.outer, B.mm follow their linear-algebra contracts on positive-definite matrices",
    "stheno.Normal(prec).sample(state, num) is chol(prec) times standard normal noise drawn from the state",
]


def tr(I, t):
    return mat_transpose(t)


def setup(pr, diag=False):
    I = pr.new()
    n = alg.sym("n", pos=True, int=True)
    K = pd(n, "K")
    lam = tens((n, 1), "lam")
    cls = I.get("normal.NaturalNormal")
    return I, n, K, lam, cls


def spec(I, n, K, lam):
    S = m_inv(I, K)
    mu = m_mm(I, [S, lam])
    m2 = binop(I, "Add", S, m_mm(I, [mu, tr(I, mu)]))
    return mu, S, m2


def run(pr, tier):
    I, n, K, lam, cls = setup(pr)
    mu, S, m2 = spec(I, n, K, lam)
    want = {"mean": mu, "var": S, "m2": m2}

    def new():
        return I.call(cls, [lam, K], {})

    # each quantity, in any order, repeatedly
    from itertools import permutations
    orders = [p for k in (1, 2, 3) for p in permutations(["mean", "var", "m2"], k)] + [("mean", "mean"), ("var", "var"), ("m2", "m2")]

    for order in orders:
        def thunk(order=order):
            o = new()
            return [I.getattr(o, q) for q in order], o

        def check(p, name, order=order):
            if p.kind != "ret":
                return pr.true(name, False, repr(p.value))
            for q, v in zip(order, p.value[0]):
                pr.tensor(f"{name}.{q}", I, p.pc, v, want[q])
            # frame: the natural parameters are unchanged
            pr.tensor(f"{name}.lam", I, p.pc, I.getattr(p.value[1], "lam"), lam)
            pr.tensor(f"{name}.prec", I, p.pc, I.getattr(p.value[1], "prec"), K)
        pr.paths("normal.NaturalNormal." + "+".join(order), I, thunk, check)

    def chk(f):
        def g(p, name):
            if p.kind != "ret":
                return pr.true(name, False, repr(p.value))
            f(p, name)
        return g

    pr.paths("normal.NaturalNormal.dim", I, lambda: I.getattr(new(), "dim"), chk(lambda p, nm: pr.eq(nm, p.pc, p.value, n)))

    # conversions
    def to_normal(p, nm):
        pr.tensor(nm + ".mean", I, p.pc, I.getattr(p.value, "mean"), mu)
        pr.tensor(nm + ".var", I, p.pc, I.getattr(p.value, "var"), S)
    pr.paths("normal.NaturalNormal.to_normal", I, lambda: I.callm(new(), "to_normal"), chk(to_normal))

    def from_normal(p, nm):
        pr.tensor(nm + ".prec", I, p.pc, I.getattr(p.value, "prec"), m_inv(I, V))
        pr.tensor(nm + ".lam", I, p.pc, I.getattr(p.value, "lam"), m_mm(I, [m_inv(I, V), m]))
    V = pd(n, "V")
    m = tens((n, 1), "mu")
    pr.paths("normal.NaturalNormal.from_normal", I, lambda: I.callm(cls, "from_normal", Obj("Normal", mean=m, var=V)), chk(from_normal))

    def lossless(p, nm):
        pr.tensor(nm + ".mean", I, p.pc, I.getattr(p.value, "mean"), m)
        pr.tensor(nm + ".var", I, p.pc, I.getattr(p.value, "var"), V)
    pr.paths("normal.roundtrip.mean_var", I, lambda: I.callm(I.callm(cls, "from_normal", Obj("Normal", mean=m, var=V)), "to_normal"), chk(lossless))

    def lossless2(p, nm):
        pr.tensor(nm + ".lam", I, p.pc, I.getattr(p.value, "lam"), lam)
        pr.tensor(nm + ".prec", I, p.pc, I.getattr(p.value, "prec"), K)
    pr.paths("normal.roundtrip.natural", I, lambda: I.callm(cls, "from_normal", I.callm(new(), "to_normal")), chk(lossless2))

    # log-density
    x = tens((n, 1), "x")
    d = binop(I, "Sub", x, mu)
    quad = lib.scal(m_mm(I, [tr(I, d), K, d]))
    log2pi = alg.log(alg.pi() * 2)
    lp = (lift(n) * log2pi - lift(m_logdet(I, K)) + lift(quad)) * lift(-1) / 2
    for pre in ((), ("mean",), ("m2", "var")):
        def thunk(pre=pre):
            o = new()
            for q in pre:
                I.getattr(o, q)
            return I.callm(o, "logpdf", x)
        pr.paths("normal.NaturalNormal.logpdf" + "".join("." + q for q in pre), I, thunk, chk(lambda p, nm: pr.tensor(nm, I, p.pc, p.value, lp)))

    # divergence from another normal
    K2 = pd(n, "K2")
    lam2 = tens((n, 1), "lam2")
    mu2 = m_mm(I, [m_inv(I, K2), lam2])
    dd = binop(I, "Sub", mu, mu2)
    trc = alg.Sum(n, lambda i: m_mm(I, [K2, S]).at(i, i))
    kl = (trc - lift(n) + lift(lib.scal(m_mm(I, [tr(I, dd), K2, dd]))) + lift(m_logdet(I, K)) - lift(m_logdet(I, K2))) / 2
    pr.paths("normal.NaturalNormal.kl", I, lambda: I.callm(new(), "kl", I.call(cls, [lam2, K2], {})), chk(lambda p, nm: pr.tensor(nm, I, p.pc, p.value, kl)))

    # sampling: mean at zero noise, and the noise coefficient C satisfies C C' = var, independent columns
    num = alg.sym("num", pos=True, int=True)
    st = Opaque("state", id=alg.sym("st"))

    def sample_check(p, nm):
        s2, s = p.value
        pr.true(nm + ".state", isinstance(s2, Opaque) and s2.tag == "state" and s2.attrs["id"].key != st.attrs["id"].key, repr(s2))
        affine(pr, I, p.pc, nm, s, n, num, mu, S, st.attrs["id"])
    pr.paths("normal.NaturalNormal.sample", I, lambda: I.callm(new(), "sample", st, num), chk(sample_check))
    pr.paths("normal.NaturalNormal.sample.kw", I, lambda: I.callm(new(), "sample", st, num=num), chk(sample_check))

    def sample_default(p, nm):
        affine(pr, I, p.pc, nm, p.value[1], n, 1, mu, S, st.attrs["id"])
    pr.paths("normal.NaturalNormal.sample.default", I, lambda: I.callm(new(), "sample", st), chk(sample_default))

    def glob():
        I.gstate = Opaque("state", id=alg.sym("g0"))
        r = I.callm(new(), "sample", num=num)
        return r, I.gstate

    def sample_global(p, nm):
        r, g = p.value
        pr.true(nm + ".advances", g.attrs["id"].key != alg.sym("g0").key, repr(g))
        affine(pr, I, p.pc, nm, r, n, num, mu, S, alg.sym("g0"))
    pr.paths("normal.NaturalNormal.sample.global", I, glob, chk(sample_global))


def affine(pr, I, pc, nm, s, n, num, mean, var, stid):
    """s[i, j] = mean[i] + sum_k C[i, k] eps(k, j) with C C^T = var."""
    from pyvc.prove import amap
    if not isinstance(s, T) or s.rank != 2:
        return pr.true(nm + ".shape", False, repr(s))
    pr.true(nm + ".shape", dim_eq(s.shape[0], n) and dim_eq(s.shape[1], num), repr(s))
    i, i2 = (P.atom(alg.fresh("e", int=True, nonneg=True)) for _ in range(2))
    j = P.atom(alg.fresh("c", int=True, nonneg=True)) if not lib.dim1(num) else ZERO
    e = lift(s.at(i, j))

    def noeps(a):
        return ZERO if a.kind == "app" and a.name == "eps" else None
    base = amap(e, noeps)
    pr.eq(nm + ".mean", pc, base, mean.at(i, ZERO))
    # coefficients of the noise: replace eps(state, k, j') by delta(k, q) delta(j', j)
    q = P.atom(alg.fresh("q", int=True, nonneg=True))

    def coef(row, col, src):
        def f(a):
            if a.kind == "app" and a.name == "eps":
                if len(a.args) != 3 or a.args[0].key != src.key:
                    raise Unsupported("noise of another state")
                return alg.delta(a.args[1], q) * alg.delta(a.args[2], col)
            return None
        return amap(lift(s.at(row, j)) - amap(lift(s.at(row, j)), noeps), f)
    src = lift(stid)
    C1 = coef(i, j, src)
    C2 = coef(i2, j, src)
    v = alg.sum_over(next(iter(q.t))[1][0][0], lift(n), C1 * C2)
    pr.eq(nm + ".cov", pc, v, var.at(i, i2))
    if not lib.dim1(num):
        j2 = P.atom(alg.fresh("c", int=True, nonneg=True))
        other = coef(i, j2, src)     # noise of another column does not enter
        pr.eq(nm + ".columns", list(pc) + [alg.cor(alg.gt(j, j2), alg.lt(j, j2))], alg.subs(other, {}), ZERO)
