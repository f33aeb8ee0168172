"""C09: predictions are the first two moments of the function value averaged over the stored
posterior, plus the noise variance once; symbolic dimensions, inputs, posteriors, sample counts."""
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE
from pyvc.values import *
from pyvc.lib import pd, tens, vec, m_inv, m_mm, Obj
from .common import World, Store, posteriors, ret, Nat, Point, optimal, pstate, mk_approximation, set_index, abstracted, Given

ASSUMPTIONS = [
    "real arithmetic: floating-point rounding is not part of the contracts",
    "the integrals and inducing covariances by contract: arbitrary functions with the symmetry of the integrals",
    "parameter container (varz) by contract: a getter returns what is stored under its path",
    "the noise source: standard normal draws are arbitrary values of the random state",
]


def moments(W, x, U, Z, u2=None):
    """E f(x) and E f(x)^2 for first and second moments of u and z."""
    nu, nz = W.nu, W.nz
    m1 = W.dbl(lambda i, m: U.mu.at(i, ZERO) * W.f_uz(x, i, m) * Z.mu.at(m, ZERO), nu, nz)
    m2 = (W.dbl(lambda i, j: W.A(x, i, j) * U.m2(i, j), nu, nu) + W.dbl(lambda m, n: W.Bm(x, m, n) * Z.m2(m, n), nz, nz) + W.c(x)
          + W.dbl(lambda i, j: W.dbl(lambda m, n: U.m2(i, j) * W.f_uz(x, i, m) * Z.m2(m, n) * W.f_uz(x, j, n), nz, nz), nu, nu))
    return m1, m2


def prior(W, w):
    n, K = (W.nu, W.K_u) if w == "u" else (W.nz, W.K_z)
    return Nat(W, T((n, 1), lambda i, j: ZERO), K)


def stored(W, w, k):
    b = posteriors(W)
    return Nat(W, b((f"q_{w}", lift(k) - 1, "lam")), b((f"q_{w}", lift(k) - 1, "prec")))


def run(pr, tier):
    mean_field(pr)
    structured(pr)


def setup(pr, scheme):
    W = World(pr, scheme)
    W.tp = vec(alg.sym("Np", pos=True, int=True), "tp")
    W.k = alg.sym("k", pos=True, int=True)
    return W, W.I


def cond(W, k=None):
    """Approximation at the prior, or conditioned on (t, y) so that the posterior index becomes k."""
    a = mk_approximation(W, None if k is None else lift(k) - 1)
    if k is not None:
        W.I.callm(a, "condition", W.t, W.y)
    return a


def mean_field(pr):
    W, I = setup(pr, "mean-field")
    for tag, k in (("prior", None), ("conditioned once", 1), ("conditioned", W.k)):
        U, Z = (prior(W, "u"), prior(W, "z")) if k is None else (stored(W, "u", k), stored(W, "z", k))

        def chk(p, name):
            m1, m2 = zip(*[moments(W, W.tp.at(GENS[5]), U, Z)])
            w1 = T((W.tp.shape[0],), lambda q: moments(W, W.tp.at(q), U, Z)[0])
            w2 = T((W.tp.shape[0],), lambda q: moments(W, W.tp.at(q), U, Z)[1] - moments(W, W.tp.at(q), U, Z)[0] ** 2 + lift(W.s2))
            pr.tensor(name + ".mean", I, p.pc, p.value[0], w1)
            pr.tensor(name + ".var", I, p.pc, p.value[1], w2)
        pr.paths(f"approx.MeanField.predict[{tag}]", I, lambda: I.callm(cond(W, k), "predict", W.tp), ret(pr, chk))
        pr.paths(f"model.AbstractGPCM.predict[mean-field,{tag}]", I, lambda: I.callm(I.getattr(cond(W, k), "model"), "predict", W.tp), ret(pr, chk))

        def chkz(p, name):
            pr.tensor(name + ".mean", I, p.pc, p.value[0], T((W.nz,), lambda m: Z.mu.at(m, ZERO)))
            pr.tensor(name + ".var", I, p.pc, p.value[1], T((W.nz,), lambda m: Z.S.at(m, m)))
        pr.paths(f"approx.MeanField.predict_z[{tag}]", I, lambda: I.callm(cond(W, k), "predict_z"), ret(pr, chkz))
        pr.paths(f"model.AbstractGPCM.predict_fourier[mean-field,{tag}]", I, lambda: I.callm(I.getattr(cond(W, k), "model"), "predict_fourier"), ret(pr, chkz))


def structured(pr):
    W, I = setup(pr, "structured")
    num = alg.sym("num", pos=True, int=True)
    S = alg.sym("S", pos=True, int=True)
    nat = I.get("normal.NaturalNormal")
    for tag, k in (("prior", None), ("conditioned once", 1), ("conditioned", W.k)):
        def samples(w, st=None):
            """The samples of the prior (affine image of noise, C06) or the stored ones, and how many."""
            n, K = (W.nu, W.K_u) if w == "u" else (W.nz, W.K_z)
            if k is None:
                return I.callm(I.call(nat, [T((n, 1), lambda i, j: ZERO), K], {}), "sample", st or pstate("g0"), num)[1], num
            return posteriors(W)((f"q_{w}", lift(k) - 1, "samples")), None

        def count(p, cnt):
            # the smaller of the numbers stored and requested
            return lift(cnt) if cnt is not None else alg.app("min", lift(S), lift(num))

        def chk(p, name):
            (v1, v2), log = p.value
            us, cnt = samples("u")
            n = count(p, cnt)
            if k is not None:
                # the factor over z for each sample of u: the optimal one given the data conditioned on
                if len(log) != 1 or len(log[0]["params"]) != 1:
                    raise Unsupported("the factor over z is not obtained through its contract once per sample")
                l = log[0]
                s = l["params"][0]
                pr.tensor(name + ".sample", I, p.pc, l["arg"], T((W.nu, 1), lambda i, _: us.at(i, s)))
                o = optimal(W, "z", Point(T((W.nu, 1), lambda i, _: us.at(i, s))))
                pr.tensor(name + ".factor.lam", I, p.pc, l["lam"], o.lam)
                pr.tensor(name + ".factor.prec", I, p.pc, l["prec"], o.K)

            def at(q, which):
                def one(s):
                    u = Point(T((W.nu, 1), lambda i, _: us.at(i, s)))
                    Z = prior(W, "z") if k is None else Given(W, W.nz, "opt0.q_z", (s,))
                    return moments(W, W.tp.at(q), u, Z)[which]
                return alg.Sum(n, one) / n
            pr.tensor(name + ".mean", I, p.pc, v1, T((W.tp.shape[0],), lambda q: at(q, 0)))
            pr.tensor(name + ".var", I, p.pc, v2, T((W.tp.shape[0],), lambda q: at(q, 1) - at(q, 0) ** 2 + lift(W.s2)))

        def go(f):
            def thunk():
                I.gstate = pstate("g0")
                I.contracts.clear()
                log = []
                I.contracts.update(abstracted(W, log, ("q_z_optimal",)))
                return f(cond(W, k)), log
            return thunk
        pr.paths(f"approx.Structured.predict[{tag}]", I, go(lambda a: I.callm(a, "predict", W.tp, num)), ret(pr, chk))
        pr.paths(f"model.AbstractGPCM.predict[structured,{tag}]", I, go(lambda a: I.callm(I.getattr(a, "model"), "predict", W.tp, num_samples=num)), ret(pr, chk))
        I.contracts.clear()

        def chkz(p, name):
            zs, cnt = samples("z")
            n = count(p, cnt)
            m = lambda i: alg.Sum(n, lambda s: zs.at(i, s)) / n
            pr.tensor(name + ".mean", I, p.pc, p.value[0][0], T((W.nz,), m))
            pr.tensor(name + ".var", I, p.pc, p.value[0][1], T((W.nz,), lambda i: alg.Sum(n, lambda s: zs.at(i, s) ** 2) / n - m(i) ** 2))
        pr.paths(f"approx.Structured.predict_z[{tag}]", I, go(lambda a: I.callm(a, "predict_z", num)), ret(pr, chkz))
        pr.paths(f"model.AbstractGPCM.predict_fourier[structured,{tag}]", I, go(lambda a: I.callm(I.getattr(a, "model"), "predict_fourier", num_samples=num)), ret(pr, chkz))
