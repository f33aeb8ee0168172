"""C08: evidence lower bounds equal expected log-likelihood minus divergence, for symbolic
dimensions, data, variational parameters, collapse options and numbers of samples."""
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE
from pyvc.values import *
from pyvc.lib import pd, tens, vec, m_inv, m_mm, m_logdet, mat_transpose, binop, Obj
from .common import World, Store, posteriors, ret, Nat, Point, optimal, pstate, mk_approximation, set_index, abstracted
from pyvc.interp import NOCONTRACT

ASSUMPTIONS = [
    "real arithmetic: floating-point rounding is not part of the contracts",
    "the integrals and inducing covariances by contract: arbitrary functions with the symmetry of the integrals",
    "parameter container (varz) by contract: a getter returns what is stored under its path",
    "_fit_mean_field_ca by its own contract (C12): it may set the current posteriors to any value",
    "the noise source: standard normal draws are arbitrary values of the random state",
]


def kl(W, q, p):
    """KL(q || p) by the textbook formula in precisions."""
    d = lambda i: q.mu.at(i, ZERO) - p.mu.at(i, ZERO)
    tr = alg.Sum(q.n, lambda i: alg.Sum(q.n, lambda j: p.K.at(i, j) * q.S.at(j, i)))
    qu = alg.Sum(q.n, lambda i: alg.Sum(q.n, lambda j: d(i) * p.K.at(i, j) * d(j)))
    return (tr - lift(q.n) + qu + q.logdet - p.logdet) / 2


def loglik(W, qu, qz):
    """E_q log prod_t N(y_t | f(t), sigma2)"""
    N, s2, y, t = W.N, W.s2, W.y, W.t
    nu, nz = W.nu, W.nz

    def term(k):
        x = t.at(k)
        m1 = W.dbl(lambda i, m: qu.mu.at(i, ZERO) * W.f_uz(x, i, m) * qz.mu.at(m, ZERO), nu, nz)
        e2 = (W.dbl(lambda i, j: W.A(x, i, j) * qu.m2(i, j), nu, nu) + W.dbl(lambda m, n: W.Bm(x, m, n) * qz.m2(m, n), nz, nz) + W.c(x)
              + W.dbl(lambda i, j: W.dbl(lambda m, n: qu.m2(i, j) * W.f_uz(x, i, m) * qz.m2(m, n) * W.f_uz(x, j, n), nz, nz), nu, nu))
        return y.at(k) * y.at(k) - y.at(k) * m1 * 2 + e2
    return -(lift(N) / 2) * alg.log(alg.pi() * 2 * s2) - alg.Sum(N, term) / (s2 * 2)


def log_Z(W, u):
    """log of the integral over z of p(z) exp E log-likelihood given u: complete the square in z."""
    N, s2, y, t = W.N, W.s2, W.y, W.t
    nu, nz = W.nu, W.nz
    q = optimal(W, "z", Point(u))
    quad = alg.Sum(N, lambda k: y.at(k) * y.at(k) + W.dbl(lambda i, j: u.at(i, ZERO) * W.A(t.at(k), i, j) * u.at(j, ZERO), nu, nu) + W.c(t.at(k)))
    lpl = alg.Sum(nz, lambda m: q.lam.at(m, ZERO) * q.mu.at(m, ZERO))
    return (-lift(N) * alg.log(alg.pi() * 2 * s2) - quad / s2 + lift(m_logdet(W.I, W.K_z)) - q.logdet + lpl) / 2


def run(pr, tier):
    for qi in (0, 1):
        mean_field(pr, qi)
        structured(pr, qi)


def setup(pr, scheme, qi):
    W = World(pr, scheme)
    I = W.I
    W.k = alg.sym("k", pos=True, int=True) if qi else ZERO

    def ap():
        return mk_approximation(W, W.k if qi else None)
    base = posteriors(W)
    cur = {}
    for w, n, K in (("u", W.nu, W.K_u), ("z", W.nz, W.K_z)):
        cur["q" + w] = Nat(W, base((f"q_{w}", lift(W.k), "lam")), base((f"q_{w}", lift(W.k), "prec")))
        cur["p" + w] = Nat(W, base((f"q_{w}", lift(W.k) - 1, "lam")), base((f"q_{w}", lift(W.k) - 1, "prec"))) if qi else \
            Nat(W, T((n, 1), lambda i, j: ZERO), K)
    return W, I, ap, cur


def mean_field(pr, qi):
    W, I, ap, c = setup(pr, "mean-field", qi)
    t, y = W.t, W.y
    tag = "prior" if not qi else "conditioned"
    for coll in (None, "z", "u"):
        def chk(p, name, coll=coll):
            v, log = p.value
            qu, qz = c["qu"], c["qz"]
            if coll is not None:
                other = {"z": qu, "u": qz}[coll]
                if len(log) != 1:
                    raise Unsupported("the objective does not use the contract of the optimal factor once")
                l = log[0]
                pr.true(name + ".factor", l["which"] == coll, l["which"])
                o = optimal(W, coll, other)
                pr.tensor(name + ".optimal.lam", I, p.pc, l["lam"], o.lam)
                pr.tensor(name + ".optimal.prec", I, p.pc, l["prec"], o.K)
                if coll == "z":
                    qz = l["given"]
                else:
                    qu = l["given"]
            want = loglik(W, qu, qz) - kl(W, qu, c["pu"]) - kl(W, qz, c["pz"])
            pr.tensor(name, I, p.pc, v, want)
        nm = f"approx.MeanField.elbo[{tag},collapsed={coll}]"

        def with_state(coll=coll):
            log = []
            I.contracts.update(abstracted(W, log))
            return I.callm(ap(), "elbo", pstate(), t, y, collapsed=coll)[1], log
        pr.paths(nm + ".state", I, with_state, ret(pr, chk))

        def positional(coll=coll):
            log = []
            I.contracts.update(abstracted(W, log))
            return I.callm(ap(), "elbo", pstate(), t, y, coll)[1], log
        pr.paths(nm + ".positional", I, positional, ret(pr, chk))

        def glob(coll=coll):
            log = []
            I.contracts.update(abstracted(W, log))
            I.gstate = Opaque("state", id=alg.sym("g0"))
            return I.callm(ap(), "elbo", t, y, collapsed=coll), log
        pr.paths(nm, I, glob, ret(pr, chk))
    I.contracts.clear()
    pr.paths(f"approx.MeanField.elbo[{tag}].default", I, lambda: I.callm(ap(), "elbo", pstate(), t, y), ret(
        pr, lambda p, name: pr.tensor(name, I, p.pc, p.value[1], loglik(W, c["qu"], c["qz"]) - kl(W, c["qu"], c["pu"]) - kl(W, c["qz"], c["pz"]))))

    def invalid(p, name):
        pr.true(name, p.kind == "exc" and p.value.name == "ValueError", repr(p.value))
    pr.paths(f"approx.MeanField.elbo[{tag}].invalid", I, lambda: I.callm(ap(), "elbo", pstate(), t, y, collapsed="x"), invalid)

    # through the model
    def model():
        a = ap()
        return I.callm(I.getattr(a, "model"), "elbo", pstate(), t, y)[1]
    pr.paths(f"model.AbstractGPCM.elbo[mean-field,{tag}]", I, model, ret(
        pr, lambda p, name: pr.tensor(name, I, p.pc, p.value, loglik(W, c["qu"], c["qz"]) - kl(W, c["qu"], c["pu"]) - kl(W, c["qz"], c["pz"]))))


def logdensity(W, p, u):
    d = lambda i: u.at(i, ZERO) - p.mu.at(i, ZERO)
    qu = alg.Sum(p.n, lambda i: alg.Sum(p.n, lambda j: d(i) * p.K.at(i, j) * d(j)))
    return (p.logdet - lift(p.n) * alg.log(alg.pi() * 2) - qu) / 2


def structured(pr, qi):
    W, I, ap, c = setup(pr, "structured", qi)
    t, y = W.t, W.y
    tag = "prior" if not qi else "conditioned"
    u = tens((W.nu, 1), "u")
    z = tens((W.nz, 1), "z")
    S = alg.sym("num", pos=True, int=True)

    def lz():
        a = ap()
        return I.callm(a, "log_Z_u", I.callm(a, "construct_terms", t, y), u)
    pr.paths(f"approx.Structured.log_Z_u[{tag}]", I, lz, ret(pr, lambda p, name: pr.tensor(name, I, p.pc, p.value, log_Z(W, u))))

    # average over the samples of q(u) (affine image of the noise, C06) minus the divergence
    def want(K, lam, st, num):
        s = I.callm(I.call(I.get("normal.NaturalNormal"), [lam, K], {}), "sample", st, num)[1]
        q = Nat(W, lam, K)
        return alg.Sum(num, lambda k: log_Z(W, T((W.nu, 1), lambda i, _: s.at(i, k)))) / num - kl(W, q, c["pu"])

    def chk_coll(p, name, num=S, lam=None, K=None):
        pr.tensor(name, I, p.pc, p.value, want(K or c["qu"].K, lam or c["qu"].lam, pstate(), num))
    pr.paths(f"approx.Structured.elbo_collapsed_z[{tag}]", I, lambda: I.callm(ap(), "elbo_collapsed_z", pstate(), t, y, S)[1], ret(pr, chk_coll))
    pr.paths(f"approx.Structured.elbo_collapsed_z[{tag}].keyword", I, lambda: I.callm(ap(), "elbo_collapsed_z", pstate(), t, y, num_samples=S)[1], ret(pr, chk_coll))

    # the objective of the scheme: first the mean-field fit (its contract may set the posteriors to
    # anything), then the collapsed objective at the fitted q(u)
    n2, K2 = tens((W.nu, 1), "fit.q_u.lam"), pd(W.nu, "fit.q_u.prec")
    n3, K3 = tens((W.nz, 1), "fit.q_z.lam"), pd(W.nz, "fit.q_z.prec")
    for glob in (False, True):
        def elbo(glob=glob):
            a = ap()
            M = I.getattr(a, "model")
            calls = []

            def fitted(I2, args, kw):
                calls.append((args[0] is M, args[1:], kw))
                for nm, lam, K in (("q_u", n2, K2), ("q_z", n3, K3)):
                    I.setattr(a, nm, I.call(I.get("normal.NaturalNormal"), [lam, K], {}))
            I.contracts["approx._fit_mean_field_ca"] = fitted
            I.gstate = pstate()
            try:
                r = I.callm(M, "elbo", t, y, num_samples=S) if glob else I.callm(M, "elbo", pstate(), t, y, num_samples=S)[1]
            finally:
                I.contracts.pop("approx._fit_mean_field_ca", None)
            return r, calls

        def chk_elbo(p, name):
            r, calls = p.value
            if len(calls) != 1:
                raise Unsupported("the fit is not called through its contract")
            ok, args, kw = calls[0]
            pr.true(name + ".fit.model", ok, "")
            pr.true(name + ".fit.data", len(args) >= 2 and args[0] is t and args[1] is y, repr(args))
            pr.tensor(name, I, p.pc, r, want(K2, n2, pstate(), S))
        pr.paths(f"model.AbstractGPCM.elbo[structured,{tag},{'global' if glob else 'state'}]", I, elbo, ret(pr, chk_elbo))

    # Gibbs objective: at the last sample, for one, several and any number of sweeps
    def chk_gibbs(p, name):
        st, v, u2, z2 = p.value
        pr.tensor(name, I, p.pc, v, log_Z(W, u2) + logdensity(W, c["pu"], u2))
    for num in (1, S):
        pr.paths(f"approx.Structured.elbo_gibbs[{tag},{num if isinstance(num, int) else 'any'}]", I,
                 lambda num=num: I.callm(ap(), "elbo_gibbs", pstate(), t, y, u, z, num), ret(pr, chk_gibbs))
