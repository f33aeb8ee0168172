"""C10: kernel approximation, kernel samples, prior samples and the kernel of the filter; symbolic
dimensions, times, inducing values, parameters and sample counts."""
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE, ind
from pyvc.values import *
from pyvc.lib import pd, tens, vec, m_inv, m_mm, m_chol, Obj, LibFn
from pyvc.interp import NOCONTRACT
from .common import World, Store, posteriors, ret, pstate, mk_approximation, set_index

ASSUMPTIONS = [
    "real arithmetic: floating-point rounding is not part of the contracts",
    "the integrals and inducing covariances by contract: arbitrary functions with the symmetry of the integrals",
    "closest_psd by contract (C15): it returns some positive-definite matrix of the same size for the kernel matrix it is given",
    "mlkernels: EQ is exp(-d^2/2), stretch rescales the inputs, a product with a function is f(x) k(x, y) f(y)",
    "the noise source: standard normal draws are arbitrary values of the random state",
]


def approx(W, a, b, u):
    """k(a, b) given inducing values u."""
    Ki = W.inv_u()
    nu = W.nu
    v = lambda i: alg.Sum(nu, lambda j: Ki.at(i, j) * u.at(j))
    return (W.f_hx(a, b) - W.dbl(lambda i, j: Ki.at(i, j) * W.f_ux(a, b, j, i), nu, nu)
            + W.dbl(lambda i, j: v(i) * W.f_ux(a, b, i, j) * v(j), nu, nu))


def run(pr, tier):
    kernel_approx(pr)
    kernel_samples(pr, "structured")
    kernel_samples(pr, "mean-field")
    prior_sample(pr)
    filter_kernel(pr)


def kernel_approx(pr):
    W = World(pr)
    I = W.I
    t1, t2 = vec(alg.sym("N1", pos=True, int=True), "t1"), vec(alg.sym("N2", pos=True, int=True), "t2")
    for rank in (1, 2):
        u = vec(W.nu, "u") if rank == 1 else tens((W.nu, 1), "u")
        uu = u if rank == 1 else T((W.nu,), lambda i: u.at(i, ZERO))

        def chk(p, nm):
            pr.tensor(nm, I, p.pc, p.value, T((t1.shape[0], t2.shape[0]), lambda a, b: approx(W, t1.at(a), t2.at(b), uu)))
        pr.paths(f"model.AbstractGPCM.kernel_approx[rank {rank}]", I, lambda: I.callm(W.model(), "kernel_approx", t1, t2, u), ret(pr, chk))

        def chk1(p, nm):
            pr.tensor(nm, I, p.pc, p.value, T((t1.shape[0], t1.shape[0]), lambda a, b: approx(W, t1.at(a), t1.at(b), uu)))
        pr.paths(f"model.AbstractGPCM.kernel_approx[same times, rank {rank}]", I, lambda: I.callm(W.model(), "kernel_approx", t1, t1, u), ret(pr, chk1))


def kernel_samples(pr, scheme):
    W = World(pr, scheme)
    I = W.I
    tk = vec(alg.sym("Nk", pos=True, int=True), "tk")
    num = alg.sym("num", pos=True, int=True)
    S = alg.sym("S", pos=True, int=True)
    kk = alg.sym("k", pos=True, int=True)
    nat = I.get("normal.NaturalNormal")
    for tag, k in (("prior", None), ("conditioned", kk)):
        b = posteriors(W)

        def samples(res):
            g = drawn_from(res)
            if k is None:
                return I.callm(I.call(nat, [T((W.nu, 1), lambda i, j: ZERO), W.K_u], {}), "sample", g, num)[1], lift(num)
            if scheme == "structured":
                return b(("q_u", lift(k) - 1, "samples")), alg.app("min", lift(S), lift(num))
            return I.callm(I.call(nat, [b(("q_u", lift(k) - 1, "lam")), b(("q_u", lift(k) - 1, "prec"))], {}), "sample", g, num)[1], lift(num)

        def want(us, cnt, t, n):
            # u = K_u u^ ; against lag zero
            def one(s, q):
                v = lambda i: us.at(i, s)
                nu = W.nu
                Ki = W.inv_u()
                return (W.f_hx(t(q), ZERO) - W.dbl(lambda i, j: Ki.at(i, j) * W.f_ux(t(q), ZERO, j, i), nu, nu)
                        + W.dbl(lambda i, j: v(i) * W.f_ux(t(q), ZERO, i, j) * v(j), nu, nu))
            return T((cnt, n), lambda s, q: one(s, q))

        def chk(p, nm):
            us, cnt = samples(p.value)
            pr.tensor(nm, I, p.pc, p.value, want(us, cnt, tk.at, tk.shape[0]))

        def go(f):
            def thunk():
                I.gstate = pstate("g0")
                W.extent = alg.sym("extent", pos=True)
                a = mk_approximation(W, k)
                I.setattr(I.getattr(a, "model"), "extent", W.extent)
                return f(a)
            return thunk
        pr.paths(f"approx.{scheme}.sample_kernel[{tag}]", I, go(lambda a: I.callm(a, "sample_kernel", tk, num)), ret(pr, chk))

        def chkm(p, nm):
            pr.tensor(nm + ".lags", I, p.pc, p.value[0], tk)
            us, cnt = samples(p.value[1])
            pr.tensor(nm, I, p.pc, p.value[1], want(us, cnt, tk.at, tk.shape[0]))
        pr.paths(f"model.AbstractGPCM.sample_kernel[{scheme},{tag}]", I, go(lambda a: I.callm(I.getattr(a, "model"), "sample_kernel", tk, num)), ret(pr, chkm))
        pr.paths(f"model.AbstractGPCM.sample_kernel[{scheme},{tag},keywords]", I, go(lambda a: I.callm(I.getattr(a, "model"), "sample_kernel", t_k=tk, num_samples=num)), ret(pr, chkm))

        def chkd(p, nm):
            t, ks = p.value
            us, cnt = samples(ks)
            if not (isinstance(t, T) and t.rank == 1):
                return pr.true(nm + ".lags", False, repr(t))
            pr.eq(nm + ".lags.start", p.pc, t.at(ZERO), ZERO)
            pr.tensor(nm, I, p.pc, ks, want(us, cnt, t.at, t.shape[0]))
        pr.paths(f"model.AbstractGPCM.sample_kernel[{scheme},{tag},default lags]", I, go(lambda a: I.callm(I.getattr(a, "model"), "sample_kernel", num_samples=num)), ret(pr, chkd))

        # predict_kernel summarises exactly these samples (C16 says how)
        def chkp(p, nm):
            r, calls = p.value
            if len(calls) != 1:
                raise Unsupported("the summary is not called through its contract")
            a, kw = calls[0]
            us, cnt = samples(a[1])
            pr.tensor(nm + ".lags", I, p.pc, a[0], tk)
            pr.tensor(nm + ".samples", I, p.pc, a[1], want(us, cnt, tk.at, tk.shape[0]))
            pr.true(nm + ".linear", len(a) < 3 and not kw.get("db", False), repr(kw))
            pr.true(nm + ".result", r is RESULT, repr(r))

        def pk(a):
            calls = []
            I.contracts["util.summarise_samples"] = lambda I2, args, kw: (calls.append((args, kw)), RESULT)[1]
            try:
                r = I.callm(I.getattr(a, "model"), "predict_kernel", tk, num)
            finally:
                I.contracts.pop("util.summarise_samples")
            return r, calls
        pr.paths(f"model.AbstractGPCM.predict_kernel[{scheme},{tag}]", I, go(pk), ret(pr, chkp))


RESULT = Opaque("summary")


def drawn_from(v):
    """The random state that the noise in a result was drawn from: the law of the result does not
    depend on which state this is."""
    from pyvc.prove import atoms_of
    st = {}
    if isinstance(v, T):
        ix = [P.atom(alg.fresh("e", int=True, nonneg=True)) for _ in range(v.rank)]
        for a in atoms_of(lift(v.at(*ix))).values():
            if a.kind == "app" and a.name == "eps":
                st[a.args[0].key] = a.args[0]
    if len(st) == 1:
        return Opaque("state", id=next(iter(st.values())))
    return pstate("g0")


def prior_sample(pr):
    W = World(pr)
    I = W.I
    t = W.t
    N = W.N
    for normalise in (False, True, None):
        PS = pd(N, "PSD(K)")
        calls = []

        def thunk(normalise=normalise):
            calls = []
            I.draws = []

            def psd(I2, a, k):
                calls.append((a, k))
                return PS
            I.contracts["util.closest_psd"] = psd
            try:
                I.gstate = pstate("g0")
                kw = {} if normalise is None else {"normalise": normalise}
                K, y = I.callm(W.model(), "sample", t, **kw)
            finally:
                I.contracts.pop("util.closest_psd")
            return K, y, calls, list(I.draws), I.gstate

        def chk(p, nm, normalise=normalise):
            K, y, calls, draws, g = p.value
            if len(calls) != 1:
                raise Unsupported("the kernel matrix is not projected through its contract")
            a, kw = calls[0]
            pr.true(nm + ".projection", len(a) == 1 and not kw, f"{a!r} {kw!r}")
            pr.tensor(nm + ".projected", I, p.pc, a[0], K)
            # the kernel: approximation at the times for u ~ N(0, K_u)
            L = m_chol(I, W.K_u)
            e1 = alg.sym("g0")
            u = T((W.nu,), lambda i: alg.Sum(W.nu, lambda j: L.at(i, j) * alg.app("eps", e1, j, ZERO)))
            A = lambda i, j: approx(W, t.at(i), t.at(j), u)
            pr.tensor(nm + ".K", I, p.pc, K, T((N, N), (lambda i, j: A(i, j) / A(ZERO, ZERO)) if normalise else A))
            # the function: zero mean, covariance PSD(K) + noise, independent of u
            noise_of(pr, I, p.pc, nm, y, N, lambda i, j: PS.at(i, j) + alg.delta(i, j) * lift(W.s2), {e1.key if hasattr(e1, "key") else ""})
        pr.paths(f"model.AbstractGPCM.sample[normalise={normalise}]", I, thunk, ret(pr, chk))


def noise_of(pr, I, pc, nm, y, N, cov, used):
    """y is affine in noise that is independent of the states in `used`, with mean zero and
    covariance cov: the coefficient of every draw, summed over the draws of all states."""
    from pyvc.prove import amap, atoms_of
    if not isinstance(y, T) or y.rank != 1:
        return pr.true(nm + ".y.shape", False, repr(y))
    pr.true(nm + ".y.shape", dim_eq(y.shape[0], N), repr(y))
    i, j = (P.atom(alg.fresh("e", int=True, nonneg=True)) for _ in range(2))
    e = lift(y.at(i))
    st = {}
    for a in atoms_of(e).values():
        if a.kind == "app" and a.name == "eps":
            st[a.args[0].key] = a.args[0]
    pr.true(nm + ".y.independent", not (set(st) & used), f"draws of {sorted(st)} also used for the kernel")
    mean = amap(e, lambda a: ZERO if a.kind == "app" and a.name == "eps" else None)
    pr.eq(nm + ".y.mean", pc, mean, ZERO)
    tot = ZERO
    for s in st.values():
        q = P.atom(alg.fresh("q", int=True, nonneg=True))

        def co(row):
            def f(a):
                if a.kind == "app" and a.name == "eps":
                    if a.args[0].key != s.key:
                        return ZERO
                    if len(a.args) == 3 and not lift(a.args[2]).is_zero():
                        raise Unsupported("several columns of noise")
                    return alg.delta(a.args[1], q)
                return None
            return amap(lift(y.at(row)), f)
        size = lift(N)
        tot = tot + alg.sum_over(next(iter(q.t))[1][0][0], size, co(i) * co(j))
    pr.eq(nm + ".y.cov", list(pc) + [alg.ge(lift(N) - 1, i), alg.ge(lift(N) - 1, j)], tot, cov(i, j))


def filter_kernel(pr):
    for causal in (False, True):
        I = pr.new()
        al, at, ga = alg.sym("alpha", pos=True), alg.sym("alpha_t", pos=True), alg.sym("gamma", pos=True)
        x, y = alg.sym("x"), alg.sym("y")

        def model():
            return Obj(I.get("gpcm.GPCM"), alpha=al, alpha_t=at, gamma=ga, causal=causal, dtype=Opaque("dtype"), n_u=1, n_z=1)
        val = lift(at) ** 2 * alg.exp(-(lift(al) * (lift(x) ** 2 + lift(y) ** 2) + lift(ga) * (lift(x) - lift(y)) ** 2))

        def chk(p, nm):
            v = I.call(p.value, [T((1, 1), lambda i, j: lift(x)), T((1, 1), lambda i, j: lift(y))], {})
            w = val * (ind(alg.ge(x, 0)) * ind(alg.ge(y, 0)) if causal else ONE)
            pr.eq(nm, p.pc, v.at(ZERO, ZERO), w)
        pr.paths(f"gpcm.GPCM.k_h[{'causal' if causal else 'acausal'}]", I, lambda: I.callm(model(), "k_h"), ret(pr, chk))

        # the symbolic form
        def sym():
            var = I.get("exppoly.var")
            e = I.callm(model(), "k_h", I.call(var, ["t1"], {}), I.call(var, ["t2"], {}))
            return I.callm(e, "eval", t1=x, t2=y)
        pr.paths(f"gpcm.GPCM.k_h.symbolic[{'causal' if causal else 'acausal'}]", I, sym, ret(pr, lambda p, nm: pr.eq(nm, p.pc, p.value, val)))
