"""C14: power spectral densities.  Any kernel with positive power, any equally spaced grid, any
amount of padding."""
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE, ind
from pyvc.values import *
from pyvc.lib import vec, LibFn
from .common import ret

ASSUMPTIONS = [
    "numpy by contract: the discrete Fourier transform is the sum over x(n) exp(-2 pi i j n / N), the frequencies of a transform of length N are j / N up to (N - 1) // 2 and negative from there, masks select in order",
    "the transform of the symmetric extension does not vanish identically: its sum over all frequencies is N k(0) > 0 (orthogonality of characters)",
    "real arithmetic; complex numbers as pairs",
]


def run(pr, tier):
    for pad in ("default", "none", "some", "one"):
        for db in (None, False, True):
            psd(pr, pad, db)
    starts(pr)


def arguments(I, pad, db, t0=ZERO):
    n = alg.sym("n", int=True, nonneg=True) + 2
    dt = alg.sym("dt", pos=True)
    t = T((n,), lambda i: t0 + lift(i) * dt)
    k = T((n,), lambda i: alg.app("k", lift(i)))
    kw, z = {}, lift(2000)
    if pad == "some":
        z = alg.sym("n_zero", pos=True, int=True)
        kw["n_zero"] = z
    elif pad in ("none", "one"):
        z = lift(0 if pad == "none" else 1)
        kw["n_zero"] = 0 if pad == "none" else 1
    if db is not None:
        kw["db"] = db
    return n, dt, t, k, kw, z


def spectrum_of(I, x, N, sym):
    """The transform of a real vector, the symmetric extension under a name."""
    if x.rank != 1:
        raise Unsupported("transform of a matrix")

    def part(f):
        def at(j):
            v = alg.fresh("n", int=True, nonneg=True)
            w = P.atom(v)
            return alg.sum_over(v, lift(N), x.at(w) * f(2 * alg.pi() * lift(j) * w / lift(N)))
        return at
    if sym(x):
        re = lambda j: alg.app("R", lift(j))
        im = lambda j: ZERO
    else:
        re, im = part(alg.cos), part(lambda a: -alg.sin(a))
    return re, im


def cplx(N, re, im):
    return Opaque("complex", re=T((norm(N),), re, np_=True), im=T((norm(N),), im, np_=True), n=N)


def install(I, is_sym):
    def fft(I2, a, k):
        x = a[0]
        if not isinstance(x, T) or len(a) > 1 or k:
            raise Unsupported("arguments of the transform")
        N = lift(x.shape[0])
        return cplx(N, *spectrum_of(I, x, N, is_sym))

    def rfft(I2, a, k):
        x = a[0]
        if not isinstance(x, T) or len(a) > 1 or k:
            raise Unsupported("arguments of the transform")
        N = lift(x.shape[0])
        re, im = spectrum_of(I, x, N, is_sym)
        return cplx(alg.app("floordiv", N, P.const(2)) + 1, re, im)

    def fftfreq(I2, a, k):
        N = lift(a[0] if a else k["n"])
        d = lib.kwarg(a, k, 1, "d", 1)
        h = alg.app("floordiv", N - 1, P.const(2))
        return T((norm(N),), lambda j: (lift(j) - N * ind(alg.gt(lift(j), h))) / (N * lift(d)), np_=True)
    for nm, f in (("fft", fft), ("rfft", rfft), ("fftfreq", fftfreq)):
        I.libfns[("np.fft", nm)] = LibFn(nm, f)

    def absv(I2, a, k):
        x = a[0]
        if isinstance(x, Opaque) and x.tag == "complex":
            re, im = x.attrs["re"], x.attrs["im"]
            return T(re.shape, lambda j: alg.absv(lift(re.at(j))) if lift(im.at(j)).is_zero() else alg.sqrt(lift(re.at(j)) ** 2 + lift(im.at(j)) ** 2), np_=True)
        return lib.BF["abs"](I2, a, k)
    for m in ("np", "B"):
        I.libfns[(m, "abs")] = LibFn("abs", absv)
        I.libfns[(m, "absolute")] = LibFn("abs", absv)


def attr(I, v, n):
    if n in ("real", "imag"):
        return v.attrs[n[:2]]
    if n == "shape":
        return (norm(v.attrs["n"]),)
    if n in ("size", "__len__"):
        return norm(v.attrs["n"]) if n == "size" else LibFn("len", lambda I2, a, k: norm(v.attrs["n"]))
    return NOCONTRACT


lib.OPQ_ATTR["complex"] = attr


def psd(pr, pad, db):
    I = pr.new()
    n, dt, t, k, kw, z = arguments(I, pad, db)
    k0 = k.at(ZERO)
    pre = [alg.gt(k0, 0)]
    m = n + z
    N = 2 * m - 2

    def ext(j):
        """The symmetric extension of the padded kernel."""
        j = lift(j)
        return ind(alg.lt(j, n)) * k.at(j) + ind(alg.ge(j, m)) * ind(alg.gt(j, N - n)) * k.at(N - j)
    sym_ok = {}

    def is_sym(x):
        key = lift(x.at(GENS[0])).key + dim_key(x.shape[0])
        if key not in sym_ok:
            g = GENS[0]
            pc = pre + list(I.pc()) + [alg.ge(g, 0), alg.lt(g, N)]
            from pyvc.prove import prove_zero
            sym_ok[key] = dim_eq(x.shape[0], N) and prove_zero(pc, lift(x.at(g)) - ext(g), 5)
        return sym_ok[key]
    install(I, is_sym)
    named = lambda j: alg.app("R", lift(j))

    def full(j):
        v = alg.fresh("n", int=True, nonneg=True)
        w = P.atom(v)
        return alg.sum_over(v, N, ext(w) * alg.cos(2 * alg.pi() * lift(j) * w / N))

    def spec(R):
        tot = alg.Sum(N, lambda j: alg.absv(R(lift(j))))
        lin = lambda j: alg.absv(R(lift(j))) * k0 * N * dt / tot
        return lin if not db else lambda j: 10 * alg.log(lin(j)) / alg.log(lift(10))

    def thunk():
        for c in pre:
            I.assume(c)
        return I.call(I.get("util.estimate_psd"), [t, k], dict(kw))

    def plain(pr, nm, pc, v):
        """The selected positions are the first m - 1."""
        if not isinstance(v, T) or v.rank != 1:
            pr.true(nm + ".vector", False, repr(v))
            return None
        d = v.shape[0]
        if isinstance(d, FAxis):
            j = P.atom(alg.fresh("j", int=True, nonneg=True))
            dom = list(pc) + [alg.ge(j, 0), alg.lt(j, lift(d.base))]
            want = alg.cand(alg.lt(j, m - 1))
            got = d.pred(j)
            pr.holds(nm + ".keeps the non-negative frequencies", dom + [want], got)
            pr.holds(nm + ".drops the negative frequencies", dom + [got], want)
            return T((m - 1,), v.fn, np_=True)
        return v

    def chk(p, nm):
        v = p.value
        if not isinstance(v, (tuple, list)) or len(v) != 2:
            return pr.true(nm + ".pair", False, repr(v))
        pc = list(p.pc) + pre
        fr, ps = plain(pr, nm + ".freqs", pc, v[0]), plain(pr, nm + ".psd", pc, v[1])
        if fr is None or ps is None:
            return
        # outside of the first m - 1 positions nothing is claimed
        pr.tensor(nm + ".frequencies", I, pc, fr, T((m - 1,), lambda j: lift(j) / (N * dt)))
        g = GENS[0]
        hid = "app:cos" not in lift(ps.at(g)).key
        R = named if hid else full
        if not hid:
            e = ps
            ps = T(ps.shape, lambda j: alg.amap(lift(e.at(j)), lambda a: full(lift(a.args[0])) if a.kind == "app" and a.name == "R" else None))
        pr.tensor(nm + ".density", I, pc, ps, T((m - 1,), spec(R)))
    pr.paths(f"util.estimate_psd[padding {pad}, db={db}]", I, thunk, ret(pr, chk))


def starts(pr):
    """Grids that do not start at zero are rejected, whatever they hold."""
    I = pr.new()
    t0 = alg.sym("t0", nonzero=True)
    n, dt, t, k, kw, z = arguments(I, "some", None, t0)
    install(I, lambda x: True)

    def thunk():
        I.assume(alg.cnot(alg.eq(t0, 0)))
        return I.call(I.get("util.estimate_psd"), [t, k], dict(kw))

    def chk(p, nm):
        pr.true(nm + ".rejected", p.kind == "exc" and p.value.name == "ValueError", repr(p.value))
    pr.paths("util.estimate_psd[start]", I, thunk, chk)
