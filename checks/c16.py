"""C16: summaries of samples and autocorrelations.  Any numbers and shapes of samples, any series,
any number of lags."""
from fractions import Fraction
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE, ind
from pyvc.values import *
from pyvc.lib import tens, vec, Obj, LibFn
from .common import ret

ASSUMPTIONS = [
    "numpy and lab by contract: mean, standard deviation, quantile (a function of the samples and the level that increases with the level), transpose, permutation (distinct indices), correlate (sums of products over the overlap)",
    "real arithmetic; decibels of positive samples",
]

NOMINAL = {"68": Fraction(68, 100), "95": Fraction(95, 100), "99": Fraction(99, 100)}


def run(pr, tier):
    summaries(pr)
    autocorrelations(pr)


# ------------------------------------------------------------------------------ summaries
def quant(v):
    """(level, quantile) that a value is a multiple of: (coefficient, atom)."""
    x = lift(v).single()
    if x is None or x[1] or len(x[2]) != 1 or x[2][0][1] != 1:
        return None
    a = x[2][0][0]
    return (x[0], a) if a.kind == "bind" and a.name == "quantile" else None


def summaries(pr):
    for rank in (1, 2, 3):
        for num in (1, 2, 3, None):
            for db in (None, False, True):
                summary(pr, rank, num, db)


def summary(pr, rank, num, db):
    I = pr.new()
    S = alg.sym("S", pos=True, int=True) + 3 if num is None else num
    n, m = alg.sym("n", pos=True, int=True), alg.sym("m", pos=True, int=True)
    shape = (S, n, m)[:rank]
    if db:
        s = tens(shape, "s")
        s = T(shape, lambda *i: alg.exp(alg.app("s", *i)))
    else:
        s = tens(shape, "s")
    x = vec(n, "x")
    rev = lambda f: T(tuple(reversed(shape)), lambda *i: f(s.at(*reversed(i))))
    dec = (lambda v: lift(v)) if not db else (lambda v: lift(10) * alg.log(lift(v)) / alg.log(lift(10)))
    kw = {} if db is None else dict(db=db)

    def chk(p, nm):
        q = p.value
        g = lambda a: I.getattr(q, a)
        pc = p.pc
        pr.tensor(nm + ".x", I, pc, g("x"), x)
        mean = lib.tmean(s, 0)
        each = lambda t, f: T(t.shape, lambda *i: f(t.at(*i))) if isinstance(t, T) else f(lift(t))
        pr.tensor(nm + ".mean", I, pc, g("mean"), each(mean, dec))
        if not db:
            pr.tensor(nm + ".var", I, pc, g("var"), lib.variance(I, s, 0))
        lv = {}
        for b, nom in NOMINAL.items():
            for side in ("lower", "upper"):
                v = g(f"err_{b}_{side}")
                gen = gen_index(v) if isinstance(v, T) else ()
                w = lift(v.at(*gen)) if isinstance(v, T) else lift(v)
                if db:
                    w = undec(w)
                    if w is None:
                        raise Unsupported("decibels of a band")
                a = quant(w)
                if a is None or a[0] != 1:
                    raise Unsupported(f"band {b}")
                lev = lift(a[1].args[3]).const_value()
                if lev is None:
                    raise Unsupported("level of a band")
                lev = Fraction(lev).limit_denominator(10 ** 9)
                lv[b, side] = lev
                # the quantile at this level of these samples
                want = lib._quantile(I, [s, lev, 0], {})
                pr.tensor(f"{nm}.err_{b}_{side}", I, pc, v, each(want, dec))
            lo, hi = lv[b, "lower"], lv[b, "upper"]
            pr.true(f"{nm}.err_{b}.levels", 0 <= lo < hi <= 1, f"{lo} {hi}")
            pr.true(f"{nm}.err_{b}.equal tails", lo == 1 - hi, f"{lo} {hi}")
            pr.true(f"{nm}.err_{b}.encloses", hi - lo >= nom, f"{lo} {hi}")
        pr.true(nm + ".nested", lv["99", "lower"] <= lv["95", "lower"] <= lv["68", "lower"] and lv["68", "upper"] <= lv["95", "upper"] <= lv["99", "upper"], "")
        pr.tensor(nm + ".all_samples", I, pc, g("all_samples"), rev(dec))
        picks(pr, nm, I, pc, g("samples"), s, rank, num, dec)
    pr.paths(f"util.summarise_samples[rank {rank}, {num or 'many'} samples, db={db}]", I, lambda: I.call(I.get("util.summarise_samples"), [x, s], dict(kw)), ret(pr, chk))


def undec(w):
    """The linear value whose decibels these are."""
    x = lift(w).single()
    if x is None or x[1]:
        return None
    for a, e in x[2]:
        if a.name == "log" and quant(a.args[0]) is not None:
            return lift(a.args[0])
    return None


def picks(pr, nm, I, pc, v, s, rank, num, dec):
    """At most three samples, at distinct positions."""
    k = 3 if num is None else min(num, 3)
    pr.true(nm + ".samples.rank", isinstance(v, T) and v.rank == rank, repr(v))
    if not (isinstance(v, T) and v.rank == rank):
        return
    pr.eq(nm + ".samples.number", pc, lift(v.shape[-1]), lift(k))
    idx = []
    gen = gen_index(v)[:-1]
    for j in range(k):
        w = lift(v.at(*gen, P.const(j)))
        ps = [a for a in w.leaves if False]
        pos = positions(w)
        if len(pos) != 1:
            raise Unsupported("position of a picked sample")
        idx.append(pos[0])
        pr.eq(f"{nm}.samples{j}", pc, w, dec(s.at(pos[0], *reversed(gen))))
        pr.holds(f"{nm}.samples{j}.in range", pc, alg.cand(alg.ge(pos[0], 0), alg.lt(pos[0], lift(s.shape[0]))))
    for a in range(k):
        for b in range(a):
            # positions of a permutation are distinct for distinct arguments
            x, y = perm(idx[a]), perm(idx[b])
            if x is None or y is None:
                pr.holds(f"{nm}.samples{b},{a}.distinct", pc, alg.cnot(alg.eq(idx[a], idx[b])))
            elif x[0] == y[0]:
                pr.holds(f"{nm}.samples{b},{a}.distinct", pc, alg.cnot(alg.eq(x[1], y[1])))
            else:
                raise Unsupported("picks from different permutations")


def perm(p):
    x = p.single()
    if x and not x[1] and x[0] == 1 and len(x[2]) == 1 and x[2][0][1] == 1 and x[2][0][0].kind == "app" and x[2][0][0].name.startswith("?perm"):
        return x[2][0][0].name, lift(x[2][0][0].args[0])
    return None


def positions(w):
    """First arguments of the sample function."""
    out = []

    def walk(p):
        for (b, f), c in p.t.items():
            for a, e in f:
                if a.kind == "app" and a.name == "s":
                    if a.args[0].key not in [x.key for x in out]:
                        out.append(lift(a.args[0]))
                else:
                    for y in a.args:
                        if isinstance(y, P):
                            walk(y)
    walk(w)
    return out


# ------------------------------------------------------------------------------ autocorrelation
def correlate(I, a, k, hide=lambda t: t):
    """numpy: sums of products over the overlap."""
    x, y = a[0], a[1]
    mode = lib.kwarg(a, k, 2, "mode", "valid")
    if mode != "full" or x.rank != 1 or y.rank != 1 or not dim_eq(x.shape[0], y.shape[0]):
        raise Unsupported("correlation")
    n = lift(x.shape[0])
    x, y = hide(x), hide(y)

    def at(j):
        lag = lift(j) - (n - 1)
        v = alg.fresh("n", int=True, nonneg=True)
        w = P.atom(v)
        ok = ind(alg.cand(alg.ge(w + lag, 0), alg.lt(w + lag, n)))
        return alg.sum_over(v, n, ok * x.at(w + lag) * y.at(w))
    return T((norm(2 * n - 1),), at, np_=True)


def autocorrelations(pr):
    for shape in ("vector", "matrix"):
        for window in (None, False, True):
            for cov in (None, False, True):
                for lags in ("default", "none", "some", "all", "beyond", 0, 1):
                    if shape == "matrix" and (lags not in ("default", "some") or window is None or cov is None):
                        continue
                    acf(pr, shape, window, cov, lags)


def acf(pr, shape, window, cov, lags):
    I = pr.new()
    n, m = alg.sym("n", pos=True, int=True), alg.sym("m", pos=True, int=True)
    pre = []
    kw = {}
    if window is not None:
        kw["window"] = window
    if cov is not None:
        kw["cov"] = cov
    if shape == "vector":
        N = n
        x = vec(N, "x")
        get = lambda i: x.at(lift(i))
    else:
        N = n * m
        x = tens((n, m), "x")
        flat = lib.reshape(I, x, -1)
        get = lambda i: flat.at(lift(i))
    L = N - 1
    if lags in (0, 1):
        kw["lags"] = lags
        L = lift(lags)
        pre = [alg.ge(N - 1, L)]
    elif lags in ("some", "beyond"):
        l = alg.sym("lags", int=True, nonneg=True)
        kw["lags"] = l
        if lags == "some":
            pre = [alg.le(l, N - 1)]
            L = l
        else:
            pre = [alg.ge(l, N)]
    elif lags == "all":
        kw["lags"] = N - 1
    elif lags == "none":
        kw["lags"] = None
    mean = alg.Sum(lift(N), get) / lift(N)
    full = lambda i: get(i) - mean
    key = full(GENS[0]).key

    def hide(t):
        """The mean-removed series, once recognised, enters under a name."""
        if dim_eq(t.shape[0], N) and lift(t.at(GENS[0])).key == key:
            return T(t.shape, lambda i: alg.app("z", lift(i)), np_=True)
        return t
    I.libfns[("np", "correlate")] = LibFn("correlate", lambda I2, a, k: correlate(I2, a, k, hide))

    def r(k, z):
        v = alg.fresh("i", int=True, nonneg=True)
        w = P.atom(v)
        s = alg.sum_over(v, lift(N), ind(alg.lt(w + lift(k), lift(N))) * z(w) * z(w + lift(k)))
        return s / N if window else s / (lift(N) - lift(k))
    named = lambda i: alg.app("z", lift(i))
    spec = lambda z: T((norm(L + 1),), (lambda k: r(k, z)) if cov else (lambda k: r(k, z) / r(ZERO, z)))

    def thunk():
        for c in pre:
            I.assume(c)
        return I.call(I.get("util.autocorr"), [x], dict(kw))

    def chk(p, nm):
        v = p.value
        if not isinstance(v, T):
            return pr.true(nm, False, repr(v))
        hidden = "app:x(" not in lift(v.at(GENS[0])).key
        if not hidden:
            e = lambda i, v=v: alg.amap(lift(v.at(i)), lambda a: full(lift(a.args[0])) if a.kind == "app" and a.name == "z" else None)
            v = T(v.shape, e)
        pr.tensor(nm, I, list(p.pc) + pre, v, spec(named if hidden else full))
    pr.paths(f"util.autocorr[{shape}, window={window}, cov={cov}, lags={lags}]", I, thunk, ret(pr, chk))
