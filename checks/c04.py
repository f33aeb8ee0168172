"""C04: covariances and cross integrals of the rough model.  The real methods are executed on a
symbolic model -- any decays, inducing points, times, and any list of distinct features in any
order -- and every entry has to equal the integral (or the Gram matrix) that defines it.  Integrals
are computed from the integrand by antiderivatives that are checked by differentiation."""
import itertools
from fractions import Fraction
from pyvc import alg, lib, smt
from pyvc.alg import P, lift, ZERO, ONE, TRUE, ind, cand, cor, cnot
from pyvc.values import *
from pyvc.lib import vec, tens, Obj, LibFn
from pyvc.interp import NOCONTRACT
from .common import ret

ASSUMPTIONS = [
    "argsort of numpy: a permutation that sorts; entries selected by masks keep their order",
    "the features are distinct integers from 0 to 2M; decays positive and off the removable singularities; times and inducing points such that the filter stays inside the interval of the features",
    "integral over a range: difference of an antiderivative (verified by differentiation); the inner product of the reproducing kernel Hilbert space of the exponential kernel; harmonics integrate to zero over full periods; product integrals over the reals up to infinity by their limits; real arithmetic",
]


# ------------------------------------------------------------------------------ integrals
def slope(p, v):
    """a, b with p = a v + b."""
    b = alg.subs(p, {v: ZERO})
    a = alg.subs(p, {v: ONE}) - b
    if not alg.is_zero(p - a * P.atom(v) - b):
        raise Unsupported("not linear in the variable of integration")
    return a, b


def antiderivative(p, v):
    """Of a sum of exponentials and harmonics; checked by differentiation."""
    r = ZERO
    for (bs, fs), c in p.t.items():
        rest, ex, tr = lift(c), ZERO, None
        if bs:
            raise Unsupported("integrand")
        for a, e in fs:
            if v not in a.leaves:
                rest = rest * P({((), ((a, e),)): Fraction(1)})
            elif a.kind == "app" and a.name == "exp":
                ex = ex + a.args[0] * e
            elif a.kind == "app" and a.name in ("sin", "cos") and e == 1 and tr is None:
                tr = a
            else:
                raise Unsupported("integrand")
        s, k = slope(ex, v)
        if tr is None:
            r = r + rest * (P.atom(v) * alg.exp(ex) if alg.is_zero(s) else alg.exp(ex) / s)
            continue
        w, _ = slope(tr.args[0], v)
        x = tr.args[0]
        f = s * alg.cos(x) + w * alg.sin(x) if tr.name == "cos" else s * alg.sin(x) - w * alg.cos(x)
        r = r + rest * alg.exp(ex) * f / (s * s + w * w)
    if not alg.is_zero(alg.diff(r, v) - p):
        raise Unsupported("antiderivative")
    return r


def integral(f, lo, hi):
    """Integral of f(x) between the limits (signed)."""
    v = alg.fresh("x")
    F = antiderivative(lift(f(P.atom(v))), v)
    return alg.subs(F, {v: lift(hi)}) - alg.subs(F, {v: lift(lo)})


def tail(f, lo, rate):
    """Integral to infinity of f, which decays with this rate."""
    v = alg.fresh("x")
    p = lift(f(P.atom(v)))
    if not alg.is_zero(alg.diff(p, v) + rate * p):
        raise Unsupported("tail")
    return alg.subs(p, {v: lift(lo)}) / rate


# ------------------------------------------------------------------------------ double integrals
CELLS = ["a>=b>=0", "b>a>=0", "a>=0>b", "b>=0>a", "0>a>=b", "0>b>a"]


def cell(c, a, b):
    ge, lt = alg.ge, alg.lt
    return {"a>=b>=0": [ge(a, b), ge(b, 0)], "b>a>=0": [lt(a, b), ge(a, 0)], "a>=0>b": [ge(a, 0), lt(b, 0)], "b>=0>a": [ge(b, 0), lt(a, 0)],
            "0>a>=b": [ge(a, b), lt(a, 0)], "0>b>a": [lt(a, b), lt(b, 0)]}[c]


def double(cl, a, b, c, d):
    """Integral of exp(c(x+y) - d|x-y|) for x from 0 to a and y from 0 to b (signed), in a cell of the limits."""
    below = lambda x: (lambda y: alg.exp(c * (x + y) - d * (x - y)))     # y <= x
    above = lambda x: (lambda y: alg.exp(c * (x + y) + d * (x - y)))     # y >= x
    all_below = lambda x: integral(below(x), 0, b)
    all_above = lambda x: integral(above(x), 0, b)
    I = integral
    if cl in ("a>=b>=0", "b>a>=0"):
        mid = lambda x: I(below(x), 0, x) + I(above(x), x, b)
        return I(mid, 0, a) if cl == "b>a>=0" else I(mid, 0, b) + I(all_below, b, a)
    if cl == "a>=0>b":
        return I(all_below, 0, a)
    if cl == "b>=0>a":
        return I(all_above, 0, a)
    mid = lambda x: I(above(x), 0, x) + I(below(x), x, b)                 # b <= x <= 0
    return I(mid, 0, a) if cl == "0>a>=b" else I(mid, 0, b) + I(all_above, b, a)


def pieces(a, b, c, d):
    return sum((ind(cand(*cell(cl, a, b))) * double(cl, a, b, c, d) for cl in CELLS), ZERO)


def double_integral(a, b, c, d):
    """By its contract: symmetric in the limits, zero for an empty range."""
    a, b = sorted((lift(a), lift(b)), key=lambda x: x.key)
    return ZERO if alg.is_zero(a) or alg.is_zero(b) else alg.app("J", a, b, lift(c), lift(d))


# ------------------------------------------------------------------------------ the model
class Rough:
    def __init__(self, pr):
        self.pr, self.I = pr, pr.new()
        I = self.I
        self.alpha, self.gamma, self.lam, self.alpha_t, self.gamma_t = (alg.sym(n, pos=True) for n in ("alpha", "gamma", "lam", "alpha_t", "gamma_t"))
        self.a = alg.sym("a")
        self.L = alg.sym("L", pos=True)
        self.b = self.a + self.L
        self.M = alg.sym("M", int=True, nonneg=True)
        self.nu, self.nz = (alg.sym(n, int=True, nonneg=True) + 2 for n in ("nu", "nz"))
        self.t_u = vec(self.nu, "tu")
        alg.INTFUNS.update({"ms", "argsort:ms", "invsort:ms"})
        alg.NONNEGFUNS.update({"ms", "argsort:ms", "invsort:ms"})
        smt.EXTRA["ms"] = lambda at: [alg.ge(P.atom(at), 0), alg.le(P.atom(at), 2 * self.M)]
        for n in ("argsort:ms", "invsort:ms"):
            smt.EXTRA[n] = lambda at: [alg.ge(P.atom(at), 0), alg.lt(P.atom(at), self.nz)]
        self.ms = vec(self.nz, "ms")
        self.ms.isint = True
        alg.rule("argsort:ms")(lambda k: self.inverse("invsort:ms", k))
        alg.rule("invsort:ms")(lambda k: self.inverse("argsort:ms", k))
        I.libfns[("np", "argsort")] = I.libfns[("B", "argsort")] = LibFn("argsort", self.argsort)
        I.libfns[("varz", "Vars")] = LibFn("Vars", lambda I2, a, k: Opaque("vars"))
        I.cat_hook = self.cat
        I.axes_hook = self.same_axis
        I.simp = self.deltas
        self.used = False

    def inverse(self, other, k):
        s = k.single()
        if s and s[0] == 1 and not s[1] and len(s[2]) == 1 and s[2][0][1] == 1 and s[2][0][0].kind == "app" and s[2][0][0].name == other:
            return s[2][0][0].args[0]
        return None

    def argsort(self, I, a, k):
        x = a[0]
        if len(a) == 1 and not k and isinstance(x, T) and x.rank == 1 and dim_eq(x.shape[0], self.nz) and lift(x.at(GEN)).key == alg.app("argsort:ms", GEN).key:
            return T((self.nz,), lambda i: alg.app("invsort:ms", lift(i)), np_=True, isint=True)      # sorting a permutation inverts it
        if len(a) != 1 or k or not isinstance(x, T) or x.rank != 1 or not dim_eq(x.shape[0], self.nz) or lift(x.at(GEN)).key != alg.app("ms", GEN).key:
            raise Unsupported("argsort")
        return T((self.nz,), lambda i: alg.app("argsort:ms", lift(i)), np_=True, isint=True)

    def deltas(self, p):
        """Positions are distinct: equality through the permutation."""
        def f(a):
            if a.kind == "app" and a.name == "delta":
                x, y = a.args
                for u, w in ((x, y), (y, x)):
                    s = u.single()
                    if s and s[0] == 1 and not s[1] and len(s[2]) == 1 and s[2][0][1] == 1 and s[2][0][0].kind == "app" and s[2][0][0].name in ("argsort:ms", "invsort:ms"):
                        at = s[2][0][0]
                        return alg.delta(at.args[0], alg.app("invsort:ms" if at.name == "argsort:ms" else "argsort:ms", w))
            return None
        return alg.amap(lift(p), f)

    def distinct(self, p):
        """The features are distinct: equal features at equal positions."""
        def f(a):
            if a.kind == "ind" and a.args[0].op == "eq":
                q = a.args[0].args[0]
                ms = list(q.t.items())
                at = [fs[0][0] if not b and len(fs) == 1 and fs[0][1] == 1 else None for (b, fs), c in ms]
                if len(ms) == 2 and ms[0][1] == ms[1][1] and all(x is not None and x.kind == "app" and x.name == "ms" for x in at):
                    return alg.delta(at[0].args[0], at[1].args[0]) * ind(alg.eq(P.atom(at[0]), 0))      # both zero
                if len(ms) == 2 and ms[0][1] + ms[1][1] == 0 and all(x is not None and x.kind == "app" and x.name == "ms" for x in at):
                    return alg.delta(at[0].args[0], at[1].args[0])
            return None
        return alg.amap(lift(p), f)

    # -------------------------------------------------------------- groups of features
    def index(self, n, tag):
        i = alg.sym(tag, int=True, nonneg=True)
        return i, alg.lt(i, lift(n))

    def sorted_at(self, i, j):
        """The features are sorted by the permutation."""
        x, y = (alg.app("ms", alg.app("argsort:ms", k)) for k in (i, j))
        return cor(alg.lt(i, j), alg.ge(x, y))

    def cat(self, I, parts):
        """Masks of the same axis, in order: one mask."""
        if not all(isinstance(p, FAxis) for p in parts) or any(not dim_eq(p.base, parts[0].base) for p in parts):
            return None
        i, ri = self.index(parts[0].base, "$i")
        j, rj = self.index(parts[0].base, "$j")
        for p, q in zip(parts, parts[1:]):
            if not I.implied(cor(cnot(cand(ri, rj, p.pred(i), q.pred(j), self.sorted_at(i, j))), alg.lt(i, j))):
                return None
        g = lambda k: cor(*[p.pred(k) for p in parts])
        whole = I.implied(cor(cnot(ri), g(i)))
        return (parts[0].base if whole else FAxis(parts[0].base, g)), [p.pred for p in parts]

    def same_axis(self, I, a, b):
        i, ri = self.index(a.base, "$i")
        return I.implied(cor(cnot(ri), cand(cor(cnot(a.pred(i)), b.pred(i)), cor(cnot(b.pred(i)), a.pred(i)))))

    # -------------------------------------------------------------- the definitions
    def model(self):
        I = self.I
        m = I.call(I.get("rgpcm.RGPCM"), [], dict(alpha=self.alpha, alpha_t=self.alpha_t, lam=self.lam, gamma=self.gamma, gamma_t=self.gamma_t,
                                                  a=self.a, b=self.b, m_max=self.M, ms=self.ms, t_u=self.t_u, noise=alg.sym("noise", pos=True)))
        m.attrs.setdefault("dtype", Opaque("dtype"))
        m.attrs["gamma"] = self.gamma
        return m

    def om(self, k):
        return 2 * alg.pi() * lift(k) / self.L

    def kinds(self, m):
        """(condition, kind, frequency) of a feature."""
        m = alg.app("ms", lift(m))
        return [(alg.le(m, self.M), "cos", self.om(m)), (alg.gt(m, self.M), "sin", self.om(m - self.M))]

    def feature(self, kind, w, s):
        return (alg.cos if kind == "cos" else alg.sin)(w * (s - self.a))

    def window(self, u, tau):
        """Covariance of the inducing variable at u with the noise of the filter at tau, times the window."""
        return self.alpha_t * self.gamma_t * alg.exp(-self.gamma * (u - tau) - self.alpha * tau)

    def K_u(self, i, j):
        x, y = self.t_u.at(i), self.t_u.at(j)
        k = lambda lo: tail(lambda s: self.gamma_t ** 2 * alg.exp(-self.gamma * (s - x) - self.gamma * (s - y)), lo, 2 * self.gamma)
        return alg.ite(alg.ge(x, y), k(x), k(y))

    def K_z(self, i, j):
        r = ZERO
        d = lambda f: (lambda s: alg.subs(alg.diff(f(P.atom(V)), V), {V: s}))
        V = alg.fresh("s")
        for c1, k1, w1 in self.kinds(i):
            for c2, k2, w2 in self.kinds(j):
                f, g = (lambda s, k=k, w=w: self.feature(k, w, s) for k, w in ((k1, w1), (k2, w2)))
                df, dg = d(f), d(g)
                v = (f(self.a) * g(self.a) + f(self.b) * g(self.b)) / 2
                v = v + self.period(lambda s: df(s) * dg(s) + self.lam ** 2 * f(s) * g(s)) / (2 * self.lam)
                r = r + ind(cand(c1, c2)) * v
        return r

    def period(self, f):
        """Integral over the interval: the harmonics of frequency zero."""
        v = alg.fresh("x")
        r = ZERO
        for (bs, fs), c in lift(f(self.a + P.atom(v))).t.items():
            tr = [a for a, e in fs if v in a.leaves]
            rest = P({((), tuple((a, e) for a, e in fs if v not in a.leaves)): c})
            if bs or len(tr) > 1:
                raise Unsupported("harmonic")
            if not tr:
                r = r + rest * self.L
                continue
            w, ph = slope(tr[0].args[0], v)
            k = w * self.L / (2 * alg.pi())
            if not alg._is_int_term(k) or not alg.is_zero(ph):
                raise Unsupported("harmonic")
            if tr[0].name == "cos":
                r = r + rest * self.L * ind(alg.eq(k, 0))
        return r

    def i_hx(self, t1, t2):
        return tail(lambda s: self.alpha_t ** 2 * alg.exp(-2 * self.alpha * s), 0, 2 * self.alpha) * alg.exp(-self.lam * alg.absv(t1 - t2))

    def c_double(self, I, a, k):
        if k or len(a) != 4:
            return NOCONTRACT
        self.used = True
        return lib.ew(I, double_integral, *a)

    def J(self, a, b):
        """Integral of exp((gamma - alpha)(x + y) - lam |x - y|) over x from 0 to a and y from 0 to b."""
        return double_integral(a, b, self.gamma - self.alpha, self.lam)

    def I_ux(self, t1, t2, i, j):
        # window(u_j, tau1) window(u_i, tau2) exp(-lam |(t1 - tau1) - (t2 - tau2)|), tau1 = x + t1, tau2 = y + t2
        u, v = self.t_u.at(i), self.t_u.at(j)
        x, y = alg.sym("$x"), alg.sym("$y")
        k = self.window(v, x + t1) * self.window(u, y + t2) / alg.exp((self.gamma - self.alpha) * (x + y))
        if any(z.single()[2][0][0] in k.leaves for z in (x, y)):
            raise Unsupported("change of variables")
        J = self.J
        return k * (J(v - t1, u - t2) - J(-t1, u - t2) - J(v - t1, -t2) + J(-t1, -t2))

    def I_uz(self, t, i, m):
        u = self.t_u.at(i)
        return sum((ind(c) * integral(lambda tau: self.window(u, tau) * self.feature(k, w, t - tau), 0, u) for c, k, w in self.kinds(m)), ZERO)

    def I_hz(self, t, m, n):
        r = ZERO
        for c1, k1, w1 in self.kinds(m):
            for c2, k2, w2 in self.kinds(n):
                w = lambda s: self.alpha_t ** 2 * alg.exp(-2 * self.alpha * (t - s))
                v = integral(lambda s: w(s) * self.feature(k1, w1, s) * self.feature(k2, w2, s), self.a, t)
                if k1 == k2 == "cos":
                    # before the interval: by the kernel of the excitation
                    v = v + tail(lambda s: w(self.a - s) * alg.exp(-self.lam * s) ** 2, 0, 2 * self.alpha + 2 * self.lam)
                r = r + ind(cand(c1, c2)) * v
        return r


def run(pr, tier):
    parts(pr)
    integrals(pr)


def parts(pr):
    # the double integral, in every cell of its limits
    W = Rough(pr)
    I = W.I
    f = I.get("rgpcm.integral_abcd")
    if f is None:
        return
    a, b, c = (alg.sym(n) for n in ("x1", "x2", "decay"))
    d = alg.sym("rate", pos=True)
    for cl in CELLS:
        pr.paths(f"integral_abcd[{cl}]", I, lambda: ([I.assume(x) for x in cell(cl, a, b)], I.call(f, [a, b, c, d], {}))[1],
                 ret(pr, lambda p, nm: pr.eq(nm, list(p.pc), lift(p.value), double(cl, a, b, c, d))))


    W = Rough(pr)
    f = W.I.get("util.invert_perm")
    i = alg.sym("i", int=True, nonneg=True)
    perm = T((W.nz,), lambda k: alg.app("argsort:ms", lift(k)), np_=True, isint=True)
    pr.paths("invert_perm", W.I, lambda: W.I.call(f, [perm], {}),
             ret(pr, lambda p, nm: pr.eq(nm, list(p.pc) + [alg.lt(i, W.nz)], W.deltas(p.value.at(alg.app("argsort:ms", i))), i)))


def integrals(pr):
    def one(name, args, spec, shape, pre=None):
        W = Rough(pr)
        I = W.I
        if name.startswith("I_ux"):
            I.contracts["rgpcm.integral_abcd"] = W.c_double
        a, k, sh, f = args(W)

        def chk(p, nm):
            v = p.value
            if name.startswith("I_ux") and not W.used:
                raise Unsupported("double integral outside its contract")
            g = T(sh, lambda *i: W.distinct(f(*i))) if sh else f()
            pr.tensor(nm, I, list(p.pc), v, g)
        pr.paths(name, I, lambda: I.callm(W.model(), "compute_" + name.split(":")[0], *a, **k), ret(pr, chk))

    one("K_u", lambda W: ([], {}, (W.nu, W.nu), W.K_u), None, None)
    for tag in ("diagonal", "above", "below"):
        W = Rough(pr)
        i = alg.sym("i", int=True, nonneg=True)
        k = i if tag == "diagonal" else i + 1 + alg.sym("r", int=True, nonneg=True)
        ij = (k, i) if tag == "below" else (i, k)

        def entry(p, nm):
            v = p.value
            if not isinstance(v, T) or v.rank != 2 or not all(dim_eq(x, W.nz) for x in v.shape):
                return pr.unknown(nm, f"shape of {v}")
            pr.eq(nm, list(p.pc) + [alg.lt(k, W.nz)], W.distinct(v.at(*ij)), W.distinct(W.K_z(*ij)))
        pr.paths(f"K_z:{tag}", W.I, lambda: lib.totensor(W.I, W.I.callm(W.model(), "compute_K_z")), ret(pr, entry))
    n1, n2 = (alg.sym(n, int=True, nonneg=True) + 2 for n in ("n1", "n2"))
    t, s, s1 = vec(n1, "t"), vec(n2, "s"), vec(n1, "s")
    col = T((n1, 1), lambda i, j: t.at(i))
    row = T((1, n2), lambda i, j: s.at(j))
    one("i_hx:", lambda W: ([], {}, (), lambda: W.i_hx(ZERO, ZERO)), None, None)
    one("i_hx:t1", lambda W: ([t], {}, (n1,), lambda i: W.i_hx(t.at(i), ZERO)), None, None)
    one("i_hx:t2", lambda W: ([], dict(t2=t), (n1,), lambda i: W.i_hx(ZERO, t.at(i))), None, None)
    one("i_hx:t,t", lambda W: ([t, t], {}, (n1,), lambda i: W.i_hx(t.at(i), t.at(i))), None, None)
    one("i_hx:t1,t2", lambda W: ([t, s1], {}, (n1,), lambda i: W.i_hx(t.at(i), s1.at(i))), None, None)
    one("i_hx:pairs", lambda W: ([col, row], {}, (n1, n2), lambda i, j: W.i_hx(t.at(i), s.at(j))), None, None)
    one("I_ux:", lambda W: ([], {}, (W.nu, W.nu), lambda i, j: W.I_ux(ZERO, ZERO, i, j)), None, None)
    one("I_ux:t1", lambda W: ([t], {}, (n1, W.nu, W.nu), lambda q, i, j: W.I_ux(t.at(q), ZERO, i, j)), None, None)
    one("I_ux:t2", lambda W: ([], dict(t2=t), (n1, W.nu, W.nu), lambda q, i, j: W.I_ux(ZERO, t.at(q), i, j)), None, None)
    one("I_ux:t1,t2", lambda W: ([t, s], {}, (n1, n2, W.nu, W.nu), lambda q, r, i, j: W.I_ux(t.at(q), s.at(r), i, j)), None, None)
    groups(pr, "I_uz", 1, lambda W: (n1, W.nu, W.nz), lambda W, q, i, m: W.I_uz(t.at(q), i, m), t)
    groups(pr, "I_hz", 2, lambda W: (n1, W.nz, W.nz), lambda W, q, m, n: W.I_hz(t.at(q), m, n), t)


GROUPS = ["0", "cos", "sin"]


def groups(pr, name, k, shape, spec, t):
    """The entries for features of every group: the constant, the cosines and the sines."""
    for gs in itertools.product(GROUPS, repeat=k):
        W = Rough(pr)
        I = W.I
        sh = shape(W)
        ix = [alg.sym(f"i{n}", int=True, nonneg=True) for n in range(len(sh))]
        pc = [alg.lt(i, lift(d)) for i, d in zip(ix, sh)]
        put = {}
        for j, g in enumerate(gs):
            at = alg.app("ms", ix[len(sh) - k + j]).single()[2][0][0]
            q = alg.sym(f"m{j}", int=True, pos=True)
            put[at.key] = {"0": ZERO, "cos": q, "sin": W.M + q}[g]
            pc += [] if g == "0" else [alg.le(q, W.M)]

        def at(f):
            return alg.amap(lift(f), lambda x: put.get(x.key))

        def entry(p, nm):
            v = p.value
            if not isinstance(v, T) or v.rank != len(sh) or not all(dim_eq(x, y) for x, y in zip(v.shape, sh)):
                return pr.unknown(nm, f"shape of {v}: {v.shape if isinstance(v, T) else v}")
            pr.eq(nm, list(p.pc) + pc, at(v.at(*ix)), at(spec(W, *ix)))
        pr.paths(f"{name}:{','.join(gs)}", I, lambda: I.callm(W.model(), "compute_" + name, t), ret(pr, entry))
