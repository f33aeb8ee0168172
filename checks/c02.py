"""C02: integration of exponentiated polynomials.  The real methods of ExpPoly are executed on
exponents given by their value (a polynomial in the integration variables whose coefficients are
arbitrary functions of the other variables) and their support (an upper bound of the monomials that
are represented); operations on polynomials enter through the contracts that C01 proves.  Results
have to equal the closed forms of the Gaussian integrals of the exponent."""
import itertools
from fractions import Fraction
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE, TRUE
from pyvc.values import *
from pyvc.values import _Inf
from pyvc.lib import vec, Obj, LibFn
from pyvc.interp import NOCONTRACT
from .common import ret
from .c03 import coefficients, below, quadrant

ASSUMPTIONS = [
    "operations on polynomials by the contracts proved in C01 (value and true decomposition in a variable)",
    "Gaussian integrals over the line, a half-line and a quadrant by their closed forms (the last in terms of the bivariate normal distribution function of lab); repeated integrals",
    "real arithmetic; the floor of 1e-30 under the arguments of square roots is not active",
]

INF = None
CONST = frozenset({frozenset()})


def merge(u, v):
    """Product of two monomials of a support; a power of None stands for any dependence."""
    d = dict(u)
    for n, k in v:
        d[n] = None if k is None or n in d and d[n] is None else d.get(n, 0) + k
    return frozenset(d.items())


def times(a, b):
    return frozenset(merge(u, v) for u in a for v in b)


class World:
    def __init__(self, pr):
        self.pr, self.I = pr, pr.new()
        I = self.I
        I.ignore_floor = True
        self.F, self.T, self.Po, self.E = (I.get("exppoly." + n) for n in ("Factor", "Term", "Poly", "ExpPoly"))
        I.libfns[("B", "bvn_cdf")] = LibFn("bvn_cdf", lambda I2, a, k: lib.ew(I2, lambda x, y, r: alg.app("bvn_cdf", lift(x), lift(y), lift(r)), *a))
        C = I.contracts
        p = "exppoly.Poly."
        C["exppoly.Term.__init__"] = self.c_term
        C[p + "__init__"] = self.c_poly
        C[p + "__add__"] = lambda I, a, k: self.poly(self.val(a[0]) + self.val(a[1]), self.sup(a[0]) | self.sup(a[1])) if self.polys(a) else NOCONTRACT
        C[p + "__mul__"] = lambda I, a, k: self.poly(self.val(a[0]) * self.val(a[1]), times(self.sup(a[0]), self.sup(a[1]))) if self.polys(a) else NOCONTRACT
        C[p + "__neg__"] = lambda I, a, k: self.poly(-self.val(a[0]), self.sup(a[0]))
        C[p + "__pow__"] = self.c_pow
        C[p + "substitute"] = self.c_substitute
        C[p + "collect_for"] = self.c_collect
        C[p + "reject"] = self.c_reject
        C[p + "highest_power"] = self.c_highest
        C[p + "is_constant"] = self.c_constant
        C[p + "is_function_of"] = lambda I, a, k: self.depends(a[0], a[1])
        C[p + "eval"] = self.c_eval

    # -------------------------------------------------------------- polynomials by value and support
    def v(self, name):
        return alg.sym("v:" + name)

    def at(self, name):
        return self.v(name).single()[2][0][0]

    def poly(self, p, sup):
        return Obj(self.Po, **{"$val": lift(p), "$sup": frozenset(sup), "terms": lib.Poison("terms of a polynomial")})

    def polys(self, a):
        return all(isinstance(x, Obj) and x.cls is self.Po for x in a[:2])

    def val(self, o):
        if "$val" not in o.attrs:
            raise Unsupported("polynomial of unknown value")
        return o.attrs["$val"]

    def sup(self, o):
        if "$sup" not in o.attrs:
            raise Unsupported("polynomial of unknown support")
        return o.attrs["$sup"]

    def exponent(self, ep):
        return self.val(ep.attrs["poly"])

    def value(self, ep):
        """Value of an exponentiated polynomial at the values of the variables."""
        return lift(ep.attrs["const"]) * alg.exp(self.exponent(ep))

    def exppoly(self, const, p, sup):
        return self.I.call(self.E, [const, self.poly(p, sup)], {})

    # -------------------------------------------------------------- contracts
    def c_term(self, I, a, k):
        o, rest = a[0], list(a[1:])
        c = ONE
        if rest and is_num(rest[0]):
            c = lift(rest.pop(0))
        if k or any(not (isinstance(x, Obj) and x.cls is self.F) for x in rest):
            raise Unsupported("construction of a term")
        s = CONST
        for f in rest:
            n, q = f.attrs["name"], f.attrs["power"]
            if not isinstance(n, str) or not isinstance(q, int):
                raise Unsupported("symbolic factor")
            c = c * alg.power(self.v(n), q)
            s = times(s, {frozenset({(n, q)})})
        o.attrs.update({"$val": c, "$sup": s, "const": lib.Poison("constant of a term"), "factors": lib.Poison("factors of a term")})

    def c_poly(self, I, a, k):
        v, s = ZERO, frozenset()
        for t in a[1:]:
            if not (isinstance(t, Obj) and t.cls is self.T):
                raise Unsupported("construction of a polynomial")
            v, s = v + self.val(t), s | self.sup(t)
        a[0].attrs.update({"$val": v, "$sup": s, "terms": lib.Poison("terms of a polynomial")})

    def c_pow(self, I, a, k):
        o, n = a[0], a[1]
        if not isinstance(n, int) or n < 0 or k:
            raise Unsupported("symbolic power")
        s = CONST
        for _ in range(n):
            s = times(s, self.sup(o))
        return self.poly(alg.power(self.val(o), n), s)

    def c_substitute(self, I, a, k):
        o, n, q = a
        if "$degree" in o.attrs:
            return self.linear(o, n, q)
        s = frozenset()
        for m in self.sup(o):
            d = dict(m)
            e = d.pop(n, 0)
            r = {frozenset(d.items())}
            if e is None:
                raise Unsupported("substitution of a variable with any dependence")
            for _ in range(e):
                r = times(r, self.sup(q))
            s = s | frozenset(r)
        return self.poly(alg.subs(self.val(o), {self.at(n): self.val(q)}), s)

    def coefficient(self, p, n, k):
        """Coefficient of a power of a variable."""
        at, r = self.at(n), ZERO
        for (b, fs), c in p.t.items():
            e = sum((x for f, x in fs if f is at), Fraction(0))
            rest = P({(b, tuple((f, x) for f, x in fs if f is not at)): c})
            if b or at in rest.leaves:
                raise Unsupported("not a polynomial in the variable")
            if e == k:
                r = r + rest
        return r

    def c_collect(self, I, a, k):
        o, f = a
        n, q = f.attrs["name"], f.attrs["power"]
        return self.poly(self.coefficient(self.val(o), n, q), {frozenset(x for x in m if x[0] != n) for m in self.sup(o) if (n, q) in m})

    def c_reject(self, I, a, k):
        o, n = a
        return self.poly(self.coefficient(self.val(o), n, 0), {m for m in self.sup(o) if n not in dict(m)})

    def c_highest(self, I, a, k):
        o, n = a
        if "$degree" in o.attrs:
            return norm(o.attrs["$degree"][n])
        d = max([dict(m).get(n, 0) for m in self.sup(o)], default=0)
        if d == 0:
            return 0
        c = self.coefficient(self.val(o), n, d)
        if not (self.I.implied(alg.lt(c, 0)) or self.I.implied(alg.gt(c, 0)) or self.nonzero(c)):
            raise Unsupported(f"degree in {n}")
        return d

    def nonzero(self, c):
        """A non-zero polynomial in the other variables."""
        return any(a.kind == "sym" and a.name.startswith("v:") for a in c.leaves)

    def depends(self, o, n):
        if not any(n in dict(m) for m in self.sup(o)):
            return False
        if self.at(n) in self.val(o).leaves:
            return True
        raise Unsupported("dependence on a variable")

    def c_constant(self, I, a, k):
        o, = a
        ns = {n for m in self.sup(o) for n, _ in m}
        return not any(self.depends(o, n) for n in ns)

    def c_eval(self, I, a, k):
        o, = a
        env = dict(k)
        if "**" in env:
            raise Unsupported("symbolic variable map")
        ns = sorted({n for m in self.sup(o) for n, _ in m})
        for n in ns:
            if n not in env:
                if self.depends(o, n):
                    raise PyExc("KeyError", (n,))
        p = self.val(o)
        ns = [n for n in ns if n in env]
        if not ns:
            return norm(p)
        return lib.ew(I, lambda *vs: alg.subs(p, {self.at(n): lift(x) for n, x in zip(ns, vs)}), *[env[n] for n in ns])

    # -------------------------------------------------------------- exponents of any degree
    def degree(self, **ds):
        return Obj(self.Po, **{"$degree": ds, "terms": lib.Poison("terms of a polynomial")})

    def linear(self, o, n, q):
        """Substituting the variable plus or minus anything else for the variable keeps the degrees."""
        c = self.coefficient(self.val(q), n, 1)
        if max(dict(m).get(n, 0) or 0 for m in self.sup(q)) != 1 or not (c == ONE or c == -ONE):
            raise Unsupported("substitution")
        if any(x != n and x in o.attrs["$degree"] for m in self.sup(q) for x, _ in m):
            raise Unsupported("substitution")
        return self.degree(**o.attrs["$degree"])


# ------------------------------------------------------------------------------ exponents
S = frozenset({("s", None)})


def exponent(W, names, free=True):
    """Any concave quadratic: minus the squared norm of a triangular transformation, plus linear and constant terms."""
    v, sup = ZERO, set()
    n = len(names)
    xs = [W.v(x) for x in names]
    for i in range(n):
        row = alg.sym(f"l{i}{i}", pos=True) * xs[i]
        for j in range(i + 1, n):
            row = row + alg.sym(f"l{i}{j}") * xs[j]
        v = v - row * row
    for a in names:
        for b in names:
            sup.add(merge({(a, 1)}, {(b, 1)}))
    fn = (lambda t: alg.app(t, W.v("s"))) if free else alg.sym
    m = S if free else frozenset()
    for i, x in enumerate(names):
        v = v + fn(f"b{i}") * xs[i]
        sup.add(merge({(x, 1)}, m))
    v = v + fn("c")
    sup.add(m)
    return v, frozenset(sup)


def fun(W, p, names):
    """The exponent as a function of the integration variables."""
    ats = [W.at(n) for n in names]
    return lambda *xs: alg.subs(p, {a: lift(x) for a, x in zip(ats, xs)})


def lines(W, p, names):
    """Integral of exp(p) over the variables, one after the other: (factor, exponent)."""
    k = ONE
    for n in names:
        at = W.at(n)
        a, b, c = coefficients(lambda x: alg.subs(p, {at: x}))
        k, p = k * alg.sqrt(-alg.pi() / a), c - b * b / (4 * a)
    return k, p


def half_space(W, p, names):
    """Integral of exp(p) over negative values of the variables."""
    f = fun(W, p, names)
    return below(f, ZERO) if len(names) == 1 else quadrant(f, ZERO, ZERO)


def box_integral(W, p, lims):
    """Integral over a box: (name, lower, upper) with None for infinity."""
    k, p = lines(W, p, [n for n, l, u in lims if l is None and u is None])
    lims = [x for x in lims if x[1] is not None or x[2] is not None]
    if not lims:
        return k * alg.exp(p)
    parts = [(ONE, p)]
    for n, l, u in lims:
        x, at, new = W.v(n), W.at(n), []
        for c, q in parts:
            if l is None or u is not None:
                new.append((c, alg.subs(q, {at: x + u})))             # below the upper limit
            if l is not None and u is not None:
                new.append((-c, alg.subs(q, {at: x + l})))            # minus below the lower limit
            if l is not None and u is None:
                new.append((c, alg.subs(q, {at: l - x})))             # above the lower limit: reflected
        parts = new
    return k * sum((c * half_space(W, q, [x[0] for x in lims]) for c, q in parts), ZERO)


def run(pr, tier):
    values(pr)
    full(pr)
    half(pr)
    box(pr, tier)
    refused(pr)


def number(pr, spec):
    """The result is the number (or the tensor of numbers) specified."""
    def chk(p, nm):
        if isinstance(p.value, T):
            sh = p.value.shape
            return pr.unknown(nm, f"a tensor of shape {sh}") if sh else pr.eq(nm, list(p.pc), p.value.at(), lift(spec()))
        if not is_num(p.value):
            return pr.unknown(nm, f"not a number: {p.value}")
        pr.eq(nm, list(p.pc), lift(p.value), lift(spec()))
    return ret(pr, chk)


def expects(W, spec):
    """An exponentiated polynomial of this value."""
    def chk(p, nm):
        if not (isinstance(p.value, Obj) and p.value.cls is W.E):
            return W.pr.unknown(nm, f"not an exponentiated polynomial: {p.value}")
        W.pr.eq(nm, list(p.pc), W.value(p.value), lift(spec))
    return ret(W.pr, chk)


def values(pr):
    """Evaluation and operations: any polynomial."""
    def world():
        W = World(pr)
        any_ = {frozenset({("x", None), ("s", None)})}
        c, d = alg.sym("c"), alg.sym("d")
        p = lambda t, x: alg.app(t, x, W.v("s"))
        f, g = (W.exppoly(k, p(t, W.v("x")), any_) for k, t in ((c, "p"), (d, "q")))
        return W, W.I, c, d, p, f, g
    W, I, c, d, p, f, g = world()
    x, s = W.v("x"), W.v("s")
    vx, vs = alg.sym("vx"), alg.sym("vs")
    V = lambda k, t, a: k * alg.exp(p(t, a))
    pr.paths("eval", I, lambda: I.callm(f, "eval", x=vx, s=vs), number(pr, lambda: c * alg.exp(alg.app("p", vx, vs))))
    n = alg.sym("n", int=True, nonneg=True) + 2
    tx, ts = vec(n, "tx"), vec(n, "ts")
    pr.paths("eval:tensors", I, lambda: I.callm(f, "eval", x=tx, s=ts),
             ret(pr, lambda q, nm: pr.tensor(nm, I, list(q.pc), q.value, T((n,), lambda i: c * alg.exp(alg.app("p", tx.at(i), ts.at(i)))))))
    pr.paths("ExpPoly(poly)", I, lambda: I.call(W.E, [f.attrs["poly"]], {}), expects(W, V(ONE, "p", x)))
    pr.paths("f*g", I, lambda: I.binop("Mult", f, g), expects(W, V(c, "p", x) * V(d, "q", x)))
    e = alg.sym("e")
    pr.paths("f*number", I, lambda: I.binop("Mult", f, e), expects(W, V(c, "p", x) * e))
    pr.paths("number*f", I, lambda: I.binop("Mult", e, f), expects(W, V(c, "p", x) * e))
    pr.paths("-f", I, lambda: I.callm(f, "__neg__"), expects(W, -V(c, "p", x)))
    # substitution and translation: the exponent is a polynomial of unknown degree by value
    W, I, c, d, p, f, g = world()
    I.contracts["exppoly.Poly.substitute"] = lambda I2, a, k: W.poly(alg.subs(W.val(a[0]), {W.at(a[1]): W.val(a[2])}), {frozenset({("x", None), ("y", None), ("s", None)})})
    q = W.poly(alg.app("r", W.v("y"), W.v("s")), {frozenset({("y", None), ("s", None)})})
    qx = W.poly(alg.app("r", W.v("x"), W.v("s")), {frozenset({("x", None), ("s", None)})})
    x = W.v("x")
    for tag, o in (("", q), (":itself", qx)):
        pr.paths("substitute" + tag, I, lambda: I.callm(f, "substitute", "x", o), expects(W, V(c, "p", W.val(o))))
        pr.paths("translate_var" + tag, I, lambda: I.callm(f, "translate_var", "x", o), expects(W, V(c, "p", x + W.val(o))))


def setting(pr, names, order=None, free=True):
    W = World(pr)
    p, sup = exponent(W, names, free)
    c = alg.sym("const")
    return W, W.I, c, p, W.exppoly(c, p, sup)


def full(pr):
    vs = lambda: alg.sym("vs")
    for n in (1, 2, 3):
        names = ["x", "y", "w"][:n]
        for order in itertools.permutations(names) if n < 3 else [("x", "y", "w"), ("x", "w", "y")]:
            W, I, c, p, f = setting(pr, names)
            k, q = lines(W, p, order)
            tag = ",".join(order)
            pr.paths(f"integrate[{tag}]", I, lambda: I.callm(f, "integrate", *order, s=vs()),
                     number(pr, lambda: c * k * alg.exp(alg.subs(q, {W.at("s"): vs()}))))
            if n < 3:
                inf = lambda m, sgn: (m, _Inf(sgn), _Inf(1))
                for sgn in (-1, 1):
                    pr.paths(f"integrate_box[{tag}, infinite{sgn}]", I, lambda: I.callm(f, "integrate_box", *[inf(m, sgn) for m in order], s=vs()),
                             number(pr, lambda: c * k * alg.exp(alg.subs(q, {W.at("s"): vs()}))))
    # over some of the variables
    W, I, c, p, f = setting(pr, ["x", "y"])
    k, q = lines(W, p, ["x"])
    pr.paths("integrate[x of x,y]", I, lambda: I.callm(f, "integrate", "x", y=alg.sym("vy"), s=vs()),
             number(pr, lambda: c * k * alg.exp(alg.subs(q, {W.at("s"): vs(), W.at("y"): alg.sym("vy")}))))
    # over none
    pr.paths("integrate[]", I, lambda: I.callm(f, "integrate", x=alg.sym("vx"), y=alg.sym("vy"), s=vs()),
             number(pr, lambda: c * alg.exp(alg.subs(p, {W.at("x"): alg.sym("vx"), W.at("s"): vs(), W.at("y"): alg.sym("vy")}))))


def half(pr):
    for names in (["x"], ["x", "y"]):
        for order in itertools.permutations(names):
            W, I, c, p, f = setting(pr, names)
            at = W.at("s")
            vs = alg.sym("vs")
            tag = ",".join(order)
            spec = lambda s: c * half_space(W, alg.subs(p, {at: lift(s)}), names)
            pr.paths(f"integrate_half[{tag}]", I, lambda: I.callm(f, "integrate_half", *order, s=vs), number(pr, lambda: spec(vs)))
            n = alg.sym("n", int=True, nonneg=True) + 2
            ts = vec(n, "ts")
            pr.paths(f"integrate_half[{tag}]:tensor", I, lambda: I.callm(f, "integrate_half", *order, s=ts),
                     ret(pr, lambda q, nm: pr.tensor(nm, I, list(q.pc), q.value, T((n,), lambda i: spec(ts.at(i))))))


LIMITS = ["-inf", "inf", "number", "poly"]


def limit(W, kind, tag):
    """(argument, value)"""
    if kind == "-inf":
        return _Inf(-1), None
    if kind == "inf":
        return _Inf(1), None
    v = alg.sym("lim" + tag)
    if kind == "number":
        return v, v
    p = alg.app("lim" + tag, W.v("s"))
    return W.poly(p, {S}), p


def box(pr, tier):
    def one(names, kinds, order=None):
        W, I, c, p, f = setting(pr, names)
        args, lims = [], []
        for n, (a, b) in zip(names, kinds):
            (lo, lv), (hi, hv) = limit(W, a, "lo" + n), limit(W, b, "hi" + n)
            args.append((n, lo, hi))
            lims.append((n, lv, hv))
        at, vs = W.at("s"), alg.sym("vs")
        sv = lambda x: None if x is None else alg.subs(x, {at: vs})
        spec = lambda: c * box_integral(W, alg.subs(p, {at: vs}), [(n, sv(l), sv(u)) for n, l, u in lims])
        tag = ", ".join(f"{n}: {a} to {b}" for n, (a, b) in zip(names, kinds))
        if order:
            args = [args[i] for i in order]
            tag += " reordered"
        pr.paths(f"integrate_box[{tag}]", I, lambda: I.callm(f, "integrate_box", *args, s=vs), number(pr, spec))

    finite = ["number", "poly"]
    kinds = [("-inf", b) for b in finite] + [("inf", "number")] + [(a, "inf") for a in finite] + [(a, b) for a in finite for b in finite]
    for k in kinds:
        one(["x"], [k])
    two = [("-inf", "poly"), ("poly", "inf"), ("number", "poly"), ("-inf", "inf")]
    for k in two:
        for l in two:
            if not k == l == ("-inf", "inf"):
                one(["x", "y"], [k, l])
    one(["x", "y"], [("-inf", "poly"), ("number", "poly")], (1, 0))
    one(["x", "y"], [("-inf", "inf"), ("number", "inf")], (1, 0))


def raises(pr):
    return lambda p, nm: pr.true(nm, p.kind == "exc", repr(p.value))


def refused(pr):
    ways = {
        "integrate": lambda I, f, ns, vs: I.callm(f, "integrate", *ns, s=vs),
        "integrate_half": lambda I, f, ns, vs: I.callm(f, "integrate_half", *ns, s=vs),
        "integrate_box[below]": lambda I, f, ns, vs: I.callm(f, "integrate_box", *[(n, _Inf(-1), vs) for n in ns], s=vs),
        "integrate_box[above]": lambda I, f, ns, vs: I.callm(f, "integrate_box", *[(n, vs, _Inf(1)) for n in ns], s=vs),
        "integrate_box[between]": lambda I, f, ns, vs: I.callm(f, "integrate_box", *[(n, vs, vs + 1) for n in ns], s=vs),
        "integrate_box[everywhere]": lambda I, f, ns, vs: I.callm(f, "integrate_box", *[(n, _Inf(-1), _Inf(1)) for n in ns], s=vs),
    }
    for way, go in ways.items():
        # any degree but two in the (first or second) variable
        for names, which in ((["x"], "x"), (["x", "y"], "x"), (["x", "y"], "y")):
            if which == "y" and way in ("integrate", "integrate_box[everywhere]"):
                continue          # the exponent after the first integral: below
            W = World(pr)
            I = W.I
            d = alg.sym("degree", int=True, nonneg=True)
            f = I.call(W.E, [alg.sym("const"), W.degree(**{n: d if n == which else lift(2) for n in names})], {})
            pr.paths(f"refused:{way}[{','.join(names)}: degree in {which}]", I,
                     lambda: (I.assume(alg.cor(alg.lt(d, 2), alg.gt(d, 2))), go(I, f, names, alg.sym("vs"))), raises(pr))
        # quadratic in each variable, but not together
        for tag, mono in (("xxy", {("x", 2), ("y", 1)}), ("xyy", {("x", 1), ("y", 2)}), ("xxyy", {("x", 2), ("y", 2)})):
            W, I, c, p, f0 = setting(pr, ["x", "y"])
            m = alg.sym("m", pos=True)
            for n, k in mono:
                m = m * W.v(n) ** k
            f = W.exppoly(c, p + m, W.sup(f0.attrs["poly"]) | {frozenset(mono)})
            pr.paths(f"refused:{way}[{tag}]", I, lambda: go(I, f, ["x", "y"], alg.sym("vs")), raises(pr))
    for way in ("integrate", "integrate_box[everywhere]"):
        # linear or absent in the second variable
        for tag in ("absent", "linear", "cubic"):
            W = World(pr)
            I = W.I
            x, y, m = W.v("x"), W.v("y"), alg.sym("m", pos=True)
            extra = {"absent": ZERO, "linear": m * y, "cubic": m * y ** 3}[tag]
            sup = {frozenset({("x", 2)})} | ({"absent": set(), "linear": {frozenset({("y", 1)})}, "cubic": {frozenset({("y", 3)})}}[tag])
            f = W.exppoly(alg.sym("const"), -alg.sym("l", pos=True) * x * x + extra, sup)
            pr.paths(f"refused:{way}[second variable {tag}]", I, lambda: ways[way](I, f, ["x", "y"], alg.sym("vs")), raises(pr))
    # quadratic coefficients that are not constant cannot be integrated out symbolically
    W = World(pr)
    I = W.I
    f = W.exppoly(alg.sym("const"), -alg.exp(W.v("s")) * W.v("x") ** 2, {frozenset({("x", 2), ("s", None)})})
    pr.paths("refused:integrate[coefficient is not constant]", I, lambda: I.callm(f, "integrate", "x", s=alg.sym("vs")), raises(pr))
