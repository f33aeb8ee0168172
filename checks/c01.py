"""C01: polynomial expressions.  A term is a coefficient and any number of factors, a polynomial any
number of terms; every operation is executed on such arbitrary operands and the value of the result
(at arbitrary values of the variables) has to be the operation applied to the values of the operands.

Values are positive here, so that the product of the factors is the exponential of a sum: for given
operands both sides are polynomials in the values of the variables, and polynomials that agree on an
open set agree everywhere."""
from fractions import Fraction
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE, TRUE, FALSE, ind, cand, cnot
from pyvc.values import *
from pyvc.lib import Obj, LibFn
from pyvc.interp import NOCONTRACT, StarSeq
from .common import ret

ASSUMPTIONS = [
    "a set of the values of an expression over a finite collection: an enumeration of the distinct values, with the map that takes an element to the position of its value",
    "sets of factors are compared by content; hashing is compatible with equality",
    "values of the variables positive (polynomial identities extend to all values); real arithmetic",
]


# ------------------------------------------------------------------------------ arbitrary operands
def fresh_int(n):
    return alg.sym(n, int=True, nonneg=True)


def deltas(p):
    """Equalities of positions as Kronecker deltas: the positions are in range."""
    def f(a):
        if a.kind == "ind" and a.args[0].op == "eq":
            q = a.args[0].args[0]
            ms = list(q.t.items())
            if len(ms) == 2 and all(not b and len(fs) == 1 and fs[0][1] == 1 and position(fs[0][0]) for (b, fs), c in ms) and ms[0][1] + ms[1][1] == 0 and abs(ms[0][1]) == 1:
                x, y = (P({m: lift(1).t[((), ())]}) for m, _ in ms)
                return alg.delta(x, y)
        return None
    return alg.amap(lift(p), f)


def position(a):
    return a.kind in ("bv", "sym") or a.kind == "app" and a.name.startswith("cls:")


class World:
    def __init__(self, pr):
        self.pr, self.I = pr, pr.new()
        I = self.I
        I.str_eq = lambda I2, a, b: self.eq_key(lib.skey(a), lib.skey(b))
        I.seq_eq = self.seq_eq
        I.mkset = self.mkset
        I.set_len = self.set_len
        I.reduce_hook = self.reduce
        I.nonempty = self.nonempty
        I.simp = deltas
        I.minmax_hook = self.minmax
        I.obj_fold["Poly"] = self
        self.classes = {}       # uid -> (position of the argument, key of its value)
        self.F, self.T, self.Po = (I.get("exppoly." + n) for n in ("Factor", "Term", "Poly"))
        self.env = SMap(lambda n: alg.exp(self.LV(n)))
        alg.INTFUNS.update({"nF", "pw", "nT"})
        alg.POSFUNS.add("pw")
        alg.NONNEGFUNS.add("nF") if hasattr(alg, "NONNEGFUNS") else None

    # -------------------------------------------------------------- names, factors, terms, polynomials
    def LV(self, name):
        return alg.app("LV", lib.skey(name) if isinstance(name, (str, SStr)) else name)

    def factors(self, ident):
        a = alg.fresh("j", int=True, nonneg=True)
        j = P.atom(a)
        s = SSeq([Seg(((a, alg.app("nF", ident)),), TRUE, Obj(self.F, name=SStr(alg.app("nm", ident, j)), power=alg.app("pw", ident, j)))], "set")
        s.ident = ident
        return s

    def anything(self, tag):
        """Factors with any names."""
        alg.INTFUNS.add("pw:" + tag)
        alg.POSFUNS.add("pw:" + tag)
        a = alg.fresh("j", int=True, nonneg=True)
        j = P.atom(a)
        return SSeq([Seg(((a, fresh_int("n:" + tag)),), TRUE, Obj(self.F, name=SStr(alg.app("nm:" + tag, j)), power=alg.app("pw:" + tag, j)))], "tuple")

    def term(self, tag, *ix):
        return Obj(self.T, const=alg.app("c:" + tag, *ix), factors=self.factors(alg.app("fs:" + tag, *ix)))

    def poly(self, tag):
        a = alg.fresh("i", int=True, nonneg=True)
        n = fresh_int("nT:" + tag)
        return Obj(self.Po, terms=SSeq([Seg(((a, n),), TRUE, self.term(tag, P.atom(a)))]))

    def valued(self, cls, v):
        return Obj(cls, **{"$val": lift(v), "terms": lib.Poison("terms of a result"), "factors": lib.Poison("factors of a result")})

    # -------------------------------------------------------------- their values
    def fv(self, factors):
        """Logarithm of the value of a product of factors."""
        if isinstance(factors, Obj):
            return lift(factors.attrs["power"]) * self.LV(factors.attrs["name"])
        r = ZERO
        for s in seq_of(factors).segs:
            r = r + self.I.big_sum(s, TRUE, self.fv(s.value))
        return r

    def val(self, o):
        if is_num(o):
            return lift(o)
        if not isinstance(o, Obj):
            raise Unsupported("value of an operand")
        if "$val" in o.attrs:
            return o.attrs["$val"]
        if o.cls is self.F:
            return alg.exp(self.fv(o))
        if o.cls is self.T:
            return lift(o.attrs["const"]) * alg.exp(self.fv(o.attrs["factors"]))
        if o.cls is self.Po:
            r = ZERO
            for s in seq_of(o.attrs["terms"]).segs:
                r = r + self.I.big_sum(s, TRUE, self.val(s.value))
            return r
        raise Unsupported("value of an operand")

    # -------------------------------------------------------------- equality and sets
    def cls_of(self, e, other):
        """Position of the value `other` in the enumeration of e."""
        uid = e.name.split(":", 1)[1]
        v, p = self.classes[uid]
        k = e.args[0]
        s = other.single()
        if s and s[0] == 1 and not s[1] and len(s[2]) == 1 and s[2][0][1] == 1:
            o = s[2][0][0]
            if o.kind == "app" and o.name == e.name:
                return k, o.args[0]
            pa = p.single()[2][0][0]
            if o.kind == "app" and o.name == pa.name and len(o.args) == len(pa.args):
                if all(x == y for x, y in zip(o.args[:-1], pa.args[:-1])) and pa.args[-1] == P.atom(v):
                    return k, alg.app("cls:" + uid, o.args[-1])
        return None

    def eq_key(self, a, b):
        if a == b:
            return True
        if any(x.key == alg.sym("absent").key for x in (a, b)):
            return False          # a name that occurs nowhere
        sa, sb = (x.single() for x in (a, b))
        at = [s[2][0][0] if s and len(s[2]) == 1 else None for s in (sa, sb)]
        if all(x is not None and x.kind == "app" for x in at):
            for x, y in ((at[0], b), (at[1], a)):
                if x.name.startswith("E:"):
                    r = self.cls_of(x, y)
                    if r is not None:
                        c = alg.eq(*r)
                        return True if c.op == "true" else False if c.op == "false" else c
            for uid, (v, p) in reversed(list(self.classes.items())):
                q = p.single()[2][0][0]
                if all(x.name == q.name and x.args[:-1] == q.args[:-1] for x in at):
                    return alg.eq(*[alg.app("cls:" + uid, x.args[-1]) for x in at])
            if at[0].name == at[1].name == "nm" and at[0].args[0] == at[1].args[0]:
                return alg.eq(at[0].args[1], at[1].args[1])
        return alg.pred("same", *sorted((a, b), key=lambda x: x.key))

    def seq_eq(self, I, a, b):
        if isinstance(a, SSeq) and isinstance(b, SSeq) and hasattr(a, "ident") and hasattr(b, "ident"):
            return self.eq_key(a.ident, b.ident)
        if all(isinstance(x, SSeq) and x.kind == "set" and len(x.segs) == 1 and isinstance(x.segs[0].value, Obj) and x.segs[0].value.cls is self.T for x in (a, b)):
            # distinct elements (or elements of value zero) in each: equal sets have equal sums
            c, ok = self.equal_terms(I.rename_seg(a.segs[0]).value, I.rename_seg(b.segs[0]).value)
            if not ok:
                raise Unsupported("equal terms of different values")
            return alg.pred("equal sums", self.sum_of(a), self.sum_of(b))
        return None

    def set_len(self, I, x):
        if hasattr(x, "ident"):
            return alg.app("nF", x.ident)
        raise Unsupported("size of a set")

    def mkset(self, I, s):
        if hasattr(s, "ident"):
            r = SSeq(s.segs, "set")
            r.ident = s.ident
            return r
        if len(s.segs) != 1 or len(s.segs[0].bounds) != 1 or s.segs[0].guard.op != "true":
            if s.concrete() is not None:
                return lib.mk_set(I, s.segs)
            raise Unsupported("set")
        (v, d), val = s.segs[0].bounds[0], s.segs[0].value
        fac = isinstance(val, Obj) and val.cls is self.F
        if isinstance(val, SStr):
            p = val.p
        elif isinstance(val, SSeq) and hasattr(val, "ident"):
            p = val.ident
        elif isinstance(val, Obj) and val.cls is self.T:
            return SSeq(s.segs, "set")
        elif fac:
            # distinct names: a set of the factors without duplicates
            n = val.attrs["name"].p.single()
            if n and len(n[2]) == 1 and n[2][0][0].kind == "app" and n[2][0][0].name.startswith("E:") and n[2][0][0].args[0] == P.atom(v):
                return SSeq(s.segs, "set")
            raise Unsupported("set of factors")
        else:
            raise Unsupported("set")
        q = p.single()
        if not q or q[1] or len(q[2]) != 1 or q[2][0][1] != 1 or q[2][0][0].kind != "app" or q[2][0][0].args[-1] != P.atom(v):
            raise Unsupported("set of these values")
        uid = alg.fresh("set").name
        self.classes[uid] = (v, p)
        alg.INTFUNS.add("cls:" + uid)

        @alg.rule("E:" + uid)
        def _e(k):
            t = k.single()
            if t and t[0] == 1 and not t[1] and len(t[2]) == 1 and t[2][0][1] == 1 and t[2][0][0].kind == "app" and t[2][0][0].name == "cls:" + uid:
                return alg.subs(p, {v: t[2][0][0].args[0]})
            return None
        a = alg.fresh("k", int=True, nonneg=True)
        e = alg.app("E:" + uid, P.atom(a))
        return SSeq([Seg(((a, alg.sym("card:" + uid, int=True, nonneg=True)),), TRUE, SStr(e) if isinstance(val, SStr) else self.factors(e))], "set")

    def sum_of(self, s):
        return deltas(self.I.big_sum(s.segs[0], TRUE, self.val(s.segs[0].value)))

    def nonempty(self, s):
        """The elements of which a value in the enumeration is the value."""
        if len(s.segs) != 1 or len(s.segs[0].bounds) != 1:
            return False
        (v, d), g = s.segs[0].bounds[0], s.segs[0].guard
        if g.op != "eq":
            return False
        return any(a.kind == "app" and a.name.startswith("cls:") and a.args[0] == P.atom(v) for (b, fs), c in g.args[0].t.items() for a, e in fs)

    # -------------------------------------------------------------- folds
    def minmax(self, I, name, seq, k):
        return self.extremum(seq, k.get("default")) if name == "max" else lib_raise("min")

    def extremum(self, seq, default):
        if len(seq.segs) == 1 and len(seq.segs[0].bounds) == 1 and seq.segs[0].guard.op == "true" and is_num(seq.segs[0].value):
            (at, d), v = seq.segs[0].bounds[0], lift(seq.segs[0].value)
            if not self.I.decide(alg.gt(d, 0)):
                if default is None:
                    raise PyExc("ValueError", ("empty sequence",))
                return default
            return lib.extremum("max", d, lambda i: alg.subs(v, {at: lift(i)}))
        raise Unsupported("maximum")

    def reduce(self, I, f, seq, init):
        if len(seq.segs) != 1 or not init or getattr(f, "name", "") != "operator.mul":
            return NOCONTRACT
        seg = I.rename_seg(seq.segs[0])
        v = seg.value
        if is_num(v) and is_num(init[0]):
            return norm(lift(init[0]) * I.big_prod(seg, [((), lift(v))]))
        if not isinstance(v, Obj):
            return NOCONTRACT
        if v.cls is self.F:
            return self.fold_factors(I, f, seq, seg, init[0])
        if v.cls in (self.Po, self.T) and isinstance(init[0], Obj) and init[0].cls is v.cls:
            acc = alg.sym(alg.fresh("acc").name)
            outs = I.generic([a for a, _ in seg.bounds], I.seg_assumptions(seg), lambda: I.call(f, [self.valued(v.cls, acc), v], {}))
            if len(outs) != 1 or outs[0][1] != "ret":
                return NOCONTRACT
            r = self.val(outs[0][2]) / acc
            if acc.single()[2][0][0] in r.leaves:
                return NOCONTRACT
            return self.valued(v.cls, self.val(init[0]) * I.big_prod(seg, [((), r)]))
        return NOCONTRACT

    def fold_factors(self, I, f, seq, seg, init):
        if not self.nonempty(seq):
            return NOCONTRACT
        seg0 = I.rename_seg(seg)
        x0 = self.one(I, seg0, lambda: I.call(f, [init, seg0.value], {}))
        ph = alg.sym(alg.fresh("acc").name, int=True, pos=True)
        acc = Obj(self.F, name=x0.attrs["name"], power=ph)
        x1 = self.one2(I, seg0, seg, lambda: I.call(f, [acc, seg.value], {}))
        step = lift(x1.attrs["power"]) - ph
        k = {seg.bounds[0][0]: P.atom(seg0.bounds[0][0])}
        if ph.single()[2][0][0] in step.leaves or not alg.is_zero(alg.subs(step, k) - lift(x0.attrs["power"])):
            return NOCONTRACT
        if lib.skey(x1.attrs["name"]) != lib.skey(x0.attrs["name"]) and lib.skey(x1.attrs["name"]) != lib.skey(seg.value.attrs["name"]):
            return NOCONTRACT
        # the names of all these elements are the value in the enumeration
        (v, d), g = seg.bounds[0], seg.guard
        e = next(a for (b, fs), c in g.args[0].t.items() for a, _ in fs if a.kind == "app" and a.name.startswith("cls:"))
        uid = e.name.split(":", 1)[1]
        pos = self.other(g.args[0], e)
        if alg.app("E:" + uid, P.atom(e)) != lib.skey(seg.value.attrs["name"]):
            return NOCONTRACT
        return Obj(self.F, name=SStr(alg.app("E:" + uid, pos)), power=norm(deltas(I.big_sum(seg, TRUE, step))))

    def other(self, p, e):
        """The position that is equal to e when p is zero."""
        c = P({m: c for m, c in p.t.items() if any(a is e for a, _ in m[1])})
        r = p - c
        s = c.single()
        return -r / s[0]

    def one(self, I, seg, thunk):
        outs = I.generic([a for a, _ in seg.bounds], I.seg_assumptions(seg), thunk)
        if len(outs) != 1 or outs[0][1] != "ret" or not isinstance(outs[0][2], Obj) or outs[0][2].cls is not self.F:
            raise Unsupported(f"product of factors {outs}")
        return outs[0][2]

    def one2(self, I, s0, s1, thunk):
        outs = I.generic([s0.bounds[0][0], s1.bounds[0][0]], I.seg_assumptions(s0) + I.seg_assumptions(s1), thunk)
        if len(outs) != 1 or outs[0][1] != "ret" or not isinstance(outs[0][2], Obj) or outs[0][2].cls is not self.F:
            raise Unsupported(f"product of factors {outs}")
        return outs[0][2]

    # -------------------------------------------------------------- contracts
    def segs(self, args):
        out = []
        for a in args:
            out += a.seq.segs if isinstance(a, StarSeq) else [Seg((), TRUE, a)]
        return out

    def c_term(self, I, args, kw):
        o, rest = args[0], list(args[1:])
        c = ONE
        if rest and is_num(rest[0]):
            c = lift(rest.pop(0))
        s = SSeq(self.segs(rest), "tuple")
        if any(not (isinstance(x.value, Obj) and x.value.cls is self.F) for x in s.segs):
            raise Unsupported("construction of a term")
        o.attrs["$val"] = c * alg.exp(self.fv(s))
        o.attrs["const"] = norm(c)
        o.attrs["factors"] = lib.Poison("factors of a result")
        if len(rest) == 1 and isinstance(rest[0], StarSeq):
            o.attrs["$ident"] = getattr(rest[0].seq, "ident", None)

    def c_poly(self, I, args, kw):
        r = ZERO
        for s in self.segs(args[1:]):
            if not (isinstance(s.value, Obj) and s.value.cls is self.T):
                raise Unsupported("construction of a polynomial")
            r = r + I.big_sum(s, TRUE, self.val(s.value))
        args[0].attrs["$val"] = deltas(r)
        args[0].attrs["terms"] = lib.Poison("terms of a result")

    def c_substitute(self, I, a, k):
        t, name, v = a
        return self.valued(self.Po, lift(t.attrs["const"]) * without(self, t, lambda f: cnot(named(self, f, name))) * alg.power(self.val(v), self.hp(t, name)))

    def hp(self, t, name):
        s = seq_of(t.attrs["factors"]).segs[0]
        return deltas(self.I.big_sum(s, TRUE, ind(named(self, s.value, name)) * lift(s.value.attrs["power"])))

    def c_collect(self, I, a, k):
        t, f = a
        if not I.implied(as_cond(lib.contains(I, t.attrs["factors"], f))):
            return NOCONTRACT
        return self.valued(self.T, lift(t.attrs["const"]) * without(self, t, lambda g: cnot(named(self, g, f.attrs["name"]))))

    # -------------------------------------------------------------- sums of polynomials in a loop
    def placeholder(self, I, v, tag, i):
        return self.valued(v.cls, alg.app(tag, i))

    def summarise(self, I, v0, ph, news, seg, deps):
        r = self.val(v0)
        for pc, v in news:
            d = self.val(v) - self.val(ph)
            if deps(d):
                return None
            r = r + I.big_sum(seg, cand(*pc), d)
        return (self.valued(ph.cls, r),)

    def total(self, I, tot, seg):
        if is_num(tot) and not (isinstance(tot, int) and tot == 0):
            raise Unsupported("sum of polynomials")
        return self.valued(seg.value.cls, self.val(tot) + I.big_sum(seg, TRUE, self.val(seg.value)))

    # -------------------------------------------------------------- equality of polynomials
    def equal_terms(self, x, y):
        """(condition of equality, whether it implies equal values)"""
        c = as_cond(self.I.truth(self.I.compare("Eq", x, y)))
        d = self.val(x) - self.val(y)
        return c, self.follows(c, d)

    def follows(self, c, d):
        """Does the condition imply that the difference vanishes?"""
        cs = c.args if c.op == "and" else (c,)
        for e in cs:
            if e.op == "pred" and e.args[0] == "same":
                x, y = e.args[1], e.args[2]
                at = x.single()[2][0][0]
                d = alg.amap(d, lambda q: y if q is at else None)
        for e in cs:
            if e.op == "eq":
                for m, k in e.args[0].t.items():
                    if not m[0] and len(m[1]) == 1 and m[1][0][1] == 1 and m[1][0][0].kind in ("app", "sym"):
                        at = m[1][0][0]
                        z = P.atom(at) - e.args[0] / k
                        d = alg.amap(d, lambda q: z if q is at else None)
                        break
        return c.op == "false" or alg.is_zero(d)

    def polys(self, a):
        return all(isinstance(x, Obj) and x.cls is self.Po for x in a[:2])

    def modular(self, *names):
        """Callees by their contracts."""
        table = {
            "Term.__init__": self.c_term, "Poly.__init__": self.c_poly,
            "Poly.__mul__": lambda I, a, k: self.valued(self.Po, self.val(a[0]) * self.val(a[1])) if self.polys(a) else NOCONTRACT,
            "Poly.__add__": lambda I, a, k: self.valued(self.Po, self.val(a[0]) + self.val(a[1])) if self.polys(a) else NOCONTRACT,
            "Poly.__pow__": lambda I, a, k: self.valued(self.Po, alg.power(self.val(a[0]), a[1])),
        }
        table.update({"Term.substitute": self.c_substitute, "Term.collect_for": self.c_collect, "Term.highest_power": lambda I, a, k: self.hp(a[0], a[1])})
        for n in names:
            if n:
                self.I.contracts["exppoly." + n] = table[n]
        return self


def lib_raise(w):
    raise Unsupported(w)


# ------------------------------------------------------------------------------ obligations
def run(pr, tier):
    factor(pr)
    term(pr)
    poly(pr)


def same(W, p, nm, spec):
    W.pr.eq(nm, list(p.pc), deltas(W.val(p.value)), deltas(lift(spec)))


def factor(pr):
    W = World(pr)
    I = W.I
    n, m = SStr(alg.sym("name")), SStr(alg.sym("name2"))
    k, l = (alg.sym(x, int=True, pos=True) for x in ("k", "l"))
    mk = lambda n, k: Obj(W.F, name=n, power=k)
    pr.paths("Factor(name)", I, lambda: I.call(W.F, [n], {}), ret(pr, lambda p, nm: same(W, p, nm, alg.exp(W.LV(n)))))
    pr.paths("Factor(name,power)", I, lambda: I.call(W.F, [n, k], {}), ret(pr, lambda p, nm: same(W, p, nm, alg.exp(k * W.LV(n)))))
    bad = alg.sym("bad", int=True)
    pr.paths("Factor(power<1)", I, lambda: (I.assume(alg.lt(bad, 1)), I.call(W.F, [n, bad], {})), lambda p, nm: pr.true(nm, p.kind == "exc", repr(p.value)))
    pr.paths("Factor.eval", I, lambda: I.callm(mk(n, k), "eval", **{"**": W.env}), ret(pr, lambda p, nm: same(W, p, nm, alg.exp(k * W.LV(n)))))


def has(W, cls, name):
    return getattr(W, cls).find(name) is not None


def raises(pr):
    return lambda p, nm: pr.true(nm, p.kind == "exc", repr(p.value))


def inside(W, t, tag="j0"):
    """A factor of the term."""
    s = seq_of(t.attrs["factors"]).segs[0]
    j = fresh_int(tag)
    return subs_value(s.value, {s.bounds[0][0]: j}), j, alg.lt(j, s.bounds[0][1])


def as_cond(c):
    return c if isinstance(c, Cond) else TRUE if c else FALSE


def without(W, t, keep):
    """Value of the factors to keep."""
    r = ZERO
    for s in seq_of(t.attrs["factors"]).segs:
        r = r + W.I.big_sum(s, TRUE, ind(as_cond(keep(s.value))) * W.fv(s.value))
    return alg.exp(deltas(r))


def named(W, f, name):
    return as_cond(W.I.compare("Eq", f.attrs["name"], name))


def term(pr):
    W = World(pr)
    I = W.I
    t = W.term("t")
    pr.paths("Term.eval", I, lambda: I.callm(t, "eval", **{"**": W.env}), ret(pr, lambda p, nm: same(W, p, nm, W.val(t))))
    c = alg.sym("c")
    fs = W.anything("any")
    pr.paths("Term(const,*factors)", I, lambda: I.call(W.T, [c, StarSeq(fs)], {}), ret(pr, lambda p, nm: same(W, p, nm, c * alg.exp(W.fv(fs)))))
    pr.paths("Term(*factors)", I, lambda: I.call(W.T, [StarSeq(fs)], {}), ret(pr, lambda p, nm: same(W, p, nm, alg.exp(W.fv(fs)))))
    pr.paths("Term(const)", I, lambda: I.call(W.T, [c], {}), ret(pr, lambda p, nm: same(W, p, nm, c)))

    mk = lambda: World(pr).modular("Term.__init__", "Poly.__init__", "Poly.__mul__", "Poly.__add__", "Poly.__pow__")

    def op(name, thunk, spec):
        W = mk()
        t, u = W.term("t"), W.term("u")
        pr.paths(name, W.I, lambda: thunk(W, t, u), ret(pr, lambda p, nm: same(W, p, nm, spec(W, t, u))))

    op("Term*Term", lambda W, t, u: W.I.binop("Mult", t, u), lambda W, t, u: W.val(t) * W.val(u))
    op("-Term", lambda W, t, u: W.I.callm(t, "__neg__"), lambda W, t, u: -W.val(t))
    op("Term*1", lambda W, t, u: W.I.binop("Mult", t, 1), lambda W, t, u: W.val(t))
    op("1*Term", lambda W, t, u: W.I.binop("Mult", 1, t), lambda W, t, u: W.val(t))
    # dependence, decomposition
    for case in ("in", "out"):
        W = mk()
        I = W.I
        t = W.term("t")
        f0, j, pre = inside(W, t)
        name, pre = (f0.attrs["name"], pre) if case == "in" else (SStr(alg.sym("absent")), TRUE)
        v = W.valued(W.Po, alg.sym("v"))
        pr.paths(f"Term.is_function_of[{case}]", I, lambda: (I.assume(pre), I.callm(t, "is_function_of", name))[1],
                 ret(pr, lambda p, nm: pr.holds(nm, list(p.pc), iff(p.value, TRUE if case == "in" else FALSE))))
        pr.paths(f"Term.highest_power[{case}]", I, lambda: (I.assume(pre), I.callm(t, "highest_power", name))[1],
                 ret(pr, lambda p, nm: same(W, p, nm, f0.attrs["power"] if case == "in" else ZERO)))
        rest = lambda: lift(t.attrs["const"]) * without(W, t, lambda f: cnot(named(W, f, name)))
        pr.paths(f"Term.substitute[{case}]", I, lambda: (I.assume(pre), I.callm(t, "substitute", name, v))[1],
                 ret(pr, lambda p, nm: same(W, p, nm, rest() * (alg.power(alg.sym("v"), f0.attrs["power"]) if case == "in" else ONE))))
        if case == "in":
            pr.paths("Term.collect_for[in]", I, lambda: (I.assume(pre), I.callm(t, "collect_for", f0))[1], ret(pr, lambda p, nm: same(W, p, nm, rest())))
        k = alg.sym("k", int=True, pos=True)
        other = alg.cor(alg.lt(k, lift(f0.attrs["power"])), alg.gt(k, lift(f0.attrs["power"]))) if case == "in" else TRUE
        pr.paths(f"Term.collect_for[{case}, no such factor]", I, lambda: (I.assume(pre), I.assume(other), I.callm(t, "collect_for", Obj(W.F, name=name, power=k)))[2], raises(pr))
    W = mk()
    t = W.term("t")
    pr.paths("Term.is_constant", W.I, lambda: W.I.callm(t, "is_constant"),
             ret(pr, lambda p, nm: pr.holds(nm, list(p.pc), iff(p.value, alg.eq(alg.app("nF", t.attrs["factors"].ident), 0)))))


def iff(a, b):
    a, b = as_cond(a), as_cond(b)
    return alg.cor(cand(a, b), cand(cnot(a), cnot(b)))


def poly(pr):
    W = World(pr)
    W.modular("Term.__init__")
    I = W.I
    q = W.poly("p")
    ts = SSeq(q.attrs["terms"].segs, "tuple")
    def distinct(p, nm):
        sg = seq_of(p.value.attrs["terms"]).segs
        t, u = (I.rename_seg(sg[0]) for _ in "ab")
        x, y = (z.value.attrs.get("$ident") for z in (t, u))
        if len(sg) != 1 or x is None or y is None:
            return pr.unknown(nm, "the factors of the merged terms")
        pr.holds(nm, [as_cond(W.eq_key(x, y))], alg.eq(P.atom(t.bounds[0][0]), P.atom(u.bounds[0][0])))
    pr.paths("Poly(*terms):merged", I, lambda: I.call(W.Po, [StarSeq(ts)], {}), ret(pr, distinct))
    pr.paths("Poly(*terms)", I, lambda: I.call(W.Po, [StarSeq(ts)], {}), ret(pr, lambda p, nm: same(W, p, nm, W.val(q))))
    pr.paths("Poly()", I, lambda: I.call(W.Po, [], {}), ret(pr, lambda p, nm: same(W, p, nm, ZERO)))
    pr.paths("Poly.eval", I, lambda: I.callm(q, "eval", **{"**": W.env}), ret(pr, lambda p, nm: same(W, p, nm, W.val(q))))

    allof = ("Term.__init__", "Poly.__init__", "Poly.__mul__", "Poly.__add__", "Poly.__pow__")

    def op(name, thunk, spec, own):
        """The operation itself by its body, the others by their contracts."""
        W = World(pr)
        W.modular(*[m for m in allof if m != own])
        a, b = W.poly("a"), W.poly("b")
        f = thunk(W, a, b)
        pr.paths(name, W.I, f, ret(pr, lambda p, nm: same(W, p, nm, spec(W, W.val(a), W.val(b)))))

    c = alg.sym("c")
    B = lambda n: lambda W, a, b: lambda: W.I.binop(n, a, b)
    op("Poly+Poly", B("Add"), lambda W, a, b: a + b, "Poly.__add__")
    op("Poly*Poly", B("Mult"), lambda W, a, b: a * b, "Poly.__mul__")
    op("Poly-Poly", B("Sub"), lambda W, a, b: a - b, None)
    op("-Poly", lambda W, a, b: lambda: W.I.callm(a, "__neg__"), lambda W, a, b: -a, None)
    for n, o, f in (("+", "Add", lambda x, y: x + y), ("-", "Sub", lambda x, y: x - y), ("*", "Mult", lambda x, y: x * y)):
        for nm, k in (("0", 0), ("1", 1), ("c", c), ("1/2", Fraction(1, 2))):
            op(f"Poly{n}{nm}", lambda W, a, b: lambda: W.I.binop(o, a, k), lambda W, a, b: f(a, lift(k)), None)
            op(f"{nm}{n}Poly", lambda W, a, b: lambda: W.I.binop(o, k, a), lambda W, a, b: f(lift(k), a), None)
    for k in (0, 1, 2, "n"):
        ex = lambda: alg.sym("n", int=True, nonneg=True) if k == "n" else k
        op(f"Poly**{k}", lambda W, a, b: lambda: W.I.binop("Pow", a, ex()), lambda W, a, b: alg.power(a, ex()), "Poly.__pow__")
    W = World(pr)
    neg = alg.sym("neg", int=True)
    pr.paths("Poly**negative", W.I, lambda: (W.I.assume(alg.lt(neg, 0)), W.I.binop("Pow", W.poly("a"), neg)), raises(pr))
    W = World(pr)
    pr.paths("const", W.I, lambda: W.I.call(W.I.get("exppoly.const"), [c], {}), ret(pr, lambda p, nm: same(W, p, nm, c)))
    nv = SStr(alg.sym("name"))
    pr.paths("var", W.I, lambda: W.I.call(W.I.get("exppoly.var"), [nv], {}), ret(pr, lambda p, nm: same(W, p, nm, alg.exp(W.LV(nv)))))
    k = alg.sym("k", int=True, pos=True)
    pr.paths("var:power", W.I, lambda: W.I.call(W.I.get("exppoly.var"), [nv, k], {}), ret(pr, lambda p, nm: same(W, p, nm, alg.exp(k * W.LV(nv)))))
    decompose(pr, allof)


def decompose(pr, allof):
    """Substitution and decomposition in a variable: any polynomial, any name."""
    def go(name, thunk, check):
        W = World(pr)
        W.modular(*allof, "Term.substitute", "Term.collect_for", "Term.highest_power")
        a = W.poly("a")
        nm = SStr(alg.sym("name"))
        pr.paths(name, W.I, lambda: thunk(W, a, nm), ret(pr, lambda p, x: check(W, a, nm, p, x)))

    def over(W, a, g):
        """Sum over the terms of g(term)."""
        r = ZERO
        for s in a.attrs["terms"].segs:
            r = r + W.I.big_sum(s, TRUE, g(s.value))
        return r

    depends = lambda W, t, nm: W.I.exists(seq_of(t.attrs["factors"]).segs[0].bounds, named(W, seq_of(t.attrs["factors"]).segs[0].value, nm))
    go("Poly.reject", lambda W, a, nm: W.I.callm(a, "reject", nm),
       lambda W, a, nm, p, x: same(W, p, x, over(W, a, lambda t: ind(cnot(depends(W, t, nm))) * W.val(t))))
    go("Poly.is_function_of", lambda W, a, nm: W.I.callm(a, "is_function_of", nm),
       lambda W, a, nm, p, x: W.pr.holds(x, list(p.pc), iff(p.value, W.I.exists(a.attrs["terms"].segs[0].bounds, depends(W, a.attrs["terms"].segs[0].value, nm)))))
    go("Poly.is_constant", lambda W, a, nm: W.I.callm(a, "is_constant"),
       lambda W, a, nm, p, x: W.pr.holds(x, list(p.pc), iff(p.value, cnot(W.I.exists(a.attrs["terms"].segs[0].bounds, cnot(alg.eq(alg.app("nF", a.attrs["terms"].segs[0].value.attrs["factors"].ident), 0)))))))
    k = lambda: alg.sym("k", int=True, pos=True)
    fac = lambda W, nm: Obj(W.F, name=nm, power=k())
    among = lambda W, t, nm: as_cond(lib.contains(W.I, t.attrs["factors"], fac(W, nm)))
    rest = lambda W, t, nm: lift(t.attrs["const"]) * without(W, t, lambda f: cnot(named(W, f, nm)))
    go("Poly.collect_for", lambda W, a, nm: W.I.callm(a, "collect_for", fac(W, nm)),
       lambda W, a, nm, p, x: same(W, p, x, over(W, a, lambda t: ind(among(W, t, nm)) * rest(W, t, nm))))
    go("Poly.highest_power", lambda W, a, nm: W.I.callm(a, "highest_power", nm),
       lambda W, a, nm, p, x: same(W, p, x, highest(W, a, nm, p)))
    go("Poly.substitute", lambda W, a, nm: W.I.callm(a, "substitute", nm, W.valued(W.Po, alg.sym("v"))),
       lambda W, a, nm, p, x: same(W, p, x, over(W, a, lambda t: rest(W, t, nm) * alg.power(alg.sym("v"), W.hp(t, nm)))))
    # a term is its power of the variable times the rest
    W = World(pr)
    t = W.term("t")
    f0, j, pre = inside(W, t)
    pr.eq("Term:decomposition", [pre], deltas(rest(W, t, f0.attrs["name"]) * alg.exp(lift(f0.attrs["power"]) * W.LV(f0.attrs["name"]))), W.val(t))
    # equality
    W = World(pr)
    I = W.I
    t, u = W.term("t"), W.term("u")
    mk = lambda tag: Obj(W.F, name=SStr(alg.sym("n" + tag)), power=alg.sym("k" + tag, int=True, pos=True))
    f, g = mk("1"), mk("2")
    eq = lambda x, y: as_cond(I.truth(I.compare("Eq", x, y)))

    def implied(d):
        def chk(p, nm):
            ok = W.follows(cand(*p.pc), d()) if p.value is True else W.follows(cand(*p.pc, p.value), d()) if isinstance(p.value, Cond) else p.value is False
            return pr.true(nm, True) if ok else pr.unknown(nm, "equality without equal values")
        return ret(pr, chk)
    pr.paths("Factor==Factor", I, lambda: eq(f, g), implied(lambda: W.fv(f) - W.fv(g)))
    pr.paths("Term==Term", I, lambda: eq(t, u), implied(lambda: W.val(t) - W.val(u)))
    a, b = W.poly("a"), W.poly("b")

    def sums(p, nm):
        v = p.value
        if v.op == "false":
            return pr.true(nm, True)
        ok = v.op == "pred" and v.args[0] == "equal sums" and all(alg.is_zero(x - deltas(W.val(y))) for x, y in zip(v.args[1:], (a, b)))
        return pr.true(nm, True) if ok else pr.unknown(nm, "equality of polynomials")
    pr.paths("Poly==Poly", I, lambda: eq(a, b), ret(pr, sums))


def highest(W, a, nm, p):
    s = a.attrs["terms"].segs[0]
    (at, d), v = s.bounds[0], W.hp(s.value, nm)
    r = lib.extremum("max", d, lambda i: alg.subs(v, {at: lift(i)}))
    return alg.ite(alg.gt(d, 0), r, ZERO)
