"""Symbolic values of the verifier."""
from fractions import Fraction

from . import alg
from .alg import P, Cond, lift, ZERO, ONE


class Unsupported(Exception):
    """The construct is outside the verified subset: no verdict for this function."""


class PathDead(Exception):
    """The current path is infeasible or cut."""


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, name, args=(), cls=None, value=None):
        Exception.__init__(self, name)
        self.name, self.pargs, self.cls, self.value = name, tuple(args), cls, value

    def __repr__(self):
        return f"PyExc({self.name}, {self.pargs})"


class _Inf:
    def __init__(self, s):
        self.sign = s

    def __repr__(self):
        return "inf" if self.sign > 0 else "-inf"


INF, NINF = _Inf(1), _Inf(-1)


class _Nan:
    def __repr__(self):
        return "nan"


NAN = _Nan()


class SStr:
    """Symbolic string, identified by a term."""

    def __init__(self, p):
        self.p = lift(p)

    def __repr__(self):
        return f"SStr({self.p!r})"


class Opaque:
    """A value we know nothing about except identity."""

    def __init__(self, tag, **attrs):
        self.tag = tag
        self.attrs = dict(attrs)

    def __repr__(self):
        return f"<{self.tag}>"


NUMT = (int, Fraction, P)


def is_num(x):
    return isinstance(x, (int, Fraction, P)) and not isinstance(x, bool)


def norm(x):
    """Constants as Python numbers."""
    if isinstance(x, P):
        c = x.const_value()
        if c is not None:
            return int(c) if c.denominator == 1 else c
    return x


# ------------------------------------------------------------------------- axes
class FAxis:
    """Axis that keeps the positions i < base with pred(i), in order."""

    def __init__(self, base, pred):
        self.base, self.pred = base, pred
        self.key = "F[" + dim_key(base) + "|" + pred(GEN).key + "]"

    def __repr__(self):
        return self.key


GEN = P.atom(alg.mk_atom("sym", "$g"))
alg.SYMS["$g"] = {"int": True, "nonneg": True}
GENS = [P.atom(alg.mk_atom("sym", f"$g{k}")) for k in range(8)]
GENFLAGS = {f"$g{k}": {"int": True, "nonneg": True} for k in range(8)}


def install_gens():
    alg.SYMS.update(GENFLAGS)
    alg.SYMS["$g"] = {"int": True, "nonneg": True}


class CatAxis:
    """Concatenation of axes."""

    def __init__(self, parts):
        self.parts = parts
        self.key = "C[" + ";".join(dim_key(p) for p in parts) + "]"


def dim_key(d):
    if isinstance(d, (FAxis, CatAxis)):
        return d.key
    return lift(d).key


def dim_eq(a, b):
    return dim_key(a) == dim_key(b)


def dim_size(d):
    """Number of elements as a term."""
    if isinstance(d, FAxis):
        return alg.Sum(lift(dim_size(d.base)) if not isinstance(d.base, FAxis) else dim_size(d.base), lambda i: alg.ind(d.pred(i)))
    if isinstance(d, CatAxis):
        r = ZERO
        for p in d.parts:
            r = r + dim_size(p)
        return r
    return lift(d)


def dim_norm(d):
    if isinstance(d, P):
        return norm(d)
    return d


class T:
    """Tensor: element function over index terms."""

    def __init__(self, shape, fn, np_=False, prov=None, isbool=False, isint=False):
        self.shape = tuple(dim_norm(d) for d in shape)
        self.fn = fn
        self.np = np_
        self.prov = prov          # provenance used by matrix functions
        self.isbool = isbool
        self.isint = isint
        self.memo = {}

    def at(self, *idx):
        if len(idx) != len(self.shape):
            raise Unsupported("rank mismatch in element access")
        idx = tuple(ZERO if (isinstance(d, int) and d == 1) else (lift(i) if not isinstance(i, tuple) else i) for i, d in zip(idx, self.shape))
        k = tuple(i.key if isinstance(i, P) else repr(i) for i in idx)
        v = self.memo.get(k)
        if v is None:
            v = self.fn(*idx)
            self.memo[k] = v
        return v

    @property
    def rank(self):
        return len(self.shape)

    def __repr__(self):
        return f"T{list(self.shape)}"


def gen_index(t):
    return GENS[: t.rank]


def tkey(t):
    """Canonical identity of a tensor value."""
    if is_num(t):
        return lift(t).key
    v = t.at(*gen_index(t))
    return "|".join(dim_key(d) for d in t.shape) + "@" + v.key


# ------------------------------------------------------------------------- sequences
class Seg:
    """Elements `value` for all assignments of the bound symbols with `guard`."""

    def __init__(self, bounds, guard, value):
        self.bounds = tuple(bounds)      # ((atom, dom P), ...)
        self.guard = guard
        self.value = value

    def __repr__(self):
        return f"Seg({[b[0].name for b in self.bounds]}, {self.guard}, {self.value})"


class SSeq:
    """Symbolic finite sequence (or set)."""

    def __init__(self, segs, kind="list"):
        self.segs = list(segs)
        self.kind = kind

    def concrete(self):
        """The python list of elements if there are no symbolic bounds."""
        out = []
        for s in self.segs:
            if s.bounds or s.guard.op != "true":
                return None
            out.append(s.value)
        return out

    def __repr__(self):
        return f"SSeq({self.segs})"


def seq_of(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, (list, tuple, set, frozenset)):
        return SSeq([Seg((), alg.TRUE, v) for v in x])
    if isinstance(x, dict):
        return SSeq([Seg((), alg.TRUE, v) for v in x])
    if isinstance(x, range):
        return SSeq([Seg((), alg.TRUE, v) for v in x])
    if isinstance(x, SRange):
        a = alg.fresh("i", int=True, nonneg=True)
        return SSeq([Seg(((a, x.n),), alg.TRUE, P.atom(a) + x.start)])
    if isinstance(x, T):
        d = x.shape[0]
        if isinstance(d, int):
            return SSeq([Seg((), alg.TRUE, index0(x, P.const(k))) for k in range(d)])
        if isinstance(d, (FAxis, CatAxis)):
            raise Unsupported("iteration over a filtered axis")
        a = alg.fresh("i", int=True, nonneg=True)
        return SSeq([Seg(((a, d),), alg.TRUE, index0(x, P.atom(a)))])
    if type(x).__name__ == "SDict":
        return SSeq([Seg(g.bounds, g.guard, g.value[0]) for g in x.seq.segs])
    if x is UNKNOWN:
        a = alg.fresh("i", int=True, nonneg=True)
        return SSeq([Seg(((a, P.atom(alg.fresh("len", int=True, nonneg=True))),), alg.TRUE, UNKNOWN)])
    raise Unsupported(f"iteration over {x!r}")


def index0(t, i):
    if t.rank == 1:
        return t.at(i)
    return T(t.shape[1:], lambda *r: t.at(i, *r), np_=t.np, isbool=t.isbool, isint=t.isint)


class SRange:
    """range(start, start + n) with symbolic n >= 0."""

    def __init__(self, start, n):
        self.start, self.n = lift(start), lift(n)

    def __repr__(self):
        return f"SRange({self.start},{self.n})"


class SMap:
    """Symbolic mapping with uninterpreted string keys."""

    def __init__(self, get, has=None, items=None):
        self.get, self.has, self.items = get, has, items


# ------------------------------------------------------------------------- objects
class Obj:
    def __init__(self, cls, **attrs):
        self.cls = cls
        self.attrs = dict(attrs)

    def __repr__(self):
        n = self.cls.name if hasattr(self.cls, "name") else self.cls
        return f"<{n} {self.attrs if len(self.attrs) < 4 else list(self.attrs)}>"


def subs_value(v, mp):
    """Substitute symbol atoms in a value."""
    if not mp:
        return v
    if isinstance(v, P):
        return norm(alg.subs(v, mp)) if v.leaves & mp.keys() else v
    if isinstance(v, Cond):
        return alg.subs_cond(v, mp)
    if isinstance(v, T):
        def fn(*idx, v=v):
            # protect generic index symbols from capture
            ph = [alg.fresh("p", int=True, nonneg=True) for _ in idx]
            e = v.at(*[P.atom(p) for p in ph])
            m2 = dict(mp)
            e = subs_value(e, m2) if isinstance(e, Cond) else lift(subs_value(lift(e), m2))
            m3 = {p: lift(i) for p, i in zip(ph, idx)}
            return alg.subs_cond(e, m3) if isinstance(e, Cond) else alg.subs(e, m3)
        return T([subs_value(d, mp) if isinstance(d, P) else d for d in v.shape], fn, np_=v.np, isbool=v.isbool, isint=v.isint)
    if isinstance(v, SStr):
        return SStr(alg.subs(v.p, mp))
    if isinstance(v, (tuple, list)):
        return type(v)(subs_value(x, mp) for x in v)
    if isinstance(v, dict):
        return {k: subs_value(x, mp) for k, x in v.items()}
    if isinstance(v, SSeq):
        r = SSeq([Seg([(a, alg.subs(d, mp)) for a, d in s.bounds], alg.subs_cond(s.guard, mp), subs_value(s.value, mp)) for s in v.segs], v.kind)
        for k in ("ident", "facts"):
            if hasattr(v, k):
                setattr(r, k, subs_value(getattr(v, k), mp))
        return r
    if isinstance(v, SRange):
        return SRange(alg.subs(v.start, mp), alg.subs(v.n, mp))
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.attrs = {k: subs_value(x, mp) for k, x in v.attrs.items()}
        return o
    if isinstance(v, Opaque) and v.attrs:
        o = Opaque(v.tag)
        o.attrs = {k: subs_value(x, mp) for k, x in v.attrs.items()}
        return o
    return v


def amap_value(v, f):
    """Map atoms everywhere in a value."""
    if isinstance(v, P):
        return norm(alg.amap(v, f))
    if isinstance(v, Cond):
        return alg.amap_cond(v, f)
    if isinstance(v, T):
        def fn(*idx, v=v):
            e = v.at(*idx)
            return alg.amap_cond(e, f) if isinstance(e, Cond) else alg.amap(lift(e), f)
        return T([amap_value(d, f) if isinstance(d, P) else d for d in v.shape], fn, np_=v.np, isbool=v.isbool, isint=v.isint)
    if isinstance(v, SStr):
        return SStr(alg.amap(v.p, f))
    if isinstance(v, (tuple, list)):
        return type(v)(amap_value(x, f) for x in v)
    if isinstance(v, dict):
        return {k: amap_value(x, f) for k, x in v.items()}
    if isinstance(v, SSeq):
        r = SSeq([Seg([(a, alg.amap(d, f)) for a, d in s.bounds], alg.amap_cond(s.guard, f), amap_value(s.value, f)) for s in v.segs], v.kind)
        for k in ("ident", "facts"):
            if hasattr(v, k):
                setattr(r, k, amap_value(getattr(v, k), f))
        return r
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.attrs = {k: amap_value(x, f) for k, x in v.attrs.items()}
        return o
    if isinstance(v, Opaque) and v.attrs:
        o = Opaque(v.tag)
        o.attrs = {k: amap_value(x, f) for k, x in v.attrs.items()}
        return o
    return v


UNKNOWN = Opaque("unknown")


def unknown(x, d=3):
    """Does the value contain an unknown part?"""
    if x is UNKNOWN:
        return True
    if d and isinstance(x, (list, tuple)):
        return any(unknown(y, d - 1) for y in x)
    if d and isinstance(x, dict):
        return any(unknown(y, d - 1) for y in x.values())
    if d and isinstance(x, SSeq):
        return any(unknown(s.value, d - 1) for s in x.segs)
    return False


def value_leaves(v, seen=None):
    if isinstance(v, (P, Cond)):
        return v.leaves
    if isinstance(v, T):
        r = set()
        e = v.at(*gen_index(v)) if not any(isinstance(d, (FAxis, CatAxis)) for d in v.shape) else ZERO
        r |= e.leaves if isinstance(e, (P, Cond)) else frozenset()
        for d in v.shape:
            if isinstance(d, P):
                r |= d.leaves
        return frozenset(r)
    if isinstance(v, SStr):
        return v.p.leaves
    if isinstance(v, (tuple, list)):
        r = frozenset()
        for x in v:
            r |= value_leaves(x)
        return r
    if isinstance(v, dict):
        return value_leaves(list(v.values()))
    if isinstance(v, SSeq):
        r = frozenset()
        for s in v.segs:
            q = value_leaves(s.value) | s.guard.leaves
            for _, d in s.bounds:
                q |= d.leaves
            r |= q - {a for a, _ in s.bounds}
        return r
    if isinstance(v, (Obj, Opaque)):
        return value_leaves(list(v.attrs.values()))
    if isinstance(v, SRange):
        return v.n.leaves | v.start.leaves
    return frozenset()


def same(a, b):
    """Provably the same value (syntactically, after normalisation)."""
    if a is b:
        return True
    if is_num(a) and is_num(b):
        return lift(a).key == lift(b).key
    if isinstance(a, Cond) and isinstance(b, Cond):
        return a.key == b.key
    if isinstance(a, T) and isinstance(b, T):
        if a.rank != b.rank or not all(dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
            return False
        g = gen_index(a)
        x, y = a.at(*g), b.at(*g)
        return x.key == y.key
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.p.key == b.p.key
    if isinstance(a, (tuple, list)) and type(a) == type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.cls is b.cls and a.attrs.keys() == b.attrs.keys() and all(same(a.attrs[k], b.attrs[k]) for k in a.attrs)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.tag == b.tag and a.attrs.keys() == b.attrs.keys() and all(same(a.attrs[k], b.attrs[k]) for k in a.attrs)
    if isinstance(a, SSeq) and isinstance(b, SSeq):
        if hasattr(a, "ident") and hasattr(b, "ident"):
            return same(a.ident, b.ident)
        return False
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return type(a) == type(b) and a == b
    return False
