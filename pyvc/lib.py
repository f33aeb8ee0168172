"""Contracts of the Python builtins and of the external libraries that /repo uses.

Every function here is an assumed (trusted) specification of library code: exact real arithmetic,
mathematical definitions.  `I.trusted_used` records which ones a run relied on.
"""
from fractions import Fraction

from . import alg
from .alg import P, Cond, lift, ZERO, ONE, ind, cand, cor, cnot, TRUE, FALSE
from .values import *
from .values import _Inf, _Nan
from .interp import (
    Bound, ClsM, Dispatcher, Interp, LibFn, LibMod, LibType, Multi, NOCONTRACT, Prop, PyClass, PyFunc, StarSeq, StatM,
    Scope, same_shape,
)


class Poison:
    def __init__(self, why):
        self.why = why


class Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self, I):
        return self.f(I)


class LazyIter:
    """Iterator over known elements (one pass)."""

    def __init__(self, f):
        self.f = f

    def force(self):
        return self.f()


class Cplx:
    def __init__(self, re, im):
        self.re, self.im = re, im


class SDict:
    """Dictionary built from a symbolic sequence of pairs."""

    def __init__(self, seq):
        self.seq = seq


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Bag:
    """A collection that is only added to inside a symbolic loop."""

    def __init__(self, init):
        self.init = init
        self.items = []

    def append(self, x):
        self.items.append(x)


def bagseg(x):
    """All elements that an inner loop adds."""
    return isinstance(x, SSeq) and x.kind == "bagseg"


EXC_BASES = {
    "ZeroDivisionError": ("ArithmeticError",), "KeyError": ("LookupError",), "IndexError": ("LookupError",),
    "NotImplementedError": ("RuntimeError",), "ModuleNotFoundError": ("ImportError",),
    "NotFoundLookupError": ("LookupError",), "FileNotFoundError": ("OSError",),
}
EXCS = {"Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "NotImplementedError", "AttributeError",
        "AssertionError", "ZeroDivisionError", "ArithmeticError", "LookupError", "StopIteration", "ImportError", "OverflowError", "OSError", "FileNotFoundError", "Warning", "UserWarning"}


# ------------------------------------------------------------------------- scalars and tensors
def isscalar(x):
    return is_num(x) or isinstance(x, (bool, _Inf, _Nan)) or isinstance(x, Cond)


def num(x):
    """Number behind a boolean."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Cond):
        return ind(x)
    return x


def vec(n, name, **kw):
    return T((n,), lambda i: alg.app(name, i), **kw)


def tens(shape, name, **kw):
    """Named symbolic tensor."""
    return T(shape, lambda *idx: alg.app(name, *idx), prov=("sym", name), **kw)


def const_t(shape, v, **kw):
    return T(shape, lambda *idx: lift(v) if not isinstance(v, Cond) else v, **kw)


def dim1(d):
    return isinstance(d, int) and d == 1


def bshape(I, shapes):
    r = max(len(s) for s in shapes)
    out = []
    for k in range(r):
        ds = [s[len(s) - r + k] for s in shapes if len(s) - r + k >= 0]
        big = [d for d in ds if not dim1(d)]
        if not big:
            out.append(1)
            continue
        d0 = big[0]
        for d in big[1:]:
            need_eq(I, d0, d)
        out.append(d0)
    return tuple(out)


def need_eq(I, a, b):
    if dim_eq(a, b):
        return
    if isinstance(a, int) and isinstance(b, int):
        raise PyExc("ValueError", ("shapes", a, b))
    if isinstance(a, (FAxis, CatAxis)) or isinstance(b, (FAxis, CatAxis)):
        h = getattr(I, "axes_hook", None)
        if h is not None and isinstance(a, FAxis) and isinstance(b, FAxis) and dim_eq(a.base, b.base) and h(I, a, b):
            return
        raise Unsupported(f"axes {dim_key(a)} and {dim_key(b)}")
    c = alg.eq(lift(a), lift(b))
    if I.implied(c):
        return
    # a dimension may be one
    if I.decide(c):
        return
    raise PyExc("ValueError", ("shapes", a, b))


def pick(t, idx):
    """Element of t for broadcast index idx."""
    if not isinstance(t, T):
        return t
    k = len(idx) - t.rank
    return t.at(*[ZERO if dim1(d) else i for i, d in zip(idx[k:], t.shape)])


def ew(I, f, *xs, isbool=False):
    """Elementwise operation with broadcasting."""
    xs = [totensor(I, x) if isinstance(x, (list, tuple)) else x for x in xs]
    for x in xs:
        if not isinstance(x, T) and not isscalar(x):
            raise Unsupported(f"elementwise operation on {type(x).__name__}")
    if not any(isinstance(x, T) for x in xs):
        return f(*xs)
    sh = bshape(I, [x.shape for x in xs if isinstance(x, T)])
    return T(sh, lambda *idx: lf(f(*[pick(x, idx) for x in xs])), np_=any(isinstance(x, T) and x.np for x in xs), isbool=isbool)


def lf(v):
    return v if isinstance(v, Cond) else TRUE if v is True else FALSE if v is False else lift(v)


def totensor(I, x):
    if isinstance(x, T) or isscalar(x):
        return x
    if isinstance(x, LazyIter):
        x = x.force()
    if isinstance(x, (list, tuple, SSeq, range, SRange)):
        return stack(I, x, 0)
    raise Unsupported(f"tensor from {type(x).__name__}")


def shape_of(x):
    return x.shape if isinstance(x, T) else ()


def elem_list(I, x):
    """Sequence as [(size, fn(index) -> value)] parts."""
    s = seq_of(x)
    parts = []
    for g in s.segs:
        if not g.bounds:
            if g.guard.op != "true":
                if not I.decide(g.guard):
                    continue
            parts.append((1, lambda i, v=g.value: v))
        else:
            if len(g.bounds) != 1:
                raise Unsupported("array from a nested sequence")
            a, d = g.bounds[0]
            if g.guard.op != "true":
                ax = FAxis(d, lambda i, a=a, g=g: alg.subs_cond(g.guard, {a: lift(i)}))
                parts.append((ax, lambda i, a=a, v=g.value: subs_value(v, {a: lift(i)})))
            else:
                parts.append((d, lambda i, a=a, v=g.value: subs_value(v, {a: lift(i)})))
    if getattr(s, "ordered", True) is False:
        raise Unsupported("order of a collected sequence")
    return parts


def stack(I, xs, axis=0):
    parts = elem_list(I, xs)
    if not parts:
        return T((0,), lambda i: ZERO)
    # consecutive single elements
    groups = []
    for d, f in parts:
        if dim1(d) and groups and groups[-1][0] == "s":
            groups[-1][1].append(f(ZERO))
        elif dim1(d):
            groups.append(["s", [f(ZERO)]])
        else:
            groups.append(["f", d, f])
    probe = []
    for g in groups:
        if g[0] == "s":
            probe += g[1]
        else:
            probe.append(g[2](GENS[7]))
    probe = [totensor(I, p) if isinstance(p, (list, tuple)) else p for p in probe]
    sh = bshape(I, [shape_of(p) for p in probe]) if any(isinstance(p, T) for p in probe) else ()
    ts = []
    for g in groups:
        if g[0] == "s":
            els = [totensor(I, e) if isinstance(e, (list, tuple)) else e for e in g[1]]
            n = len(els)

            def fn(i, *r, els=els, n=n):
                i = lift(i)
                c = i.const_value()
                if c is not None:
                    return lf(pick(els[int(c)], r))
                vs = [lf(pick(e, r)) for e in els]
                if all(v.key == vs[0].key for v in vs):
                    return vs[0]
                if isinstance(vs[0], Cond):
                    return cor(*[cand(alg.eq(i, k), v) for k, v in enumerate(vs)])
                out = ZERO
                for k, v in enumerate(vs):
                    out = out + ind(alg.eq(i, k)) * v
                return out
            isb = any(isinstance(e, (bool, Cond)) or (isinstance(e, T) and e.isbool) for e in els)
            ts.append(T((n,) + sh, fn, isbool=isb))
        else:
            _, d, f = g
            pv = f(GENS[7])

            def fn(i, *r, f=f):
                v = f(i)
                if isinstance(v, (list, tuple)):
                    v = totensor(I, v)
                return lf(pick(v, r))
            ts.append(T((d,) + sh, fn, isbool=isinstance(pv, (bool, Cond)) or (isinstance(pv, T) and pv.isbool)))
    t = ts[0] if len(ts) == 1 else concat(I, ts, 0)
    if axis != 0:
        r = t.rank
        ax = axis % r
        perm = list(range(1, ax + 1)) + [0] + list(range(ax + 1, r))
        t = transpose(t, perm)
    return t


def transpose(t, perm):
    if not isinstance(t, T):
        return t
    inv = [perm.index(k) for k in range(len(perm))]
    pr = None
    if t.prov and list(perm) == [1, 0]:
        pr = ("tr", t)
    return T([t.shape[p] for p in perm], lambda *idx: t.at(*[idx[inv[k]] for k in range(len(idx))]), np_=t.np, prov=pr, isbool=t.isbool, isint=t.isint)


def mat_transpose(t):
    if not isinstance(t, T) or t.rank == 0:
        return t
    if t.rank == 1:
        return transpose(expand(t, 0), [1, 0])
    p = list(range(t.rank))
    p[-1], p[-2] = p[-2], p[-1]
    return transpose(t, p)


def expand(t, axis, times=1):
    if not isinstance(t, T):
        v = t
        t = T((), lambda: lf(v))
    for _ in range(times):
        r = t.rank + 1
        ax = axis % r
        t = T(t.shape[:ax] + (1,) + t.shape[ax:], (lambda ax, t0: lambda *idx: t0.at(*(idx[:ax] + idx[ax + 1:])))(ax, t), np_=t.np, isbool=t.isbool, isint=t.isint)
    return t


def squeeze(t, axis=None):
    if not isinstance(t, T):
        return t
    keep = [k for k, d in enumerate(t.shape) if not (dim1(d) and (axis is None or k == axis % t.rank))]
    if axis is not None and len(keep) != t.rank - 1:
        raise PyExc("ValueError", ("squeeze",))
    def fn(*idx):
        full = [ZERO] * t.rank
        for k, i in zip(keep, idx):
            full[k] = i
        return t.at(*full)
    if not keep:
        return scal(t)
    return T([t.shape[k] for k in keep], fn, np_=t.np, isbool=t.isbool)


def scal(t):
    v = t.at(*[ZERO] * t.rank)
    return v if isinstance(v, Cond) else norm(v)


def concat(I, xs, axis=0):
    xs = [totensor(I, x) for x in xs]
    xs = [expand(x, 0) if not isinstance(x, T) else x for x in xs]
    if len(xs) == 1:
        return xs[0]
    r = xs[0].rank
    ax = axis % r
    if any(x.rank != r for x in xs):
        raise PyExc("ValueError", ("ranks",))
    sh = []
    for k in range(r):
        if k == ax:
            if any(isinstance(x.shape[k], (FAxis, CatAxis)) for x in xs):
                parts = []
                for x in xs:
                    d = x.shape[k]
                    parts += d.parts if isinstance(d, CatAxis) else [d]
                sh.append(CatAxis(parts))
            else:
                tot = ZERO
                for x in xs:
                    tot = tot + lift(x.shape[k])
                sh.append(norm(tot))
        else:
            d0 = xs[0].shape[k]
            for x in xs[1:]:
                need_eq(I, d0, x.shape[k])
            sh.append(d0)
    h = getattr(I, "cat_hook", None)
    if isinstance(sh[ax], CatAxis) and h is not None and len(sh[ax].parts) == len(xs):
        r = h(I, sh[ax].parts)
        if r is not None:
            # consecutive masks of one axis
            base, preds = r
            sh[ax] = base

            def fnm(*idx):
                out = ZERO
                for x, p in zip(xs, preds):
                    out = out + ind(p(lift(idx[ax]))) * x.at(*idx)
                return out
            return T(sh, fnm)
    if isinstance(sh[ax], CatAxis):
        offs = []
        for x in xs:
            d = x.shape[ax]
            if isinstance(d, CatAxis):
                offs += [(x, j) for j in range(len(d.parts))]
            else:
                offs.append((x, None))

        def fnc(*idx):
            i = idx[ax]
            if not isinstance(i, tuple):
                raise Unsupported("plain index into a concatenated axis")
            x, j = offs[i[0]]
            return x.at(*(idx[:ax] + (((j, i[1]) if j is not None else i[1]),) + idx[ax + 1:]))
        return T(sh, fnc, isbool=xs[0].isbool)

    def fn(*idx):
        i = lift(idx[ax])
        out = None
        acc = ZERO
        bounds = []
        for x in xs:
            lo = acc
            acc = acc + lift(x.shape[ax])
            bounds.append((lo, acc, x))
        ci = i.const_value()
        isb = xs[0].isbool
        res = FALSE if isb else ZERO
        for k, (lo, hi, x) in enumerate(bounds):
            conds = []
            if k > 0:
                conds.append(alg.ge(i, lo))
            if k < len(bounds) - 1:
                conds.append(alg.lt(i, hi))
            c = cand(*conds)
            if c.op == "false":
                continue
            v = x.at(*(idx[:ax] + (i - lo,) + idx[ax + 1:]))
            if isb:
                res = cor(res, cand(c, v))
            else:
                res = res + ind(c) * v
        return res
    return T(sh, fn, np_=any(x.np for x in xs), isbool=xs[0].isbool)


def axis_sum(d, f):
    """Sum of f over the elements of an axis."""
    if isinstance(d, CatAxis):
        r = ZERO
        for k, p in enumerate(d.parts):
            r = r + axis_sum(p, lambda i, k=k: f((k, i)))
        return r
    if isinstance(d, FAxis):
        return axis_sum(d.base, lambda i: ind(d.pred(i)) * f(i))
    return alg.Sum(lift(d), f)


def axes_of(t, axis):
    if axis is None:
        return list(range(t.rank))
    if isinstance(axis, (tuple, list)):
        return sorted(a % t.rank for a in axis)
    return [axis % t.rank]


def reduce_axes(t, axis, red, squeeze_=True):
    """red(dim, f) reduces one axis."""
    ax = axes_of(t, axis)
    keep = [k for k in range(t.rank) if k not in ax]

    def go(k, full):
        if k == len(ax):
            v = t.at(*full)
            return v if not isinstance(v, Cond) else ind(v)
        def body(i):
            f2 = list(full)
            f2[ax[k]] = i
            return go(k + 1, f2)
        return red(t.shape[ax[k]], body)

    def fn(*idx):
        full = [None] * t.rank
        for k, i in zip(keep, idx):
            full[k] = i
        return go(0, full)
    if not keep:
        return norm(fn())
    return T([t.shape[k] for k in keep], fn, np_=t.np)


def tsum(t, axis=None):
    if not isinstance(t, T):
        return num(t)
    return reduce_axes(t, axis, axis_sum)


def size_axes(t, axis):
    r = ONE
    for k in axes_of(t, axis):
        r = r * dim_size(t.shape[k])
    return norm(r)


def tmean(t, axis=None):
    if not isinstance(t, T):
        return num(t)
    n = size_axes(t, axis)
    s = tsum(t, axis)
    if isinstance(s, T):
        return T(s.shape, lambda *i: s.at(*i) / lift(n), np_=t.np)
    return norm(lift(s) / lift(n))


def keyfun(name, f, *shape_dims):
    """Opaque functional of a family f(i): atom named by the family's normal form."""
    g = f(GENS[6])
    return g


# ------------------------------------------------------------------------- matrices
MATS = {}
MATN = {}
PDDIM = {}


def reset_mats():
    MATS.clear()
    MATN.clear()
    MATP.clear()
    PDDIM.clear()


MATP = {}


def mat_ref(t):
    """Name of the matrix `t` and the generic indices that its content depends on."""
    if t.prov and t.prov[0] == "sym":
        return t.prov[1], (t.prov[2] if len(t.prov) > 2 else ())
    v = lift(t.at(*gen_index(t)))
    free = sorted((l for l in v.leaves if l.kind == "bv" or (l.kind == "sym" and l.name.startswith("?"))), key=lambda l: l.key)
    for d in t.shape:
        if not isinstance(d, int) and any(l.kind == "bv" or (l.kind == "sym" and l.name.startswith("?")) for l in lift(dim_size(d)).leaves):
            raise Unsupported("matrix of varying size")
    ps = tuple(P.atom(l) for l in free)
    if ps:
        # order of first occurrence in the canonical text is not canonical: name by every order's minimum
        from itertools import permutations
        if len(ps) > 3:
            raise Unsupported("matrix over many generic indices")
        best = None
        for perm in permutations(range(len(ps))):
            hold = {free[k]: P.atom(alg.mk_atom("sym", f"$p{j}")) for j, k in enumerate(perm)}
            w = alg.subs(v, hold)
            if best is None or w.key < best[0].key:
                best = (w, perm)
        w, perm = best
        ps = tuple(ps[k] for k in perm)
        k = "|".join(dim_key(d) for d in t.shape) + "@" + w.key
    else:
        w = v
        k = tkey(t)
    n = MATS.get(k)
    if n is None:
        n = f"M{len(MATS)}"
        MATS[k] = n
        g = list(gen_index(t))
        MATN[n] = t if not ps else T(t.shape, lambda i, j, w=w, g=g: alg.subs(w, {next(iter(g[0].t))[1][0][0]: lift(i), next(iter(g[1].t))[1][0][0]: lift(j)}))
        MATP[n] = len(ps)
    return n, ps


def pd(shape, name, params=()):
    """Named symbolic positive-definite matrix with its identities; `params` are indices that
    it depends on."""
    n = shape if not isinstance(shape, tuple) else shape[0]
    ps = tuple(lift(x) for x in params)
    register_pd(name, len(ps))
    PDDIM[name] = n
    return T((n, n), lambda i, j: alg.app(name, *ps, i, j), prov=("sym", name, ps))


def _same_params(q):
    def same(f):
        if not q:
            return f
        return lambda a, b: f(a[q:], b[q:], a[:q]) if all(x.key == y.key for x, y in zip(a[:q], b[:q])) else None
    return same


def register_pd(name, q=0):
    alg.SYMM.add(name)
    inv, ch, ci = "inv:" + name, "chol:" + name, "cholinv:" + name
    alg.SYMM.add(inv)
    C = alg.CONTRACT
    same = _same_params(q)
    for p1 in (0, 1):
        for p2 in (0, 1):
            C[(inv, p1 + q, name, p2 + q)] = same(lambda a, b, p=(): alg.delta(a[0], b[0]))
            C[(name, p1 + q, inv, p2 + q)] = same(lambda a, b, p=(): alg.delta(a[0], b[0]))
        # inv K . L = L^-T ;  K . L^-T = L
        C[(inv, p1 + q, ch, q)] = same(lambda a, b, p=(): alg.app(ci, *p, b[0], a[0]))
        C[(name, p1 + q, ci, 1 + q)] = same(lambda a, b, p=(): alg.app(ch, *p, a[0], b[0]))
    C[(ch, 1 + q, ch, 1 + q)] = same(lambda a, b, p=(): alg.app(name, *p, a[0], b[0]))
    C[(ci, q, ci, q)] = same(lambda a, b, p=(): alg.app(inv, *p, a[0], b[0]))
    C[(ci, 1 + q, ch, q)] = same(lambda a, b, p=(): alg.delta(a[0], b[0]))
    C[(ch, 1 + q, ci, q)] = same(lambda a, b, p=(): alg.delta(a[0], b[0]))


def register_inv(name, q=0):
    """Identities of inverse/cholesky for a compound matrix: only those between derived atoms.
    The first q arguments are parameters of the matrix."""
    inv, ch, ci = "inv:" + name, "chol:" + name, "cholinv:" + name
    alg.SYMM.add(inv)
    C = alg.CONTRACT

    same = _same_params(q)
    C[(ci, q, ci, q)] = same(lambda a, b, p=(): alg.app(inv, *p, a[0], b[0]))
    C[(ci, 1 + q, ch, q)] = same(lambda a, b, p=(): alg.delta(a[0], b[0]))
    C[(ch, 1 + q, ci, q)] = same(lambda a, b, p=(): alg.delta(a[0], b[0]))
    for p_ in (0, 1):
        C[(inv, p_ + q, ch, q)] = same(lambda a, b, p=(): alg.app(ci, *p, b[0], a[0]))


def square(I, t, what):
    if not isinstance(t, T):
        if is_num(t):
            v = lift(t)
            return T((1, 1), lambda i, j: v)
        raise Unsupported(what)
    if t.rank != 2:
        raise Unsupported(f"{what} of a rank-{t.rank} tensor")
    need_eq(I, t.shape[0], t.shape[1])
    return t


def diag_prov(t):
    return t.prov and t.prov[0] == "diag"


def m_inv(I, t):
    t = square(I, t, "inverse")
    if t.prov and t.prov[0] == "inv":
        return t.prov[1]
    if t.prov and t.prov[0] == "diag":
        v = t.prov[1]
        return m_diag(I, ew(I, lambda x: norm(ONE / lift(x)), v))
    if dim1(t.shape[0]):
        return T((1, 1), lambda i, j: ONE / t.at(ZERO, ZERO), prov=("inv", t))
    n, ps = mat_ref(t)
    if n.startswith("M"):
        register_inv(n, len(ps))
    return T(t.shape, lambda i, j: alg.app("inv:" + n, *ps, i, j), prov=("inv", t))


def m_chol(I, t):
    t = square(I, t, "cholesky")
    if diag_prov(t):
        return m_diag(I, ew(I, lambda x: norm(alg.sqrt(lift(x))), t.prov[1]))
    n, ps = mat_ref(t)
    if n.startswith("M"):
        q = len(ps)
        register_inv(n, q)
        g = MATN[n]

        def back(a, b):
            if any(x.key != y.key for x, y in zip(a[:q], b[:q])):
                return None
            r = lift(g.at(a[q], b[q]))
            return alg.subs(r, {alg.mk_atom("sym", f"$p{j}"): a[j] for j in range(q)}) if q else r
        alg.CONTRACT[("chol:" + n, 1 + q, "chol:" + n, 1 + q)] = back
    return T(t.shape, lambda i, j: alg.app("chol:" + n, *ps, i, j), prov=("chol", t))


def m_eye(n, m=None):
    return T((n, n if m is None else m), lambda i, j: alg.delta(i, j), prov=("diag", T((n,), lambda i: ONE)) if m is None else None)


def m_diag(I, v):
    if not isinstance(v, T) or v.rank != 1:
        raise Unsupported("diag")
    return T((v.shape[0], v.shape[0]), lambda i, j: alg.delta(i, j) * v.at(i), prov=("diag", v))


def m_solve(I, a, b):
    """a^-1 b."""
    a = square(I, a, "solve")
    return m_mm(I, [m_anyinv(I, a), b])


def m_anyinv(I, a):
    if a.prov:
        k = a.prov[0]
        if k == "chol":
            t = a.prov[1]
            n, ps = mat_ref(t)
            return T(a.shape, lambda i, j: alg.app("cholinv:" + n, *ps, i, j), prov=("cholinv", t))
        if k == "cholinv":
            return m_chol(I, a.prov[1])
        if k == "tr":
            return mat_transpose(m_anyinv(I, a.prov[1]))
    return m_inv(I, a)


def m_cholsolve(I, L, b):
    """(L L^T)^-1 b."""
    L = square(I, L, "cholsolve")
    if L.prov and L.prov[0] == "chol":
        return m_mm(I, [m_inv(I, L.prov[1]), b])
    Li = m_anyinv(I, L)
    return m_mm(I, [mat_transpose(Li), Li, b])


def is_zero_val(x):
    if isinstance(x, (int, Fraction)):
        return x == 0
    return isinstance(x, T) and all(dim1(d) for d in x.shape) and lift(x.at(*[ZERO] * x.rank)).is_zero()


def m_mm2(I, a, b):
    if not isinstance(a, T) or not isinstance(b, T):
        # number times matrix: the matrix package treats numbers as scalar multiples; zero as a zero matrix
        if is_zero_val(a) or is_zero_val(b):
            other = b if not isinstance(b, T) else a
            return T((1, 1), lambda i, j: ZERO)
        raise Unsupported("matrix product with a scalar")
    if a.rank < 2 or b.rank < 2:
        raise PyExc("ValueError", ("mm needs matrices",))
    if is_zero_val(a) or is_zero_val(b):
        # (1, 1) zero matrices broadcast
        if not (dim1(a.shape[-1]) and dim1(b.shape[-2]) and dim1(a.shape[-2]) and dim1(b.shape[-1])):
            sh = bshape(I, [a.shape[:-2], b.shape[:-2]]) + (a.shape[-2], b.shape[-1])
            return T(sh, lambda *i: ZERO)
    need_eq(I, a.shape[-1], b.shape[-2])
    bs = bshape(I, [a.shape[:-2], b.shape[:-2]]) if a.rank > 2 or b.rank > 2 else ()
    d = a.shape[-1]

    def sub(t, idx):
        k = len(idx) - (t.rank - 2)
        return [ZERO if dim1(q) else i for i, q in zip(idx[k:], t.shape[:-2])]

    def fn(*idx):
        bi, i, j = idx[:-2], idx[-2], idx[-1]
        ai, bj = sub(a, bi), sub(b, bi)
        return axis_sum(d, lambda k: lift(a.at(*ai, i, k)) * lift(b.at(*bj, k, j)))
    prov = None
    if a.rank == 2 and b.rank == 2:
        prov = ("mm", [a, b])
    return T(bs + (a.shape[-2], b.shape[-1]), fn, np_=a.np and b.np, prov=prov)


def m_mm(I, ts):
    r = ts[0]
    for x in ts[1:]:
        r = m_mm2(I, r, x)
    return r


def m_logdet(I, t):
    t = square(I, t, "logdet")
    f = det_factors(I, t)
    r = ZERO
    for k, (e, leaf) in f.items():
        r = r + leaf * e
    return norm(r)


def det_factors(I, t):
    """log|det| as a sum of (exponent, term)."""
    def add(x, y, s=1):
        for k, (e, v) in y.items():
            e0 = x.get(k, (Fraction(0), v))[0] + e * s
            if e0:
                x[k] = (e0, v)
            else:
                x.pop(k, None)
        return x
    if t.prov:
        k = t.prov[0]
        if k == "inv":
            return add({}, det_factors(I, t.prov[1]), -1)
        if k == "chol":
            return add({}, det_factors(I, t.prov[1]), Fraction(1, 2))
        if k == "cholinv":
            return add({}, det_factors(I, t.prov[1]), -Fraction(1, 2))
        if k == "tr":
            return det_factors(I, t.prov[1])
        if k == "mm":
            a, b = t.prov[1]
            if dim_eq(a.shape[0], a.shape[1]) and dim_eq(b.shape[0], b.shape[1]):
                return add(add({}, det_factors(I, a)), det_factors(I, b))
        if k == "diag":
            v = t.prov[1]
            s = axis_sum(v.shape[0], lambda i: alg.log(lift(v.at(i))))
            return {"diag:" + s.key: (Fraction(1), s)} if not s.is_zero() else {}
        if k == "scale":
            c, u = t.prov[1:]
            r = add({}, det_factors(I, u))
            s = alg.log(lift(c)) * dim_size(t.shape[0])
            return add(r, {"scale:" + s.key: (Fraction(1), s)})
    if dim1(t.shape[0]):
        s = alg.log(lift(t.at(ZERO, ZERO)))
        return {"one:" + s.key: (Fraction(1), s)}
    n, ps = mat_ref(t)
    if ps:
        v = alg.app("logdet:" + n, *ps)
        return {v.key: (Fraction(1), v)}
    return {n: (Fraction(1), alg.sym("logdet:" + n))}


# ------------------------------------------------------------------------- operators
def unary(I, op, v):
    if isinstance(v, _Inf):
        return NINF if (v is INF) == (op == "USub") else INF
    if op == "USub":
        return ew(I, lambda x: norm(-lift(num(x))), v)
    if op == "UAdd":
        return v
    if op == "Invert":
        if isinstance(v, T) and v.isbool:
            return T(v.shape, lambda *i: cnot(v.at(*i)), np_=v.np, isbool=True)
        if isinstance(v, Cond):
            return cnot(v)
        if isinstance(v, bool):
            return ~v
    raise Unsupported(f"unary {op}")


def isinf_(x):
    return isinstance(x, _Inf)


def arith(I, op, a, b):
    a, b = num(a), num(b)
    if isinstance(a, _Nan) or isinstance(b, _Nan):
        return NAN
    if isinstance(a, _Inf) or isinstance(b, _Inf):
        return inf_arith(I, op, a, b)
    if op == "Add":
        return norm(lift(a) + lift(b)) if isinstance(a, P) or isinstance(b, P) else a + b
    if op == "Sub":
        return norm(lift(a) - lift(b)) if isinstance(a, P) or isinstance(b, P) else a - b
    if op == "Mult":
        return norm(lift(a) * lift(b)) if isinstance(a, P) or isinstance(b, P) else a * b
    if op == "Div":
        if not isinstance(b, P):
            if b == 0:
                raise PyExc("ZeroDivisionError", ())
            if not isinstance(a, P):
                return Fraction(a) / Fraction(b)
        elif b.is_zero():
            raise PyExc("ZeroDivisionError", ())
        return norm(lift(a) / lift(b))
    if op == "Pow":
        if isinstance(b, (int, Fraction)) and isinstance(a, (int, Fraction)):
            if Fraction(b).denominator == 1 and abs(b) < 64 and not (a == 0 and b < 0):
                r = Fraction(a) ** int(b)
                return int(r) if isinstance(a, int) and isinstance(b, int) and b >= 0 else r
        return norm(alg.power(lift(a), lift(b)))
    if op in ("FloorDiv", "Mod"):
        if not isinstance(a, P) and not isinstance(b, P):
            if b == 0:
                raise PyExc("ZeroDivisionError", ())
            return a // b if op == "FloorDiv" else a % b
        if isinstance(b, (int, Fraction)) and b == 1 and isinstance(a, P) and alg._is_int_term(a):
            return a if op == "FloorDiv" else 0
        nm = "floordiv" if op == "FloorDiv" else "mod"
        alg.INTFUNS.add(nm)
        return alg.app(nm, lift(a), lift(b))
    raise Unsupported(f"operator {op}")


def inf_arith(I, op, a, b):
    ia, ib = isinf_(a), isinf_(b)
    if op in ("Add", "Sub"):
        sb = (b.sign if op == "Add" else -b.sign) if ib else None
        if ia and ib:
            return a if a.sign == sb else NAN
        return a if ia else (INF if sb > 0 else NINF)
    if op in ("Mult", "Div"):
        if op == "Div" and ib:
            return NAN if ia else 0
        x, y = (a, b) if ia else (b, a)
        if isinf_(y):
            return INF if x.sign == y.sign else NINF
        y = lift(y)
        if I.decide(alg.gt(y, 0)):
            return x
        if I.decide(alg.lt(y, 0)):
            return NINF if x is INF else INF
        return NAN
    if op == "Pow" and ia and b == 2:
        return INF
    raise Unsupported("arithmetic with infinity")


def as_fparts(x):
    return x.attrs["parts"] if isinstance(x, Opaque) and x.tag == "fstring" else (x,)


def binop(I, op, a, b):
    if isinstance(a, LazyIter):
        a = a.force()
    strs = (str, SStr)
    if op == "Add" and (isinstance(a, strs) or isinstance(b, strs) or (isinstance(a, Opaque) and a.tag in ("fstring", "regex")) or (isinstance(b, Opaque) and b.tag in ("fstring", "regex"))):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if is_num(a) or is_num(b) or a is None or b is None:
            raise PyExc("TypeError", ("str and number",))
        return Opaque("fstring", parts=as_fparts(a) + as_fparts(b))
    if op == "Mod" and isinstance(a, str):
        return Opaque("fstring", parts=(a, b))
    if op == "Mult" and isinstance(a, (list, tuple)) and (isinstance(b, int) or isinstance(b, P)):
        if isinstance(b, int):
            return a * b
        if len(a) == 1:
            at = alg.fresh("i", int=True, nonneg=True)
            return SSeq([Seg(((at, b),), TRUE, a[0])])
        raise Unsupported("symbolic repetition")
    if op == "Mult" and isinstance(b, (list, tuple)) and not isinstance(a, (T, list, tuple)):
        return binop(I, op, b, a)
    if op == "Add" and isinstance(a, (list, SSeq)) and isinstance(b, (list, SSeq)):
        if isinstance(a, list) and isinstance(b, list):
            return a + b
        r = SSeq(seq_of(a).segs + seq_of(b).segs)
        r.ordered = getattr(a, "ordered", True) and getattr(b, "ordered", True)
        return r
    if op == "Add" and isinstance(a, tuple) and isinstance(b, (tuple, SSeq)):
        return a + b if isinstance(b, tuple) else SSeq(seq_of(a).segs + b.segs, "tuple")
    if op == "Add" and isinstance(a, SSeq) and isinstance(b, tuple):
        return SSeq(a.segs + seq_of(b).segs, a.kind)
    sets = (set, frozenset)
    if isinstance(a, sets) and isinstance(b, sets):
        return {"Sub": a - b, "BitOr": a | b, "BitAnd": a & b, "BitXor": a ^ b}[op]
    if isinstance(a, SSeq) and a.kind == "set" or isinstance(b, SSeq) and b.kind == "set":
        return set_binop(I, op, a, b)
    if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
        return {**a, **b}
    if op in ("Mult", "Add") and isinstance(a, T) and isinstance(b, T) and a.isbool and b.isbool:
        return ew(I, lambda x, y: (cand if op == "Mult" else cor)(lf(x), lf(y)), a, b, isbool=True)
    if op in ("BitAnd", "BitOr", "BitXor"):
        f = {"BitAnd": lambda x, y: cand(x, y), "BitOr": lambda x, y: cor(x, y), "BitXor": lambda x, y: cor(cand(x, cnot(y)), cand(cnot(x), y))}[op]
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            return f(lf(a), lf(b))
        if (isinstance(a, T) and a.isbool) or (isinstance(b, T) and b.isbool):
            return ew(I, lambda x, y: f(lf(x), lf(y)), a, b, isbool=True)
        if isinstance(a, int) and isinstance(b, int):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
        raise Unsupported("bit operation")
    if op == "MatMult":
        return lab_matmul(I, [a, b], {})
    if isinstance(a, (str, type(None), dict, list, tuple)) and not isinstance(b, T) or isinstance(b, (str, type(None), dict)) :
        if not isinstance(a, T) and not (isinstance(a, (list, tuple)) and isinstance(b, T)):
            raise PyExc("TypeError", (op,))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        h = getattr(I, "opaque_binop", None)
        if h is not None:
            return h(I, op, a, b)
        raise Unsupported(f"{op} on an opaque value")
    r = ew(I, lambda x, y: arith(I, op, x, y), a, b)
    if isinstance(r, T) and r.rank == 2:
        # scalar multiples keep their determinant
        if op in ("Mult", "Div") and isinstance(a, T) and a.rank == 2 and is_num(b) and a.prov:
            r.prov = ("scale", b if op == "Mult" else norm(ONE / lift(b)), a)
        elif op == "Mult" and isinstance(b, T) and b.rank == 2 and is_num(a) and b.prov:
            r.prov = ("scale", a, b)
    return r


def set_binop(I, op, a, b):
    a, b = seq_of(a), seq_of(b)
    if op == "BitOr":
        if getattr(I, "mkset", None) is not None and (a.concrete() is None or b.concrete() is None):
            raise Unsupported("union of symbolic sets")
        return mk_set(I, a.segs + b.segs)
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None and op in ("Sub", "BitAnd"):
        hit = lambda x: any(I.decide_value(I.compare("Eq", x, y)) for y in cb)
        return SSeq([Seg((), TRUE, x) for x in ca if hit(x) == (op == "BitAnd")], "set")
    if cb is not None and op == "Sub":
        segs = a.segs
        for y in cb:
            segs = [g for s in segs for g in I.map_seg(s, lambda v: v, lambda v, y=y: cnot(lf(I.truth(I.compare("Eq", v, y)))))]
        return SSeq(segs, "set")
    raise Unsupported("operation on symbolic sets")


def cmp_num(I, op, a, b):
    a, b = num(a), num(b)
    if isinstance(a, _Nan) or isinstance(b, _Nan):
        return op == "NotEq"
    if isinf_(a) or isinf_(b):
        va = a.sign * 2 if isinf_(a) else 0
        vb = b.sign * 2 if isinf_(b) else 0
        return {"Eq": va == vb, "NotEq": va != vb, "Lt": va < vb, "LtE": va <= vb, "Gt": va > vb, "GtE": va >= vb}[op]
    if not isinstance(a, P) and not isinstance(b, P):
        return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    c = {"Eq": alg.eq, "NotEq": alg.eq, "Lt": alg.lt, "LtE": alg.le, "Gt": alg.gt, "GtE": alg.ge}[op](a, b)
    if op == "NotEq":
        c = cnot(c)
    return True if c.op == "true" else False if c.op == "false" else c


def compare(I, op, a, b):
    if isinstance(a, LazyIter):
        a = a.force()
    if isinstance(a, T) or isinstance(b, T):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return op == "NotEq"
        return ew(I, lambda x, y: lf(cmp_num(I, op, x, y)), a, b, isbool=True)
    if isscalar(a) and isscalar(b):
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)) and op in ("Eq", "NotEq"):
            x, y = lf(a), lf(b)
            c = cor(cand(x, y), cand(cnot(x), cnot(y)))
            c = cnot(c) if op == "NotEq" else c
            return True if c.op == "true" else False if c.op == "false" else c
        return cmp_num(I, op, a, b)
    neg = op == "NotEq"
    if op in ("Eq", "NotEq"):
        r = eq_val(I, a, b)
        if isinstance(r, bool):
            return r != neg
        return cnot(r) if neg else r
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        return alg.pred("strlt", skey(a), skey(b)) if op in ("Lt",) else alg.pred("str" + op, skey(a), skey(b))
    if isinstance(a, (type(None), str)) or isinstance(b, (type(None), str)):
        raise PyExc("TypeError", (op,))
    raise Unsupported(f"comparison {op} of {type(a).__name__} and {type(b).__name__}")


STRS = {}


def skey(s):
    """Term identifying a string."""
    if isinstance(s, SStr):
        return s.p
    k = STRS.setdefault(s, len(STRS) + 1)
    return alg.sym("str:" + s)


def eq_val(I, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        c = alg.pred("streq", *sorted((skey(a), skey(b)), key=lambda x: x.key))
        if skey(a).key == skey(b).key:
            return True
        h = getattr(I, "str_eq", None)
        if h is not None:
            return h(I, a, b)
        return c
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            c = I.truth(I.compare("Eq", x, y))
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        return cand(*cs) if cs else True
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if isinstance(a, SSeq) and isinstance(b, (SSeq, set, list)) or isinstance(b, SSeq):
        h = getattr(I, "seq_eq", None)
        if h is not None:
            r = h(I, a, b)
            if r is not None:
                return r
        ca, cb = seq_of(a).concrete(), seq_of(b).concrete() if not isinstance(b, (str, type(None))) else None
        if ca is not None and cb is not None:
            sa = isinstance(a, SSeq) and a.kind == "set"
            sb = isinstance(b, (set, frozenset)) or isinstance(b, SSeq) and b.kind == "set"
            if sa != sb:
                return False
            if sa:
                # both were built without duplicates
                if len(ca) != len(cb):
                    return False
                cs = []
                for x in ca:
                    alts = []
                    for y in cb:
                        c = I.truth(I.compare("Eq", x, y))
                        if c is True:
                            break
                        if c is not False:
                            alts.append(c)
                    else:
                        if not alts:
                            return False
                        cs.append(cor(*alts))
                return cand(*cs) if cs else True
            return eq_val(I, ca, cb)
        raise Unsupported("equality of symbolic sequences")
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False
        return eq_val(I, list(a.values()), [b[k] for k in a])
    if a is b:
        return True
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.tag == b.tag and "id" in a.attrs and "id" in b.attrs:
            c = alg.eq(a.attrs["id"], b.attrs["id"])
            return True if c.op == "true" else c
        raise Unsupported("equality of opaque values")
    if type(a) is not type(b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("equality with an opaque value")
        return False
    if isinstance(a, (PyFunc, PyClass, LibFn, LibType, Multi, LibMod)):
        return a is b
    if isinstance(a, LibType):
        return a.name == b.name
    if isinstance(a, Obj):
        return a is b
    raise Unsupported(f"equality of {type(a).__name__}")


def is_(I, a, b):
    if a is None or b is None:
        return a is b
    if isinstance(b, bool) or isinstance(a, bool):
        if isinstance(a, Cond) or isinstance(b, Cond):
            x, y = lf(a), lf(b)
            return y if x.op == "true" else x if y.op == "true" else cnot(x) if y.op == "false" else cnot(y)
        return a is b
    if is_num(a) and is_num(b):
        if not isinstance(a, P) and not isinstance(b, P):
            return type(a) is type(b) and a == b and isinstance(a, int) and -5 <= a <= 256
        # identity of numbers implies equality; equality does not imply identity
        c = alg.eq(lift(a), lift(b))
        if c.op == "false":
            return False
        ch = alg.pred("same_object", lift(a) - lift(b))
        return cand(c, ch)
    if isinstance(a, (T, SSeq, list, dict, set, Obj, Opaque, PyFunc, PyClass, LibFn, LibType)) or isinstance(b, (T, SSeq, list, dict, set, Obj, Opaque, PyFunc, PyClass)):
        if isinstance(a, LibType) and isinstance(b, LibType):
            return a.name == b.name
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (_Inf, _Nan)) or isinstance(b, (_Inf, _Nan)):
        return a is b
    if type(a) is not type(b):
        return False
    raise Unsupported("identity test")


def contains(I, c, x):
    if isinstance(c, LazyIter):
        c = c.force()
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, SMap):
        if c.has is None:
            raise Unsupported("membership in a symbolic mapping")
        return c.has(x)
    if getattr(c, "has", None) is not None:
        return c.has(x)
    if isinstance(c, SDict):
        c = SSeq([Seg(s.bounds, s.guard, s.value[0]) for s in c.seq.segs])
    if isinstance(c, dict):
        c = list(c)
    if isinstance(c, Obj) and isinstance(c.cls, PyClass) and c.cls.find("__contains__"):
        return I.callm(c, "__contains__", x)
    if isinstance(c, (Obj, Opaque)):
        h = objattr(I, c, "__contains__") if isinstance(c, Obj) else valattr(I, c, "__contains__")
        if h is not NOCONTRACT:
            return I.call(h, [x], {})
    cs = []
    for s in seq_of(c).segs:
        if not s.bounds:
            e = I.truth(I.compare("Eq", s.value, x))
            if e is True and s.guard.op == "true":
                return True
            if e is False:
                continue
            cs.append(cand(s.guard, lf(e)))
        else:
            s = I.rename_seg(s)
            outs = I.generic([a for a, _ in s.bounds], I.seg_assumptions(s), lambda: lf(I.truth(I.compare("Eq", s.value, x))))
            cc = []
            for pc, kind, v in outs:
                if kind != "ret":
                    raise Unsupported("membership test")
                cc.append(cand(*pc, v))
            c2 = cor(*cc)
            if c2.op == "false":
                continue
            cs.append(I.exists(s.bounds, cand(s.guard, c2)))
    r = cor(*cs)
    return True if r.op == "true" else False if r.op == "false" else r


# ------------------------------------------------------------------------- indexing
def slen(I, sl, d):
    """(start, length, step) of a slice of an axis of length d."""
    st, sp, step = sl.start, sl.stop, sl.step
    if step is None:
        step = 1
    if step not in (1, -1) or isinstance(d, (FAxis, CatAxis)):
        if isinstance(step, int) and step > 1 and isinstance(d, int):
            r = range(d)[slice(st, sp, step)]
            return r.start, len(r), step
        raise Unsupported("slice")
    if isinstance(d, int) and all(x is None or isinstance(x, int) for x in (st, sp)):
        r = range(d)[slice(st, sp, step)]
        return r.start, len(r), step
    D = lift(d)
    if step == -1:
        if st is None and sp is None:
            return norm(D - 1), d, -1
        raise Unsupported("reversed slice")

    def clamp(x, default):
        if x is None:
            return lift(default)
        x = lift(x)
        if I.decide(alg.lt(x, 0)):
            x = x + D
            if I.decide(alg.lt(x, 0)):
                return ZERO
            return x
        if I.decide(alg.gt(x, D)):
            return D
        return x
    a, b = clamp(st, 0), clamp(sp, D)
    n = norm(b - a)
    if isinstance(n, int):
        return norm(a), max(n, 0), 1
    if not I.decide(alg.ge(lift(n), 0)):
        n = 0
    return norm(a), n, 1


def as_index_array(I, ix):
    if isinstance(ix, T):
        return ix
    if isinstance(ix, (list, SSeq, SRange, range)):
        return stack(I, ix, 0)
    return None


def getitem(I, o, i):
    if isinstance(o, LazyIter):
        raise PyExc("TypeError", ("not subscriptable",))
    if isinstance(o, T):
        return t_getitem(I, o, i)
    if isinstance(o, P) and i is None:
        return T((1,), lambda j: o)
    if isinstance(o, (list, tuple, str)):
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, slice):
            if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return o[i]
            raise Unsupported("symbolic slice of a list")
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise PyExc("IndexError", ())
        if isinstance(i, (str, type(None), Fraction)):
            raise PyExc("TypeError", ("index",))
        if isinstance(i, (P, Cond)) and len(o):
            i = lift(num(i))
            n = len(o)
            for k in range(n):
                if k == n - 1 and I.implied(cand(alg.ge(i, 0), alg.lt(i, n))):
                    return o[k]
                if I.decide(alg.eq(i, k)):
                    return o[k]
            raise Unsupported("symbolic index")
        raise Unsupported("list index")
    if isinstance(o, dict):
        if isinstance(i, (str, int, tuple)):
            if i in o:
                return o[i]
            raise PyExc("KeyError", (i,))
        if isinstance(i, SStr):
            for k in o:
                if I.decide_value(eq_val(I, i, k)):
                    return o[k]
            raise PyExc("KeyError", ())
        raise Unsupported("dictionary key")
    if isinstance(o, SMap):
        return o.get(i)
    if isinstance(o, range):
        if isinstance(i, int):
            return o[i]
    if isinstance(o, (SSeq, SRange)):
        return seq_getitem(I, o, i)
    if isinstance(o, Obj):
        if isinstance(o.cls, PyClass) and o.cls.find("__getitem__"):
            return I.callm(o, "__getitem__", i)
        if o.cls == "namedtuple":
            return getitem(I, list(o.attrs.values()), i)
        h = objattr(I, o, "__getitem__")
        if h is not NOCONTRACT:
            return I.call(h, [i], {})
    if isinstance(o, Bag):
        if isinstance(i, slice):
            return UNKNOWN
        raise Unsupported("reading a collection inside the loop that fills it")
    if isinstance(o, Opaque):
        h = valattr(I, o, "__getitem__")
        return I.call(h, [i], {})
    if o is None or isscalar(o):
        raise PyExc("TypeError", ("not subscriptable",))
    if isinstance(o, SDict) and isinstance(i, SStr) and len(o.seq.segs) == 1:
        # distinct names name_k(i): the entry of that very name
        s = I.rename_seg(o.seq.segs[0])
        k = s.value[0]
        if len(s.bounds) == 1 and s.guard.op == "true" and isinstance(k, SStr):
            at, n = s.bounds[0]
            x, y = k.p.single(), i.p.single()
            if x and y and len(x[2]) == len(y[2]) == 1 and x[2][0][0].name == y[2][0][0].name and lift(x[2][0][0].args[0]).key == P.atom(at).key:
                j = y[2][0][0].args[0]
                if I.implied(alg.cand(alg.ge(j, 0), alg.lt(j, n))):
                    return subs_value(s.value[1], {at: lift(j)})
        raise Unsupported("entry of a symbolic dictionary")
    raise Unsupported(f"subscript of {type(o).__name__}")


def seq_getitem(I, o, i):
    s = seq_of(o)
    if getattr(s, "ordered", True) is False:
        raise Unsupported("order of a collected sequence")
    parts = elem_list(I, s)
    if isinstance(i, (int, P)) and not isinstance(i, bool):
        tot = ZERO
        for d, _ in parts:
            if isinstance(d, FAxis):
                if len(parts) == 1:
                    raise Unsupported("position in a filtered sequence")
            tot = tot + dim_size(d)
        i = lift(i)
        if I.decide(alg.lt(i, 0)):
            i = i + tot
        if not I.implied(cand(alg.ge(i, 0), alg.lt(i, tot))):
            if not I.decide(cand(alg.ge(i, 0), alg.lt(i, tot))):
                raise PyExc("IndexError", ())
        acc = ZERO
        for k, (d, f) in enumerate(parts):
            D = dim_size(d)
            if k == len(parts) - 1 or I.decide(alg.lt(i, acc + D)):
                return f(i - acc)
            acc = acc + D
    if isinstance(i, slice) and len(parts) == 1 and s.segs[0].bounds:
        d, f = parts[0]
        st, n, step = slen(I, i, d)
        a = alg.fresh("i", int=True, nonneg=True)
        return SSeq([Seg(((a, n),), TRUE, f(lift(st) + P.atom(a) * step))])
    raise Unsupported("subscript of a symbolic sequence")


def t_getitem(I, t, i):
    if not isinstance(i, tuple):
        i = (i,)
    n_used = sum(1 for x in i if x is not None and x is not Ellipsis)
    # boolean masks
    if len(i) == 1 and isinstance(i[0], T) and i[0].isbool:
        m = i[0]
        if m.rank != 1:
            raise Unsupported("mask")
        need_eq(I, m.shape[0], t.shape[0])
        ax = FAxis(t.shape[0], lambda k: m.at(lift(k)))
        return T((ax,) + t.shape[1:], t.fn, np_=t.np)
    full = []
    for x in i:
        if x is Ellipsis:
            full += [slice(None)] * (t.rank - n_used)
        else:
            full.append(x)
    if not any(x is Ellipsis for x in i):
        full += [slice(None)] * (t.rank - n_used)
    out_shape, maps = [], []       # maps: per source axis, function of out index tuple
    src = 0
    adv = None
    for x in full:
        if x is None:
            out_shape.append(1)
            continue
        if src >= t.rank:
            raise PyExc("IndexError", ("too many indices",))
        d = t.shape[src]
        src += 1
        if isinstance(x, slice):
            pos = len(out_shape)
            if x.start is None and x.stop is None and x.step is None:
                out_shape.append(d)
                maps.append(lambda o, pos=pos: o[pos])
            else:
                st, n, step = slen(I, x, d)
                out_shape.append(n)
                maps.append(lambda o, pos=pos, st=st, step=step: lift(st) + lift(o[pos]) * step)
        elif isinstance(x, (int, P)) and not isinstance(x, bool):
            j = lift(x)
            c = j.const_value()
            if isinstance(d, (FAxis, CatAxis)):
                raise Unsupported("position in a filtered axis")
            if isinstance(d, int) and c is not None:
                if not -d <= c < d:
                    raise PyExc("IndexError", ())
                if c < 0:
                    j = j + d
            elif I.decide(alg.lt(j, 0)):
                j = j + lift(d)
            maps.append(lambda o, j=j: j)
        else:
            ia = as_index_array(I, x)
            if ia is None or adv is not None:
                raise Unsupported("index")
            if ia.isbool:
                need_eq(I, ia.shape[0], d)
                ax = FAxis(d, lambda k, ia=ia: ia.at(lift(k)))
                pos = len(out_shape)
                out_shape.append(ax)
                maps.append(lambda o, pos=pos: o[pos])
                adv = 1
                continue
            pos = len(out_shape)
            out_shape.extend(ia.shape)
            adv = 1
            maps.append(lambda o, pos=pos, ia=ia, r=ia.rank: ia.at(*o[pos:pos + r]))
    if src != t.rank:
        raise Unsupported("index rank")
    if not out_shape:
        v = t.at(*[m(()) for m in maps])
        return v if isinstance(v, Cond) else norm(v)
    return T(out_shape, lambda *o: t.at(*[m(o) for m in maps]), np_=t.np, isbool=t.isbool, isint=t.isint)


def setitem(I, o, i, v):
    if isinstance(o, list):
        if isinstance(i, int):
            try:
                o[i] = v
                return
            except IndexError:
                raise PyExc("IndexError", ())
        raise Unsupported("list store")
    if isinstance(o, dict):
        if isinstance(i, (str, int, tuple)):
            o[i] = v
            return
        raise Unsupported("dictionary store")
    if isinstance(o, Bag):
        o.items.append(("set", i, v))
        return
    if isinstance(o, T):
        if not o.np:
            raise PyExc("TypeError", ("immutable array",))
        old = T(o.shape, o.fn)
        new = t_store(I, old, i, v)
        o.fn, o.memo, o.prov = new.fn, {}, None
        return
    if isinstance(o, Obj):
        if isinstance(o.cls, PyClass) and o.cls.find("__setitem__"):
            I.callm(o, "__setitem__", i, v)
            return
    if isinstance(o, (Obj, Opaque)):
        h = objattr(I, o, "__setitem__") if isinstance(o, Obj) else valattr(I, o, "__setitem__")
        if h is not NOCONTRACT:
            I.call(h, [i, v], {})
            return
    raise Unsupported("store")


def t_store(I, t, i, v):
    if not isinstance(i, tuple):
        i = (i,)
    if any(x is None or x is Ellipsis for x in i):
        raise Unsupported("store index")
    full = list(i) + [slice(None)] * (t.rank - len(i))
    sels = []
    vpos = []
    for k, (x, d) in enumerate(zip(full, t.shape)):
        if isinstance(x, T) and x.isbool and t.rank == 1 and x.rank == 1:
            if isinstance(v, T):
                raise Unsupported("masked store of an array")
            return T(t.shape, lambda j: ind(x.at(j)) * lift(v) + (ONE - ind(x.at(j))) * t.at(j), np_=True)
        if isinstance(x, slice):
            st, n, step = slen(I, x, d)
            if step != 1:
                raise Unsupported("store index")
            st = lift(st)
            whole = st.is_zero() and dim_eq(norm(lift(n)), d)
            sels.append((lambda j, st=st, n=n, whole=whole: TRUE if whole else cand(alg.ge(j, st), alg.lt(j, st + lift(n)))))
            vpos.append((k, st))
        elif isinstance(x, (int, P)):
            x = lift(x)
            if I.decide(alg.lt(x, 0)):
                x = x + lift(d)
            sels.append(lambda j, x=x: alg.eq(j, x))
        elif isinstance(x, T) and x.rank == 1 and not x.isbool and t.rank == 1:
            # at an array of positions: one store for every entry
            at = alg.fresh("i", int=True, nonneg=True)
            if isinstance(v, T) and not (v.rank == 1 and dim_eq(v.shape[0], x.shape[0])):
                raise Unsupported("store of another shape")
            bag = Bag(t)
            bag.items.append(("set", x.at(P.atom(at)), v.at(P.atom(at)) if isinstance(v, T) else v))
            return scatter(I, t, Seg(((at, x.shape[0]),), TRUE, None), [((), bag)])
        else:
            raise Unsupported("store index")

    def fn(*idx):
        c = cand(*[s(j) for s, j in zip(sels, idx)])
        if c.op == "false":
            return t.at(*idx)
        vi = [idx[k] - st for k, st in vpos]
        nv = lift(num(pick(v, vi)) if not isinstance(v, T) else num(pick(v, vi)))
        return ind(c) * nv + (ONE - ind(c)) * lift(num(t.at(*idx)))
    return T(t.shape, fn, np_=True)


def scatter(I, t, seg, bags):
    """t[idx] = value for every element of a symbolic loop, distinct positions."""
    if t.rank != 1 or len(seg.bounds) != 1:
        raise Unsupported("scatter")
    old = T(t.shape, t.fn)
    stores = []
    for pc, bag in bags:
        if len(bag.items) > 1:
            raise Unsupported("scatter")
        for it in bag.items:
            if not (isinstance(it, tuple) and len(it) == 3 and it[0] == "set") or not is_num(it[1]) or not is_num(it[2]):
                raise Unsupported("scatter")
            stores.append((cand(seg.guard, *pc), lift(it[1]), lift(it[2])))
    if len(stores) != 1:
        raise Unsupported("scatter")
    g, ix, val = stores[0]
    a, d = seg.bounds[0]
    # distinct positions: delta(ix(a), ix(b)) = delta(a, b)
    b = alg.fresh("j", int=True, nonneg=True)
    dl = alg.delta(ix, alg.subs(ix, {a: P.atom(b)}))
    if I.simp(dl).key != alg.delta(P.atom(a), P.atom(b)).key:
        raise Unsupported("scatter to possibly equal positions")

    def fn(j):
        hit = I.simp(ind(g) * alg.delta(ix, j))
        n = I.simp(alg.sum_over(a, d, hit))
        v = I.simp(alg.sum_over(a, d, hit * val))
        return v + (ONE - n) * lift(num(old.at(j)))
    return T(t.shape, fn, np_=True)


def max_pattern(I, v0, ph, news, seg, uid):
    return None


# ------------------------------------------------------------------------- attributes of values
def objattr(I, o, n):
    h = OBJ_ATTR.get(o.cls if isinstance(o.cls, str) else None)
    if h is not None:
        r = h(I, o, n)
        if r is not NOCONTRACT:
            return r
    if isinstance(o.cls, PyClass):
        for b in o.cls.ext_bases():
            h = EXT_ATTR.get(getattr(b, "name", None))
            if h is not None:
                r = h(I, o, n)
                if r is not NOCONTRACT:
                    return r
    return NOCONTRACT


OBJ_ATTR = {}
EXT_ATTR = {}
OPQ_ATTR = {}
OPQ_TRUTH = {}


def superattr(I, o, n):
    for b in o.cls.ext_bases():
        h = EXT_ATTR.get(getattr(b, "name", None))
        if h is not None:
            r = h(I, o.obj, n)
            if r is not NOCONTRACT:
                return r
    if n == "__init__":
        return LibFn("object.__init__", lambda I, a, k: None)
    raise PyExc("AttributeError", (n,))


def fnc(name):
    def d(f):
        return LibFn(name, f)
    return d


def valattr(I, v, n):
    if isinstance(v, T):
        return tattr(I, v, n)
    if isinstance(v, Opaque):
        h = OPQ_ATTR.get(v.tag)
        if h is not None:
            r = h(I, v, n)
            if r is not NOCONTRACT:
                return r
        if n in v.attrs:
            return v.attrs[n]
        raise Unsupported(f"attribute {n} of {v.tag}")
    if isinstance(v, LazyIter):
        if n == "__next__":
            raise Unsupported("iterator")
    if isinstance(v, (list, SSeq, Bag)):
        return listattr(I, v, n)
    if isinstance(v, dict):
        return dictattr(I, v, n)
    if isinstance(v, (set, frozenset)):
        return setattr_(I, v, n)
    if isinstance(v, str):
        return strattr(I, v, n)
    if isinstance(v, SStr):
        h = getattr(I, "sstr_attr", None)
        if h is not None:
            return h(I, v, n)
        if n in ("lower",):
            return LibFn("str.lower", lambda I, a, k: v)
    if isinstance(v, tuple) and n in ("count", "index"):
        return listattr(I, list(v), n)
    if isinstance(v, SDict):
        if n == "items":
            return LibFn("dict.items", lambda I, a, k: v.seq)
        if n in ("values", "keys"):
            j = 1 if n == "values" else 0
            return LibFn("dict.v", lambda I, a, k: SSeq([Seg(s.bounds, s.guard, s.value[j]) for s in v.seq.segs]))
    if isinstance(v, SMap) and n == "items" and v.items is not None:
        return LibFn("dict.items", lambda I, a, k: v.items)
    if isinstance(v, SMap) and n == "get":
        return LibFn("dict.get", lambda I, a, k: v.get(a[0]) if I.decide_value(v.has(a[0])) else (a[1] if len(a) > 1 else None))
    if isinstance(v, PyExc):
        if n == "args":
            return v.pargs
    if is_num(v):
        if n in ("real",):
            return v
        if n == "item":
            return LibFn("item", lambda I, a, k: v)
        if n == "shape":
            return ()
        if n == "dtype":
            return Opaque("dtype")
        if n in ("ndim",):
            return 0
        if n in ("astype", "sum", "mean", "max", "min", "copy", "flatten", "squeeze"):
            return LibFn(n, lambda I, a, k: v)
    if isinstance(v, LibType):
        if n == "__name__":
            return v.name
    if isinstance(v, Dispatcher):
        if n == "multi":
            raise Unsupported("dispatch.multi")
    if v is None or isinstance(v, (bool, int)):
        raise PyExc("AttributeError", (n,))
    raise Unsupported(f"attribute {n} of {type(v).__name__}")


def tattr(I, t, n):
    if n == "shape":
        return tuple(norm(dim_size(d)) if isinstance(d, (FAxis, CatAxis)) else d for d in t.shape)
    if n == "size":
        return size_axes(t, None)
    if n == "ndim":
        return t.rank
    if n == "T":
        return transpose(t, list(reversed(range(t.rank))))
    if n == "dtype":
        return Opaque("dtype")
    if n in ("mat", "diag") and t.rank == 2:
        return t if n == "mat" else T((t.shape[0],), lambda i: t.at(i, i))
    m = {
        "sum": lambda I, a, k: tsum(t, kwarg(a, k, 0, "axis")),
        "mean": lambda I, a, k: tmean(t, kwarg(a, k, 0, "axis")),
        "astype": lambda I, a, k: cast_(I, a[0], t),
        "copy": lambda I, a, k: T(t.shape, t.fn, np_=t.np, isbool=t.isbool),
        "reshape": lambda I, a, k: reshape(I, t, *(a[0] if a and isinstance(a[0], tuple) else a)),
        "flatten": lambda I, a, k: reshape(I, t, -1),
        "ravel": lambda I, a, k: reshape(I, t, -1),
        "max": lambda I, a, k: BF["max"](I, [t] + a, k),
        "min": lambda I, a, k: BF["min"](I, [t] + a, k),
        "any": lambda I, a, k: BF["any"](I, [t] + a, k),
        "all": lambda I, a, k: BF["all"](I, [t] + a, k),
        "tolist": lambda I, a, k: I.aslist(t) if isinstance(t.shape[0], int) else seq_of(t),
        "transpose": lambda I, a, k: transpose(t, list(a[0] if a and isinstance(a[0], tuple) else a) if a else list(reversed(range(t.rank)))),
        "dot": lambda I, a, k: lab_matmul(I, [t] + a, {}),
        "squeeze": lambda I, a, k: squeeze(t, kwarg(a, k, 0, "axis")),
        "item": lambda I, a, k: scal(t),
    }.get(n)
    if m is None:
        raise Unsupported(f"array attribute {n}")
    return LibFn(f"array.{n}", m)


def listattr(I, v, n):
    def append(I, a, k):
        if isinstance(v, list):
            v.append(a[0])
        elif isinstance(v, SSeq):
            v.segs.append(Seg((), TRUE, a[0]))
        else:
            v.append(a[0])

    def extend(I, a, k):
        if isinstance(v, list):
            v.extend(I.aslist(a[0]))
        elif isinstance(v, SSeq):
            v.segs.extend(seq_of(a[0]).segs)
        else:
            for x in I.aslist(a[0]):
                v.append(x)

    def index(I, a, k):
        for j, x in enumerate(I.aslist(v)):
            if I.decide_value(I.compare("Eq", x, a[0])):
                return j
        raise PyExc("ValueError", ())

    def insert(I, a, k):
        if isinstance(v, list) and isinstance(a[0], int):
            v.insert(*a)
        else:
            raise Unsupported("insert")

    def pop(I, a, k):
        if isinstance(v, list) and all(isinstance(x, int) for x in a):
            try:
                return v.pop(*a)
            except IndexError:
                raise PyExc("IndexError", ())
        raise Unsupported("pop")

    def sort(I, a, k):
        if isinstance(v, list):
            v[:] = b_sorted(I, [v], k)
            return
        raise Unsupported("sort")

    def reverse(I, a, k):
        if isinstance(v, list):
            v.reverse()
            return
        raise Unsupported("reverse")

    def add(I, a, k):
        append(I, a, k)
    m = {"append": append, "extend": extend, "index": index, "insert": insert, "pop": pop, "sort": sort, "reverse": reverse, "add": add,
         "copy": lambda I, a, k: list(v) if isinstance(v, list) else SSeq(v.segs, v.kind), "count": None}.get(n)
    if isinstance(v, SSeq) and v.kind == "set" and n == "union":
        return LibFn("set.union", lambda I, a, k: mk_set(I, v.segs + [s for x in a for s in seq_of(x).segs]))
    if m is None:
        raise Unsupported(f"list.{n}")
    return LibFn(f"list.{n}", m)


def dictattr(I, v, n):
    def get(I, a, k):
        if isinstance(a[0], (str, int, tuple)):
            return v.get(a[0], a[1] if len(a) > 1 else None)
        raise Unsupported("dictionary key")
    def pop(I, a, k):
        if a[0] in v:
            return v.pop(a[0])
        if len(a) > 1:
            return a[1]
        raise PyExc("KeyError", (a[0],))
    m = {"items": lambda I, a, k: [(x, y) for x, y in v.items()], "keys": lambda I, a, k: list(v), "values": lambda I, a, k: list(v.values()),
         "get": get, "pop": pop, "update": lambda I, a, k: v.update(a[0] if a else k), "copy": lambda I, a, k: dict(v),
         "setdefault": lambda I, a, k: v.setdefault(a[0], a[1] if len(a) > 1 else None)}.get(n)
    if m is None:
        raise Unsupported(f"dict.{n}")
    return LibFn(f"dict.{n}", m)


def setattr_(I, v, n):
    def sym(o):
        return isinstance(o, SSeq) and o.concrete() is None
    def union(I, a, k):
        if any(sym(x) for x in a):
            segs = seq_of(v).segs
            for x in a:
                segs = segs + seq_of(x).segs
            return SSeq(segs, "set")
        r = set(v)
        for x in a:
            r |= set(I.aslist(x))
        return r
    m = {"add": lambda I, a, k: v.add(a[0]), "union": union, "discard": lambda I, a, k: v.discard(a[0]),
         "remove": lambda I, a, k: v.remove(a[0]), "difference": lambda I, a, k: v - set(I.aslist(a[0])),
         "intersection": lambda I, a, k: v & set(I.aslist(a[0])), "update": lambda I, a, k: v.update(I.aslist(a[0])),
         "copy": lambda I, a, k: set(v)}.get(n)
    if m is None:
        raise Unsupported(f"set.{n}")
    return LibFn(f"set.{n}", m)


def strattr(I, v, n):
    if n == "join":
        def join(I, a, k):
            xs = I.aslist(a[0])
            if all(isinstance(x, str) for x in xs):
                return v.join(xs)
            return Opaque("fstring", parts=tuple(xs))
        return LibFn("str.join", join)
    if n == "format":
        return LibFn("str.format", lambda I, a, k: Opaque("fstring", parts=(v,) + tuple(a)))
    if n in ("lower", "upper", "strip", "startswith", "endswith", "split", "replace", "title", "lstrip", "rstrip", "isdigit", "count", "find"):
        def f(I, a, k):
            if all(isinstance(x, (str, int)) for x in a):
                return getattr(v, n)(*a)
            raise Unsupported("string method")
        return LibFn(f"str.{n}", f)
    raise Unsupported(f"str.{n}")


def kwarg(a, k, pos, name, default=None):
    if name in k:
        return k[name]
    return a[pos] if len(a) > pos else default


def cast_(I, dtype, x):
    if isinstance(dtype, LibType) and dtype.name == "bool":
        return ew(I, lambda v: lf(I.truth(v)), x, isbool=True)
    if isinstance(dtype, LibType) and dtype.name == "int":
        def toint(v):
            v = num(v)
            if isinstance(v, int) or (isinstance(v, P) and alg._is_int_term(v)):
                return v
            if isinstance(v, Fraction):
                return int(v)
            raise Unsupported("integer truncation")
        return ew(I, toint, x)
    if isinstance(x, (bool, Cond)):
        return num(x)
    if isinstance(x, T) and x.isbool:
        return ew(I, num, x)
    if isinstance(x, (list, tuple)):
        return totensor(I, x)
    return x


def reshape(I, t, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    if not isinstance(t, T):
        t0 = t
        t = T((), lambda: lf(t0))
    big = [k for k, d in enumerate(t.shape) if not dim1(d)]
    tgt = list(shape)
    if len(big) <= 1:
        d = t.shape[big[0]] if big else 1
        if -1 in tgt:
            tgt[tgt.index(-1)] = d if all(dim1(x) or x == -1 for x in tgt) else None
            if None in tgt:
                if d == 1 or not isinstance(d, int):
                    raise Unsupported("reshape")
                rest = 1
                for x in tgt:
                    rest *= x or 1
                tgt[tgt.index(None)] = d // rest
        nb = [k for k, x in enumerate(tgt) if not dim1(x)]
        if len(nb) <= 1:
            if nb:
                need_eq(I, tgt[nb[0]], d)
                tgt[nb[0]] = d

            def fn(*idx):
                full = [ZERO] * t.rank
                if big and nb:
                    full[big[0]] = idx[nb[0]]
                return t.at(*full)
            return T(tgt, fn, np_=t.np, isbool=t.isbool)
    if all(isinstance(d, int) for d in t.shape) and all(isinstance(d, int) for d in tgt):
        tot = 1
        for d in t.shape:
            tot *= d
        if -1 in tgt:
            rest = 1
            for x in tgt:
                rest *= x if x != -1 else 1
            tgt[tgt.index(-1)] = tot // rest

        def fn(*idx):
            lin = 0
            for i, d in zip(idx, tgt):
                c = lift(i).const_value()
                if c is None:
                    return _sym_reshape(t, tgt, idx)
                lin = lin * d + int(c)
            full = []
            for d in reversed(t.shape):
                full.append(P.const(lin % d))
                lin //= d
            return t.at(*reversed(full))
        return T(tgt, fn, np_=t.np, isbool=t.isbool)
    # removing or adding unit dimensions, -1 for the only unknown
    core = [d for d in t.shape if not dim1(d)]
    tcore = [d for d in tgt if not dim1(d)]
    if len(core) == len(tcore):
        res = [c if x == -1 else x for c, x in zip(core, tcore)]
        for a, b in zip(core, res):
            need_eq(I, a, b)
        it = iter(core)
        tgt2 = [x if dim1(x) else next(it) for x in tgt]

        def fn(*idx):
            vals = iter([i for i, d in zip(idx, tgt2) if not dim1(d)])
            return t.at(*[ZERO if dim1(d) else next(vals) for d in t.shape])
        return T(tgt2, fn, np_=t.np, isbool=t.isbool)
    filtered = any(isinstance(d, (FAxis, CatAxis)) for d in core)
    if len(tgt) == 1 and len(core) >= 2 and not filtered:
        # row-major order
        ds = [lift(d) for d in core]
        tot = ONE
        for d in ds:
            tot = tot * d
        if tgt[0] != -1:
            need_eq(I, tgt[0], norm(tot))

        def fn(k):
            k = lift(k)
            m = k.single()
            if m and m[0] == 1 and not m[1] and len(m[2]) == 1 and m[2][0][1] == 1 and m[2][0][0].name == "ravel":
                a = m[2][0][0].args
                r = len(ds)
                if len(a) == 2 * r and all(x.key == y.key for x, y in zip(a[r:], ds)):
                    q = iter(a[:r])
                    return t.at(*[ZERO if dim1(d) else lift(next(q)) for d in t.shape])
            q = []
            for d in reversed(ds[1:]):
                q.append(alg.app("mod", k, d))
                k = alg.app("floordiv", k, d)
            q = iter([k] + q[::-1])
            return t.at(*[ZERO if dim1(d) else next(q) for d in t.shape])
        return T((norm(tot),), fn, np_=t.np, isbool=t.isbool)
    if len(core) == 1 and len(tcore) >= 2 and not filtered and -1 not in tgt:
        ds = [lift(d) for d in tcore]
        tot = ONE
        for d in ds:
            tot = tot * d
        need_eq(I, core[0], norm(tot))

        def fn(*idx):
            k = alg.app("ravel", *[lift(i) for i, d in zip(idx, tgt) if not dim1(d)], *ds)
            return t.at(*[ZERO if dim1(d) else k for d in t.shape])
        return T(tgt, fn, np_=t.np, isbool=t.isbool)
    raise Unsupported("reshape")


def _sym_reshape(t, tgt, idx):
    raise Unsupported("symbolic index into a reshaped array")


# ------------------------------------------------------------------------- library functions
BF = {}


def bf(*names):
    def d(f):
        for n in names:
            BF[n] = f
        return f
    return d


def unary_fn(name, f):
    def g(I, a, k):
        x = a[0]
        r = ew(I, lambda v: inf_unary(name, v) if isinstance(v, (_Inf, _Nan)) else norm(f(lift(num(v)))), x)
        return r
    BF[name] = g


def inf_unary(name, v):
    if isinstance(v, _Nan):
        return NAN
    if name == "exp":
        return INF if v is INF else 0
    if name in ("abs",):
        return INF
    if name in ("sign", "erf", "tanh"):
        return v.sign
    if name in ("sqrt", "log") and v is INF:
        return INF
    if name == "negative":
        return NINF if v is INF else INF
    raise Unsupported(f"{name} of infinity")


for _n, _f in {
    "exp": alg.exp, "log": alg.log, "sin": alg.sin, "cos": alg.cos, "sqrt": alg.sqrt, "abs": alg.absv, "square": lambda x: x * x,
    "sign": lambda x: alg.app("sign", x), "erf": lambda x: alg.app("erf", x), "negative": lambda x: -x,
    "log10": lambda x: alg.log(x) / alg.log(P.const(10)), "real": lambda x: x, "tanh": lambda x: alg.app("tanh", x),
}.items():
    unary_fn(_n, _f)
BF["absolute"] = BF["abs"]
BF["real"] = lambda I, a, k: a[0].attrs["re"] if isinstance(a[0], Opaque) and a[0].tag == "complex" else ew(I, lambda v: v, a[0])
BF["imag"] = lambda I, a, k: a[0].attrs["im"] if isinstance(a[0], Opaque) and a[0].tag == "complex" else ew(I, lambda v: 0, a[0])


def _binary(name, op):
    BF[name] = lambda I, a, k: binop(I, op, a[0], a[1])


for _n, _o in {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "power": "Pow", "true_divide": "Div"}.items():
    _binary(_n, _o)


def _isclose(I, a, k):
    x, y = a[0], a[1]
    rtol, atol = kwarg(a, k, 2, "rtol", Fraction(1, 10 ** 5)), kwarg(a, k, 3, "atol", Fraction(1, 10 ** 8))
    d = BF["abs"](I, [binop(I, "Sub", x, y)], {})
    return compare(I, "LtE", d, binop(I, "Add", atol, binop(I, "Mult", rtol, BF["abs"](I, [y], {}))))


BF["isclose"] = _isclose
BF["allclose"] = lambda I, a, k: BF["all"](I, [_isclose(I, a, k)], {})


def _minmax(name):
    def el(I):
        def f(x, y):
            x, y = num(x), num(y)
            if isinf_(x) or isinf_(y):
                a, b = (x, y) if isinf_(x) else (y, x)
                return b if (a.sign > 0) == (name == "min") else a
            if name == "max" and getattr(I, "ignore_floor", False):
                # guard against tiny arguments of roots: assumed inactive for positive arguments
                for u, w in ((x, y), (y, x)):
                    c = lift(u).const_value()
                    if c is not None and 0 < c <= Fraction(1, 10 ** 20) and lift(w).const_value() is None and I.implied(alg.gt(lift(w), 0)):
                        return w
            return norm(alg.app(name, lift(x), lift(y)))
        return f
    return el


for _n, _m in {"maximum": "max", "minimum": "min", "fmax": "max", "fmin": "min"}.items():
    BF[_n] = (lambda m: lambda I, a, k: ew(I, _minmax(m)(I), a[0], a[1]))(_m)


def _extreme(name):
    def f(I, a, k):
        t = a[0]
        axis = kwarg(a, k, 1, "axis")
        if isinstance(t, (list, tuple)):
            t = totensor(I, t)
        if not isinstance(t, T):
            return t

        def red(d, f_):
            if isinstance(d, int):
                if d == 0:
                    raise PyExc("ValueError", ("empty",))
                mono = getattr(extremum, "hook", None)
                if mono is not None and d > 3:
                    r = mono(name, d, f_)
                    if r is not None:
                        return r
                r = f_(ZERO)
                for j in range(1, d):
                    r = alg.app(name, r, f_(P.const(j)))
                return r
            return extremum(name, d, f_)
        return reduce_axes(t, axis, red)
    BF[name] = f


def extremum(name, d, f):
    """Maximum or minimum of f over an axis of symbolic length, keyed by the family."""
    if isinstance(d, (FAxis, CatAxis)):
        raise Unsupported("extremum over a filtered axis")
    mono = getattr(extremum, "hook", None)
    if mono is not None:
        r = mono(name, d, f)
        if r is not None:
            return r
    v = alg.fresh("x", int=True, nonneg=True)
    body = f(P.atom(v))
    # scaling by known positive factors is normalised away by the caller if needed
    return extremum_atom(name, d, v, body)


def extremum_atom(name, d, v, body):
    dd = 1 + max(body.depth, lift(d).depth)
    bv = alg._canon_bound(dd)
    if v not in body.leaves:
        return body
    b2 = alg.subs(body, {v: P.atom(bv)})
    return P.atom(alg.mk_atom("bind", "over_" + name, (bv, lift(d), b2)))


for _nm in ("max", "min"):
    def _rebuild(v, dom, body, _nm=_nm):
        return extremum_atom(_nm, dom, v, body)
    alg.BINDERS["over_" + _nm] = _rebuild
    _extreme(_nm)


@bf("sum")
def _sum(I, a, k):
    t = a[0]
    if isinstance(t, (list, tuple, SSeq)):
        t = totensor(I, t)
    r = tsum(t, kwarg(a, k, 1, "axis"))
    if k.get("squeeze") is False or k.get("keepdims") is True:
        for x in axes_of(t, kwarg(a, k, 1, "axis")):
            r = expand(r, x)
    return r


@bf("mean")
def _mean(I, a, k):
    t = a[0]
    if isinstance(t, (list, tuple, SSeq)):
        t = totensor(I, t)
    return tmean(t, kwarg(a, k, 1, "axis"))


@bf("std", "var")
def _std(I, a, k):
    raise Unsupported("std")


def variance(I, t, axis):
    m = tmean(t, axis)
    ax = axes_of(t, axis)
    mm = m
    for x in ax:
        mm = expand(mm, x)
    d = ew(I, lambda x, y: norm((lift(x) - lift(y)) * (lift(x) - lift(y))), t, mm)
    return tmean(d, axis)


BF["var"] = lambda I, a, k: variance(I, a[0], kwarg(a, k, 1, "axis"))
BF["std"] = lambda I, a, k: BF["sqrt"](I, [variance(I, a[0], kwarg(a, k, 1, "axis"))], {})


@bf("quantile")
def _quantile(I, a, k):
    t, q = a[0], a[1]
    axis = kwarg(a, k, 2, "axis")
    if not is_num(q):
        raise Unsupported("quantile levels")

    def red(d, f):
        v = alg.fresh("x", int=True, nonneg=True)
        body = f(P.atom(v))
        dd = 1 + max(body.depth, lift(d).depth, lift(q).depth)
        bv = alg._canon_bound(dd)
        return P.atom(alg.mk_atom("bind", "quantile", (bv, lift(d), alg.subs(body, {v: P.atom(bv)}), lift(q))))
    return reduce_axes(t, axis, red)


@bf("percentile")
def _percentile(I, a, k):
    return _quantile(I, [a[0], arith(I, "Div", a[1], 100)] + a[2:], k)


def _quant_rebuild(v, dom, body, q=None):
    raise Unsupported("substitution under a quantile")


@bf("any", "all")
def _any(I, a, k):
    raise Unsupported("any")


def _anyall(name):
    def f(I, a, k):
        t = a[0]
        if isinstance(t, (list, tuple, SSeq)):
            return b_anyall(name)(I, a, k)
        if isinstance(t, LazyIter):
            return b_anyall(name)(I, [t.force()], k)
        if not isinstance(t, T):
            return I.truth(t)
        g = [alg.fresh("i", int=True, nonneg=True) for _ in t.shape]
        c = lf(t.at(*[P.atom(x) for x in g]))
        if isinstance(c, P):
            c = cnot(alg.eq(c, 0))
        if name == "all":
            c = cnot(c)
        if any(isinstance(d, (FAxis, CatAxis)) for d in t.shape):
            raise Unsupported("any over a filtered axis")
        e = I.exists([(x, lift(d)) for x, d in zip(g, t.shape)], c)
        e = cnot(e) if name == "all" else e
        return True if e.op == "true" else False if e.op == "false" else e
    BF[name] = f


_anyall("any")
_anyall("all")


@bf("mm")
def _mm(I, a, k):
    ts = list(a)
    for j, nme in enumerate("abcdefg"):
        if k.get("tr_" + nme) and j < len(ts):
            ts[j] = mat_transpose(ts[j])
    return m_mm(I, ts)


@bf("matmul", "dot")
def lab_matmul(I, a, k):
    x, y = a[0], a[1]
    if isinstance(x, T) and isinstance(y, T) and x.rank >= 2 and y.rank >= 2:
        return _mm(I, [x, y], k)
    if isinstance(x, T) and isinstance(y, T):
        if x.rank == 1 and y.rank == 1:
            need_eq(I, x.shape[0], y.shape[0])
            return norm(axis_sum(x.shape[0], lambda i: lift(x.at(i)) * lift(y.at(i))))
        if x.rank == 2 and y.rank == 1:
            return squeeze(_mm(I, [x, expand(y, 1)], k), 1)
        if x.rank == 1 and y.rank == 2:
            return squeeze(_mm(I, [expand(x, 0), y], k), 0)
    return _mm(I, a, k)


@bf("outer")
def _outer(I, a, k):
    x = a[0]
    y = a[1] if len(a) > 1 else x
    if is_zero_val(x) or is_zero_val(y):
        return T((1, 1), lambda i, j: ZERO)
    if isinstance(x, T) and x.rank == 1:
        x = expand(x, 1)
    if isinstance(y, T) and y.rank == 1:
        y = expand(y, 1)
    return m_mm(I, [x, mat_transpose(y)])


@bf("transpose")
def _transpose(I, a, k):
    t = a[0]
    perm = kwarg(a, k, 1, "perm")
    if not isinstance(t, T):
        return t
    if perm is None:
        return mat_transpose(t)
    return transpose(t, [p % t.rank for p in I.aslist(perm)])


BF["t"] = _transpose


@bf("chol", "cholesky")
def _chol(I, a, k):
    return m_chol(I, a[0])


@bf("pd_inv", "inv")
def _inv(I, a, k):
    return m_inv(I, a[0])


BF["cholsolve"] = BF["cholesky_solve"] = lambda I, a, k: m_cholsolve(I, a[0], a[1])
BF["solve"] = lambda I, a, k: m_mm(I, [m_anyinv(I, square(I, a[0], "solve")), a[1]])


@bf("trisolve", "triangular_solve")
def _trisolve(I, a, k):
    t = square(I, a[0], "trisolve")
    lower = k.get("lower_a", True)
    ok = t.prov and ((t.prov[0] in ("chol", "cholinv") and lower is True) or (t.prov[0] == "tr" and t.prov[1].prov and t.prov[1].prov[0] in ("chol", "cholinv") and lower is False))
    if not ok:
        raise Unsupported("triangular solve with an unknown triangular matrix")
    b = a[1]
    if b.prov and b.prov[0] == "diag":
        o = b.prov[1].at(GENS[0])
        if o.const_value() == 1:
            return m_anyinv(I, t)
    return m_mm(I, [m_anyinv(I, t), b])


@bf("logdet")
def _logdet(I, a, k):
    return m_logdet(I, a[0])


@bf("iqf")
def _iqf(I, a, k):
    b = a[1]
    c = a[2] if len(a) > 2 else b
    if is_zero_val(b) or is_zero_val(c):
        return T((1, 1), lambda i, j: ZERO)
    return m_mm(I, [mat_transpose(b), m_inv(I, a[0]), c])


@bf("trace")
def _trace(I, a, k):
    t = a[0]
    ax1, ax2 = kwarg(a, k, 1, "axis1", -2), kwarg(a, k, 2, "axis2", -1)
    r = t.rank
    ax1, ax2 = ax1 % r, ax2 % r
    need_eq(I, t.shape[ax1], t.shape[ax2])
    keep = [x for x in range(r) if x not in (ax1, ax2)]

    def fn(*idx):
        full = [None] * r
        for x, i in zip(keep, idx):
            full[x] = i

        def body(i):
            f = list(full)
            f[ax1] = i
            f[ax2] = i
            return lift(t.at(*f))
        return axis_sum(t.shape[ax1], body)
    return T([t.shape[x] for x in keep], fn) if keep else norm(fn())


@bf("diag")
def _diag(I, a, k):
    t = a[0]
    if isinstance(t, T) and t.rank == 2:
        return T((t.shape[0],), lambda i: t.at(i, i))
    return m_diag(I, t)


BF["diag_extract"] = _diag


@bf("eye")
def _eye(I, a, k):
    xs = [x for x in a if not (isinstance(x, Opaque) and x.tag == "dtype") and not isinstance(x, LibType)]
    if len(xs) == 1 and isinstance(xs[0], T):
        return m_eye(xs[0].shape[-2], xs[0].shape[-1]) if not dim_eq(xs[0].shape[-2], xs[0].shape[-1]) else m_eye(xs[0].shape[-1])
    if len(xs) == 1:
        return m_eye(xs[0])
    return m_eye(xs[0], xs[1]) if not dim_eq(xs[0], xs[1]) else m_eye(xs[0])


def _filled(v):
    def f(I, a, k):
        xs = []
        for x in a:
            if isinstance(x, Opaque) and x.tag == "dtype" or isinstance(x, LibType):
                continue
            if isinstance(x, T) and not xs:
                return const_t(x.shape, v, np_=True)
            if isinstance(x, tuple) or isinstance(x, list):
                xs.extend(x)
            else:
                xs.append(x)
        return const_t(tuple(xs), v, np_=True)
    return f


BF["zeros"], BF["ones"] = _filled(0), _filled(1)
BF["zeros_like"], BF["ones_like"] = _filled(0), _filled(1)


def _empty(I, a, k):
    """Arbitrary entries."""
    t = _filled(0)(I, a, k)
    nm = alg.fresh("undef").name
    return T(t.shape, lambda *i: alg.app(nm, *i), np_=True)


BF["empty"] = BF["empty_like"] = _empty
BF["zero"] = lambda I, a, k: ZERO
BF["one"] = lambda I, a, k: 1


@bf("fill")
def _fill(I, a, k):
    return _filled(a[0])(I, a[1:], k)


BF["full"] = lambda I, a, k: _filled(a[1])(I, a[:1], k)


@bf("where")
def _where(I, a, k):
    if len(a) != 3:
        raise Unsupported("where")

    def f(c, x, y):
        c = lf(c) if isinstance(c, (bool, Cond)) else lf(I.truth(c))
        if c.op == "true":
            return x
        if c.op == "false":
            return y
        return norm(alg.ite(c, lift(num(x)), lift(num(y))))
    return ew(I, f, *a)


@bf("stack")
def _stack(I, a, k):
    axis = k.get("axis", 0)
    if len(a) == 1 and isinstance(a[0], (list, tuple, SSeq, LazyIter)) :
        xs = a[0].force() if isinstance(a[0], LazyIter) else a[0]
    else:
        xs = star_list(a)
    return stack(I, xs, axis)


def star_list(a):
    if any(isinstance(x, StarSeq) for x in a):
        segs = []
        o = True
        for x in a:
            segs += x.seq.segs if isinstance(x, StarSeq) else [Seg((), TRUE, x)]
            if isinstance(x, StarSeq):
                o = o and getattr(x.seq, "ordered", True)
        r = SSeq(segs)
        r.ordered = o
        return r
    return list(a)


@bf("concat", "concatenate")
def _concat(I, a, k):
    axis = k.get("axis", 0)
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = a[0]
    xs = star_list(a)
    if isinstance(xs, SSeq):
        raise Unsupported("concatenation of symbolically many arrays")
    return concat(I, xs, axis)


BF["hstack"] = lambda I, a, k: concat(I, I.aslist(a[0]), -1)
BF["concat2d"] = None


@bf("flatten")
def _flatten(I, a, k):
    if len(a) > 1:
        return tuple(reshape(I, x, -1) for x in a)
    return reshape(I, a[0], -1)


@bf("reshape")
def _reshape(I, a, k):
    return reshape(I, a[0], *a[1:])


@bf("flip", "flipud")
def _flip(I, a, k):
    t = totensor(I, a[0])
    axis = kwarg(a, k, 1, "axis")
    axes = range(t.rank) if axis is None else [axis % t.rank]
    for x in axes:
        if isinstance(t.shape[x], (FAxis, CatAxis)):
            raise Unsupported("flip of a filtered axis")
    return T(t.shape, lambda *i: t.at(*[lift(d) - 1 - lift(j) if x in axes else j for x, (j, d) in enumerate(zip(i, t.shape))]), np_=t.np, isbool=t.isbool, isint=t.isint)


@bf("squeeze")
def _squeeze(I, a, k):
    return squeeze(a[0], kwarg(a, k, 1, "axis"))


@bf("expand_dims")
def _expand(I, a, k):
    return expand(a[0], kwarg(a, k, 1, "axis", 0), k.get("times", 1))


@bf("uprank")
def _uprank(I, a, k):
    rk = kwarg(a, k, 1, "rank", 2)
    t = a[0]
    while (t.rank if isinstance(t, T) else 0) < rk:
        t = expand(t, t.rank if isinstance(t, T) else 0)
    return t


@bf("dense", "to_numpy", "asarray", "array", "cast", "convert", "copy", "ascontiguousarray", "atleast_1d", "asanyarray", "densify")
def _ident(I, a, k):
    raise Unsupported("identity")


def _dense(I, a, k):
    if len(a) > 1:
        return tuple(_dense(I, [x], k) for x in a)
    x = a[0]
    if isinstance(x, (list, tuple, SSeq, range, SRange)):
        return totensor(I, x)
    return x


def _tonumpy(I, a, k):
    if len(a) > 1:
        return tuple(_tonumpy(I, [x], k) for x in a)
    x = _dense(I, a, k)
    if isinstance(x, T):
        return T(x.shape, x.fn, np_=True, isbool=x.isbool, prov=x.prov)
    return x


BF["dense"] = BF["densify"] = _dense
BF["to_numpy"] = _tonumpy
for _n in ("asarray", "array", "copy", "ascontiguousarray", "asanyarray"):
    BF[_n] = (lambda I, a, k: cast_(I, k["dtype"], _tonumpy(I, a[:1], {})) if "dtype" in k else _tonumpy(I, a[:1], {}))


def _cast(I, a, k):
    return cast_(I, a[0], a[1])


BF["cast"] = _cast
BF["atleast_1d"] = lambda I, a, k: expand(a[0], 0) if not isinstance(a[0], T) else a[0]


@bf("shape")
def _shape(I, a, k):
    t = a[0]
    if isinstance(t, (list, tuple)):
        t = totensor(I, t)
    s = tattr(I, t, "shape") if isinstance(t, T) else ()
    ds = [x for x in a[1:]]
    if ds:
        r = tuple(s[d] for d in ds)
        return r[0] if len(r) == 1 else r
    return s


@bf("shape_matrix")
def _shape_matrix(I, a, k):
    s = tattr(I, a[0], "shape") if isinstance(a[0], T) else (1, 1)
    s = s[-2:]
    if len(a) > 1:
        r = tuple(s[d] for d in a[1:])
        return r[0] if len(r) == 1 else r
    return s


BF["rank"] = lambda I, a, k: totensor(I, a[0]).rank if isinstance(a[0], (T, list, tuple)) else 0
BF["ndim"] = BF["rank"]
BF["length"] = lambda I, a, k: size_axes(a[0], None) if isinstance(a[0], T) else 1
BF["size"] = BF["length"]
BF["dtype"] = lambda I, a, k: Opaque("dtype")
BF["promote_dtypes"] = lambda I, a, k: Opaque("dtype")
BF["jit"] = lambda I, a, k: a[0] if a else LibFn("jit", lambda I, a2, k2: a2[0])
BF["isinf"] = lambda I, a, k: ew(I, lambda v: isinstance(v, _Inf), a[0], isbool=True)
BF["isnan"] = lambda I, a, k: ew(I, lambda v: isinstance(v, _Nan), a[0], isbool=True)
BF["isfinite"] = lambda I, a, k: ew(I, lambda v: not isinstance(v, (_Inf, _Nan)), a[0], isbool=True)


@bf("linspace")
def _linspace(I, a, k):
    xs = [x for x in a if not (isinstance(x, Opaque) and x.tag == "dtype") and not isinstance(x, LibType)]
    lo, hi = lift(xs[0]), lift(xs[1])
    n = xs[2] if len(xs) > 2 else k.get("num", 50)
    if isinstance(n, Fraction):
        n = int(n)
    if isinstance(n, int):
        st = (hi - lo) / lift(n - 1) if n > 1 else ZERO
    else:
        st = (hi - lo) / (lift(n) - 1)
    return T((n,), lambda i: lo + i * st, np_=True)


@bf("range", "arange")
def _range(I, a, k):
    xs = [x for x in a if not (isinstance(x, Opaque) and x.tag == "dtype") and not isinstance(x, LibType)]
    r = b_range(I, xs, {})
    if isinstance(r, range):
        return T((len(r),), lambda i: P.const(r.start) + i * r.step, np_=True, isint=True)
    if isinstance(r, SRange):
        return T((norm(r.n),), lambda i: r.start + i, np_=True, isint=True)
    return totensor(I, r)


@bf("take")
def _take(I, a, k):
    t, ix = a[0], a[1]
    axis = kwarg(a, k, 2, "axis", 0)
    if isinstance(ix, tuple):
        ix = list(ix)
    if isinstance(t, (list, tuple)):
        t = totensor(I, t)
    h = getattr(I, "take_hook", None)
    if h is not None:
        r = h(I, t, ix, axis)
        if r is not None:
            return r
    return t_getitem(I, t, tuple([slice(None)] * (axis % t.rank)) + (ix,))


BF["bvn_cdf"] = lambda I, a, k: ew(I, lambda x, y, r: norm(alg.app("bvn_cdf", lift(x), lift(y), lift(r))), *a)
BF["ceil"] = lambda I, a, k: ew(I, lambda x: _ceil(x), a[0])
BF["floor"] = lambda I, a, k: ew(I, lambda x: norm(-lift(_ceil(norm(-lift(x))))), a[0])


def _ceil(x):
    if isinstance(x, (int, Fraction)):
        import math
        return math.ceil(x)
    if alg._is_int_term(x):
        return x
    alg.INTFUNS.add("ceil")
    return alg.app("ceil", x)


from . import smt as _smt

_smt.EXTRA["ceil"] = lambda a: [alg.ge(P.atom(a), a.args[0]), alg.lt(P.atom(a), a.args[0] + 1)]
_smt.EXTRA["floordiv"] = lambda a: [alg.le(P.atom(a) * a.args[1], a.args[0]), alg.lt(a.args[0], (P.atom(a) + 1) * a.args[1])] if alg.known_pos(a.args[1]) else []
_smt.EXTRA["mod"] = lambda a: [alg.ge(P.atom(a), 0), alg.lt(P.atom(a), a.args[1])] if alg.known_pos(a.args[1]) else []


# random numbers -------------------------------------------------------------
def state_of(x):
    return isinstance(x, Opaque) and x.tag == "state"


def new_state(s):
    return Opaque("state", id=alg.app("next_state", s.attrs["id"]))


def gstate(I):
    s = getattr(I, "gstate", None)
    if s is None:
        s = Opaque("state", id=alg.sym("gstate"))
        I.gstate = s
    return s


BF["global_random_state"] = lambda I, a, k: gstate(I)
BF["create_random_state"] = lambda I, a, k: Opaque("state", id=alg.app("seed", lift(kwarg(a, k, 1, "seed", 0))))


@bf("set_global_random_state")
def _sgs(I, a, k):
    I.gstate = a[0]


def noise(I, s, shape):
    """Standard normal draws, a function of the random state."""
    i = s.attrs["id"]
    tag = "|".join(dim_key(d) for d in shape)
    return T(shape, lambda *idx: alg.app("eps", i, *idx))


@bf("randn")
def _randn(I, a, k):
    xs = list(a)
    st = None
    if xs and state_of(xs[0]):
        st = xs.pop(0)
    xs = [x for x in xs if not (isinstance(x, Opaque) and x.tag == "dtype") and not isinstance(x, LibType)]
    if len(xs) == 1 and isinstance(xs[0], T):
        sh = xs[0].shape
    elif len(xs) == 1 and is_num(xs[0]) and st is None and len(a) == 1 and not isinstance(xs[0], int):
        sh = ()
    else:
        sh = tuple(xs)
    s = st or gstate(I)
    t = noise(I, s, sh)
    n = new_state(s)
    if st is None:
        I.gstate = n
        return t if sh else scal(t)
    return n, t


@bf("sample")
def _sample(I, a, k):
    xs = list(a)
    st = None
    if state_of(xs[0]):
        st = xs.pop(0)
    s = st or gstate(I)
    n = kwarg(xs, k, 1, "num", 1)
    L = m_chol(I, xs[0])
    r = m_mm(I, [L, noise(I, s, (L.shape[1], n))])
    if st is None:
        I.gstate = new_state(s)
        return r
    return new_state(s), r


CONSTS = {"pi": lambda: alg.pi(), "inf": lambda: INF, "nan": lambda: NAN, "log_2_pi": lambda: alg.log(alg.pi() * 2), "epsilon": lambda: alg.sym("epsilon", pos=True), "newaxis": lambda: None, "e": lambda: alg.exp(ONE)}


# ------------------------------------------------------------------------- types
def t_numeric(v):
    return isinstance(v, T) or is_num(v) or isinstance(v, (_Inf, _Nan))


def t_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, P) and alg._is_int_term(v) and v.const_value() is None)


def t_float(v):
    return isinstance(v, Fraction) or (isinstance(v, P) and not t_int(v)) or isinstance(v, (_Inf, _Nan))


TYPES = {
    "object": (0, lambda v: True),
    "Numeric": (2, t_numeric),
    "Number": (2.5, lambda v: is_num(v) or isinstance(v, (_Inf, _Nan))),
    "Int": (3, t_int), "int": (3, t_int), "Float": (3, t_float), "float": (3, t_float),
    "bool": (3.5, lambda v: isinstance(v, (bool, Cond))), "Bool": (3.5, lambda v: isinstance(v, (bool, Cond))),
    "str": (3, lambda v: isinstance(v, (str, SStr)) or isinstance(v, Opaque) and v.tag == "fstring"),
    "list": (3, lambda v: isinstance(v, list) or isinstance(v, SSeq) and v.kind == "list"),
    "tuple": (3, lambda v: isinstance(v, tuple) or isinstance(v, SSeq) and v.kind == "tuple"),
    "set": (3, lambda v: isinstance(v, set) or isinstance(v, SSeq) and v.kind == "set"),
    "dict": (3, lambda v: isinstance(v, (dict, SMap, SDict))),
    "RandomState": (3, state_of),
    "AbstractMatrix": (3, lambda v: False),
    "ndarray": (3, lambda v: isinstance(v, T)), "NPNumeric": (3, lambda v: isinstance(v, T)),
    "SimpleNamespace": (3, lambda v: isinstance(v, Obj) and v.cls == "SimpleNamespace"),
    "Struct": (3, lambda v: isinstance(v, Opaque) and v.tag == "struct"),
    "Model": (2, lambda v: (isinstance(v, Opaque) and v.tag == "model") or isinstance(v, Obj) and isinstance(v.cls, PyClass) and any(getattr(b, "name", "") == "Model" for b in v.cls.ext_bases())),
    "Normal": (3, lambda v: isinstance(v, Obj) and v.cls == "Normal"),
    "Callable": (1, lambda v: isinstance(v, (PyFunc, Bound, LibFn, Multi, PyClass))),
    "function": (1, lambda v: isinstance(v, (PyFunc, Bound, LibFn))),
    "namedtuple": (3, lambda v: isinstance(v, Obj) and v.cls == "namedtuple"),
}


def type_rank(I, v, t):
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "union":
        rs = [type_rank(I, v, x) for x in t[1]]
        rs = [r for r in rs if r is not None]
        return max(rs) - 0.25 if rs else None
    if t is None:
        return 3 if v is None else None
    if isinstance(t, PyClass):
        if isinstance(v, Obj) and isinstance(v.cls, PyClass) and t in v.cls.mro():
            return 3 - 0.01 * v.cls.mro().index(t)
        return None
    if isinstance(t, LibType):
        q = TYPES.get(t.name)
        if q is None:
            raise Unsupported(f"type {t.name}")
        return q[0] if q[1](v) else None
    if isinstance(t, LibFn) and t.name in TYPES:
        return TYPES[t.name][0] if TYPES[t.name][1](v) else None
    if isinstance(t, tuple):
        return type_rank(I, v, ("union", list(t)))
    if isinstance(t, Obj) and t.cls == "promised":
        return type_rank(I, v, t.attrs["type"])
    raise Unsupported(f"type {t!r}")


def b_isinstance(I, a, k):
    return type_rank(I, a[0], a[1]) is not None


# ------------------------------------------------------------------------- builtins
def b_len(I, a, k):
    x = a[0]
    if isinstance(x, (list, tuple, str, dict, set, frozenset, range)):
        return len(x)
    if isinstance(x, T):
        return norm(dim_size(x.shape[0]))
    if isinstance(x, SRange):
        return norm(x.n)
    if isinstance(x, SSeq):
        if x.kind == "set":
            h = getattr(I, "set_len", None)
            if h is not None:
                return h(I, x)
            raise Unsupported("size of a symbolic set")
        return I.count(x)
    if isinstance(x, Obj):
        if isinstance(x.cls, PyClass) and x.cls.find("__len__"):
            return I.callm(x, "__len__")
        if x.cls == "namedtuple":
            return len(x.attrs)
    if isinstance(x, Opaque):
        return I.call(valattr(I, x, "__len__"), [], {})
    if isinstance(x, Bag):
        if getattr(x, "lenph", None) is None or any(bagseg(y) for y in x.items):
            raise Unsupported("length of a growing collection")
        return norm(x.lenph + len(x.items))
    raise PyExc("TypeError", ("len",))


def b_range(I, a, k):
    xs = [int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in a]
    if all(isinstance(x, int) for x in xs):
        return range(*xs)
    if any(not t_int(x) for x in xs):
        if any(isinstance(x, (Fraction, str, type(None))) for x in xs):
            raise PyExc("TypeError", ("range",))
    if len(xs) == 3:
        if xs[2] == -1:
            n = norm(lift(xs[0]) - lift(xs[1]))
            if not I.decide(alg.ge(lift(n), 0)):
                return range(0)
            at = alg.fresh("i", int=True, nonneg=True)
            return SSeq([Seg(((at, lift(n)),), TRUE, norm(lift(xs[0]) - P.atom(at)))])
        if xs[2] != 1:
            raise Unsupported("range step")
        xs = xs[:2]
    lo, hi = (0, xs[0]) if len(xs) == 1 else xs
    n = norm(lift(hi) - lift(lo))
    if isinstance(n, int):
        if isinstance(lo, int):
            return range(lo, lo + max(n, 0))
        return [norm(lift(lo) + j) for j in range(max(n, 0))]
    if not alg.known_nonneg(lift(n)) and not I.decide(alg.ge(lift(n), 0)):
        return range(0)
    return SRange(lift(lo), lift(n))


def force(x):
    return x.force() if isinstance(x, LazyIter) else x


def b_zip(I, a, k):
    a = [force(x) for x in a]
    if len(a) == 1 and isinstance(a[0], StarSeq):
        s = a[0].seq
        if not s.segs:
            return []
        n = {len(g.value) if isinstance(g.value, (tuple, list)) else None for g in s.segs}
        if len(n) != 1 or None in n:
            raise Unsupported("zip")
        out = []
        for j in range(n.pop()):
            r = SSeq([Seg(g.bounds, g.guard, g.value[j]) for g in s.segs], "tuple")
            r.ordered = getattr(s, "ordered", True)
            c = r.concrete()
            out.append(tuple(c) if c is not None else r)
        return out
    cs = []
    for x in a:
        try:
            cs.append(I.aslist(x))
        except Unsupported:
            cs = None
            break
    if cs is not None:
        return [tuple(z) for z in zip(*cs)]
    # symbolic: equal lengths
    ps = [elem_list(I, x) for x in a]
    if any(len(p) != 1 for p in ps):
        raise Unsupported("zip of symbolic sequences")
    d0 = ps[0][0][0]
    dmin = d0
    for p in ps[1:]:
        d = p[0][0]
        if dim_eq(d, dmin):
            continue
        if isinstance(d, (FAxis, CatAxis)) or isinstance(dmin, (FAxis, CatAxis)):
            raise Unsupported("zip of filtered sequences")
        if not I.decide(alg.ge(lift(d), lift(dmin))):
            dmin = d
    at = alg.fresh("i", int=True, nonneg=True)
    if isinstance(dmin, FAxis):
        return SSeq([Seg(((at, lift(dmin.base)),), dmin.pred(P.atom(at)), tuple(p[0][1](P.atom(at)) for p in ps))])
    return SSeq([Seg(((at, lift(dmin)),), TRUE, tuple(p[0][1](P.atom(at)) for p in ps))])


def b_enumerate(I, a, k):
    x = force(a[0])
    st = kwarg(a, k, 1, "start", 0)
    try:
        return [(st + j, v) for j, v in enumerate(I.aslist(x))]
    except Unsupported:
        pass
    if getattr(seq_of(x), "ordered", True) is False:
        raise Unsupported("order of a collected sequence")
    if isinstance(x, SSeq):
        cum = ZERO
        segs = []
        for s in x.segs:
            if not s.bounds:
                if s.guard.op != "true":
                    raise Unsupported("enumerate")
                segs.append(Seg((), TRUE, (norm(cum + st), s.value)))
                cum = cum + 1
            elif len(s.bounds) == 1 and s.guard.op == "true":
                segs.append(Seg(s.bounds, TRUE, (norm(cum + st + P.atom(s.bounds[0][0])), s.value)))
                cum = cum + s.bounds[0][1]
            else:
                raise Unsupported("enumerate of a filtered sequence")
        return SSeq(segs)
    s = seq_of(x)
    g = s.segs[0]
    return SSeq([Seg(g.bounds, TRUE, (norm(P.atom(g.bounds[0][0]) + st), g.value))])


def b_sum(I, a, k):
    x = force(a[0])
    st = kwarg(a, k, 1, "start", 0)
    tot = st
    for s in seq_of(x).segs:
        if not s.bounds:
            if s.guard.op != "true" and not I.decide(s.guard):
                continue
            tot = I.binop("Add", tot, s.value)
        elif isinstance(s.value, T):
            s2 = I.rename_seg(s)
            v = s2.value
            t = T(v.shape, lambda *idx, s2=s2, v=v: I.big_sum(s2, TRUE, lift(v.at(*idx))))
            tot = I.binop("Add", tot, t)
        elif isinstance(s.value, (Cond, bool)) or is_num(s.value):
            tot = I.binop("Add", tot, norm(I.simp(I.big_sum(s, TRUE, lift(num(s.value))))))
        else:
            h = I.obj_fold.get(s.value.cls.name if isinstance(s.value, Obj) and isinstance(s.value.cls, PyClass) else None)
            if h is None:
                raise Unsupported("sum of symbolic objects")
            tot = h.total(I, tot, s)
    return tot


def b_minmax(name):
    def f(I, a, k):
        if len(a) == 1 and not isinstance(a[0], StarSeq):
            xs = force(a[0])
        else:
            xs = star_list(a)
        key = k.get("key")
        sq = seq_of(xs)
        c = None
        if sq.concrete() is not None:
            c = sq.concrete()
        if c is not None:
            if not c:
                if "default" in k:
                    return k["default"]
                raise PyExc("ValueError", ("empty sequence",))
            if key is not None:
                raise Unsupported("key")
            r = c[0]
            if all(isinstance(x, str) for x in c):
                return max(c) if name == "max" else min(c)
            for x in c[1:]:
                if isinstance(r, T) or isinstance(x, T):
                    raise Unsupported("max of arrays")
                r = _minmax(name)(I)(r, x)
            return r
        h = getattr(I, "minmax_hook", None)
        if h is not None:
            return h(I, name, sq, k)
        if len(sq.segs) == 1 and len(sq.segs[0].bounds) == 1 and sq.segs[0].guard.op == "true" and is_num(sq.segs[0].value):
            (at, d), v = sq.segs[0].bounds[0], lift(sq.segs[0].value)
            if not I.decide(alg.gt(d, 0)):
                if "default" in k:
                    return k["default"]
                raise PyExc("ValueError", ("empty sequence",))
            return extremum(name, d, lambda i: alg.subs(v, {at: lift(i)}))
        raise Unsupported(f"{name} of a symbolic sequence")
    return f


def b_anyall(name):
    def f(I, a, k):
        x = force(a[0])
        cs = []
        for s in seq_of(x).segs:
            if not s.bounds:
                t = I.truth(s.value)
                t = lf(t)
                c = cand(s.guard, t) if name == "any" else cor(cnot(s.guard), t)
            else:
                s2 = I.rename_seg(s)
                t = lf(I.truth(s2.value))
                e = I.exists(s2.bounds, cand(s2.guard, t if name == "any" else cnot(t)))
                c = e if name == "any" else cnot(e)
            if name == "any" and c.op == "true":
                return True
            if name == "all" and c.op == "false":
                return False
            cs.append(c)
        r = cor(*cs) if name == "any" else cand(*cs)
        return True if r.op == "true" else False if r.op == "false" else r
    return f


def b_list(I, a, k):
    if not a:
        return []
    x = force(a[0])
    if isinstance(x, SSeq) and x.concrete() is None:
        r = SSeq(x.segs, "list")
        for n in ("ordered", "ident"):
            if hasattr(x, n):
                setattr(r, n, getattr(x, n))
        if x.kind == "set":
            r.fromset = True
        return r
    if isinstance(x, (SRange, T)):
        s = seq_of(x)
        c = s.concrete()
        return list(c) if c is not None else SSeq(s.segs)
    return I.aslist(x)


def b_tuple(I, a, k):
    r = b_list(I, a, k)
    if isinstance(r, list):
        return tuple(r)
    r.kind = "tuple"
    return r


def b_set(I, a, k):
    if not a:
        return set()
    x = force(a[0])
    s = seq_of(x)
    c = s.concrete()
    if c is not None and all(isinstance(v, (str, int)) and not isinstance(v, bool) for v in c):
        return set(c)
    h = getattr(I, "mkset", None)
    if h is not None:
        return h(I, s)
    return mk_set(I, s.segs)


def mk_set(I, segs):
    """Set of the elements; without duplicates when they are known one by one."""
    r = SSeq(segs, "set")
    c = r.concrete()
    if c is None:
        return r
    out = []
    for v in c:
        if not any(I.decide_value(I.compare("Eq", v, w)) for w in out):
            out.append(v)
    return SSeq([Seg((), TRUE, v) for v in out], "set")


def b_sorted(I, a, k):
    x = force(a[0])
    if isinstance(x, SSeq) and x.concrete() is None:
        h = getattr(I, "sorted_hook", None)
        if h is not None:
            return h(I, x, k)
        raise Unsupported("sorting a symbolic sequence")
    xs = I.aslist(x)
    kf = k.get("key")
    ks = [I.call(kf, [v], {}) if kf else v for v in xs]
    if all(isinstance(v, (int, Fraction)) for v in ks) or all(isinstance(v, str) for v in ks):
        o = sorted(range(len(xs)), key=lambda j: ks[j], reverse=k.get("reverse") is True)
        return [xs[j] for j in o]
    # insertion sort with decisions
    out = []
    for j in range(len(xs)):
        pos = len(out)
        for p in range(len(out)):
            if I.decide_value(I.compare("Lt", ks[j], out[p][0])):
                pos = p
                break
        out.insert(pos, (ks[j], xs[j]))
    r = [v for _, v in out]
    if k.get("reverse") is True:
        r.reverse()
    return r


def b_map(I, a, k):
    f, x = a[0], force(a[1])
    if len(a) > 2:
        z = b_zip(I, a[1:], {})
        return SSeq([g for s in seq_of(z).segs for g in I.map_seg(s, lambda v: I.call(f, list(v), {}))])
    out = []
    for s in seq_of(x).segs:
        out += I.map_seg(s, lambda v: I.call(f, [v], {}))
    s = SSeq(out)
    c = s.concrete()
    return c if c is not None else s


def b_filter(I, a, k):
    f, x = a[0], force(a[1])
    out = []
    for s in seq_of(x).segs:
        out += I.map_seg(s, lambda v: v, (lambda v: v) if f is None else (lambda v: I.call(f, [v], {})))
    s = SSeq(out)
    c = s.concrete()
    return c if c is not None else s


def b_reduce(I, a, k):
    f, x = a[0], force(a[1])
    c = seq_of(x).concrete()
    if c is None:
        nm = getattr(f, "name", "")
        if nm == "operator.add":
            if len(a) > 2:
                return b_sum(I, [x, a[2]], {})
            ne = getattr(I, "nonempty", None)
            if ne is None or not ne(seq_of(x)):
                n = I.count(seq_of(x))
                if not I.decide(alg.gt(lift(n), 0)):
                    raise PyExc("TypeError", ("reduce of an empty sequence",))
            return b_sum(I, [x, 0], {})
        h = getattr(I, "reduce_hook", None)
        if h is not None:
            r = h(I, f, seq_of(x), a[2:])
            if r is not NOCONTRACT:
                return r
        raise Unsupported("reduce over a symbolic sequence")
    c = list(c)
    if len(a) > 2:
        r = a[2]
    else:
        if not c:
            raise PyExc("TypeError", ("reduce of an empty sequence",))
        r = c.pop(0)
    for v in c:
        r = I.call(f, [r, v], {})
    return r


def b_int(I, a, k):
    x = num(a[0]) if a else 0
    if isinstance(x, T):
        x = scal(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, P):
        if alg._is_int_term(x):
            return x
        raise Unsupported("int of a real term")
    if isinstance(x, str):
        return int(x)
    raise PyExc("TypeError", ("int",))


def b_str(I, a, k):
    x = a[0] if a else ""
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, int) and not isinstance(x, bool):
        return str(x)
    return Opaque("fstring", parts=(x,))


def b_abs(I, a, k):
    return BF["abs"](I, a, k)


def b_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def b_getattr(I, a, k):
    try:
        return I.getattr(a[0], a[1])
    except PyExc as e:
        if e.name == "AttributeError" and len(a) > 2:
            return a[2]
        raise


def b_hasattr(I, a, k):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyExc as e:
        if e.name == "AttributeError":
            return False
        raise


def b_reversed(I, a, k):
    x = force(a[0])
    try:
        return list(reversed(I.aslist(x)))
    except Unsupported:
        parts = elem_list(I, x)
        if len(parts) != 1 or isinstance(parts[0][0], (FAxis, CatAxis)):
            raise
        d, f = parts[0]
        at = alg.fresh("i", int=True, nonneg=True)
        return SSeq([Seg(((at, lift(d)),), TRUE, f(lift(d) - 1 - P.atom(at)))])


def b_type(I, a, k):
    v = a[0]
    if isinstance(v, Obj):
        return v.cls
    for n in ("bool", "int", "float", "str", "list", "tuple", "dict", "set"):
        if TYPES[n][1](v):
            return LibType(n)
    if isinstance(v, T):
        return LibType("ndarray")
    raise Unsupported("type")


def b_next(I, a, k):
    x = force(a[0])
    s = seq_of(x)
    if s.concrete() is not None:
        c = s.concrete()
        if c:
            return c[0]
        if len(a) > 1:
            return a[1]
        raise PyExc("StopIteration", ())
    raise Unsupported("next")


def b_property(I, a, k):
    f = a[0]
    return Prop(f, None, getattr(f, "name", None))


def b_float(I, a, k):
    x = a[0] if a else 0
    if isinstance(x, str):
        if x.lower() in ("inf", "infinity"):
            return INF
        if x.lower() in ("-inf", "-infinity"):
            return NINF
        if x.lower() == "nan":
            return NAN
        return Fraction(x)
    if isinstance(x, T):
        x = scal(x)
    if isinstance(x, int):
        return Fraction(x)
    return num(x)


BUILTINS = {
    "len": LibFn("len", b_len), "range": LibFn("range", b_range), "zip": LibFn("zip", b_zip), "enumerate": LibFn("enumerate", b_enumerate),
    "sum": LibFn("sum", b_sum), "min": LibFn("min", b_minmax("min")), "max": LibFn("max", b_minmax("max")), "abs": LibFn("abs", b_abs),
    "any": LibFn("any", b_anyall("any")), "all": LibFn("all", b_anyall("all")), "list": LibType("list"), "tuple": LibType("tuple"),
    "set": LibType("set"), "frozenset": LibType("set"), "dict": LibType("dict"), "str": LibType("str"), "int": LibType("int"), "float": LibType("float"),
    "bool": LibType("bool"), "object": LibType("object"), "type": LibType("type"), "sorted": LibFn("sorted", b_sorted), "map": LibFn("map", b_map),
    "filter": LibFn("filter", b_filter), "reversed": LibFn("reversed", b_reversed), "isinstance": LibFn("isinstance", b_isinstance),
    "setattr": LibFn("setattr", b_setattr), "getattr": LibFn("getattr", b_getattr), "hasattr": LibFn("hasattr", b_hasattr),
    "property": LibFn("property", b_property), "classmethod": LibFn("classmethod", lambda I, a, k: ClsM(a[0])),
    "staticmethod": LibFn("staticmethod", lambda I, a, k: StatM(a[0])), "callable": LibFn("callable", lambda I, a, k: TYPES["Callable"][1](a[0])),
    "print": LibFn("print", lambda I, a, k: None), "next": LibFn("next", b_next), "iter": LibFn("iter", lambda I, a, k: force(a[0])),
    "repr": LibFn("repr", b_str), "round": LibFn("round", None), "open": Lazy(lambda I: I.open_fn if hasattr(I, "open_fn") else LibFn("open", None)),
    "id": LibFn("id", None), "slice": LibFn("slice", lambda I, a, k: slice(*a)), "divmod": LibFn("divmod", lambda I, a, k: (binop(I, "FloorDiv", *a), binop(I, "Mod", *a))),
    "pow": LibFn("pow", lambda I, a, k: I.binop("Pow", a[0], a[1])), "hash": LibFn("hash", None), "NotImplemented": Opaque("NotImplemented"), "Ellipsis": Ellipsis,
    "issubclass": LibFn("issubclass", None), "vars": LibFn("vars", None),
}


def calltype(I, t, a, k):
    n = t.name
    f = {"list": b_list, "tuple": b_tuple, "set": b_set, "str": b_str, "int": b_int, "float": b_float, "type": b_type,
         "bool": lambda I, a, k: I.truth(a[0]) if a else False}.get(n)
    if f is not None:
        return f(I, a, k)
    if n == "dict":
        if a:
            x = force(a[0])
            if isinstance(x, dict):
                return {**x, **k}
            if isinstance(x, (SMap, SDict)):
                return x
            q = seq_of(x)
            if q.concrete() is None and not k and all(isinstance(g.value, (tuple, list)) and len(g.value) == 2 for g in q.segs):
                return SDict(q)
            xs = I.aslist(x)
            d = {}
            for p in xs:
                kk, vv = I.aslist(p)
                if not isinstance(kk, (str, int)):
                    raise Unsupported("dict key")
                d[kk] = vv
            return {**d, **k}
        return dict(k)
    if n in EXCS or n.endswith("Error") or n.endswith("Exception"):
        return PyExc(n, tuple(a))
    if n == "SimpleNamespace":
        return Obj("SimpleNamespace", **k)
    if n == "object":
        return Obj("object")
    if n in ("float64", "float32", "int64", "int32"):
        return cast_(I, LibType("int") if n.startswith("int") else t, a[0])
    h = CALLTYPE.get(n)
    if h is not None:
        return h(I, a, k)
    raise Unsupported(f"call of type {n}")


CALLTYPE = {}


def extinit(I, cls, o, a, k):
    for b in cls.ext_bases():
        n = getattr(b, "name", "")
        if n in EXCS:
            o.attrs["args"] = tuple(a)
            return
    if a or k:
        raise PyExc("TypeError", ("no arguments expected",))


def dispatch_deco(I, d, a, k):
    """plum: collect methods under one name (per class)."""
    if not a:
        return LibFn("dispatch", lambda I, a2, k2: dispatch_deco(I, d, a2, {}))
    f = a[0]
    if isinstance(f, (Prop, ClsM, StatM)):
        raise Unsupported("dispatch on a descriptor")
    if isinstance(f, Multi):
        return f
    m = d.table.get(f.qual)
    if m is None:
        m = Multi(f.name, f.qual)
        d.table[f.qual] = m
    m.fns.append(f)
    return m


def callobj(I, o, a, k):
    h = OBJ_CALL.get(o.cls if isinstance(o.cls, str) else None)
    if h is not None:
        return h(I, o, a, k)
    if isinstance(o.cls, PyClass):
        for b in o.cls.ext_bases():
            h = OBJ_CALL.get("ext:" + getattr(b, "name", ""))
            if h is not None:
                return h(I, o, a, k)
    raise PyExc("TypeError", ("not callable",))


def callopaque(I, o, a, k):
    h = OPQ_CALL.get(o.tag)
    if h is None:
        raise Unsupported(f"call of {o.tag}")
    return h(I, o, a, k)


OBJ_CALL = {}
OPQ_CALL = {}


def enter(I, m):
    if isinstance(m, Opaque):
        if m.tag == "progress":
            return Opaque("progress_cb")
        if m.tag in ("section", "ctx"):
            return None
        if m.tag == "file":
            return m
    if isinstance(m, Obj) and isinstance(m.cls, PyClass) and m.cls.find("__enter__"):
        return I.callm(m, "__enter__")
    raise Unsupported("context manager")


def exit(I, m):
    return None


OPQ_CALL["progress_cb"] = lambda I, o, a, k: None
OPQ_ATTR["progress"] = lambda I, o, n: NOCONTRACT


# ------------------------------------------------------------------------- distributions
def mk_normal(I, a, k):
    if len(a) == 1:
        return Obj("Normal", mean=0, var=a[0])
    return Obj("Normal", mean=a[0], var=a[1])


def normal_attr(I, o, n):
    if n in ("mean", "var"):
        return o.attrs[n]
    if n == "dim":
        return o.attrs["var"].shape[0]
    if n == "dtype":
        return Opaque("dtype")
    if n == "sample":
        def sample(I, a, k):
            xs = list(a)
            st = xs.pop(0) if xs and state_of(xs[0]) else None
            cnt = kwarg(xs, k, 0, "num", 1)
            s = st or gstate(I)
            L = m_chol(I, o.attrs["var"])
            r = m_mm(I, [L, noise(I, s, (L.shape[1], cnt))])
            if not is_zero_val(o.attrs["mean"]):
                r = binop(I, "Add", r, o.attrs["mean"])
            if st is None:
                I.gstate = new_state(s)
                return r
            return new_state(s), r
        return LibFn("Normal.sample", sample)
    return NOCONTRACT


OBJ_ATTR["Normal"] = normal_attr
OBJ_ATTR["promised"] = lambda I, o, n: LibFn("deliver", lambda I2, a, k: o.attrs.__setitem__("type", a[0])) if n == "deliver" else NOCONTRACT
OBJ_ATTR["SimpleNamespace"] = lambda I, o, n: NOCONTRACT
OBJ_ATTR["namedtuple"] = lambda I, o, n: LibFn("_asdict", lambda I, a, k: dict(o.attrs)) if n == "_asdict" else NOCONTRACT


def b_namedtuple(I, a, k):
    fields = a[1]
    fields = fields.replace(",", " ").split() if isinstance(fields, str) else I.aslist(fields)

    def make(I, a2, k2):
        d = dict(zip(fields, a2))
        d.update(k2)
        if sorted(d) != sorted(fields):
            raise PyExc("TypeError", ("namedtuple",))
        return Obj("namedtuple", **{f: d[f] for f in fields})
    return LibFn("namedtuple:" + str(a[0]), make)


# ------------------------------------------------------------------------- modules
def canon(m):
    if m in ("lab", "lab.jax", "lab.numpy", "lab.tensorflow", "lab.torch"):
        return "B"
    return {"numpy": "np", "numpy.random": "np.random", "jax.numpy": "np", "numpy.fft": "np.fft"}.get(m, m)


def rnd(I, kind, args, **flags):
    v = alg.sym(alg.fresh(kind).name + "_r", **flags)
    I.draws.append((kind, args, v))
    return v


def rng_uniform(I, a, k):
    lo, hi = (kwarg(a, k, 0, "low", 0), kwarg(a, k, 1, "high", 1))
    if len(a) > 2 or "size" in k:
        raise Unsupported("array of uniform draws")
    v = rnd(I, "uniform", (lo, hi))
    # draws from uniform(a, b) lie between the two limits
    if I.decide(alg.le(lift(lo), lift(hi))):
        I.assume(alg.ge(v, lift(lo)))
        I.assume(alg.le(v, lift(hi)))
    else:
        I.assume(alg.ge(v, lift(hi)))
        I.assume(alg.le(v, lift(lo)))
    return v


def rng_exponential(I, a, k):
    if len(a) > 1 or "size" in k:
        raise Unsupported("array of exponential draws")
    v = rnd(I, "exponential", (kwarg(a, k, 0, "scale", 1),), pos=True)
    return v


def rng_permutation(I, a, k):
    n = a[0]
    if not t_int(n):
        raise Unsupported("permutation of an array")
    nm = alg.fresh("perm").name
    alg.INTFUNS.add(nm)
    alg.NONNEGFUNS.add(nm)
    I.perms[nm] = n
    _smt.EXTRA[nm] = lambda at: [alg.lt(P.atom(at), lift(n))]
    return T((n,), lambda i: alg.app(nm, i), np_=True, prov=("perm", nm, n))


def rng_choice(I, a, k):
    """Entries picked from 0, .., n - 1 or from an array; different ones without replacement."""
    n = kwarg(a, k, 0, "a")
    size = kwarg(a, k, 1, "size", None)
    repl = kwarg(a, k, 2, "replace", True)
    if kwarg(a, k, 3, "p", None) is not None:
        raise Unsupported("choice with probabilities")
    base = None
    if isinstance(n, T) and n.rank == 1:
        base, n = n, n.shape[0]
    if not t_int(n):
        raise Unsupported("choice from this")
    if size is not None and not t_int(size):
        raise Unsupported("array of choices")
    if not isinstance(repl, bool):
        raise Unsupported("choice with or without replacement")
    if not repl and size is not None and I.decide(alg.gt(lift(size), lift(n))):
        raise PyExc("ValueError", ("larger sample than population",))
    if I.decide(alg.le(lift(n), 0)):
        raise PyExc("ValueError", ("a must be positive",))
    nm = alg.fresh("pick" if repl else "perm").name
    alg.INTFUNS.add(nm)
    alg.NONNEGFUNS.add(nm)
    if not repl:
        I.perms[nm] = n
    _smt.EXTRA[nm] = lambda at: [alg.lt(P.atom(at), lift(n))]
    f = (lambda i: alg.app(nm, i)) if base is None else (lambda i: base.at(alg.app(nm, i)))
    if size is None:
        return f(ZERO)
    return T((size,), f, np_=True, prov=None if repl or base is not None or not dim_eq(size, n) else ("perm", nm, n), **({} if base is not None else {"isint": True}))


TYPE_NAMES = {"Numeric", "Int", "Number", "RandomState", "Float", "Bool", "NPNumeric", "JAXNumeric", "DType"}
RNG = {"uniform": rng_uniform, "exponential": rng_exponential, "permutation": rng_permutation, "choice": rng_choice}


def libattr(I, mod, n):
    key = (mod, n)
    if mod in ("B", "np"):
        if mod == "B" and n in TYPE_NAMES:
            return LibType(n)
        if mod == "np" and n in ("ndarray", "float64", "float32", "int64", "int32"):
            return LibType(n if n != "ndarray" else "ndarray")
        if n in CONSTS:
            v = CONSTS[n]()
            return v
        if n in ("random", "fft", "linalg"):
            return LibMod(f"{mod if mod == 'np' else 'np'}.{n}")
        if n == "dispatch" and mod == "B":
            return Dispatcher()
        if n in ("bool_",):
            return LibType("bool")
        h = I.libfns.get((mod, n))
        if h is not None:
            I.trusted_used.add(f"{mod}.{n}")
            return h if isinstance(h, LibFn) else LibFn(f"{mod}.{n}", h)
        f = BF.get(n)
        if f is None:
            return LibFn(f"{mod}.{n}", None)
        I.trusted_used.add(f"{mod}.{n}")
        return LibFn(f"{mod}.{n}", f)
    h = I.libfns.get((mod, n))
    if h is not None:
        I.trusted_used.add(f"{mod}.{n}")
        return LibFn(f"{mod}.{n}", h) if callable(h) and not isinstance(h, (Opaque, LibFn, LibType)) else h
    h = LIBATTR.get(key)
    if h is None and (mod, "*") in LIBATTR:
        h = LIBATTR[(mod, "*")]
        return h(I, n)
    if h is None:
        # a submodule or an unknown function
        return LibModOrFn(mod, n)
    I.trusted_used.add(f"{mod}.{n}")
    return h(I) if isinstance(h, Lazy) else h


def LibModOrFn(mod, n):
    full = f"{mod}.{n}"
    if any(k[0] == canon(full) for k in LIBATTR) or canon(full) in ("B", "np", "np.random", "np.fft"):
        return LibMod(canon(full))
    return LibFn(full, None)


def ident_deco(name):
    return LibFn(name, lambda I, a, k: a[0])


def b_instancemethod(I, a, k):
    return a[0]


def op_fn(op, n):
    return LibFn("operator." + n, lambda I, a, k: I.binop(op, a[0], a[1]))


LIBATTR = {
    ("np.random", "uniform"): LibFn("rng.uniform", rng_uniform),
    ("np.random", "exponential"): LibFn("rng.exponential", rng_exponential),
    ("np.random", "permutation"): LibFn("rng.permutation", rng_permutation),
    ("np.random", "choice"): LibFn("rng.choice", rng_choice),
    ("plum", "Dispatcher"): LibFn("Dispatcher", lambda I, a, k: Dispatcher()),
    ("plum", "dispatch"): Lazy(lambda I: I.plum_dispatch),
    ("plum", "convert"): LibFn("plum.convert", lambda I, a, k: a[0]),
    ("plum", "isinstance"): LibFn("isinstance", b_isinstance),
    ("plum", "PromisedType"): LibFn("PromisedType", lambda I, a, k: Obj("promised", name=a[0] if a else None)),
    ("plum", "Union"): LibType("Union"), ("typing", "Union"): LibType("Union"), ("typing", "Optional"): LibType("Optional"),
    ("typing", "List"): LibType("list"), ("typing", "Tuple"): LibType("tuple"), ("typing", "Callable"): LibType("Callable"),
    ("types", "SimpleNamespace"): LibType("SimpleNamespace"), ("types", "FunctionType"): LibType("function"),
    ("matrix", "AbstractMatrix"): LibType("AbstractMatrix"),
    ("matrix", "structured"): LibFn("structured", lambda I, a, k: I.nondet("structured")),
    ("matrix", "Dense"): LibFn("Dense", lambda I, a, k: a[0]),
    ("matrix", "Diagonal"): LibFn("Diagonal", lambda I, a, k: m_diag(I, a[0])),
    ("matrix", "LowRank"): LibFn("LowRank", lambda I, a, k: lowrank(I, a, k)),
    ("stheno", "Normal"): LibFn("Normal", mk_normal), ("stheno.jax", "Normal"): LibFn("Normal", mk_normal),
    ("functools", "reduce"): LibFn("functools.reduce", b_reduce),
    ("functools", "partial"): LibFn("functools.partial", lambda I, a, k: LibFn("partial", lambda I2, a2, k2: I2.call(a[0], list(a[1:]) + list(a2), {**k, **k2}))),
    ("functools", "wraps"): LibFn("functools.wraps", lambda I, a, k: LibFn("wraps", lambda I2, a2, k2: a2[0])),
    ("collections", "namedtuple"): LibFn("namedtuple", b_namedtuple),
    ("collections", "OrderedDict"): LibType("dict"),
    ("itertools", "product"): LibFn("itertools.product", lambda I, a, k: [tuple(z) for z in __import__("itertools").product(*[I.aslist(x) for x in a])]),
    ("itertools", "chain"): LibFn("itertools.chain", lambda I, a, k: [z for x in a for z in I.aslist(x)]),
    ("probmods", "Model"): LibType("Model"), ("probmods", "cast"): ident_deco("cast"), ("probmods", "instancemethod"): ident_deco("instancemethod"),
    ("probmods", "priormethod"): ident_deco("priormethod"), ("probmods", "fit"): Lazy(lambda I: I.fit_fn),
    ("wbml.out", "Progress"): LibFn("Progress", lambda I, a, k: Opaque("progress")),
    ("wbml.out", "Section"): LibFn("Section", lambda I, a, k: Opaque("section")),
    ("wbml.out", "out"): LibFn("out", lambda I, a, k: None), ("wbml.out", "kv"): LibFn("kv", lambda I, a, k: None),
    ("wbml", "out"): LibMod("wbml.out"),
    ("time", "time"): LibFn("time", lambda I, a, k: P.atom(alg.fresh("time", pos=True))),
    ("warnings", "warn"): LibFn("warn", lambda I, a, k: I.events.append(("warn",)) or None),
    ("jax.lax", "stop_gradient"): LibFn("stop_gradient", lambda I, a, k: a[0]),
    ("varz.spec", "Struct"): LibType("Struct"), ("varz", "Vars"): LibFn("Vars", None),
    ("varz", "minimise_l_bfgs_b"): LibFn("minimise_l_bfgs_b", None), ("varz", "minimise_adam"): LibFn("minimise_adam", None),
    ("mlkernels", "EQ"): LibFn("EQ", lambda I, a, k: Opaque("kernel", fn=lambda x, y: alg.exp(-((lift(x) - lift(y)) ** 2) / 2))),
    ("mlkernels", "Exp"): LibFn("Exp", lambda I, a, k: Opaque("kernel", fn=lambda x, y: alg.exp(-alg.app("abs", lift(x) - lift(y))))),
    ("stheno", "GP"): LibFn("GP", None), ("scipy.signal", "hilbert"): LibFn("hilbert", None),
    ("pickle", "dump"): LibFn("pickle.dump", None), ("pickle", "load"): LibFn("pickle.load", None),
    ("math", "pi"): Lazy(lambda I: alg.pi()), ("math", "inf"): INF, ("math", "ceil"): LibFn("ceil", BF["ceil"]), ("math", "sqrt"): LibFn("sqrt", BF["sqrt"]), ("math", "exp"): LibFn("exp", BF["exp"]), ("math", "log"): LibFn("log", BF["log"]),
}
for _o, _n in {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod", "MatMult": "matmul"}.items():
    LIBATTR[("operator", _n)] = op_fn(_o, _n)
LIBATTR[("operator", "neg")] = LibFn("operator.neg", lambda I, a, k: unary(I, "USub", a[0]) if not isinstance(a[0], Obj) else I.callm(a[0], "__neg__"))


def lowrank(I, a, k):
    left = kwarg(a, k, 0, "left")
    right = kwarg(a, k, 1, "right")
    mid = kwarg(a, k, 2, "middle")
    right = left if right is None else right
    if mid is not None:
        return m_mm(I, [left, mid, mat_transpose(right)])
    return m_mm(I, [left, mat_transpose(right)])


def kernel_val(I, f, x):
    r = I.call(f, [norm(lift(x))], {})
    return ind(r) if isinstance(r, Cond) else lift(num(r))


def kernel_op(I, op, a, b):
    """Arithmetic on mlkernels kernels: sums and products of kernels, scaling, and products with
    functions (f(x) f(y))."""
    def isk(v):
        return isinstance(v, Opaque) and v.tag == "kernel"

    def isf(v):
        return isinstance(v, (PyFunc, LibFn, Bound, Multi))
    if op in ("Mult", "Add"):
        if isk(a) and isk(b):
            fa, fb = a.attrs["fn"], b.attrs["fn"]
            return Opaque("kernel", fn=(lambda x, y: fa(x, y) * fb(x, y)) if op == "Mult" else (lambda x, y: fa(x, y) + fb(x, y)))
        kk, o = (a, b) if isk(a) else (b, a)
        f = kk.attrs["fn"]
        if is_num(o) and op == "Mult":
            return Opaque("kernel", fn=lambda x, y: f(x, y) * lift(num(o)))
        if is_num(o):
            return Opaque("kernel", fn=lambda x, y: f(x, y) + lift(num(o)))
        if isf(o) and op == "Mult":
            return Opaque("kernel", fn=lambda x, y: f(x, y) * kernel_val(I, o, x) * kernel_val(I, o, y))
    raise Unsupported("kernel arithmetic")


def kernel_attr(I, o, n):
    f = o.attrs["fn"]
    if n == "stretch":
        return LibFn("kernel.stretch", lambda I, a, k: Opaque("kernel", fn=lambda x, y: f(lift(x) / lift(num(a[0])), lift(y) / lift(num(a[0])))))
    return NOCONTRACT


def kernel_call(I, o, a, k):
    """Kernel matrix."""
    f = o.attrs["fn"]
    x = a[0]
    y = a[1] if len(a) > 1 else x

    def col(v):
        if not isinstance(v, T):
            c = lift(num(v))
            return (1, lambda i: c)
        if v.rank == 1 or (v.rank == 2 and dim1(v.shape[1])):
            return (v.shape[0], (lambda i: v.at(i)) if v.rank == 1 else (lambda i: v.at(i, ZERO)))
        raise Unsupported("kernel input")
    n, fx = col(x)
    m, fy = col(y)
    return T((n, m), lambda i, j: f(fx(i), fy(j)))


OPQ_CALL["kernel"] = kernel_call
OPQ_ATTR["kernel"] = kernel_attr


def fit_dispatch(I, a, k):
    return dispatch_deco(I, I.fit_disp, a, k)


class _Fit:
    pass


def make(I):
    I.draws = []
    I.perms = {}
    I.events = []
    I.libfns = {}
    I.gstate = None
    I.plum_dispatch = Dispatcher()
    I.fit_disp = Dispatcher()
    I.opaque_binop = kernel_op
    I.fit_fn = Opaque("fit")
    return None


OPQ_ATTR["fit"] = lambda I, o, n: LibFn("fit.dispatch", lambda I2, a, k: fit_reg(I2, a)) if n == "dispatch" else NOCONTRACT
OPQ_CALL["fit"] = lambda I, o, a, k: I.call(I.fit_multi, a, k) if getattr(I, "fit_multi", None) else (_ for _ in ()).throw(Unsupported("fit"))


def fit_reg(I, a):
    f = a[0]
    m = getattr(I, "fit_multi", None)
    if m is None:
        m = Multi("fit", "probmods.fit")
        I.fit_multi = m
    m.fns.append(f)
    return m
