"""Normal forms for real terms.

A `P` is a finite sum of monomials with rational coefficients.  A monomial is a product of
atoms raised to rational powers under a (possibly empty) list of bound summation indices.
All constructors normalise; two terms that are equal by ring laws, exponential laws,
trigonometric product-to-sum, reordering of finite sums, index renaming, Kronecker deltas and
the registered matrix identities have the same normal form.  Nothing here is heuristic: every
rewriting step is an identity of real arithmetic (side conditions such as positivity are looked
up, never guessed).
"""
from fractions import Fraction
from functools import lru_cache
from itertools import permutations, product as iproduct
import math

SYMS = {}          # symbol name -> dict(pos, nonneg, int, nonzero)
SYMM = set()       # names of tensors of rank >= 2 symmetric in their last two arguments
CONTRACT = {}      # (nameA, posA, nameB, posB) -> function(argsA, argsB) -> P
POSP = {}          # Poly keys known to be positive (context facts): key -> True
EVENODD = {}       # app name -> tuple(parities of args): +1 even, -1 odd, 0 nothing
_fresh = [0]


class Budget(Exception):
    """Raised when a term grows beyond the size budget."""


MAXTERMS = 60000


def reset():
    SYMS.clear(); SYMM.clear(); CONTRACT.clear(); POSP.clear(); EVENODD.clear()
    _fresh[0] = 0
    _atoms.clear()
    _CLOSE.clear()


class Atom:
    __slots__ = ("kind", "name", "args", "key", "depth", "leaves", "_h")

    def __repr__(self):
        return self.key

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key


_atoms = {}


def mk_atom(kind, name, args=()):
    args = tuple(args)
    k = kind + ":" + name
    if args:
        k += "(" + ",".join(a.key if isinstance(a, (P, Atom, Cond)) else str(a) for a in args) + ")"
    a = _atoms.get(k)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.name, a.args, a.key, a._h = kind, name, args, k, hash(k)
    d = 0
    leaves = set()
    if kind in ("sym", "bv"):
        leaves.add(a)
    for x in args:
        if isinstance(x, (P, Cond)):
            d = max(d, x.depth)
            leaves |= x.leaves
        elif isinstance(x, Atom):
            d = max(d, x.depth)
            leaves |= x.leaves
    if kind == "bind":
        # args = (boundvar placeholder atom, domain..., body): the placeholder is not free.
        leaves = {l for l in leaves if l is not args[0]}
        d += 1
    a.depth = d
    a.leaves = frozenset(leaves)
    _atoms[k] = a
    return a


def sym(name, **flags):
    if flags or name not in SYMS:
        SYMS.setdefault(name, {}).update(flags)
    return P.atom(mk_atom("sym", name))


def fresh(prefix="k", **flags):
    _fresh[0] += 1
    n = f"?{prefix}{_fresh[0]}"
    SYMS[n] = dict(flags)
    return mk_atom("sym", n)


class P:
    """Normalised polynomial-like term."""

    __slots__ = ("t", "_key", "_depth", "_leaves")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._depth = None
        self._leaves = None

    # --- construction
    @staticmethod
    def const(c):
        c = c if isinstance(c, Fraction) else Fraction(c)
        return P({((), ()): c}) if c else P({})

    @staticmethod
    def atom(a, e=1):
        return P({((), ((a, Fraction(e)),)): Fraction(1)})

    # --- structure
    @property
    def key(self):
        if self._key is None:
            if not self.t:
                self._key = "0"
            else:
                self._key = "{" + " + ".join(
                    sorted(_monokey(m) + "*" + str(c) for m, c in self.t.items())
                ) + "}"
        return self._key

    @property
    def depth(self):
        if self._depth is None:
            d = 0
            for (b, f), _ in self.t.items():
                for a, e in f:
                    d = max(d, a.depth)
                if b:
                    d = max(d, b[0][0].args[0])
                for _, dom in b:
                    d = max(d, dom.depth)
            self._depth = d
        return self._depth

    @property
    def leaves(self):
        if self._leaves is None:
            s = set()
            for (b, f), _ in self.t.items():
                for a, e in f:
                    s |= a.leaves
                    if isinstance(e, P):
                        s |= e.leaves
                for v, dom in b:
                    s |= dom.leaves
                s -= {v for v, _ in b}
            self._leaves = frozenset(s)
        return self._leaves

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        try:
            o = lift(o)
        except TypeError:
            return False
        return self.key == o.key

    def is_zero(self):
        return not self.t

    def const_value(self):
        """Fraction if constant, else None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m == ((), ()):
                return c
        return None

    def single(self):
        """(coef, bounds, factors) if this is a single monomial."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m[0], m[1]
        return None

    # --- ring
    def __add__(self, o):
        o = lift(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def scale(self, c):
        c = Fraction(c)
        if not c:
            return P({})
        return P({m: v * c for m, v in self.t.items()})

    def __mul__(self, o):
        o = lift(o)
        if not self.t or not o.t:
            return P({})
        c = o.const_value()
        if c is not None:
            return self.scale(c)
        c = self.const_value()
        if c is not None:
            return o.scale(c)
        if len(self.t) * len(o.t) > MAXTERMS:
            raise Budget("product too large")
        out = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in mono_mul(m1, m2).items():
                    v = out.get(m, 0) + c * c1 * c2
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
        return P(out)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(lift(o), -1)

    def __rtruediv__(self, o):
        return lift(o) * power(self, -1)

    def __pow__(self, e):
        return power(self, e)


ZERO = P({})
ONE = P.const(1)


def lift(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        return P.const(int(x))
    if isinstance(x, (int, Fraction)):
        return P.const(x)
    if isinstance(x, float):
        return P.const(Fraction(repr(x)))
    if isinstance(x, Atom):
        return P.atom(x)
    raise TypeError(f"cannot lift {x!r}")


def _monokey(m):
    b, f = m
    s = ""
    if b:
        s += "S[" + ",".join(v.key + "<" + dom.key for v, dom in b) + "]"
    s += ".".join(a.key + ("" if e == 1 else "^" + (e.key if isinstance(e, P) else str(e))) for a, e in f)
    return s


# ------------------------------------------------------------------------- conditions
class Cond:
    """Boolean condition.  op in {'gt','ge','eq','pred','not','and','or','true','false'}.

    gt/ge/eq compare the (canonically scaled) term `args[0]` with zero.
    """

    __slots__ = ("op", "args", "key", "depth", "leaves")

    def __init__(self, op, args=()):
        self.op, self.args = op, tuple(args)
        self.key = op + "(" + ",".join(a.key if isinstance(a, (P, Cond, Atom)) else str(a) for a in self.args) + ")"
        self.depth = max([a.depth for a in self.args if isinstance(a, (P, Cond, Atom))], default=0)
        s = set()
        for a in self.args:
            if isinstance(a, (P, Cond, Atom)):
                s |= a.leaves
        self.leaves = frozenset(s)

    def __repr__(self):
        return self.key if self.op not in ("gt", "ge", "eq") else f"({show(self.args[0])} {dict(gt='>',ge='>=',eq='==')[self.op]} 0)"

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key == o.key


TRUE = Cond("true")
FALSE = Cond("false")


def _lead(p):
    """Deterministic leading coefficient."""
    m = min(p.t, key=_monokey)
    return p.t[m]


def _is_int_term(p):
    for (b, f), c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in f:
            if not (isinstance(e, Fraction) and e.denominator == 1 and e > 0):
                return False
            if a.kind == "sym" and SYMS.get(a.name, {}).get("int"):
                continue
            if a.kind == "bv":
                continue
            if a.kind == "app" and (a.name in INTFUNS):
                continue
            if a.kind == "ind":
                continue
            return False
    return True


INTFUNS = set()


def cmp0(op, p):
    """Canonical condition p op 0 with op in gt, ge, eq."""
    p = lift(p)
    c = p.const_value()
    if c is not None:
        return TRUE if {"gt": c > 0, "ge": c >= 0, "eq": c == 0}[op] else FALSE
    s = p.single()
    # Strip factors whose sign is known positive.
    if s is not None:
        coef, b, f = s
        if not b:
            keep = tuple((a, e) for a, e in f if not atom_pos(a))
            if op == "eq":
                keep = tuple((a, e) for a, e in keep if not (isinstance(e, Fraction) and e < 0))
                keep = tuple((a, Fraction(1)) if isinstance(e, Fraction) else (a, e) for a, e in keep if not atom_nonzero(a))
            else:
                keep = tuple((a, (e % 2 or Fraction(2)) if isinstance(e, Fraction) and e.denominator == 1 and e > 0 else e) for a, e in keep)
            p = P({((), keep): Fraction(1 if coef > 0 or op == "eq" else -1)})
            c = p.const_value()
            if c is not None:
                return TRUE if {"gt": c > 0, "ge": c >= 0, "eq": c == 0}[op] else FALSE
    if op != "eq":
        if known_pos(p):
            return TRUE
        if known_pos(-p):
            return FALSE
        if op == "ge" and known_nonneg(p):
            return TRUE
        if op == "gt" and known_nonneg(-p):
            return FALSE
        if _is_int_term(p):
            if op == "gt":
                op, p = "ge", p - 1
            # integers: p >= 0
    else:
        if known_pos(p) or known_pos(-p):
            return FALSE
    l = abs(_lead(p)) if op != "eq" else _lead(p)
    if not (op == "ge" and _is_int_term(p)):
        p = p.scale(1 / l)
    return Cond(op, (p,))


def gt(a, b): return cmp0("gt", lift(a) - lift(b))
def ge(a, b): return cmp0("ge", lift(a) - lift(b))
def lt(a, b): return cmp0("gt", lift(b) - lift(a))
def le(a, b): return cmp0("ge", lift(b) - lift(a))
def eq(a, b): return cmp0("eq", lift(a) - lift(b))


def pred(name, *args):
    return Cond("pred", (name,) + tuple(lift(a) if not isinstance(a, (str, Cond)) else a for a in args))


def cnot(c):
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "gt":
        return cmp0("ge", -c.args[0])
    if c.op == "ge":
        return cmp0("gt", -c.args[0])
    if c.op == "and":
        return cor(*[cnot(x) for x in c.args])
    if c.op == "or":
        return cand(*[cnot(x) for x in c.args])
    return Cond("not", (c,))


def _junction(op, unit, zero, cs):
    out = {}
    for c in cs:
        if c.op == unit.op:
            continue
        if c.op == zero.op:
            return zero
        for x in (c.args if c.op == op else (c,)):
            out[x.key] = x
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out.values()))
    for x in out.values():
        if cnot(x).key in out:
            return zero
    return Cond(op, [out[k] for k in sorted(out)])


def cand(*cs): return _junction("and", TRUE, FALSE, cs)
def cor(*cs): return _junction("or", FALSE, TRUE, cs)


def ind(c):
    """0/1 indicator of a condition, as a polynomial in indicator atoms of literals."""
    if c.op == "true":
        return ONE
    if c.op == "false":
        return ZERO
    if c.op == "not":
        return ONE - ind(c.args[0])
    if c.op == "and":
        r = ONE
        for x in c.args:
            r = r * ind(x)
        return r
    if c.op == "or":
        r = ONE
        for x in c.args:
            r = r * (ONE - ind(x))
        return ONE - r
    # choose one polarity canonically
    n = cnot(c)
    if n.op != "not" and n.key < c.key:
        return ONE - P.atom(mk_atom("ind", "", (n,)))
    return P.atom(mk_atom("ind", "", (c,)))


def ite(c, a, b):
    if c.op == "true":
        return lift(a)
    if c.op == "false":
        return lift(b)
    i = ind(c)
    return i * a + (ONE - i) * b


# ------------------------------------------------------------------------- sign knowledge
def atom_pos(a):
    if a.kind == "sym":
        return bool(SYMS.get(a.name, {}).get("pos"))
    if a.kind == "app":
        return a.name in ("exp", "surd") or a.name in POSFUNS
    if a.kind == "pw":
        return known_pos(a.args[0])
    return False


POSFUNS = set()
NONNEGFUNS = {"abs"}


def atom_nonneg(a):
    if atom_pos(a):
        return True
    if a.kind == "sym":
        return bool(SYMS.get(a.name, {}).get("nonneg"))
    if a.kind == "app":
        return a.name in NONNEGFUNS
    if a.kind == "ind":
        return True
    if a.kind == "pw":
        return known_nonneg(a.args[0])
    return False


def atom_nonzero(a):
    if atom_pos(a):
        return True
    if a.kind == "sym":
        return bool(SYMS.get(a.name, {}).get("nonzero"))
    if a.kind == "pw":
        return True     # only ever used as a divisor or under a root; see power()
    return False


def _even(e):
    return isinstance(e, Fraction) and e.denominator == 1 and e % 2 == 0


def known_pos(p):
    if p.key in POSP:
        return True
    if not p.t:
        return False
    strict = False
    for (b, f), c in p.t.items():
        if c < 0:
            return False
        s = not b
        for a, e in f:
            if atom_pos(a):
                continue
            s = False
            if not (atom_nonneg(a) or _even(e)):
                return False
        strict = strict or s
    return strict


def known_nonneg(p):
    if p.key in POSP:
        return True
    for (b, f), c in p.t.items():
        if c < 0:
            return False
        for a, e in f:
            if not (atom_nonneg(a) or _even(e)):
                return False
    return True


# ------------------------------------------------------------------------- monomials
def _fmul(facs, a, e):
    """Multiply factor a^e into dict facs (atom->exp); returns nothing."""
    v = facs.get(a)
    if v is None:
        facs[a] = e
    else:
        v = _eadd(v, e)
        if _ezero(v):
            del facs[a]
        else:
            facs[a] = v


def _eadd(x, y):
    if isinstance(x, P) or isinstance(y, P):
        r = lift(x) + lift(y)
        c = r.const_value()
        return c if c is not None else r
    return x + y


def _ezero(e):
    return (not isinstance(e, P)) and e == 0


def open_mono(m):
    """Replace bound variables by fresh symbols: (list of (freshatom, dom), factors)."""
    b, f = m
    if not b:
        return [], f
    mp = {}
    out = []
    for v, dom in b:
        a = fresh("b", int=True)
        mp[v] = P.atom(a)
        out.append([a, dom])
    for o in out:
        o[1] = subs(o[1], mp)
    facs = []
    for a, e in f:
        if a in mp:
            facs.append((next(iter(mp[a].t))[1][0][0], e))
        elif a.leaves & mp.keys():
            facs.append((a, e, mp))
        else:
            facs.append((a, e))
    return out, facs


def mono_mul(m1, m2):
    """Product of two monomials as dict mono->coef."""
    b1, f1 = m1
    b2, f2 = m2
    if not b1 and not b2:
        return _combine([], list(f1) + list(f2))
    o1, g1 = open_mono(m1)
    o2, g2 = open_mono(m2)
    return _combine(o1 + o2, list(g1) + list(g2))


SPECIAL_APPS = {"exp", "sin", "cos"}


def _combine(bounds, flist):
    """Normalise a product of factors under the given opened bounds -> dict mono->coef."""
    # Factors that need re-substitution are materialised as polynomials.
    rest = []
    poly = None
    facs = {}
    coef = Fraction(1)
    exps = None
    trig = []
    todo = list(flist)
    while todo:
        it = todo.pop()
        if len(it) == 3:
            a, e, mp = it
            q = subs_atom(a, mp)
            s = q.single()
            if s is not None and not s[1] and isinstance(e, Fraction) and (e.denominator == 1):
                c, _, ff = s
                coef *= c ** int(e)
                todo.extend((x, y * e) for x, y in ff)
            else:
                q = power(q, e)
                poly = q if poly is None else poly * q
            continue
        a, e = it
        if a.kind == "app" and a.name == "exp" and not isinstance(e, P):
            exps = a.args[0].scale(e) if exps is None else exps + a.args[0].scale(e)
            continue
        if a.kind == "app" and a.name in ("sin", "cos") and isinstance(e, Fraction) and e.denominator == 1 and e > 0:
            trig.extend([a] * int(e))
            continue
        if a.kind == "ind":
            facs[a] = Fraction(1)
            continue
        _fmul(facs, a, e)
    # re-normalise factors whose exponents became special
    for a in list(facs):
        e = facs[a]
        if a.kind == "pw" and isinstance(e, Fraction):
            base = a.args[0]
            if e.denominator == 1 and e > 0:
                del facs[a]
                q = power(base, e)
                poly = q if poly is None else poly * q
        elif a.kind == "app" and a.name == "surd" and isinstance(e, Fraction):
            k = e.numerator // e.denominator
            if k:
                n = a.args[0].const_value()
                coef *= n ** k
                r = e - k
                if r:
                    facs[a] = r
                else:
                    del facs[a]
        elif a.kind == "app" and a.name == "abs" and isinstance(e, Fraction) and e.denominator == 1 and (e >= 2 or e <= -2):
            k = e.numerator // 2 if e > 0 else -((-e.numerator) // 2)
            r = e - 2 * k
            if r:
                facs[a] = r
            else:
                del facs[a]
            q = power(a.args[0], 2 * k)
            poly = q if poly is None else poly * q
        elif a.kind == "app" and a.name == "sign" and isinstance(e, Fraction) and e.denominator == 1 and e >= 3:
            facs[a] = Fraction(1) if e % 2 else Fraction(2)
    if exps is not None and exps.t:
        facs[mk_atom("app", "exp", (exps,))] = Fraction(1)
    if len(trig) == 1:
        facs[trig[0]] = Fraction(1)
    elif trig:
        q = P.atom(trig[0])
        for a in trig[1:]:
            q = _trig_mul(q, a)
        poly = q if poly is None else poly * q
    if poly is None:
        return {m: c * coef for m, c in close(bounds, facs).items()}
    # distribute
    out = {}
    for m, c in poly.t.items():
        ob, of = open_mono(m)
        sub = _combine(bounds + ob, list(facs.items()) + list(of))
        for mm, cc in sub.items():
            v = out.get(mm, 0) + cc * c * coef
            if v:
                out[mm] = v
            else:
                out.pop(mm, None)
    return out


def _trig_mul(q, a):
    """q is a linear combination of single trig atoms (or constants); multiply by trig atom a."""
    out = ZERO
    for (b, f), c in q.t.items():
        if not f:
            out = out + P.atom(a).scale(c)
            continue
        (x, e), = f
        A, B = x.args[0], a.args[0]
        if x.name == "cos" and a.name == "cos":
            r = cos(A - B) + cos(A + B)
        elif x.name == "sin" and a.name == "sin":
            r = cos(A - B) - cos(A + B)
        elif x.name == "sin":
            r = sin(A + B) + sin(A - B)
        else:
            r = sin(A + B) + sin(B - A)
        out = out + r.scale(c / 2)
    return out


_CLOSE = {}


def close(bounds, facs):
    """Close a product over opened bounds into canonical monomials."""
    if not bounds:
        if not facs:
            return {((), ()): Fraction(1)}
        return {((), tuple(sorted(facs.items(), key=lambda x: x[0].key))): Fraction(1)}
    bounds = [list(b) for b in bounds]
    # --- Kronecker deltas
    bset = {b[0]: b for b in bounds}
    for a, e in list(facs.items()):
        if a.kind == "app" and a.name == "delta":
            i, j = a.args
            for x, y in ((i, j), (j, i)):
                s = x.single()
                if s and s[0] == 1 and not s[1] and len(s[2]) == 1 and s[2][0][0] in bset and s[2][0][1] == 1:
                    v = s[2][0][0]
                    if v in y.leaves:
                        continue
                    rem = dict(facs)
                    del rem[a]
                    nb = [b for b in bounds if b[0] is not v]
                    mp = {v: y}
                    return _combine(nb, [(x_, e_, mp) if (v in x_.leaves) else (x_, e_) for x_, e_ in rem.items()])
    # --- contractions with registered matrix identities
    if CONTRACT:
        els = [(a, e) for a, e in facs.items() if a.kind == "app" and e == 1 and len(a.args) >= 2]
        els += [(a, e) for a, e in facs.items() if a.kind == "app" and e == 2 and len(a.args) >= 2]
        for v, dom in bounds:
            occ = [a for a in facs if v in a.leaves]
            if len(occ) == 2 and all(facs[a] == 1 for a in occ):
                pair = occ
            elif len(occ) == 1 and facs[occ[0]] == 2:
                pair = [occ[0], occ[0]]
            else:
                continue
            if not all(a.kind == "app" for a in pair):
                continue
            vp = P.atom(v)
            for A, B in ((pair[0], pair[1]), (pair[1], pair[0])):
                pas = [k for k, x in enumerate(A.args) if isinstance(x, P) and x == vp]
                pbs = [k for k, x in enumerate(B.args) if isinstance(x, P) and x == vp]
                for pa in pas:
                    for pb in pbs:
                        rule = CONTRACT.get((A.name, pa, B.name, pb))
                        if rule is None:
                            continue
                        ra = A.args[:pa] + A.args[pa + 1:]
                        rb = B.args[:pb] + B.args[pb + 1:]
                        if any(v in x.leaves for x in ra + rb if isinstance(x, P)):
                            continue
                        q = rule(ra, rb)
                        if q is None:
                            continue
                        rem = dict(facs)
                        for x in pair:
                            rem.pop(x, None)
                        nb = [b for b in bounds if b[0] is not v]
                        out = {}
                        for m, c in q.t.items():
                            ob, of = open_mono(m)
                            for mm, cc in _combine(nb + ob, list(rem.items()) + list(of)).items():
                                w = out.get(mm, 0) + cc * c
                                if w:
                                    out[mm] = w
                                else:
                                    out.pop(mm, None)
                        return out
    # --- unused bounds
    used = set()
    for a, e in facs.items():
        used |= a.leaves
        if isinstance(e, P):
            used |= e.leaves
    for b in bounds:
        used |= b[1].leaves
    for b in bounds:
        if b[0] not in used:
            nb = [x for x in bounds if x is not b]
            size = b[1] if not is_coll(b[1]) else card(b[1])
            out = {}
            for m, c in close(nb, facs).items():
                for mm, cc in (P({m: c}) * size).t.items():
                    out[mm] = out.get(mm, 0) + cc
            return {m: c for m, c in out.items() if c}
    # --- canonical names
    d = 1 + max([a.depth for a in facs] + [b[1].depth for b in bounds] + [e.depth for e in facs.values() if isinstance(e, P)], default=0)
    n = len(bounds)
    names = [mk_atom("bv", f"{d}.{k}", (d, k)) for k in range(n)]
    groups = _refine(bounds, facs)
    best = None
    cands = 1
    for g in groups:
        cands *= math.factorial(len(g))
    if cands > 5000:
        raise Budget("too many symmetric bound indices")
    for perm in iproduct(*[permutations(g) for g in groups]):
        order = [b for g in perm for b in g]
        mp = {b[0]: P.atom(names[k]) for k, b in enumerate(order)}
        nf = []
        bad = False
        for a, e in facs.items():
            if a in mp:
                nf.append((next(iter(mp[a].t))[1][0][0], e))
                continue
            e2 = subs(e, mp) if isinstance(e, P) else e
            if a.leaves & mp.keys():
                q = subs_atom(a, mp)
                s = q.single()
                assert s is not None and not s[1] and len(s[2]) == 1 and s[2][0][1] == 1, (a, q)
                if s[0] != 1:
                    # Renaming flipped a sign (odd function normalisation).
                    bad = bad or 0
                    nf.append((s[2][0][0], e2, s[0]))
                else:
                    nf.append((s[2][0][0], e2))
            else:
                nf.append((a, e2))
        sgn = Fraction(1)
        nf2 = {}
        for it in nf:
            if len(it) == 3:
                sgn *= it[2] ** int(it[1])
            if it[0] in nf2:
                nf2[it[0]] = _eadd(nf2[it[0]], it[1])
            else:
                nf2[it[0]] = it[1]
        fs = tuple(sorted(nf2.items(), key=lambda x: x[0].key))
        bs = tuple((names[k], subs(b[1], mp)) for k, b in enumerate(order))
        m = (bs, fs)
        k = _monokey(m)
        if best is None or k < best[0]:
            best = (k, m, sgn)
    return {best[1]: best[2]}


def _refine(bounds, facs):
    """Order bound indices by an invariant; returns list of groups (ties)."""
    n = len(bounds)
    if n == 1:
        return [bounds]
    hole = {b[0]: P.atom(mk_atom("sym", "#")) for b in bounds}
    color = {b[0]: b[1].key for b in bounds}
    fl = list(facs.items())
    inc = {b[0]: [(a, e) for a, e in fl if b[0] in a.leaves or (isinstance(e, P) and b[0] in e.leaves)] for b in bounds}
    shape = {}
    for a, e in fl:
        shape[a] = _shape(a, hole) + "^" + (str(e) if not isinstance(e, P) else "sym")
    for _ in range(3):
        new = {}
        for b in bounds:
            v = b[0]
            sig = []
            for a, e in inc[v]:
                pos = _positions(a, v)
                others = sorted((color[w] + ":" + _positions(a, w)) for w in a.leaves if w in color and w is not v)
                sig.append(shape[a] + "@" + pos + "|" + ";".join(others))
            new[v] = str(hash(color[v] + "//" + "&".join(sorted(sig)))) if False else _h(color[v] + "//" + "&".join(sorted(sig)))
        color = new
    groups = {}
    for b in bounds:
        groups.setdefault(color[b[0]], []).append(b)
    return [groups[k] for k in sorted(groups)]


import hashlib


def _h(s):
    return hashlib.md5(s.encode()).hexdigest()


def _shape(a, hole):
    if a in hole:
        return "#"
    if not (a.leaves & hole.keys()):
        return a.key
    if a.kind == "app" and a.name in SYMM:
        return a.name + "{" + ",".join([_pshape(x, hole) for x in a.args[:-2]] + sorted(_pshape(x, hole) for x in a.args[-2:])) + "}"
    return a.kind + a.name + "(" + ",".join(_pshape(x, hole) for x in a.args) + ")"


def _pshape(p, hole):
    if isinstance(p, Atom):
        return _shape(p, hole)
    if isinstance(p, Cond):
        return p.op + "(" + ",".join(_pshape(x, hole) if not isinstance(x, str) else x for x in p.args) + ")"
    if not isinstance(p, P):
        return str(p)
    if not (p.leaves & hole.keys()):
        return p.key
    out = []
    for (b, f), c in p.t.items():
        out.append(str(abs(c)) + "*" + ".".join(sorted(_shape(a, hole) + ("" if isinstance(e, P) else "^" + str(e)) for a, e in f)) + f"S{len(b)}")
    return "{" + "+".join(sorted(out)) + "}"


def _positions(a, v):
    if a is v:
        return "*"
    out = []
    args = a.args
    if a.kind == "app" and a.name in SYMM and len(a.args) >= 2:
        out.append("s" + "".join("1" for x in a.args[-2:] if isinstance(x, (P, Cond, Atom)) and v in x.leaves))
        args = a.args[:-2]
        if len(out[0]) == 1:
            out = []
    for k, x in enumerate(args):
        if isinstance(x, (P, Cond, Atom)) and v in x.leaves:
            out.append(str(k) + "<" + _ppos(x, v) + ">")
    return ",".join(out)


def _ppos(p, v):
    if isinstance(p, Atom):
        return _positions(p, v)
    if isinstance(p, Cond):
        return p.op + ";".join(_ppos(x, v) for x in p.args if isinstance(x, (P, Cond, Atom)) and v in x.leaves)
    out = []
    for (b, f), c in p.t.items():
        s = [_positions(a, v) + "^" + ("p" if isinstance(e, P) else str(e)) for a, e in f if v in a.leaves or (isinstance(e, P) and v in e.leaves)]
        if s:
            out.append(str(c) + ":" + ".".join(sorted(s)))
    return "+".join(sorted(out))


# ------------------------------------------------------------------------- collections as index domains
def is_coll(dom):
    s = dom.single()
    return bool(s and len(s[2]) == 1 and s[2][0][0].kind == "app" and s[2][0][0].name.startswith("coll:"))


def card(dom):
    return app("card", dom)


# ------------------------------------------------------------------------- substitution
def subs(p, mp):
    """Simultaneous substitution of leaf atoms (symbols, bound variables) by terms."""
    if not isinstance(p, P) or not mp:
        return p
    if not (p.leaves & mp.keys()):
        return p
    out = {}
    for m, c in p.t.items():
        b, f = m
        hit = False
        lv = set()
        for a, e in f:
            lv |= a.leaves
            if isinstance(e, P):
                lv |= e.leaves
        for _, dom in b:
            lv |= dom.leaves
        if not ((lv - {v for v, _ in b}) & mp.keys()):
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        ob, of = open_mono(m)
        nb = [(v, subs(dom, mp)) for v, dom in ob]
        fl = []
        for it in of:
            if len(it) == 3:
                a, e, mp2 = it
                mm = dict(mp2)
                mm.update(mp)
                e2 = subs(subs(e, mp2), mp) if isinstance(e, P) else e
                fl.append((a, e2, mm))
            else:
                a, e = it
                e2 = subs(e, mp) if isinstance(e, P) else e
                if isinstance(e2, P) and e2.const_value() is not None:
                    e2 = e2.const_value()
                if a.leaves & mp.keys():
                    fl.append((a, e2, mp))
                else:
                    fl.append((a, e2))
        for mm, cc in _combine(nb, fl).items():
            v = out.get(mm, 0) + cc * c
            if v:
                out[mm] = v
            else:
                out.pop(mm, None)
    return P(out)


def subs_any(x, mp):
    if isinstance(x, P):
        return subs(x, mp)
    if isinstance(x, Cond):
        return subs_cond(x, mp)
    if isinstance(x, Atom):
        return x
    return x


def subs_cond(c, mp):
    if not (c.leaves & mp.keys()):
        return c
    if c.op in ("gt", "ge", "eq"):
        return cmp0(c.op, subs(c.args[0], mp))
    if c.op == "not":
        return cnot(subs_cond(c.args[0], mp))
    if c.op == "and":
        return cand(*[subs_cond(x, mp) for x in c.args])
    if c.op == "or":
        return cor(*[subs_cond(x, mp) for x in c.args])
    if c.op == "pred":
        return Cond("pred", [subs_any(x, mp) for x in c.args])
    return c


def subs_atom(a, mp):
    """Substitute inside an atom; returns a P."""
    if a in mp:
        return mp[a]
    if not (a.leaves & mp.keys()):
        return P.atom(a)
    if a.kind == "app":
        args = [subs_any(x, mp) for x in a.args]
        return app(a.name, *args)
    if a.kind == "pw":
        # the caller multiplies exponents; base^1
        return subs(a.args[0], mp)
    if a.kind == "ind":
        return ind(subs_cond(a.args[0], mp))
    if a.kind == "bind":
        v = a.args[0]
        nv = fresh("v")
        # Rename the placeholder to avoid capture, substitute, and rebind.
        inner = {v: P.atom(nv)}
        args = [subs_any(subs_any(x, inner), mp) for x in a.args[1:]]
        return BINDERS[a.name](nv, *args)
    raise ValueError(a)


BINDERS = {}


# ------------------------------------------------------------------------- functions
def app(name, *args):
    args = tuple(lift(x) if not isinstance(x, (P, Cond, str)) else x for x in args)
    h = APP_RULES.get(name)
    if h is not None:
        r = h(*args)
        if r is not None:
            return r
    if name in SYMM and len(args) >= 2 and args[-1].key < args[-2].key:
        args = args[:-2] + (args[-1], args[-2])
    par = EVENODD.get(name)
    c = 1
    if par:
        args = list(args)
        for k, q in enumerate(par):
            if q and isinstance(args[k], P) and args[k].t and _lead(args[k]) < 0:
                args[k] = -args[k]
                c *= q
            elif q == -1 and isinstance(args[k], P) and not args[k].t:
                return ZERO
        args = tuple(args)
    r = P.atom(mk_atom("app", name, args))
    return r if c == 1 else -r


APP_RULES = {}


def rule(name):
    def d(f):
        APP_RULES[name] = f
        return f
    return d


def _divided(p, c):
    """(q, r): the terms of an integer p whose coefficients the number c divides, over c; the rest."""
    if c is None or c <= 0 or c.denominator != 1 or not _is_int_term(p):
        return None
    q, r = {}, {}
    for m, x in p.t.items():
        if not m[0] and not m[1]:
            k = x // c
            if k:
                q[m] = Fraction(k)
            if x - k * c:
                r[m] = x - k * c
        elif x % c == 0 and _is_int_term(P({m: Fraction(1)})):
            q[m] = x / c
        else:
            r[m] = x
    return (P(q), P(r)) if q else None


@rule("floordiv")
def _floordiv(p, c):
    k = c.const_value()
    d = _divided(p, k)
    if d is None:
        x = p.const_value()
        return P.const(x // k) if x is not None and k else None
    q, r = d
    x = r.const_value()
    return q + (P.const(x // k) if x is not None else app("floordiv", r, c))


@rule("mod")
def _mod(p, c):
    k = c.const_value()
    d = _divided(p, k)
    if d is None:
        x = p.const_value()
        return P.const(x % k) if x is not None and k else None
    x = d[1].const_value()
    return P.const(x % k) if x is not None else app("mod", d[1], c)


@rule("exp")
def _exp(x):
    if not x.t:
        return ONE
    # exp(log y) for single logs with integer coefficients
    logs = ONE
    rest = {}
    for (b, f), c in x.t.items():
        if not b and len(f) == 1 and f[0][0].kind == "app" and f[0][0].name == "log" and f[0][1] == 1:
            logs = logs * power(f[0][0].args[0], c)
        else:
            rest[(b, f)] = c
    if len(rest) != len(x.t):
        r = P(rest)
        return logs * _exp(r)
    return P.atom(mk_atom("app", "exp", (x,)))


def exp(x):
    return app("exp", lift(x))


@rule("log")
def _log(x):
    c = x.const_value()
    if c is not None and c > 0:
        if c == 1:
            return ZERO
        out = ZERO
        for p, k in _factor(c).items():
            if p == 1:
                continue
            out = out + P.atom(mk_atom("app", "log", (P.const(p),))).scale(k)
        return out
    s = x.single()
    if s is not None and not s[1] and s[0] > 0 and all(atom_pos(a) for a, e in s[2]):
        out = _log(P.const(s[0])) if s[0] != 1 else ZERO
        if len(s[2]) == 1 and s[2][0][1] == 1 and s[0] == 1 and not (s[2][0][0].kind == "app" and s[2][0][0].name in ("exp", "surd")):
            return P.atom(mk_atom("app", "log", (x,)))
        for a, e in s[2]:
            if a.kind == "app" and a.name == "exp":
                out = out + a.args[0] * e
            elif a.kind == "app" and a.name == "surd":
                out = out + _log(a.args[0]) * e
            else:
                out = out + P.atom(mk_atom("app", "log", (P.atom(a),))) * e
        return out
    return None


def log(x):
    return app("log", lift(x))


PI = None


def pi():
    return sym("pi", pos=True)


def _pi_multiple(x):
    """If x = r*pi*k with k an integer-valued term, return (r*k as P) else None: x/pi."""
    q = {}
    pa = mk_atom("sym", "pi")
    for (b, f), c in x.t.items():
        d = dict(f)
        if d.get(pa) != 1:
            return None
        del d[pa]
        q[(b, tuple(sorted(d.items(), key=lambda y: y[0].key)))] = c
    return P(q)


def _trig_norm(name, x):
    if not x.t:
        return ONE if name == "cos" else ZERO
    # drop the integer-valued even multiples of pi and handle odd integer ones
    if any(mk_atom("sym", "pi") in dict(f) for (b, f) in x.t):
        keep = {}
        drop = {}
        pa = mk_atom("sym", "pi")
        for (b, f), c in x.t.items():
            d = dict(f)
            if d.get(pa) == 1:
                del d[pa]
                m = P({(b, tuple(sorted(d.items(), key=lambda y: y[0].key))): c / 2})
                if _is_int_term(m):
                    drop[(b, f)] = c
                    continue
            keep[(b, f)] = c
        if drop:
            x = P(keep)
            if not x.t:
                return ONE if name == "cos" else ZERO
    s = 1
    if _lead(x) < 0:
        x = -x
        s = -1 if name == "sin" else 1
    r = P.atom(mk_atom("app", name, (x,)))
    return r if s == 1 else -r


@rule("sin")
def _sin(x):
    return _trig_norm("sin", x)


@rule("cos")
def _cos(x):
    return _trig_norm("cos", x)


def sin(x): return app("sin", lift(x))
def cos(x): return app("cos", lift(x))


@rule("erf")
def _erf(x):
    if not x.t:
        return ZERO
    if _lead(x) < 0:
        return -P.atom(mk_atom("app", "erf", (-x,)))
    return P.atom(mk_atom("app", "erf", (x,)))


@rule("bvn_cdf")
def _bvn_cdf(x, y, r):
    # symmetric in its first two arguments
    if y.key < x.key:
        x, y = y, x
    return P.atom(mk_atom("app", "bvn_cdf", (x, y, r)))


@rule("abs")
def _abs(x):
    if known_nonneg(x):
        return x
    if known_nonneg(-x):
        return -x
    s = x.single()
    if s is not None and not s[1]:
        c, _, f = s
        out = P.const(abs(c))
        rest = []
        for a, e in f:
            if atom_nonneg(a):
                out = out * P.atom(a, e) if isinstance(e, Fraction) else out * P({((), ((a, e),)): Fraction(1)})
            else:
                rest.append((a, e))
        r = P({((), tuple(rest)): Fraction(1)})
        if len(rest) != len(f) or c != 1:
            return out * app("abs", r)
        return P.atom(mk_atom("app", "abs", (r,)))
    if _lead(x) < 0:
        x = -x
    l = _lead(x)
    if l != 1:
        return app("abs", x.scale(1 / l)).scale(l)
    return P.atom(mk_atom("app", "abs", (x,)))


def absv(x): return app("abs", lift(x))


@rule("sign")
def _sign(x):
    if known_pos(x):
        return ONE
    if known_pos(-x):
        return -ONE
    if not x.t:
        return ZERO
    if _lead(x) < 0:
        return -app("sign", -x)
    l = _lead(x)
    if l != 1:
        return app("sign", x.scale(1 / l))
    return P.atom(mk_atom("app", "sign", (x,)))


@rule("max")
def _max(a, b):
    d = a - b
    if known_nonneg(d):
        return a
    if known_nonneg(-d):
        return b
    if b.key < a.key:
        return P.atom(mk_atom("app", "max", (b, a)))
    return None


@rule("min")
def _min(a, b):
    d = a - b
    if known_nonneg(d):
        return b
    if known_nonneg(-d):
        return a
    if b.key < a.key:
        return P.atom(mk_atom("app", "min", (b, a)))
    return None


@rule("delta")
def _delta(i, j):
    d = i - j
    c = d.const_value()
    if c is not None:
        return ONE if c == 0 else ZERO
    if j.key < i.key:
        return P.atom(mk_atom("app", "delta", (j, i)))
    return P.atom(mk_atom("app", "delta", (i, j)))


def delta(i, j):
    return app("delta", lift(i), lift(j))


@lru_cache(None)
def _factor_int(n):
    out = {}
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _factor(c):
    out = dict(_factor_int(c.numerator))
    for p, k in _factor_int(c.denominator).items():
        out[p] = out.get(p, 0) - k
    return out


def _const_pow(c, e):
    """c > 0 rational, e rational."""
    if e.denominator == 1:
        return P.const(c ** int(e))
    out = ONE
    for p, k in _factor(c).items():
        x = k * e
        n = x.numerator // x.denominator
        r = x - n
        out = out.scale(Fraction(p) ** n)
        if r:
            out = out * P({((), ((mk_atom("app", "surd", (P.const(p),)), r),)): Fraction(1)})
    return out


def ipow(base_atom, e):
    return P({((), ((base_atom, e),)): Fraction(1)})


def _shannon(p, e):
    """Power of a case distinction: i a + (1 - i) b to i a^e + (1 - i) b^e."""
    inds = {}
    for (b, f), c in p.t.items():
        for a, k in f:
            if a.kind == "ind":
                if b:
                    return None
                inds[a.key] = a
    if not 1 <= len(inds) <= 2:
        return None
    a = inds[min(inds)]
    yes, no = {}, {}
    for (b, f), c in p.t.items():
        r = tuple((x, k) for x, k in f if x is not a)
        q = P({(b, r): c})
        for d in ((yes,) if len(r) < len(f) else (yes, no)):
            for m, v in q.t.items():
                w = d.get(m, 0) + v
                if w:
                    d[m] = w
                else:
                    d.pop(m, None)
    if not yes or not no:
        return None
    i = P.atom(a)
    return i * power(P(yes), e) + (ONE - i) * power(P(no), e)


def power(p, e):
    p = lift(p)
    if isinstance(e, P):
        c = e.const_value()
        if c is None:
            if p.const_value() == 1:
                return ONE
            s = p.single()
            if s is not None and s[0] == 1 and not s[1]:
                out = ONE
                for a, k in s[2]:
                    if a.kind == "app" and a.name == "exp":
                        out = out * exp(a.args[0] * e * k)
                    else:
                        ne = (lift(k) * e)
                        out = out * P({((), ((a, ne),)): Fraction(1)})
                return out
            a = mk_atom("pw", "", (p,))
            return P({((), ((a, e),)): Fraction(1)})
        e = c
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.t:
        if e > 0:
            return ZERO
        raise ZeroDivisionError("negative power of an identically zero term")
    if e.denominator == 1 and e > 0:
        n = int(e)
        r = None
        q = p
        while n:
            if n & 1:
                r = q if r is None else r * q
            n >>= 1
            if n:
                q = q * q
        return r
    s = p.single()
    if s is None:
        r = _shannon(p, e)
        if r is not None:
            return r
    if s is not None and not s[1]:
        c, _, f = s
        if e.denominator == 1:
            out = P.const(c ** int(e))
            fl = []
            for a, k in f:
                fl.append((a, lift(k) * e if isinstance(k, P) else k * e))
            return P(_combine([], fl)).scale(out.const_value())
        if c > 0 and all(atom_pos(a) for a, k in f):
            out = _const_pow(c, e)
            for a, k in f:
                if a.kind == "app" and a.name == "exp":
                    out = out * exp(a.args[0].scale(e * k))
                else:
                    out = out * P(_combine([], [(a, k * e)]))
            return out
        if c > 0 and sum(1 for a, k in f if not atom_pos(a)) < len(f) or (c > 0 and c != 1):
            # split off the positive part
            pos = [(a, k) for a, k in f if atom_pos(a)]
            rest = [(a, k) for a, k in f if not atom_pos(a)]
            out = _const_pow(c, e)
            for a, k in pos:
                out = out * P(_combine([], [(a, k * e)])) if not (a.kind == "app" and a.name == "exp") else out * exp(a.args[0].scale(e * k))
            if rest:
                out = out * power(P({((), tuple(rest)): Fraction(1)}), e)
            return out
        return P({((), ((mk_atom("pw", "", (p,)), e),)): Fraction(1)})
    # several monomials: extract content
    l = _lead(p)
    if e.denominator != 1 and l < 0 :
        l = -l
    cont = P.const(l)
    q = p.scale(1 / l)
    # common monomial factor
    common = None
    for (b, f), c in q.t.items():
        d = {a: k for a, k in f if not isinstance(k, P) and a.kind != "ind"
             and not (a.leaves & {v for v, _ in b})
             and not (a.kind == "app" and a.name in ("sin", "cos"))}
        if common is None:
            common = d
        else:
            common = {a: (min(common[a], d[a]) ) for a in common if a in d}
    # atoms absent from some monomial but with negative powers elsewhere: clear them too
    neg = {}
    for (b, f), c in q.t.items():
        for a, k in f:
            if isinstance(k, Fraction) and k < 0 and not (a.leaves & {v for v, _ in b}):
                neg[a] = min(neg.get(a, 0), k)
    for a, k in neg.items():
        common[a] = min(common.get(a, k), k)
    # exponentials: factor the first one
    expsplit = None
    exps = []
    for (b, f), c in q.t.items():
        x = ZERO
        for a, k in f:
            if a.kind == "app" and a.name == "exp":
                x = a.args[0].scale(k)
        exps.append((x, {v for v, _ in b}))
    common = {a: k for a, k in common.items() if not (a.kind == "app" and a.name == "exp")}
    if e.denominator != 1:
        common = {a: k for a, k in common.items() if atom_pos(a)}
    if all(x.t for x, _ in exps) :
        # pull out the smallest exponential by key when it does not mention bound indices
        x0 = min((x for x, _ in exps), key=lambda y: y.key)
        if not any(x0.leaves & bs for _, bs in exps):
            expsplit = x0
    if common or expsplit is not None:
        fac = ONE
        for a, k in common.items():
            fac = fac * P(_combine([], [(a, k)]))
        if expsplit is not None:
            fac = fac * exp(expsplit)
        q = _times_powers(q, {a: -k for a, k in common.items()})
        if expsplit is not None:
            q = q * exp(-expsplit)
        l2 = _lead(q)
        if e.denominator != 1 and l2 < 0:
            l2 = -l2
        q = q.scale(1 / l2)
        cont = cont.scale(l2) * fac
        if len(q.t) == 1 and not next(iter(q.t))[0]:
            return power(cont, e) * power(q, e)
        return power(cont, e) * P({((), ((mk_atom("pw", "", (q,)), e),)): Fraction(1)})
    return power(cont, e) * P({((), ((mk_atom("pw", "", (q,)), e),)): Fraction(1)})


def _times_powers(q, ks):
    """q times powers of atoms, cancelling before sums are expanded."""
    out = ZERO
    for (b, f), c in q.t.items():
        if b:
            m = P({(b, f): c})
            for a, k in ks.items():
                m = m * P(_combine([], [(a, k)]))
            out = out + m
            continue
        d = dict(f)
        plain, grow = [], ONE
        for a, k in ks.items():
            o = d.get(a, Fraction(0))
            if isinstance(o, P):
                plain.append((a, k))
                continue
            d.pop(a, None)
            n = o + k
            if n == 0:
                continue
            if a.kind == "pw" and n > 0 and n.denominator == 1:
                grow = grow * power(a.args[0], n)
            else:
                plain.append((a, n))
        out = out + P(_combine([], list(d.items()) + plain)).scale(c) * grow
    return out


def sqrt(p):
    return power(p, Fraction(1, 2))


# ------------------------------------------------------------------------- rebuilding
def amap(p, f):
    """Rebuild a term with f(atom) -> term or None (keep) applied everywhere."""
    out = ZERO
    for m, c in p.t.items():
        ob, of = open_mono(m)
        v = P.const(c)
        for it in of:
            a, e = it[0], it[1]
            t = subs_atom(a, it[2]) if len(it) == 3 else P.atom(a)
            if len(it) == 3 and isinstance(e, P):
                e = subs(e, it[2])
            if isinstance(e, P):
                e = amap(e, f)
            t = _amap_top(t, f) if len(it) == 3 else amap_atom(a, f)
            v = v * power(t, e)
        for a, d in reversed(ob):
            v = sum_over(a, amap(d, f), v)
        out = out + v
    return out


def _amap_top(t, f):
    # t came from substituting bound variables in one atom: map its atoms
    out = ZERO
    for (b, fs), c in t.t.items():
        if b:
            out = out + amap(P({(b, fs): c}), f)
            continue
        v = P.const(c)
        for a, e in fs:
            v = v * power(amap_atom(a, f), amap(e, f) if isinstance(e, P) else e)
        out = out + v
    return out


def amap_atom(a, f):
    r = f(a)
    if r is not None:
        return r
    if a.kind in ("sym", "bv"):
        return P.atom(a)
    if a.kind == "app":
        return app(a.name, *[amap(x, f) if isinstance(x, P) else amap_cond(x, f) if isinstance(x, Cond) else x for x in a.args])
    if a.kind == "pw":
        return amap(a.args[0], f)
    if a.kind == "ind":
        return ind(amap_cond(a.args[0], f))
    if a.kind == "bind":
        v = a.args[0]
        nv = fresh("v")
        inner = {v: P.atom(nv)}
        args = [subs_any(x, inner) for x in a.args[1:]]
        args = [amap(x, f) if isinstance(x, P) else amap_cond(x, f) if isinstance(x, Cond) else x for x in args]
        return BINDERS[a.name](nv, *args)
    return P.atom(a)


def amap_cond(c, f):
    if c.op in ("gt", "ge", "eq"):
        return cmp0(c.op, amap(c.args[0], f))
    if c.op == "not":
        return cnot(amap_cond(c.args[0], f))
    if c.op == "and":
        return cand(*[amap_cond(x, f) for x in c.args])
    if c.op == "or":
        return cor(*[amap_cond(x, f) for x in c.args])
    if c.op == "pred":
        return Cond("pred", [amap(x, f) if isinstance(x, P) else amap_cond(x, f) if isinstance(x, Cond) else x for x in c.args])
    return c


# ------------------------------------------------------------------------- sums
def Sum(dom, body):
    """Sum of body(i) for i in dom.  `body` maps an index term to a term."""
    dom = lift(dom)
    n = dom.const_value()
    if n is not None and n.denominator == 1 and n <= 64:
        out = ZERO
        for k in range(int(n)):
            out = out + body(P.const(k))
        return out
    v = fresh("i", int=True)
    b = body(P.atom(v))
    return sum_over(v, dom, b)


def sum_over(v, dom, b):
    out = {}
    for m, c in b.t.items():
        ob, of = open_mono(m)
        for mm, cc in _combine([[v, dom]] + ob, list(of)).items():
            w = out.get(mm, 0) + cc * c
            if w:
                out[mm] = w
            else:
                out.pop(mm, None)
    return P(out)


# ------------------------------------------------------------------------- binders (products, integrals)
def _canon_bound(depth):
    return mk_atom("bv", f"B{depth}", (depth, 0))


def Prod_over(v, dom, body):
    """Product of body over v in dom (dom: collection term or integer term)."""
    c = body.const_value()
    if c == 1:
        return ONE
    # distribute over single monomials
    s = body.single()
    if s is not None and not s[1] and (len(s[2]) > 1 or (s[2] and s[0] != 1)):
        out = ONE
        if s[0] != 1:
            out = power(P.const(s[0]), card(dom) if is_coll(dom) else dom) if s[0] != 1 else ONE
        for a, e in s[2]:
            out = out * Prod_over(v, dom, P({((), ((a, e),)): Fraction(1)}))
        return out
    if v not in body.leaves:
        return power(body, card(dom) if is_coll(dom) else dom)
    d = 1 + max(body.depth, dom.depth)
    bv = _canon_bound(d)
    b2 = subs(body, {v: P.atom(bv)})
    return P.atom(mk_atom("bind", "prod", (bv, dom, b2)))


BINDERS["prod"] = Prod_over


# ------------------------------------------------------------------------- equality by clearing denominators
def denominators(p):
    """Multi-term bases with negative exponents, and negative powers of simple atoms."""
    den = {}
    for (b, f), c in p.t.items():
        bs = {v for v, _ in b}
        for a, e in f:
            if isinstance(e, Fraction) and e < 0 and not (a.leaves & bs):
                den[a] = min(den.get(a, Fraction(0)), e)
    return den


def clear(p, rounds=6):
    """Multiply by all denominators until none remain (sound for zero testing: denominators
    are non-zero wherever p is defined)."""
    for _ in range(rounds):
        den = denominators(p)
        multi = {a: e for a, e in den.items() if a.kind == "pw"}
        if not multi:
            simple = {a: e for a, e in den.items()}
            if not simple:
                return p
            q = P({((), tuple(sorted(((a, -e) for a, e in simple.items()), key=lambda x: x[0].key))): Fraction(1)})
            p = p * q
            continue
        a, e = sorted(multi.items(), key=lambda x: x[0].key)[0]
        k = Fraction(math.ceil(-e))
        out = ZERO
        # multiply each monomial: those with the atom just add exponents
        t = {}
        base = a.args[0]
        basek = power(base, k)
        for (b, f), c in p.t.items():
            d = dict(f)
            mono = P({(b, f): c})
            if a in d and isinstance(d[a], Fraction):
                ne = d[a] + k
                d2 = dict(d)
                del d2[a]
                rest = P({(b, tuple(sorted(d2.items(), key=lambda x: x[0].key))): c}) if not b else None
                if rest is not None:
                    if ne == 0:
                        out = out + rest
                    elif ne.denominator == 1 and ne > 0:
                        out = out + rest * power(base, ne)
                    else:
                        out = out + rest * P({((), ((a, ne),)): Fraction(1)})
                    continue
                out = out + mono * P({((), ((a, k),)): Fraction(1)})
            else:
                out = out + mono * basek
        p = out
    return p


def is_zero(p):
    if not p.t:
        return True
    try:
        return not clear(p).t
    except Budget:
        return False


# ------------------------------------------------------------------------- differentiation
def diff(p, v):
    """Derivative with respect to symbol atom v."""
    if isinstance(v, P):
        v = next(iter(v.t))[1][0][0]
    out = ZERO
    for (b, f), c in p.t.items():
        if b:
            raise ValueError("derivative under a sum is not supported")
        for k, (a, e) in enumerate(f):
            if v not in a.leaves:
                continue
            rest = [x for j, x in enumerate(f) if j != k]
            d = diff_atom(a, v)
            r = P({((), tuple(rest)): c})
            r = r * P(_combine([], [(a, e - 1)])) if e != 1 else r
            out = out + r * d * e
    return out


def diff_atom(a, v):
    if a is v:
        return ONE
    if a.kind == "pw":
        return diff(a.args[0], v)
    if a.kind == "app":
        if a.name in ("exp", "sin", "cos", "log", "erf"):
            x = a.args[0]
            d = diff(x, v)
            if a.name == "exp":
                return exp(x) * d
            if a.name == "sin":
                return cos(x) * d
            if a.name == "cos":
                return -sin(x) * d
            if a.name == "log":
                return d / x
            return exp(-(x * x)) * d * 2 / sqrt(pi())
    raise ValueError(f"cannot differentiate {a}")


# ------------------------------------------------------------------------- printing
def show(p, limit=1200):
    if isinstance(p, Cond):
        return repr(p)
    if not isinstance(p, P):
        return str(p)
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: _monokey(x[0])):
        b, f = m
        s = ""
        if b:
            s += "Sum[" + ",".join(v.name + "<" + show(d) for v, d in b) + "] "
        fs = []
        for a, e in f:
            t = show_atom(a)
            fs.append(t if e == 1 else f"{t}^({show(e) if isinstance(e, P) else e})")
        if c != 1 or not fs:
            fs = [str(c)] + fs
        out.append(s + "*".join(fs))
    r = " + ".join(out)
    return r if len(r) < limit else r[:limit] + "..."


def show_atom(a):
    if a.kind == "sym":
        return a.name
    if a.kind == "bv":
        return "i" + a.name
    if a.kind == "pw":
        return "(" + show(a.args[0]) + ")"
    if a.kind == "ind":
        return "[" + show(a.args[0]) + "]"
    return a.name + "(" + ", ".join(show(x) if isinstance(x, (P, Cond)) else (show_atom(x) if isinstance(x, Atom) else str(x)) for x in a.args) + ")"


# ------------------------------------------------------------------------- numeric evaluation (for cross checks)
def evaluate(p, env):
    """Numerically evaluate.  env: dict symbol name -> float, or callables for apps:
    env['app:NAME'] = function(*args)."""
    tot = 0.0
    for (b, f), c in p.t.items():
        tot += float(c) * _eval_mono(b, f, env)
    return tot


def _eval_mono(b, f, env):
    if b:
        v, dom = b[0]
        n = int(round(evaluate(dom, env)))
        s = 0.0
        for k in range(n):
            e2 = dict(env)
            e2[v.key] = k
            s += _eval_mono(b[1:], f, e2)
        return s
    r = 1.0
    for a, e in f:
        x = eval_atom(a, env)
        ee = evaluate(e, env) if isinstance(e, P) else float(e)
        r *= x ** ee
    return r


def eval_atom(a, env):
    if a.kind == "sym":
        if a.name == "pi":
            return math.pi
        return env[a.name]
    if a.kind == "bv":
        return env[a.key]
    if a.kind == "pw":
        return evaluate(a.args[0], env)
    if a.kind == "ind":
        return 1.0 if eval_cond(a.args[0], env) else 0.0
    if a.kind == "app":
        xs = [evaluate(x, env) if isinstance(x, P) else x for x in a.args]
        f = env.get("app:" + a.name)
        if f is not None:
            return f(*xs)
        return NUMFUN[a.name](*xs)
    raise ValueError(a)


NUMFUN = {
    "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "erf": math.erf,
    "abs": abs, "sign": lambda x: (x > 0) - (x < 0), "max": max, "min": min,
    "surd": lambda x: x, "delta": lambda i, j: 1.0 if round(i) == round(j) else 0.0,
    "ceil": math.ceil, "floor": math.floor,
    "floordiv": lambda x, y: math.floor(x / y + 1e-9), "mod": lambda x, y: x - y * math.floor(x / y + 1e-9),
}


def eval_cond(c, env):
    if c.op == "gt":
        return evaluate(c.args[0], env) > 0
    if c.op == "ge":
        return evaluate(c.args[0], env) >= 0
    if c.op == "eq":
        return abs(evaluate(c.args[0], env)) < 1e-12
    if c.op == "not":
        return not eval_cond(c.args[0], env)
    if c.op == "and":
        return all(eval_cond(x, env) for x in c.args)
    if c.op == "or":
        return any(eval_cond(x, env) for x in c.args)
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    raise ValueError(c)
