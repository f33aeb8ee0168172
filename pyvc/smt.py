"""z3 back end: feasibility of path conditions and arithmetic obligations."""
import time
from fractions import Fraction

import z3

from . import alg
from .alg import P, Cond

STATS = {"calls": 0, "time": 0.0, "unknown": 0}


class Tr:
    def __init__(self):
        self.vars = {}
        self.ax = []
        self.funs = {}

    def const(self, name, isint):
        v = self.vars.get(name)
        if v is None:
            v = z3.Int(name) if isint else z3.Real(name)
            self.vars[name] = v
            f = None
            return v, True
        return v, False

    def real(self, x):
        return z3.ToReal(x) if z3.is_int(x) else x

    def atom(self, a):
        if a.kind == "sym":
            fl = alg.SYMS.get(a.name, {})
            v, new = self.const("s:" + a.name, bool(fl.get("int")))
            if new:
                if fl.get("pos"):
                    self.ax.append(v > 0)
                elif fl.get("nonneg"):
                    self.ax.append(v >= 0)
                if fl.get("nonzero"):
                    self.ax.append(v != 0)
                if a.name == "pi":
                    self.ax += [v > z3.Q(314159265, 100000000), v < z3.Q(314159266, 100000000)]
            return v
        if a.kind == "bv":
            v, new = self.const("b:" + a.key, True)
            return v
        if a.kind == "ind":
            v, new = self.const("i:" + a.key, False)
            if new:
                c = self.cond(a.args[0])
                self.ax.append(v == z3.If(c, z3.RealVal(1), z3.RealVal(0)))
            return v
        if a.kind == "pw":
            return self.term(a.args[0])
        if a.kind == "app":
            n = a.name
            if n == "surd":
                k = a.args[0].const_value()
                v, new = self.const("c:" + a.key, False)
                if new:
                    self.ax.append(v > 0)
                return v
            xs = [self.term(x) if isinstance(x, P) else self.atom(x) if isinstance(x, alg.Atom) else None for x in a.args]
            if any(x is None for x in xs):
                v, new = self.const("o:" + a.key, False)
                if new:
                    self.facts(a, v, [])
                return v
            if n in ("max", "min", "abs", "sign", "delta"):
                v, new = self.const("o:" + a.key, False)
                if new:
                    self.facts(a, v, xs)
                return v
            isint = n in alg.INTFUNS
            f = self.funs.get((n, len(xs)))
            if f is None:
                f = z3.Function("f:" + n, *([z3.RealSort()] * len(xs) + [z3.IntSort() if isint else z3.RealSort()]))
                self.funs[(n, len(xs))] = f
            v = f(*[self.real(x) for x in xs])
            k = "F:" + a.key
            if k not in self.vars:
                self.vars[k] = v
                self.facts(a, v, xs)
            return v
        v, new = self.const("o:" + a.key, False)
        if new:
            self.facts(a, v, [])
        return v

    def facts(self, a, v, xs):
        n = a.name
        if n == "abs":
            x = self.real(xs[0])
            self.ax += [v == z3.If(x >= 0, x, -x)]
        elif n == "max":
            x, y = self.real(xs[0]), self.real(xs[1])
            self.ax += [v == z3.If(x >= y, x, y)]
        elif n == "min":
            x, y = self.real(xs[0]), self.real(xs[1])
            self.ax += [v == z3.If(x <= y, x, y)]
        elif n == "sign":
            x = self.real(xs[0])
            self.ax += [v == z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))]
        elif n == "delta":
            self.ax += [v == z3.If(self.real(xs[0]) == self.real(xs[1]), z3.RealVal(1), z3.RealVal(0))]
        elif n == "exp":
            x = self.real(xs[0])
            self.ax += [v > 0, v >= x + 1, z3.Implies(x <= 0, v <= 1)]
        elif n in ("sin", "cos"):
            self.ax += [v <= 1, v >= -1]
        elif n in ("mod", "floordiv") and len(a.args) == 2 and alg.lift(a.args[1]).const_value() is not None and alg.lift(a.args[1]).const_value() > 0 and alg._is_int_term(alg.lift(a.args[0])):
            c = alg.lift(a.args[1]).const_value()
            if c.denominator == 1:
                q = z3.Int("q:" + alg.lift(a.args[0]).key + ":" + str(c))
                x = self.real(xs[0])
                self.ax += [x >= z3.RealVal(int(c)) * z3.ToReal(q), x < z3.RealVal(int(c)) * (z3.ToReal(q) + 1)]
                self.ax += [self.real(v) == x - z3.RealVal(int(c)) * z3.ToReal(q) if n == "mod" else self.real(v) == z3.ToReal(q)]
        elif n == "ceil":
            x = self.real(xs[0])
            self.ax += [v >= x, v < x + 1]
        elif n == "floor":
            x = self.real(xs[0])
            self.ax += [v <= x, v > x - 1]
        elif alg.atom_pos(a):
            self.ax.append(v > 0)
        elif alg.atom_nonneg(a):
            self.ax.append(v >= 0)
        h = EXTRA.get(n)
        if h is not None:
            for c in h(a):
                self.ax.append(self.cond(c))

    def term(self, p):
        p = alg.lift(p)
        tot = None
        for (b, f), c in p.t.items():
            m = None
            if b:
                k = "m:" + alg._monokey((b, f))
                v, new = self.const(k, False)
                if new:
                    mono = P({(b, f): Fraction(1)})
                    if alg.known_nonneg(mono):
                        self.ax.append(v >= 0)
                m = v
            else:
                for a, e in f:
                    x = self.atom(a)
                    if isinstance(e, P):
                        v, new = self.const("e:" + a.key + "^" + e.key, False)
                        if new and alg.atom_pos(a):
                            self.ax.append(v > 0)
                        y = v
                    elif e.denominator == 1 and 0 < e <= 6:
                        y = x
                        for _ in range(int(e) - 1):
                            y = y * x
                    elif e.denominator == 1 and e < 0:
                        v, new = self.const("e:" + a.key + "^" + str(e), False)
                        if new:
                            y = self.real(x)
                            for _ in range(int(-e) - 1):
                                y = y * self.real(x)
                            self.ax.append(z3.Implies(self.real(x) != 0, v * y == 1))
                        y = v
                    else:
                        v, new = self.const("e:" + a.key + "^" + str(e), False)
                        if new:
                            d, n = e.denominator, e.numerator
                            if n > 0 and d <= 4 and n <= 4:
                                l = v
                                for _ in range(d - 1):
                                    l = l * v
                                r = self.real(x)
                                for _ in range(n - 1):
                                    r = r * self.real(x)
                                self.ax += [z3.Implies(self.real(x) >= 0, z3.And(v >= 0, l == r))]
                            if alg.atom_pos(a):
                                self.ax.append(v > 0)
                        y = v
                    m = y if m is None else self.mul(m, y)
            if m is None:
                t = z3.IntVal(int(c)) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
            else:
                cc = z3.IntVal(int(c)) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
                t = m if c == 1 else self.mul(cc, m)
            tot = t if tot is None else self.add(tot, t)
        return tot if tot is not None else z3.IntVal(0)

    def mul(self, x, y):
        if z3.is_int(x) and z3.is_int(y):
            return x * y
        return self.real(x) * self.real(y)

    def add(self, x, y):
        if z3.is_int(x) and z3.is_int(y):
            return x + y
        return self.real(x) + self.real(y)

    def cond(self, c):
        if c.op == "true":
            return z3.BoolVal(True)
        if c.op == "false":
            return z3.BoolVal(False)
        if c.op == "gt":
            return self.term(c.args[0]) > 0
        if c.op == "ge":
            return self.term(c.args[0]) >= 0
        if c.op == "eq":
            return self.term(c.args[0]) == 0
        if c.op == "not":
            return z3.Not(self.cond(c.args[0]))
        if c.op == "and":
            return z3.And(*[self.cond(x) for x in c.args])
        if c.op == "or":
            return z3.Or(*[self.cond(x) for x in c.args])
        k = "p:" + c.key
        v = self.vars.get(k)
        if v is None:
            v = z3.Bool(k)
            self.vars[k] = v
            h = EXTRA.get("pred:" + str(c.args[0]))
            if h is not None:
                for x in h(c):
                    self.ax.append(z3.Implies(v, self.cond(x)))
        return v


EXTRA = {}       # app name -> function(atom) -> list of Cond facts
_cache = {}


def check(conds, timeout=1500):
    """'sat' / 'unsat' / 'unknown' for a conjunction."""
    key = tuple(sorted(c.key for c in conds)) + (timeout,)
    r = _cache.get(key)
    if r is not None:
        return r
    t0 = time.time()
    tr = Tr()
    s = z3.Solver()
    s.set("timeout", timeout)
    zs = [tr.cond(c) for c in conds]
    n = -1
    s.add(*zs)
    s.add(*tr.ax)
    r = str(s.check())
    STATS["calls"] += 1
    STATS["time"] += time.time() - t0
    if r == "unknown":
        STATS["unknown"] += 1
    _cache[key] = r
    return r


def implied(pc, c, timeout=1500):
    """True if pc implies c (proved)."""
    if c.op == "true":
        return True
    keys = {x.key for x in pc}
    if c.key in keys:
        return True
    rel = relevant(pc, c)
    if check(rel + [alg.cnot(c)], timeout) == "unsat":
        return True
    if len(rel) < len(pc):
        return check(list(pc) + [alg.cnot(c)], timeout) == "unsat"
    return False


def relevant(pc, c):
    """Conjuncts connected to c through shared leaves."""
    need = set(c.leaves)
    rest = list(pc)
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for x in rest:
            if x.leaves & need or not x.leaves:
                out.append(x)
                need |= x.leaves
                changed = True
            else:
                keep.append(x)
        rest = keep
    return out


def model(conds, timeout=3000):
    tr = Tr()
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*[tr.cond(c) for c in conds])
    s.add(*tr.ax)
    if str(s.check()) != "sat":
        return None
    m = s.model()
    out = {}
    for k, v in tr.vars.items():
        if k.startswith("s:"):
            x = m.eval(v, model_completion=True)
            try:
                out[k[2:]] = float(x.as_fraction()) if z3.is_rational_value(x) else int(x.as_long()) if z3.is_int_value(x) else float(x.approx(10).as_fraction())
            except Exception:
                pass
    return out
