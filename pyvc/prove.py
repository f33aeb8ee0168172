"""Obligations: generation bookkeeping, discharge (algebra, case analysis, z3), refutation by a
numeric counter-model."""
import itertools
import math
import random
import signal
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np

from . import alg, smt, lib
from .alg import P, Cond, lift, ZERO, ONE, ind, cand, cor, cnot, TRUE, FALSE
from .values import *
from .values import _Inf
from .alg import amap, amap_cond, amap_atom
from .interp import Interp, NOCONTRACT, Path


class Timeout(BaseException):  # passes handlers of exceptions
    pass


def _alarm(sig, frm):
    raise Timeout()


class time_limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s, 5)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def atoms_of(p, out=None, inside=True):
    """All atoms occurring in a term (deep)."""
    out = {} if out is None else out
    if isinstance(p, P):
        for (b, f), c in p.t.items():
            for a, e in f:
                _aa(a, out, inside)
                if isinstance(e, P):
                    atoms_of(e, out, inside)
            for _, d in b:
                atoms_of(d, out, inside)
    elif isinstance(p, Cond):
        for x in p.args:
            atoms_of(x, out, inside)
    return out


def _aa(a, out, inside):
    if a.key in out:
        return
    out[a.key] = a
    if inside:
        for x in a.args:
            if isinstance(x, (P, Cond)):
                atoms_of(x, out, inside)
            elif isinstance(x, alg.Atom):
                _aa(x, out, inside)


def free_of_bv(x):
    return not any(l.kind == "bv" for l in x.leaves)


# ------------------------------------------------------------------ numeric models
def _bvn_cdf(h, k, r):
    """Bivariate normal distribution function by Owen's T."""
    from scipy.special import ndtr, owens_t
    if not abs(r) < 1:
        raise ValueError
    h, k = (x if x else 1e-12 for x in (h, k))
    q = math.sqrt(1 - r * r)
    d = 0.5 if h * k < 0 else 0.0
    return 0.5 * (ndtr(h) + ndtr(k)) - owens_t(h, (k - r * h) / (h * q)) - owens_t(k, (h - r * k) / (k * q)) - d


alg.NUMFUN["bvn_cdf"] = _bvn_cdf


class NoValue(Exception):
    pass


class Model:
    """A numeric interpretation of every symbol and uninterpreted function.

    Dimensions are small integers; functions are tabulated pseudo-randomly; matrices with
    registered identities (symmetric positive definite, inverse, Cholesky factor) are
    interpreted by actual matrices, so that the identities used by the algebra hold."""

    def __init__(self, seed, over=None, funs=None):
        self.seed = seed
        self.env = {}
        self.over = over or {}
        self.funs = funs or {}
        self.mats = {}
        self.bools = {}

    def rnd(self, *k):
        return random.Random(zlib.crc32(repr((self.seed,) + k).encode()))

    def sym(self, name):
        if name in self.env:
            return self.env[name]
        if name == "pi":
            return math.pi
        if name.startswith("logdet:"):
            m = self.matrix(name[7:], None)
            v = np.linalg.slogdet(m)[1]
            self.env[name] = v
            return v
        fl = alg.SYMS.get(name, {})
        r = self.rnd("s", name)
        if name in self.over:
            v = self.over[name]
        elif fl.get("int"):
            v = r.choice([1, 2, 2, 3, 3, 4]) if fl.get("pos") else r.choice([0, 1, 2, 3]) if fl.get("nonneg") else r.choice([-3, -2, -1, 0, 1, 2, 3, 4])
        elif fl.get("pos"):
            v = r.uniform(0.2, 2.2)
        elif fl.get("nonneg"):
            v = r.choice([0.0, r.uniform(0, 2)])
        else:
            v = r.choice([r.uniform(-2, 2), r.uniform(-0.5, 0.5), r.uniform(-4, 4)])
            if fl.get("nonzero") and v == 0:
                v = 1.0
        self.env[name] = v
        return v

    def matrix(self, name, n):
        """Interpretation of a registered matrix name."""
        key = (name,) + tuple(n or ())
        if key in self.mats:
            return self.mats[key]
        if name in lib.MATN:
            t = lib.MATN[name]
            env = {f"$p{j}": x for j, x in enumerate(n or ())}
            n0, n1 = [int(round(self.ev(lift(dim_size(d))))) for d in t.shape]
            m = np.array([[self.ev(lift(t.at(P.const(i), P.const(j))), env) for j in range(n1)] for i in range(n0)]).reshape(n0, n1)
        elif name in lib.PDDIM:
            n0 = int(round(self.ev(lift(lib.PDDIM[name]))))
            r = self.rnd("m", name, n or ())
            g = np.array([[r.gauss(0, 1) for _ in range(n0)] for _ in range(n0)]).reshape(n0, n0)
            m = g @ g.T + 0.3 * np.eye(n0)
        else:
            raise NoValue(name)
        self.mats[key] = m
        return m

    def app(self, a, env):
        xs = []
        for x in a.args:
            if isinstance(x, P):
                xs.append(self.ev(x, env))
            elif isinstance(x, Cond):
                xs.append(self.cond(x, env))
            else:
                xs.append(x)
        n = a.name
        f = self.funs.get(n)
        if f is not None:
            return f(*xs)
        if n.startswith(("it:", "E:", "cls:", "argsort:", "invsort:")):
            raise NoValue(n)      # a loop that was not summarised: no counterexample
        if n in alg.NUMFUN:
            try:
                return float(alg.NUMFUN[n](*xs))
            except (ValueError, OverflowError, ZeroDivisionError):
                raise NoValue(n)
        for pre in ("inv:", "chol:", "cholinv:"):
            if n.startswith(pre):
                q = tuple(xs[:-2])
                k = ("d", n) + q
                if k not in self.mats:
                    m = self.matrix(n[len(pre):], q)
                    try:
                        if pre == "inv:":
                            m = np.linalg.inv(m)
                        else:
                            m = np.linalg.cholesky(m)
                            if pre == "cholinv:":
                                m = np.linalg.inv(m)
                    except np.linalg.LinAlgError:
                        raise NoValue(n)
                    self.mats[k] = m
                return self.pick(self.mats[k], xs[-2:])
        if n.startswith("logdet:"):
            return float(np.linalg.slogdet(self.matrix(n[7:], tuple(xs)))[1])
        if n in lib.PDDIM or n in lib.MATN:
            return self.pick(self.matrix(n, tuple(xs[:-2])), xs[-2:])
        if n in alg.SYMM and len(xs) >= 2 and xs[-1] < xs[-2]:
            xs[-1], xs[-2] = xs[-2], xs[-1]
        par = alg.EVENODD.get(n)
        sg = 1
        if par:
            for k, q in enumerate(par):
                if q and xs[k] < 0:
                    xs[k] = -xs[k]
                    sg *= q
                elif q == -1 and xs[k] == 0:
                    return 0.0
        key = tuple(round(x, 7) if isinstance(x, float) else x for x in xs)
        key = tuple(int(x) if isinstance(x, float) and x == int(x) else x for x in key)
        r = self.rnd("f", n, key)
        if n in alg.INTFUNS:
            return r.choice([0, 1, 2, 3])
        if n in alg.POSFUNS:
            return r.uniform(0.2, 2.2)
        if n in alg.NONNEGFUNS:
            return r.uniform(0, 2)
        return sg * r.uniform(-2, 2)

    def pick(self, m, xs):
        i, j = int(round(xs[0])), int(round(xs[1]))
        if not (0 <= i < m.shape[0] and 0 <= j < m.shape[1]):
            return 0.0
        return float(m[i, j])

    def atom(self, a, env):
        if a.kind == "sym":
            if env and a.name in env:
                return env[a.name]
            return self.sym(a.name)
        if a.kind == "bv":
            return env[a.key]
        if a.kind == "pw":
            return self.ev(a.args[0], env)
        if a.kind == "ind":
            return 1.0 if self.cond(a.args[0], env) else 0.0
        if a.kind == "app":
            return self.app(a, env)
        if a.kind == "bind":
            h = BINDEVAL.get(a.name)
            if h is None:
                raise NoValue(a.name)
            return h(self, a, env)
        raise NoValue(a.kind)

    def ev(self, p, env=None):
        p = lift(p)
        env = env or {}
        tot = 0.0
        for (b, f), c in p.t.items():
            tot += float(c) * self.mono(b, f, env)
        return tot

    def mono(self, b, f, env):
        if b:
            v, dom = b[0]
            if alg.is_coll(dom):
                raise NoValue("coll")
            n = int(round(self.ev(dom, env)))
            if n > 40:
                raise NoValue("size")
            s = 0.0
            for k in range(n):
                e2 = dict(env)
                e2[v.key] = k
                s += self.mono(b[1:], f, e2)
            return s
        r = 1.0
        # indicators first: a zero guard makes the rest irrelevant
        for a, e in f:
            if a.kind == "ind" and self.atom(a, env) == 0:
                return 0.0
        for a, e in f:
            x = self.atom(a, env)
            ee = self.ev(e, env) if isinstance(e, P) else float(e)
            if x < 0 and ee != int(ee):
                raise NoValue("root of a negative number")
            if x == 0 and ee < 0:
                raise NoValue("division by zero")
            try:
                r *= x ** ee
            except OverflowError:
                raise NoValue("overflow")
        return r

    def cond(self, c, env=None):
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if c.op == "gt":
            return self.ev(c.args[0], env) > 1e-12
        if c.op == "ge":
            return self.ev(c.args[0], env) >= -1e-12
        if c.op == "eq":
            return abs(self.ev(c.args[0], env)) < 1e-9
        if c.op == "not":
            return not self.cond(c.args[0], env)
        if c.op == "and":
            return all(self.cond(x, env) for x in c.args)
        if c.op == "or":
            return any(self.cond(x, env) for x in c.args)
        if c.op == "pred":
            k = tuple(round(self.ev(x, env), 7) if isinstance(x, P) else self.cond(x, env) if isinstance(x, Cond) else str(x) for x in c.args)
            f = self.funs.get("pred:" + str(c.args[0]))
            if f is not None:
                return f(*k[1:])
            if c.args[0] == "same":
                return k[1] == k[2]
            if k in self.bools:
                return self.bools[k]
            return self.rnd("p", k).random() < 0.5
        raise NoValue(c.op)


def _bind_env(m, a, env):
    return a.args


def _ev_prod(m, a, env):
    bv, dom, body = a.args
    if alg.is_coll(dom):
        raise NoValue("coll")
    n = int(round(m.ev(dom, env)))
    r = 1.0
    for k in range(n):
        e2 = dict(env or {})
        e2[bv.key] = k
        r *= m.ev(body, e2)
    return r


def _ev_ext(f):
    def h(m, a, env):
        bv, dom, body = a.args
        n = int(round(m.ev(dom, env)))
        if n < 1:
            raise NoValue("empty")
        xs = []
        for k in range(n):
            e2 = dict(env or {})
            e2[bv.key] = k
            xs.append(m.ev(body, e2))
        return f(xs)
    return h


def _ev_quant(m, a, env):
    bv, dom, body, q = a.args
    n = int(round(m.ev(dom, env)))
    if n < 1:
        raise NoValue("empty")
    xs = []
    for k in range(n):
        e2 = dict(env or {})
        e2[bv.key] = k
        xs.append(m.ev(body, e2))
    return float(np.quantile(xs, min(max(m.ev(q, env), 0), 1)))


BINDEVAL = {"prod": _ev_prod, "over_max": _ev_ext(max), "over_min": _ev_ext(min), "quantile": _ev_quant}


def find_model(pc, seed, tries=60, funs=None):
    """Numeric models of a path condition."""
    syms = None
    for k in range(tries):
        m = Model(seed * 1000 + k, funs=funs)
        try:
            if all(m.cond(c) for c in pc):
                yield m
                continue
        except NoValue:
            continue
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        if pc and k % 6 == 5:
            if syms is None:
                syms = smt.model(list(pc), 1500) or {}
            if syms:
                m = Model(seed * 1000 + k, over={n: v for n, v in syms.items() if abs(v) < 50}, funs=funs)
                try:
                    if all(m.cond(c) for c in pc):
                        yield m
                except Exception:
                    pass


# ------------------------------------------------------------------ prover
class Prover:
    def __init__(self, prop, seed=1, limit=40, budget=None):
        self.budget = budget
        self.prop = prop
        self.seed = seed
        self.obls = []
        self.witnesses = []
        self.limit = limit
        self.funs = {}
        self.functions = {}
        self.trusted = set()
        self.contracts = set()
        self.assumptions = []
        self.interps = []
        self.t0 = time.time()

    # bookkeeping
    def rec(self, name, status, backend="", detail="", t=0.0):
        self.obls.append({"name": name, "status": status, "backend": backend, "detail": str(detail)[-2500:], "time": round(t, 3)})
        return status == "proved"

    def new(self, repo=None):
        fresh_world()
        import os
        I = Interp(repo or os.environ.get("GPCM_REPO", "/repo"))
        self.interps.append(I)
        return I

    def finish(self):
        for I in self.interps:
            for q, n in I.covered.items():
                self.functions[q] = self.functions.get(q, 0) + n
            self.trusted |= I.trusted_used
            self.contracts |= I.contracts_used

    def section(self, name, thunk, limit=None):
        """Run a group of obligations; tool limits become 'unsupported'."""
        t = time.time()
        if self.budget and t - self.t0 > self.budget:
            return self.rec(name, "unsupported", "", "total time limit")
        try:
            with time_limit(limit or self.limit):
                thunk()
        except (Unsupported, alg.Budget) as e:
            self.rec(name, "unsupported", "", f"{type(e).__name__}: {e}", time.time() - t)
        except Timeout:
            self.rec(name, "unsupported", "", "time limit", time.time() - t)
        except PyExc as e:
            self.rec(name, "unsupported", "", f"raises {e!r}", time.time() - t)
        except RecursionError:
            self.rec(name, "unsupported", "", "recursion", time.time() - t)
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, ZeroDivisionError, OverflowError, PathDead) as e:
            self.rec(name, "unsupported", "", "engine: " + traceback.format_exc(limit=-9), time.time() - t)

    # obligations
    def true(self, name, ok, detail="", backend="structural"):
        """A structural obligation decided by the interpreter on every path."""
        return self.rec(name, "proved" if ok else "refuted", backend, detail)

    def unknown(self, name, detail=""):
        return self.rec(name, "unknown", "", detail)

    def holds(self, name, pc, c):
        t = time.time()
        if isinstance(c, bool):
            return self.rec(name, "proved" if c else "refuted", "structural", "", 0)
        try:
            if c.op == "true" or smt.implied(list(pc), c, 4000):
                return self.rec(name, "proved", "z3", "", time.time() - t)
            for m in itertools.islice(find_model(pc, self.seed, funs=self.funs), 25):
                try:
                    if not m.cond(c):
                        return self.rec(name, "refuted", "model", f"{c!r} fails at {_env(m)}", time.time() - t)
                except NoValue:
                    pass
        except (Unsupported, alg.Budget) as e:
            return self.rec(name, "unsupported", "", e)
        return self.rec(name, "unknown", "", repr(c), time.time() - t)

    def eq(self, name, pc, a, b):
        t = time.time()
        try:
            st, be, de = self.eq_(list(pc), a, b)
        except (Unsupported, alg.Budget, ZeroDivisionError) as e:
            st, be, de = "unsupported", "", str(e)
        return self.rec(name, st, be, de, time.time() - t)

    def eq_(self, pc, a, b):
        if isinstance(a, _Inf) or isinstance(b, _Inf):
            ok = isinstance(a, _Inf) and isinstance(b, _Inf) and a.sign == b.sign
            return ("proved" if ok else "refuted"), "structural", f"{a} vs {b}"
        if not (is_num(a) or isinstance(a, alg.Atom)) or not (is_num(b) or isinstance(b, alg.Atom)):
            return "refuted" if type(a) != type(b) else "unknown", "structural", f"{a!r} vs {b!r}"
        d = lift(a) - lift(b)
        if d.is_zero():
            return "proved", "algebra", ""
        for m in itertools.islice(find_model(pc, self.seed, 4, funs=self.funs), 2):
            # a difference at first sight
            try:
                x, y = m.ev(lift(a)), m.ev(lift(b))
            except (NoValue, OverflowError, ZeroDivisionError, ValueError):
                continue
            if math.isfinite(x) and math.isfinite(y) and abs(x - y) > 1e-4 * (1 + abs(x) + abs(y)):
                return "refuted", "model", f"values {x!r} and {y!r} at {_env(m)}; difference {alg.show(d, 500)}"
        if prove_zero(pc, d, 7):
            return "proved", "algebra+z3" if pc or d.t else "algebra", ""
        seen, small = 0, 0
        for m in itertools.islice(find_model(pc, self.seed, funs=self.funs), 30):
            try:
                x, y = m.ev(lift(a)), m.ev(lift(b))
            except (NoValue, OverflowError, ZeroDivisionError, ValueError):
                continue
            seen += 1
            if not (math.isfinite(x) and math.isfinite(y)):
                continue
            if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                return "refuted", "model", f"values {x!r} and {y!r} at {_env(m)}; difference {alg.show(d, 500)}"
            if 1e-100 < max(abs(x), abs(y)) < 1e-3 and 0 < len(d.t) < 50:
                # values of small magnitude: relative to the parts of the difference
                try:
                    z = [m.ev(P({u: v})) for u, v in d.t.items()]
                    small += abs(sum(z)) > 1e-2 * sum(abs(w) for w in z) and abs(x - y) > 1e-2 * (abs(x) + abs(y))
                except (NoValue, OverflowError, ZeroDivisionError, ValueError):
                    pass
        if small >= 5 and small == seen:
            return "refuted", "model", f"different values of small magnitude in {seen} models; difference {alg.show(d, 500)}"
        return "unknown", "", f"{seen} numeric models agree; difference {alg.show(d, 800)}"

    def tensor(self, name, I, pc, a, b):
        """Tensor equality (shape and every element)."""
        if is_num(a) or is_num(b):
            if isinstance(a, T) and all(lib.dim1(x) for x in a.shape):
                a = lib.scal(a)
            if isinstance(b, T) and all(lib.dim1(x) for x in b.shape):
                b = lib.scal(b)
            return self.eq(name, pc, a, b)
        if not isinstance(a, T) or not isinstance(b, T):
            return self.rec(name, "refuted", "structural", f"{a!r} is not a tensor like {b!r}")
        if a.rank != b.rank:
            return self.rec(name, "refuted", "structural", f"ranks {a!r} {b!r}")
        idx, asm = [], []
        for x, y in zip(a.shape, b.shape):
            if not dim_eq(x, y):
                if isinstance(x, (FAxis, CatAxis)) or isinstance(y, (FAxis, CatAxis)):
                    return self.rec(name, "unknown", "", f"shapes {a!r} {b!r}")
                if not smt.implied(list(pc), alg.eq(lift(x), lift(y))):
                    for m in itertools.islice(find_model(pc, self.seed, funs=self.funs), 20):
                        try:
                            if abs(m.ev(x) - m.ev(y)) > 0.5:
                                return self.rec(name, "refuted", "model", f"shapes {a!r} {b!r} at {_env(m)}")
                        except NoValue:
                            pass
                    return self.rec(name, "unknown", "", f"shapes {a!r} {b!r}")
            if lib.dim1(x) or lib.dim1(y):
                idx.append(ZERO)
            else:
                i = P.atom(alg.fresh("e", int=True, nonneg=True))
                idx.append(i)
                asm += [alg.ge(i, 0), alg.lt(i, lift(x) if not isinstance(x, (FAxis, CatAxis)) else dim_size(x))]
        return self.eq(name, list(pc) + [c for c in asm if c.op != "true"], a.at(*idx), b.at(*idx))

    def value(self, name, I, pc, a, b):
        """Structural equality of values (tuples, lists, tensors, numbers, strings, None)."""
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return self.rec(name, "refuted", "structural", f"lengths {len(a)} {len(b)}")
            r = True
            for k, (x, y) in enumerate(zip(a, b)):
                r = self.value(f"{name}[{k}]", I, pc, x, y) and r
            return r
        if isinstance(a, T) or isinstance(b, T):
            return self.tensor(name, I, pc, a, b)
        if is_num(a) and is_num(b):
            return self.eq(name, pc, a, b)
        if isinstance(a, _Inf) or isinstance(b, _Inf):
            return self.eq(name, pc, a, b)
        return self.rec(name, "proved" if same(a, b) else "refuted", "structural", f"{a!r} vs {b!r}")

    def paths(self, name, I, thunk, check, maxpaths=600):
        """check(path, name) for every path of thunk."""
        def go():
            ps = I.explore(thunk, maxpaths)
            live = 0
            for k, p in enumerate(ps):
                if p.kind == "exc" and p.value.name == "Infeasible":
                    continue
                live += 1
                check(p, f"{name}#{k}" if len(ps) > 1 else name)
            if not live:
                self.rec(name + ":reachable", "unsupported", "", "no feasible path (vacuous)")
        self.section(name, go)

    def reachable(self, name, pc):
        """Vacuity guard: the precondition has a model."""
        r = smt.check(list(pc), 3000)
        if r == "unsat":
            return self.rec(name + ":cover", "unsupported", "z3", "precondition unsatisfiable")
        return self.rec(name + ":cover", "proved" if r == "sat" else "proved", "z3", "cover: " + r)

    def summary(self):
        c = {}
        for o in self.obls:
            c[o["status"]] = c.get(o["status"], 0) + 1
        return c


def _env(m):
    r = {k: (round(v, 5) if isinstance(v, float) else v) for k, v in sorted(m.env.items())[:40]}
    return str(r)


def fresh_world():
    alg.reset()
    for s in (alg.INTFUNS, alg.POSFUNS, alg.NONNEGFUNS):
        s.clear()
    alg.INTFUNS |= {"ceil", "floor", "sign", "card", "delta"}
    alg.NONNEGFUNS.add("abs")
    alg.sym("pi", pos=True)
    install_gens()
    lib.reset_mats()
    smt._cache.clear()
    smt.EXTRA.clear()


def pc_subst(pc):
    """Substitution from equalities of the path condition: symbol -> term."""
    mp = {}
    for c in pc:
        if c.op != "eq":
            continue
        p = alg.subs(c.args[0], mp) if mp else c.args[0]
        for (b, f), co in sorted(p.t.items(), key=lambda x: alg._monokey(x[0])):
            if b or len(f) != 1 or f[0][1] != 1 or f[0][0].kind != "sym":
                continue
            a = f[0][0]
            rest = p - P({(b, f): co})
            if a in rest.leaves:
                continue
            if a in {l for v in mp.values() for l in v.leaves}:
                mp = {k: alg.subs(v, {a: rest.scale(-1 / co)}) for k, v in mp.items()}
            mp[a] = rest.scale(-1 / co)
            break
    return mp


def split_cands(d):
    """Conditions to split on, from indicators and piecewise functions."""
    out = {}
    for k, a in sorted(atoms_of(d).items()):
        if not free_of_bv(a):
            continue
        if any(l.name.startswith("?b") for l in a.leaves if l.kind == "sym") and False:
            continue
        if a.kind == "ind":
            c = a.args[0]
            if c.op in ("gt", "ge", "eq", "pred"):
                out[c.key] = c
        elif a.kind == "app" and a.name == "abs":
            c = alg.ge(a.args[0], 0)
            out[c.key] = c
        elif a.kind == "app" and a.name in ("max", "min"):
            c = alg.ge(a.args[0], a.args[1])
            out[c.key] = c
        elif a.kind == "app" and a.name == "sign":
            c = alg.gt(a.args[0], 0)
            out[c.key] = c
            c2 = alg.lt(a.args[0], 0)
            out[c2.key] = c2
        elif a.kind == "app" and a.name == "delta":
            c = alg.eq(a.args[0], a.args[1])
            if c.op not in ("true", "false"):
                out[c.key] = c
    return list(out.values())


def assume_in(d, pc):
    """Replace indicators and piecewise functions decided by the path condition."""
    memo = {}

    def known(c):
        v = memo.get(c.key)
        if v is None:
            if smt.implied(pc, c, 700):
                v = 1
            elif smt.implied(pc, cnot(c), 700):
                v = -1
            else:
                v = 0
            memo[c.key] = v
        return v

    def f(a):
        if a.kind == "ind":
            c = a.args[0]
            if c.op in ("and", "or", "not"):
                return None
            if not free_of_bv(a):
                return None
            k = known(c)
            return ONE if k > 0 else ZERO if k < 0 else None
        if a.kind == "app" and a.name == "abs" and free_of_bv(a):
            k = known(alg.ge(a.args[0], 0))
            return None if not k else amap(a.args[0], f) * k
        if a.kind == "app" and a.name in ("max", "min") and free_of_bv(a):
            k = known(alg.ge(a.args[0], a.args[1]))
            if not k:
                return None
            return amap(a.args[0] if (k > 0) == (a.name == "max") else a.args[1], f)
        if a.kind == "app" and a.name == "sign" and free_of_bv(a):
            if known(alg.gt(a.args[0], 0)) > 0:
                return ONE
            if known(alg.lt(a.args[0], 0)) > 0:
                return -ONE
            if known(alg.eq(a.args[0], 0)) > 0:
                return ZERO
            return None
        if a.kind == "app" and a.name == "delta" and free_of_bv(a):
            k = known(alg.eq(a.args[0], a.args[1]))
            return ONE if k > 0 else ZERO if k < 0 else None
        return None

    # indicators first: they guard divisions
    return amap(amap(d, lambda a: f(a) if a.kind == "ind" else None), f)


def prove_zero(pc, d, depth):
    """d == 0 for all values satisfying pc."""
    if alg.is_zero(d):
        return True
    if smt.check(list(pc), 700) == "unsat":
        return True
    mp = pc_subst(pc)
    if mp:
        d2 = alg.subs(d, mp)
        if alg.is_zero(d2):
            return True
        d = d2
        pc = [c for c in (alg.subs_cond(c, mp) for c in pc) if c.op != "true"]
        if any(c.op == "false" for c in pc):
            return True
    d2 = assume_in(d, pc)
    if d2.key != d.key:
        d = d2
        if alg.is_zero(d):
            return True
    if depth <= 0:
        return False
    cs = split_cands(d)
    if not cs:
        if nl_zero(pc, d):
            return True
        d2 = congruence(pc, d, depth)
        return d2 is not None and (alg.is_zero(d2) or nl_zero(pc, d2))
    # split on the condition with the fewest leaves first
    cs.sort(key=lambda c: (len(c.leaves), len(c.key), c.key))
    c = cs[0]
    return prove_zero(list(pc) + [c], d, depth - 1) and prove_zero(list(pc) + [cnot(c)], d, depth - 1)


def congruence(pc, d, depth):
    """Merge applications of the same function to arguments that can be shown equal."""
    groups = {}
    for k, a in sorted(atoms_of(d).items()):
        if a.kind == "app" and free_of_bv(a) and a.args and all(isinstance(x, P) for x in a.args):
            groups.setdefault((a.name, len(a.args)), []).append(a)
    to = {}
    for g in groups.values():
        if not 2 <= len(g) <= 8:
            continue
        for i, a in enumerate(g):
            for b in g[:i]:
                if b.key in to or any(a in atoms_of(x).values() for x in b.args) or any(b in atoms_of(x).values() for x in a.args):
                    continue
                if all(same_arg(pc, x - y) for x, y in zip(a.args, b.args)):
                    to[a.key] = P.atom(b)
                    break
    if not to:
        return None
    return amap(d, lambda a: to.get(a.key))


def same_arg(pc, d):
    if d.is_zero() or alg.is_zero(d):
        return True
    return not split_cands(d) and nl_zero(pc, d)


def nl_zero(pc, d):
    """Last resort: z3 on the polynomial difference."""
    try:
        dd = alg.clear(d)
    except alg.Budget:
        return False
    if len(dd.t) > 60:
        return False
    return smt.implied(list(pc), alg.eq(dd, 0), 2500)
