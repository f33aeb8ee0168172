from fractions import Fraction
from common import *
import jax.numpy as jnp
from gpcm.exppoly import var, const, Poly, Term, Factor

NAMES = ["x", "y", "z", "tau1", "t_u"]


def mono(m):
    return tuple(sorted((n, p) for n, p in m.items() if p))


def norm(d):
    return {k: v for k, v in d.items() if v != 0}


def d_add(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + v
    return norm(out)


def d_mul(a, b):
    out = {}
    for k, v in a.items():
        for l, w in b.items():
            m = dict(k)
            for n, p in l:
                m[n] = m.get(n, 0) + p
            m = mono(m)
            out[m] = out.get(m, 0) + v * w
    return norm(out)


def d_pow(a, n):
    out = {(): Fraction(1)}
    for _ in range(n):
        out = d_mul(out, a)
    return out


def d_neg(a):
    return {k: -v for k, v in a.items()}


def d_sub(a, name, b):
    out = {}
    for k, v in a.items():
        m = dict(k)
        p = m.pop(name, 0)
        out = d_add(out, d_mul({mono(m): v}, d_pow(b, p)))
    return out


def d_eval(a, at):
    tot = Fraction(0)
    for k, v in a.items():
        x = Fraction(v)
        for n, p in k:
            x *= Fraction(at[n]) ** p
        tot += x
    return tot


def points(r):
    for j in range(3):
        yield {n: (int(r.randint(-3, 4)) if j else int(r.randint(1, 4))) for n in NAMES}
    yield {n: float(r.randint(-8, 9)) / 4 for n in NAMES}


def num(v, exact):
    return Fraction(v) == exact


def agree(what, p, d, r):
    for at in points(r):
        v = p.eval(**at)
        e = d_eval(d, at)
        if not (Fraction(float(v)) == e or abs(float(v) - float(e)) <= 1e-9 * (1 + abs(float(e)))):
            raise Bad(f"{what} evaluates to {v} at {at}, expected {float(e)}; {p}")


def decomposition(p, d, r):
    for name in ["x", "y", "tau1", "absent"]:
        hp = max([dict(k).get(name, 0) for k in d], default=0)
        true(f"highest power of {name} in {p}: {p.highest_power(name)}, expected {hp}", p.highest_power(name) == hp)
        true(f"dependence of {p} on {name}", p.is_function_of(name) == (hp > 0))
        agree(f"rejection of {name} in {p}", p.reject(name), {k: v for k, v in d.items() if name not in dict(k)}, r)
        for q in range(1, hp + 2):
            c = {}
            for k, v in d.items():
                m = dict(k)
                if m.pop(name, 0) == q:
                    c[mono(m)] = v
            agree(f"coefficient of {name}^{q} in {p}", p.collect_for(Factor(name, q)), c, r)
    true(f"constancy of {p}", p.is_constant() == all(k == () for k in d))


def coef(r):
    k = r.randint(8)
    if k == 0:
        return 0
    if k == 1:
        return int(r.choice([1, -1, -1, -2]))
    if k == 2:
        return float(r.randint(-8, 9)) / 4
    if k == 3:
        return 0.0
    return int(r.randint(-3, 4))


def term(r):
    c = coef(r)
    fs = [(NAMES[r.randint(len(NAMES))], int(r.randint(1, 4))) for _ in range(r.randint(0, 5))]
    m = {}
    for n, p in fs:
        m[n] = m.get(n, 0) + p
    if r.randint(4) == 0:
        return Term(*[Factor(n, p) for n, p in fs]), norm({mono(m): Fraction(1)})
    return Term(c, *[Factor(n, p) for n, p in fs]), norm({mono(m): Fraction(c)})


def atom(r):
    k = r.randint(6)
    if k == 0:
        n = NAMES[r.randint(len(NAMES))]
        return var(n), {((n, 1),): Fraction(1)}
    if k == 1:
        n, p = NAMES[r.randint(len(NAMES))], int(r.randint(1, 4))
        return var(n, p), {((n, p),): Fraction(1)}
    if k == 2:
        c = coef(r)
        return const(c), norm({(): Fraction(c)})
    ts = [term(r) for _ in range(r.randint(0, 5))]
    if ts and r.randint(2):
        ts = ts + [ts[0]]
        if r.randint(2):
            t, d = ts[0]
            ts = ts + [(-t, d_neg(d))] * 2 + [(t, d)]
    d = {}
    for _, e in ts:
        d = d_add(d, e)
    return Poly(*[t for t, _ in ts]), d


def tree(r, depth):
    if depth == 0 or r.randint(5) == 0:
        return atom(r)
    op = r.randint(9)
    p, d = tree(r, depth - 1)
    if len(d) > 25:
        return p, d
    if op in (0, 1, 2, 3):
        q, e = tree(r, depth - 1)
        if op == 0:
            return p + q, d_add(d, e)
        if op == 1:
            return p - q, d_add(d, d_neg(e))
        if op == 2 and len(e) < 20:
            return p * q, d_mul(d, e)
        return (p + q) - p, e
    if op == 4:
        return -p, d_neg(d)
    if op == 5 and len(d) < 6:
        n = int(r.randint(0, 4))
        return p ** n, d_pow(d, n)
    if op == 6:
        c = [2, -3, 0.5, 0, 1, 1.0][r.randint(6)]
        k = r.randint(6)
        C = {(): Fraction(c)} if c else {}
        return [(c * p, d_mul(C, d)), (p * c, d_mul(C, d)), (p + c, d_add(d, C)), (c + p, d_add(C, d)), (c - p, d_add(C, d_neg(d))), (p - c, d_add(d, d_neg(C)))][k]
    q, e = atom(r)
    n = NAMES[r.randint(len(NAMES))]
    if len(d) < 8 and len(e) < 4 and max([dict(k).get(n, 0) for k in d], default=0) < 5:
        return p.substitute(n, q), d_sub(d, n, e)
    return p, d


def one(k, depth):
    r = rng("c01", k, depth)
    p, d = tree(r, depth)
    true(f"{p} is a polynomial", isinstance(p, Poly))
    agree("expression", p, d, r)
    decomposition(p, d, r)
    q, e = tree(r, max(depth - 1, 0))
    # equality
    for a, da, b, db in [(p, d, q, e), (p + q, d_add(d, e), q + p, d_add(d, e)), (p, d, Poly(*list(p.terms)[::-1]), d)]:
        if a == b:
            true(f"{a} equals {b} but does not evaluate equally", da == db)
    n = NAMES[k % len(NAMES)]
    if len(d) < 6 and len(e) < 3 and max([dict(m).get(n, 0) for m in d], default=0) < 5:
        agree("substitution", p.substitute(n, q), d_sub(d, n, e), r)
        agree("operand after substitution", p, d, r)
    agree("operand", q, e, r)


def terms_(k):
    r = rng("c01t", k)
    t, d = term(r)
    u, e = term(r)
    at = {n: int(r.randint(-2, 4)) for n in NAMES}
    ev = lambda x: Fraction(float(x.eval(**at)))
    true(f"{t} evaluates", ev(t) == d_eval(d, at))
    true(f"{t} * {u}", ev(t * u) == d_eval(d_mul(d, e), at))
    true(f"-{t}", ev(-t) == -d_eval(d, at))
    if t == u:
        true(f"{t} == {u}", d == e)
    for n in NAMES:
        hp = max([dict(m).get(n, 0) for m in d], default=0)
        true(f"highest power of {n} in {t}", t.highest_power(n) == hp)
        true(f"dependence of {t} on {n}", t.is_function_of(n) == (hp > 0))
        if hp:
            c = {mono({a: b for a, b in m if a != n}): v for m, v in d.items()}
            true(f"coefficient of {n}^{hp} in {t}", ev(t.collect_for(Factor(n, hp))) == d_eval(c, at))
        q, qe = atom(r)
        if len(qe) < 4 and hp < 6:
            true(f"{q} for {n} in {t}", ev(t.substitute(n, q)) == d_eval(d_sub(d, n, qe), at))


def arrays(k):
    """Coefficients and values can be tensors."""
    r = rng("c01a", k)
    a, b = jnp.asarray(r.randn(3)), r.randn(3)
    x, y = r.randn(3), r.randn(3)
    p = const(a) * var("x") ** 2 + var("y") * b - var("x") + const(a)
    close("tensor coefficients", np.asarray(p.eval(x=x, y=y)), np.asarray(a) * x ** 2 + b * y - x + np.asarray(a), 1e-9)
    q = p * p - p
    v = np.asarray(a) * x ** 2 + b * y - x + np.asarray(a)
    close("tensor product", np.asarray(q.eval(x=x, y=y)), v * v - v, 1e-9)
    s = p.substitute("x", var("y") - const(b))
    w = y - b
    close("tensor substitution", np.asarray(s.eval(y=y)), np.asarray(a) * w ** 2 + b * y - w + np.asarray(a), 1e-9)
    close("tensor coefficient", np.asarray(p.collect_for(Factor("x", 2)).eval(y=y)) * np.ones(3), np.asarray(a), 1e-9)


def equality():
    """Equal only when the values are equal, for constants and factors that are alike."""
    cs = [-3, -2, -1, 0, 1, 2, 3, 0.5, -1.0, -2.0, 2.0 ** 61, 1.0]
    ms = [(), (("x", 1),), (("y", 1),), (("x", 2),), (("x", 1), ("y", 2)), (("x", 2), ("y", 1))]
    ts = [(Term(c, *[Factor(n, p) for n, p in m]), norm({m: Fraction(c)})) for c in cs for m in ms]
    for t, d in ts:
        for u, e in ts:
            if t == u:
                true(f"terms {t} == {u}", d == e)
            if Poly(t) == Poly(u):
                true(f"polynomials {t} == {u}", d == e)
    for f in ms:
        for g in ms:
            for a in f[:1]:
                for b in g[:1]:
                    if Factor(*a) == Factor(*b):
                        true(f"factors {a} == {b}", a == b)


def scaled(k):
    """Constants of any magnitude, also next to large variables."""
    r = rng("c01s", k)
    s = 2.0 ** [-60, -100, 60, -30][k % 4]
    for build in (lambda t: t * Term(s), lambda t: Term(s) * t, lambda t: Poly(t) * s, lambda t: s * Poly(t), lambda t: Poly(t) * const(s)):
        t, d = term(r)
        p = build(t)
        at = {n: float(2.0 ** r.randint(-3, 12)) for n in NAMES}
        e = d_eval({m: v * Fraction(s) for m, v in d.items()}, at)
        v = Fraction(float(p.eval(**at)))
        true(f"{t} scaled by {s} evaluates to {float(v)} at {at}, expected {float(e)}", abs(v - e) <= abs(e) * Fraction(1, 10 ** 9))


N = 600 if THOROUGH else 150
for k in range(N):
    for depth in (1, 2, 3) if k % 3 == 0 else (2,):
        case(f"tree-{k}-{depth}", lambda: one(k, depth), (k, depth), kind=f"t{depth}")
    case(f"term-{k}", lambda: terms_(k), k, kind="term")
case("equality", equality)
for k in range(40):
    case(f"scaled-{k}", lambda: scaled(k), k, kind="scaled")
for k in range(5):
    case(f"arrays-{k}", lambda: arrays(k), k, kind="arrays")
done("random expression trees against exact rational polynomials: evaluation, decomposition, substitution, equality, repeated terms and factors, constants of any magnitude")
