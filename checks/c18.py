"""C18: Laplace approximation.  Any dimension, any log-density (an uninterpreted function), any
start, with and without a separate evaluation density."""
from types import SimpleNamespace
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE
from pyvc.values import *
from pyvc.lib import tens, vec, Obj, LibFn
from .common import ret

ASSUMPTIONS = [
    "the container and the optimiser of varz by contract: the optimiser evaluates the objective at arbitrary admissible values of the variables and leaves some admissible value behind; that it finds a mode is not claimed",
    "jax.jacrev, jax.jacfwd and jax.hessian by contract: exact derivatives; second derivatives of twice differentiable densities are symmetric",
    "closest_psd by contract (C15): a function of its matrix and of the inversion flag; real arithmetic",
]


class Lap:
    def __init__(self, pr):
        self.pr, self.I = pr, pr.new()
        I = self.I
        self.n = alg.sym("n", pos=True, int=True)
        self.points, self.mats = {}, {}
        self.jit = None
        for nm in ("jacrev", "jacfwd", "grad"):
            I.libfns[("jax", nm)] = LibFn(nm, lambda I2, a, k, nm=nm: self.jac(a[0], nm))
        I.libfns[("jax", "hessian")] = LibFn("hessian", lambda I2, a, k: self.jac(self.jac(a[0], "grad"), "jacrev"))
        I.libfns[("varz", "Vars")] = LibFn("Vars", lambda I2, a, k: self.vars())
        for nm in ("minimise_l_bfgs_b", "minimise_adam"):
            I.libfns[("varz", nm)] = LibFn(nm, lambda I2, a, k, nm=nm: self.minimise(nm, a, k))
        I.contracts["util.closest_psd"] = self.psd
        self.x0 = tens((self.n, 1), "x0")
        self.mins, self.psds = [], []

    # the densities
    def point(self, x):
        if not isinstance(x, T) or x.rank != 2 or not lib.dim1(x.shape[1]) or not dim_eq(x.shape[0], self.n):
            raise Unsupported(f"density at {x!r}")
        v = lift(x.at(GENS[0], ZERO))
        m = self.points.setdefault(v.key, (len(self.points), v))
        return P.const(m[0])

    def density(self, name):
        return LibFn(name, lambda I, a, k: alg.app(name, self.point(a[0])))

    # derivatives
    def jac(self, g, nm):
        return LibFn("jacobian", lambda I, a, k: self.derive(g, a[0]))

    def derive(self, g, x):
        I = self.I
        if not isinstance(x, T) or x.rank not in (1, 2):
            raise Unsupported(f"derivative at {x!r}")
        if x.rank == 2 and not lib.dim1(x.shape[1]):
            raise Unsupported("derivative with respect to a matrix")
        self.nv = getattr(self, "nv", 0) + 1
        nm = f"?V{self.nv}"
        V = T(x.shape, lambda *i: alg.app(nm, lift(i[0])))
        r = I.call(g, [V], {})
        vk = self.key_of(lambda i: alg.app(nm, i))
        xk = self.key_of(lambda i: x.at(*((i,) + (ZERO,) * (x.rank - 1))))

        def entry(p, j):
            out = ZERO
            for mono in monos(lift(p)):
                c, at = mono
                if at is None:
                    continue
                if at.name in ("f", "g") and lift(at.args[0]).key == vk.key:
                    out = out + c * alg.app("D1" + at.name, j, xk)
                elif at.name in ("D1f", "D1g") and lift(at.args[1]).key == vk.key:
                    h = lambda a, b: alg.app("D2" + at.name[2:], a, b, xk)
                    i = lift(at.args[0])
                    out = out + c * (h(i, j) + h(j, i)) / 2
                else:
                    raise Unsupported("derivative of an unknown function")
            if nm in alg.show(out, 100000):
                raise Unsupported("derivative of an unknown function")
            return out
        extra = (lambda i: (i[0],)) if x.rank == 1 else (lambda i: (i[0], i[1]))
        if is_num(r) or isinstance(r, T) and r.rank == 0:
            r0 = lift(r) if is_num(r) else r.at()
            return T(x.shape, lambda *i: entry(r0, lift(i[0])))
        if not isinstance(r, T):
            raise Unsupported("derivative of a structure")
        k = r.rank
        return T(r.shape + x.shape, lambda *i: entry(r.at(*i[:k]), lift(i[k])))

    def key_of(self, f):
        v = lift(f(GENS[0]))
        m = self.points.setdefault(v.key, (len(self.points), v))
        return P.const(m[0])

    # varz
    def vars(self):
        return Opaque("lvars", d={}, own=True)

    def attr(self, I, v, n):
        d = v.attrs["d"]
        if n in ("unbounded", "positive", "bounded", "ubnd", "pos", "bnd"):
            def mk(I2, a, k, n=n):
                kind = {"ubnd": "unbounded", "pos": "positive", "bnd": "bounded"}.get(n, n)
                init = lib.kwarg(a, k, 0, "init")
                nm = k.get("name", len(d))
                if nm in d:
                    return d[nm].value
                d[nm] = SimpleNamespace(kind=kind, init=init, value=init, visible=k.get("visible", True), odd=len(a) > 1 or set(k) - {"init", "name", "visible"})
                return init
            return LibFn("Vars." + n, mk)
        if n == "__getitem__":
            def get(I2, a, k):
                x = a[0]
                if is_num(x):
                    x = list(d)[int(lift(x).const_value())]
                if x not in d:
                    raise PyExc("KeyError", (x,))
                return d[x].value
            return LibFn("Vars.get", get)
        if n == "assign":
            def put(I2, a, k):
                d[a[0]].value = a[1]
                return a[1]
            return LibFn("Vars.assign", put)
        if n == "names":
            return [x for x in d if isinstance(x, str)]
        if n == "copy":
            return LibFn("copy", lambda I2, a, k: Opaque("lvars", d={x: SimpleNamespace(**vars(y)) for x, y in d.items()}, own=False))
        return NOC

    def minimise(self, nm, a, k):
        I = self.I
        f = a[0] if a else k["f"]
        vs = a[1] if len(a) > 1 else k["vs"]
        if not (isinstance(vs, Opaque) and vs.tag == "lvars"):
            raise Unsupported("optimiser without variables")
        d = vs.attrs["d"]
        if k.get("names") not in (None, []):
            raise Unsupported("names of variables")
        nn = len(self.mins)
        at = Opaque("lvars", d={x: SimpleNamespace(**vars(y)) for x, y in d.items()})
        offered = {}
        for x, y in at.attrs["d"].items():
            if y.visible:
                offered[x] = y.value = tens(y.init.shape, f"at{nn}.{x}")
        res = I.call(f, [at], {})
        for x, y in d.items():
            if y.visible:
                y.value = tens(y.init.shape, f"mode{nn}.{x}")
        self.mins.append(SimpleNamespace(d={x: SimpleNamespace(**vars(y)) for x, y in d.items()}, offered=offered, res=res, n=nn))
        return lift(alg.sym(f"min{nn}"))

    # projection
    def psd(self, I, a, k):
        m = a[0]
        inv = lib.kwarg(a, k, 1, "inv", False)
        if not isinstance(inv, bool) or not isinstance(m, T) or m.rank != 2:
            raise Unsupported("projection")
        v = lift(m.at(GENS[0], GENS[1]))
        q = self.mats.setdefault(v.key, (len(self.mats), v))
        self.psds.append((m, inv))
        return T(m.shape, lambda i, j: alg.app("psdinv" if inv else "psd", lift(i), lift(j), P.const(q[0])))

    def hess(self, name, x):
        """The Hessian of a density."""
        xk = self.key_of(lambda i: x.at(i, ZERO))
        h = lambda a, b: alg.app("D2" + name, lift(a), lift(b), xk)
        return T((self.n, self.n), lambda i, j: (h(i, j) + h(j, i)) / 2)


from pyvc.interp import NOCONTRACT as NOC


def monos(p):
    """(coefficient, function atom) of a linear expression."""
    for (b, f), c in p.t.items():
        if b:
            raise Unsupported("derivative of a sum")
        if not f:
            yield P.const(c), None
            continue
        if len(f) != 1 or f[0][1] != 1 or f[0][0].kind != "app":
            raise Unsupported("derivative of a product")
        yield P.const(c), f[0][0]


def run(pr, tier):
    hessians(pr)
    shapes(pr)
    modes(pr)
    laplace(pr)


def start(pr):
    L = Lap(pr)
    lib.OPQ_ATTR["lvars"] = L.attr
    return L, L.I


def hessians(pr):
    L, I = start(pr)
    x = tens((L.n, 1), "x")
    f = L.density("f")

    def chk(p, nm):
        pr.tensor(nm + ".second derivatives", I, p.pc, p.value, L.hess("f", x))
        pr.tensor(nm + ".symmetric", I, p.pc, p.value, lib.mat_transpose(p.value))
    pr.paths("util.hessian", I, lambda: I.call(I.get("util.hessian"), [f, x], {}), ret(pr, chk))


def shapes(pr):
    def bad(p, nm):
        pr.true(nm, p.kind == "exc" and p.value.name == "ValueError", repr(p.value))
    for k in range(6):
        L, I = start(pr)
        m = alg.sym("m", pos=True, int=True) + 1
        s = [(L.n,), (L.n, m), (1, m), (L.n, 1, 1), (), (m, m)][k]
        x = tens(s, "x") if s else lift(alg.sym("x"))
        pr.paths(f"util.hessian[shape {k}]", I, lambda L=L, I=I, x=x: I.call(I.get("util.hessian"), [LibFn("f", lambda I2, a, k2: alg.sym("f")), x], {}), bad)


def optimised(pr, nm, L, p, mode, name="f"):
    pr.true(nm + ".optimised", len(L.mins) == 1, f"{len(L.mins)} times")
    if len(L.mins) != 1:
        return
    m = L.mins[0]
    pr.true(nm + ".variables", len(m.d) == 1, repr(list(m.d)))
    if len(m.d) != 1:
        return
    (key, v), = m.d.items()
    pr.true(nm + ".free", v.kind == "unbounded" and not v.odd and v.visible, v.kind)
    pr.tensor(nm + ".start", L.I, p.pc, v.init, L.x0)
    pr.eq(nm + ".objective", p.pc, lib.num(m.res), -alg.app(name, L.point(m.offered[key])))
    pr.tensor(nm + ".mode", L.I, p.pc, mode, tens((L.n, 1), f"mode{m.n}.{key}"))


def fresh(L):
    L.mins, L.psds = [], []


def modes(pr):
    L, I = start(pr)
    f = L.density("f")

    def thunk():
        fresh(L)
        return I.call(I.get("util.maximum_a_posteriori"), [f, L.x0], {}), list(L.mins)

    def chk(p, nm):
        x, L.mins = p.value
        optimised(pr, nm, L, p, x)
    pr.paths("util.maximum_a_posteriori", I, thunk, ret(pr, chk))


def laplace(pr):
    for tag, args, kw, dens in (("", 0, {}, "f"), ("evaluation", 1, {}, "g"), ("evaluation by name", 0, {"f_eval": 1}, "g"), ("no evaluation", 0, {"f_eval": None}, "f")):
        L, I = start(pr)
        f, g = L.density("f"), L.density("g")
        a = [f, L.x0] + ([g] if args else [])
        k = {x: (g if y else None) for x, y in kw.items()}

        def thunk(L=L, I=I, a=a, k=k):
            fresh(L)
            r = I.call(I.get("util.laplace_approximation"), list(a), dict(k))
            return r, list(L.mins)

        def chk(p, nm, L=L, I=I, dens=dens):
            d, L.mins = p.value
            if not (isinstance(d, Obj) and d.cls == "Normal"):
                raise Unsupported("distribution")
            mean, var = I.getattr(d, "mean"), I.getattr(d, "var")
            optimised(pr, nm, L, p, mean)
            H = L.hess(dens, mean)
            want = L.psd(I, [T(H.shape, lambda i, j: -H.at(i, j)), True], {})
            pr.tensor(nm + ".covariance", I, p.pc, var, want)
        pr.paths(f"util.laplace_approximation[{tag}]", I, thunk, ret(pr, chk))
