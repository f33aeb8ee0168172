"""A symbolic GPCM for the contracts of the inference code.

Dimensions, data, times, noise variance, inducing covariances and every integral are arbitrary.
The six integrals are represented by their contracts: an arbitrary function with the symmetries
that the integrals have (matrices of the product integrals are symmetric); the covariance
matrices are arbitrary positive-definite matrices."""
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE
from pyvc.values import *
from pyvc.values import _Inf
from pyvc.lib import pd, tens, vec, m_inv, m_mm, m_logdet, m_chol, mat_transpose, binop, Obj, LibFn
from pyvc.interp import NOCONTRACT

alg.SYMM.update({"f_ux", "f_hz"})


def none0(t, n):
    """Times, with None for zero."""
    return (lambda *ix: ZERO) if t is None else None


def telem(t):
    """(shape, element function) of a time argument."""
    if t is None:
        return (), (lambda ix: ZERO)
    if isinstance(t, T):
        return tuple(t.shape), (lambda ix: t.at(*ix))
    return (), (lambda ix: lift(t))


def bshape(a, b):
    """Broadcast shape and index projections."""
    n = max(len(a), len(b))
    aa = (1,) * (n - len(a)) + tuple(a)
    bb = (1,) * (n - len(b)) + tuple(b)
    out = tuple(y if lib.dim1(x) else x for x, y in zip(aa, bb))

    def proj(s, full):
        k = n - len(s)

        def f(ix):
            return tuple(ZERO if lib.dim1(d) and not lib.dim1(o) else i for d, o, i in zip(s, out[k:], ix[k:]))
        return f
    return out, proj(a, aa), proj(b, bb)


class World:
    def __init__(self, pr, scheme="structured", noise="noise", ps=None, inst=True, cls="AbstractGPCM"):
        self.I = I = pr.new()
        self.pr = pr
        self.N = alg.sym("N", pos=True, int=True)
        self.nu = alg.sym("n_u", pos=True, int=True)
        self.nz = alg.sym("n_z", pos=True, int=True)
        self.s2 = alg.sym("sigma2", pos=True)
        self.K_u = pd(self.nu, "K_u")
        self.K_z = pd(self.nz, "K_z")
        self.t = vec(self.N, "t")
        self.y = vec(self.N, "y")
        self.scheme = scheme
        self.ps = ps or Opaque("struct", path=())

    def f_hx(self, a, b):
        return alg.app("f_hx", lift(a), lift(b))

    def f_ux(self, a, b, i, j):
        if lift(a).key != lift(b).key:       # symmetric in the inducing points at equal times only
            return alg.app("g_ux", lift(a), lift(b), lift(i), lift(j))
        return alg.app("f_ux", lift(a), lift(b), lift(i), lift(j))

    def f_hz(self, t, m, n):
        return alg.app("f_hz", lift(t), lift(m), lift(n))

    def f_uz(self, t, i, m):
        return alg.app("f_uz", lift(t), lift(i), lift(m))

    def calls(self):
        nu, nz = self.nu, self.nz

        def i_hx(I, a, k):
            t1, t2 = (list(a) + [k.get("t1"), k.get("t2")])[:2] if a else (k.get("t1"), k.get("t2"))
            if len(a) == 1:
                t2 = k.get("t2")
            s1, e1 = telem(t1)
            s2, e2 = telem(t2)
            sh, p1, p2 = bshape(s1, s2)
            if not sh:
                return self.f_hx(e1(()), e2(()))
            return T(sh, lambda *ix: self.f_hx(e1(p1(ix)), e2(p2(ix))))

        def I_ux(I, a, k):
            t1 = a[0] if a else k.get("t1")
            t2 = a[1] if len(a) > 1 else k.get("t2")
            sq1, sq2 = t1 is None, t2 is None
            s1, e1 = telem(t1)
            s2, e2 = telem(t2)
            if not sq1 and not s1:
                raise Unsupported("scalar time in I_ux")
            sh = (() if sq1 else (s1[0],)) + (() if sq2 else (s2[0],)) + (nu, nu)

            def f(*ix):
                ix = list(ix)
                a_ = ZERO if sq1 else e1((ix.pop(0),))
                b_ = ZERO if sq2 else e2((ix.pop(0),))
                return self.f_ux(a_, b_, *ix)
            return T(sh, f)

        def I_hz(I, a, k):
            t = a[0] if a else k.get("t")
            s, e = telem(t)
            if not s:
                return T((nz, nz), lambda m, n: self.f_hz(e(()), m, n))
            return T((s[0], nz, nz), lambda q, m, n: self.f_hz(e((q,)), m, n))

        def I_uz(I, a, k):
            t = a[0] if a else k.get("t")
            s, e = telem(t)
            if not s:
                return T((nu, nz), lambda i, m: self.f_uz(e(()), i, m))
            return T((s[0], nu, nz), lambda q, i, m: self.f_uz(e((q,)), i, m))
        return dict(compute_i_hx=i_hx, compute_I_ux=I_ux, compute_I_hz=I_hz, compute_I_uz=I_uz,
                    compute_K_u=lambda I, a, k: self.K_u, compute_K_z=lambda I, a, k: self.K_z)

    def model(self, **over):
        """An instantiated model whose prior was constructed by the code of AbstractGPCM."""
        I = self.I
        at = dict(scheme=self.scheme, noise=self.s2, n_u=self.nu, n_z=self.nz, dtype=Opaque("dtype"), ps=self.ps)
        for n, f in self.calls().items():
            at[n] = LibFn(n, f)
        at.update(over)
        M = Obj(I.get("model.AbstractGPCM"), **at)
        I.callm(M, "__prior__")
        return M

    # ---- the specification side: everything from the definitions
    def inv_u(self):
        return m_inv(self.I, self.K_u)

    def inv_z(self):
        return m_inv(self.I, self.K_z)

    def sum(self, n, f):
        return alg.Sum(n, f)

    def Iuz(self, q):
        return T((self.nu, self.nz), lambda i, m: self.f_uz(self.t.at(q), i, m))

    def dbl(self, F, n1, n2):
        return alg.Sum(n1, lambda a: alg.Sum(n2, lambda b: F(a, b)))

    def A(self, t, i, j):
        """I_ux - I_uz K_z^-1 I_uz' for time t."""
        Kzi = self.inv_z()
        return self.f_ux(ZERO, ZERO, i, j) - self.dbl(lambda m, n: self.f_uz(t, i, m) * Kzi.at(m, n) * self.f_uz(t, j, n), self.nz, self.nz)

    def Bm(self, t, m, n):
        Kui = self.inv_u()
        return self.f_hz(t, m, n) - self.dbl(lambda i, j: self.f_uz(t, i, m) * Kui.at(i, j) * self.f_uz(t, j, n), self.nu, self.nu)

    def c(self, t):
        Kui, Kzi = self.inv_u(), self.inv_z()
        nu, nz = self.nu, self.nz
        return (self.f_hx(t, t)
                - self.dbl(lambda i, j: Kui.at(i, j) * self.f_ux(ZERO, ZERO, j, i), nu, nu)
                - self.dbl(lambda m, n: Kzi.at(m, n) * self.f_hz(t, n, m), nz, nz)
                + self.dbl(lambda i, j: self.dbl(lambda m, n: Kui.at(i, j) * self.f_uz(t, j, m) * Kzi.at(m, n) * self.f_uz(t, i, n), nz, nz), nu, nu))


def ret(pr, f):
    def g(p, name):
        if p.kind != "ret":
            return pr.true(name, False, repr(p.value))
        f(p, name)
    return g


# ------------------------------------------------------------------------------ parameter store
GETTERS = ("unbounded", "ubnd", "get", "positive", "pos", "bounded", "bnd", "lower_triangular", "tril", "positive_definite", "pd", "orthogonal", "orth")


class Store:
    """The variable container behind `model.ps` and `model.vs`.

    Contract of varz: a getter returns the value stored under its path, creating it from `init`
    when there is none; `assign` overwrites, `delete` removes, calling a path reads it. What is
    stored initially is arbitrary (given by `base`, or decided per path)."""

    def __init__(self, I, base=None, exists=None):
        self.I = I
        self.log = []        # (path, value or None, visible) in order
        self.writes = []     # ("create" | "assign" | "delete", path, value, visible)
        self.base = base
        self.exists = exists
        self.ex = []         # decided initial existence

    def root(self):
        return Opaque("struct", store=self, path=())

    def same(self, a, b):
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            if isinstance(x, str) or isinstance(y, str):
                if isinstance(x, str) != isinstance(y, str) or x != y:
                    return False
            else:
                d = alg.eq(lift(x), lift(y))
                if d.op == "false":
                    return False
                if d.op != "true":
                    conds.append(d)
        return all(self.I.decide(c) for c in conds)

    def lookup(self, path):
        """(present, value)"""
        for p, v, _ in reversed(self.log):
            if self.same(p, path):
                return v is not None, v
        for p, e, v in self.ex:
            if self.same(p, path):
                return e, v
        e = self.exists(path) if self.exists else (self.base is not None)
        v = self.base(path) if e and self.base else None
        self.ex.append((path, e, v))
        return e, v

    def read(self, path):
        e, v = self.lookup(path)
        if not e:
            raise PyExc("KeyError", (path,))
        return v

    def getter(self, path, kind, a, k):
        if "name" in k:
            path = path + (k["name"],)
        e, v = self.lookup(path)
        if e:
            return v
        init = k.get("init", a[0] if a else None)
        if init is None:
            raise Unsupported("random initial value of a parameter")
        vis = k.get("visible", True)
        self.log.append((path, init, vis))
        self.writes.append(("create", path, init, vis, kind, dict(k)))
        return init

    def assign(self, path, v):
        self.lookup(path)
        e, _ = self.lookup(path)
        if not e:
            raise PyExc("KeyError", (path,))
        self.log.append((path, v, None))
        self.writes.append(("assign", path, v, None))

    def delete(self, path):
        self.lookup(path)
        self.log.append((path, None, None))
        self.writes.append(("delete", path, None, None))


def pstr(path):
    return ".".join(x if isinstance(x, str) else f"[{x}]" for x in path)


def struct_attr(I, o, n):
    st, path = o.attrs.get("store"), o.attrs["path"]
    if n in GETTERS:
        return LibFn(n, lambda I2, a, k: st.getter(path, n, a, k))
    if n == "assign":
        return LibFn(n, lambda I2, a, k: st.assign(path, a[0] if a else k["value"]))
    if n == "delete":
        return LibFn(n, lambda I2, a, k: st.delete(path))
    if n == "all":
        return LibFn(n, lambda I2, a, k: Opaque("regex", path=path, neg=False))
    if n == "__getitem__":
        def gi(I2, a, k):
            i = a[0]
            if isinstance(i, str):
                return st.read(path + (i,))
            return Opaque("struct", store=st, path=path + (lift(i),))
        return LibFn(n, gi)
    if n.startswith("__"):
        return NOCONTRACT
    return Opaque("struct", store=st, path=path + (n,))


lib.OPQ_ATTR["struct"] = struct_attr
lib.OPQ_CALL["struct"] = lambda I, o, a, k: o.attrs["store"].read(o.attrs["path"])
lib.OPQ_TRUTH["struct"] = lambda I, o: o.attrs["store"].lookup(o.attrs["path"])[0]


def posteriors(W, tag="", samples=False):
    """Initial store of an inference run: every posterior has arbitrary parameters."""
    def base(path):
        if len(path) == 3 and path[0] in ("q_u", "q_z") and not isinstance(path[1], str):
            n = W.nu if path[0] == "q_u" else W.nz
            nm = f"{tag}{path[0]}[{path[1]}]"
            if path[2] == "lam":
                return tens((n, 1), nm + ".lam")
            if path[2] == "prec":
                return pd(n, nm + ".prec")
            if path[2] == "samples":
                return tens((n, alg.sym("S", pos=True, int=True)), nm + ".samples")
        raise Unsupported("unknown parameter " + pstr(path))
    return base


def set_index(I, a, k):
    """Put an approximation at an arbitrary posterior index."""
    if not (isinstance(a, Obj) and "_q_i" in a.attrs):
        raise Unsupported("the posterior index is not kept in _q_i")
    I.setattr(a, "_q_i", k)


def get_index(I, a):
    if not (isinstance(a, Obj) and "_q_i" in a.attrs):
        raise Unsupported("the posterior index is not kept in _q_i")
    return I.getattr(a, "_q_i")


class Nat:
    """Moments of the normal with natural parameters lam, K."""

    def __init__(self, W, lam, K):
        I = W.I
        self.lam, self.K, self.n = lam, K, K.shape[0]
        self.S = m_inv(I, K)
        self.mu = m_mm(I, [self.S, lam])
        self.logdet = lift(m_logdet(I, K))

    def m2(self, a, b):
        return self.S.at(a, b) + self.mu.at(a, ZERO) * self.mu.at(b, ZERO)


class Point:
    """A sample in place of a distribution."""

    def __init__(self, u):
        self.mu = u

    def m2(self, a, b):
        return self.mu.at(a, ZERO) * self.mu.at(b, ZERO)


def optimal(W, which, other):
    """Natural parameters of the optimal factor given the other one (C07)."""
    N, s2, y, t = W.N, W.s2, W.y, W.t
    if which == "u":
        n, m, K = W.nu, W.nz, W.K_u
        F = lambda q, i, a: W.f_uz(t.at(q), i, a)
        C = lambda q, i, j: W.A(t.at(q), i, j)
    else:
        n, m, K = W.nz, W.nu, W.K_z
        F = lambda q, i, a: W.f_uz(t.at(q), a, i)
        C = lambda q, i, j: W.Bm(t.at(q), i, j)
    lam = T((n, 1), lambda i, _: alg.Sum(N, lambda q: y.at(q) * alg.Sum(m, lambda a: F(q, i, a) * other.mu.at(a, ZERO))) / s2)
    prec = T((n, n), lambda i, j: K.at(i, j) + alg.Sum(N, lambda q: C(q, i, j) + W.dbl(lambda a, b: F(q, i, a) * other.m2(a, b) * F(q, j, b), m, m)) / s2)
    return Nat(W, lam, prec)


def pstate(name="st"):
    return Opaque("state", id=alg.sym(name))


def mk_approximation(W, k=None, before=None):
    """Approximation of an instantiated model; with `k` at posterior index k."""
    st = Store(W.I, base=posteriors(W))
    W.ps = st.root()
    a = W.I.getattr(W.model(), "approximation")
    W.store = st
    if k is not None:
        set_index(W.I, a, k)
    return a


class Given:
    """Moments of an arbitrary normal that depends on the given indices."""

    def __init__(self, W, n, name, params=()):
        ps = tuple(lift(x) for x in params)
        self.n, self.K = n, pd(n, name + ".prec", ps)
        self.lam = T((n, 1), lambda i, j: alg.app(name + ".lam", *ps, i))
        self.S = m_inv(W.I, self.K)
        self.mu = m_mm(W.I, [self.S, self.lam])
        self.logdet = lift(m_logdet(W.I, self.K))

    def m2(self, a, b):
        return self.S.at(a, b) + self.mu.at(a, ZERO) * self.mu.at(b, ZERO)


def generics(v):
    return sorted((l for l in lift(v).leaves if l.kind == "bv" or (l.kind == "sym" and l.name.startswith("?"))), key=lambda l: l.key)


def abstracted(W, log, names=("q_u_optimal_mean_field", "q_z_optimal_mean_field")):
    """Contract of the optimal factors at each call site: what the body returns is recorded (and
    checked against the contract of C07 afterwards); the caller sees an arbitrary normal, which
    may depend on the sample that it was conditioned on."""
    I = W.I
    busy = []

    def make(meth):
        which = meth[2]

        def contract(I2, a, k):
            if busy:
                return NOCONTRACT
            busy.append(1)
            try:
                r = I.call(I.getattr(a[0], meth), list(a[1:]), k)
            finally:
                busy.pop()
            n = W.nu if which == "u" else W.nz
            arg = a[2] if len(a) > 2 else list(k.values())[-1]
            ps = ()
            if isinstance(arg, T):
                ps = tuple(P.atom(l) for l in generics(arg.at(*GENS[:arg.rank])))
                if len(ps) > 1:
                    raise Unsupported("a factor over several samples")
            g = Given(W, n, f"opt{len(log)}.q_{which}", ps)
            log.append(dict(which=which, lam=I.getattr(r, "lam"), prec=I.getattr(r, "prec"), given=g, arg=arg, params=ps))
            return I.call(I.get("normal.NaturalNormal"), [g.lam, g.K], {})
        return contract
    return {f"approx.Approximation.{m}": make(m) for m in names}
