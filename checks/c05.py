"""C05: constructor defaults, parameter registration and unit power; symbolic window, scale, data
range, caps, numbers of inducing points and learned values."""
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE, ind
from pyvc.values import *
from pyvc.lib import vec, tens, Obj, LibFn, binop
from pyvc.interp import NOCONTRACT
from fractions import Fraction
from pyvc.prove import prove_zero
from .common import Store, ret, GETTERS

ASSUMPTIONS = [
    "real arithmetic: floating-point rounding is not part of the contracts",
    "preconditions: window, scale and data range positive; at least two filter and two excitation inducing points; for instantiation scale < sqrt(2) window in the white-noise models (otherwise the filter kernel has a negative decay)",
    "the floor of 1e-30 under the arguments of square roots is not active: positive arguments exceed it",
    "varz: a getter returns its initial value when that satisfies the constraint strictly, afterwards any value that satisfies it",
    "lab/NumPy: linspace(a, b, n)[i] = a + i (b - a) / (n - 1); minimum and maximum of the data are arbitrary with a positive range",
]


class Defaults:
    """A model constructed by the real constructor from symbolic arguments."""

    def __init__(self, pr):
        self.I = I = pr.new()
        self.pr = pr
        self.w, self.s = alg.sym("window", pos=True), alg.sym("scale", pos=True)
        self.N = alg.sym("N", pos=True, int=True)
        self.lo, self.T = alg.sym("t_min"), alg.sym("t_range", pos=True)
        self.t = vec(self.N, "t")
        self.cap_u = alg.sym("n_u_cap", pos=True, int=True)
        self.cap_z = alg.sym("n_z_cap", pos=True, int=True)
        self.cap_m = alg.sym("m_max_cap", pos=True, int=True)
        self.num_u, self.num_z, self.num_m = (alg.sym(n, pos=True, int=True) for n in ("n_u", "n_z", "m_max"))
        I.ignore_floor = True
        I.libfns[("varz", "Vars")] = LibFn("Vars", lambda I2, a, k: Opaque("vars"))
        lib.extremum.hook = self.extreme
        self.pre = [alg.ge(lift(self.cap_u) - 2, 0), alg.ge(lift(self.cap_z) - 2, 0)]

    def extreme(self, name, d, f):
        """Extremes of an equally spaced vector are its ends; those of the data are given."""
        at = alg.fresh("x", int=True, nonneg=True)
        e = P.atom(at)
        v = lift(f(e))
        if v.key == lift(self.t.at(e)).key:
            return lift(self.lo) + (self.T if name == "max" else 0)
        st = norm_p(lift(f(e + 1)) - v)
        if at in st.leaves:
            return None
        up = self.I.implied(alg.ge(st, 0))
        if not up and not self.I.implied(alg.ge(-st, 0)):
            return None
        return f(lift(d) - 1) if up == (name == "max") else f(ZERO)

    def make(self, cls, **kw):
        I = self.I
        for c in self.pre:
            I.assume(c)
        for n in ("n_u", "n_z"):
            if n in kw and is_num(kw[n]):
                I.assume(alg.ge(lift(kw[n]) - 2, 0))
        kw = {k: v for k, v in kw.items() if v is not None}
        m = I.call(I.get(cls), [], dict(window=self.w, scale=self.s, t=self.t, **kw))
        if isinstance(m, Obj):
            m.attrs.setdefault("dtype", Opaque("dtype"))
        return m


def norm_p(v):
    return lift(lib.norm(v))


def done():
    lib.extremum.hook = None


def run(pr, tier):
    try:
        white(pr)
        rough(pr)
    finally:
        done()


def length(v):
    return lift(v.shape[0])


def obs(I, m, n):
    return I.getattr(m, n)


def facts(D, I, m):
    """Preconditions that are stated about the numbers of points."""
    return [alg.ge(length(obs(I, m, "t_z")) - 2, 0)]


def spaced(pr, I, pc, nm, t):
    """Equally spaced and increasing."""
    i = P.atom(alg.fresh("i", int=True, nonneg=True))
    st = norm_p(lift(t.at(i + 1)) - lift(t.at(i)))
    pr.eq(nm + ".spacing", pc, st, norm_p(lift(t.at(ONE)) - lift(t.at(ZERO))))
    pr.holds(nm + ".increasing", pc, alg.gt(st, 0))
    return norm_p(lift(t.at(ONE)) - lift(t.at(ZERO)))


def white(pr):
    for cls, causal, extra in (("gpcm.GPCM", False, {}), ("gpcm.GPCM", True, {"causal": True}), ("gpcm.CGPCM", True, {})):
        tag = cls.split(".")[1] + (",causal" if extra else "")
        for auto in (False, True):
            for ext in (False, True):
                D = Defaults(pr)
                I = D.I
                kw = dict(extra, extend_t_z=ext)
                kw.update(dict(n_u_cap=D.cap_u, n_z_cap=D.cap_z) if auto else dict(n_u=D.num_u, n_z=D.num_z))

                def thunk(D=D, kw=kw, auto=auto, cls=cls):
                    I = D.I
                    if auto:      # at least two points are needed
                        I.assume(alg.gt(4 * lift(D.w), D.s))
                        I.assume(alg.gt(4 * lift(D.T), D.s))
                        a = alg.app("ceil", norm_p(2 * lift(D.T) / D.s))
                        I.assume(alg.ge(a - 2, 0))
                        b = alg.app("ceil", norm_p(4 * lift(D.w) / D.s))
                        I.assume(alg.ge(b - 2, 0))
                    m = D.make(cls, **kw)
                    return m

                def chk(p, nm, D=D, kw=kw, auto=auto, ext=ext, causal=causal):
                    I = D.I
                    m, pc = p.value, list(p.pc)
                    tu, tz = obs(I, m, "t_u"), obs(I, m, "t_z")
                    if not (isinstance(tu, T) and isinstance(tz, T) and tu.rank == 1 and tz.rank == 1):
                        raise Unsupported("inducing points are not vectors")
                    n, nz = length(tu), length(tz)
                    for q in ("n_u", "n_z"):
                        pr.eq(f"{nm}.{q}", pc, lift(obs(I, m, q)), n if q == "n_u" else nz)
                    du = spaced(pr, I, pc, nm + ".t_u", tu)
                    dz = spaced(pr, I, pc, nm + ".t_z", tz)
                    # the window has decayed to exp(-pi) at the last point
                    al = lift(obs(I, m, "alpha"))
                    last = norm_p(tu.at(n - 1))
                    pr.eq(nm + ".t_u.reach", pc, norm_p(al * last ** 2), alg.pi())
                    pr.holds(nm + ".t_u.reach.side", pc, alg.gt(last, 0))
                    if causal:
                        pr.eq(nm + ".t_u.lag zero", pc, norm_p(tu.at(P.const(2))), ZERO)
                        pr.holds(nm + ".t_u.lag zero.there", pc, alg.ge(n - 3, 0))
                    else:
                        pr.eq(nm + ".t_u.symmetric", pc, norm_p(lift(tu.at(ZERO)) + last), ZERO)
                        pr.holds(nm + ".t_u.lag zero", pc, alg.eq(alg.app("mod", norm_p(n - 1), 2), 0))
                    pad = 2 if causal else 1
                    if auto:
                        pr.holds(nm + ".t_u.cap", pc, alg.ge(lift(D.cap_u) + pad - n, 0))
                        # as many as two points per wiggle unless capped
                        pr.holds(nm + ".t_u.number", pc, alg.ge(n, alg.app("min", alg.app("ceil", norm_p(4 * lift(D.w) / D.s)), lift(D.cap_u))))
                        base = alg.app("min", alg.app("ceil", norm_p(2 * lift(D.T) / D.s)), lift(D.cap_z))
                    else:
                        pr.holds(nm + ".t_u.number", pc, alg.cand(alg.ge(n - lift(D.num_u), 0), alg.ge(lift(D.num_u) + pad - n, 0)))
                        base = lift(D.num_z)
                    if not ext:
                        pr.eq(nm + ".t_z.start", pc, norm_p(tz.at(ZERO)), lift(D.lo))
                        pr.eq(nm + ".t_z.end", pc, norm_p(tz.at(nz - 1)), norm_p(lift(D.lo) + D.T))
                        pr.holds(nm + ".t_z.number", pc, alg.eq(nz - base, 0))
                    else:
                        # same spacing as without extension, covering the extra length of the filter
                        if auto:
                            pr.holds(nm + ".t_z.extended.spacing", pc, alg.eq(dz * (base - 1), lift(D.T)))
                        else:
                            pr.eq(nm + ".t_z.extended.spacing", pc, norm_p(dz * (base - 1)), lift(D.T))
                        pr.holds(nm + ".t_z.extended.left", pc, alg.ge(norm_p(lift(D.lo) - last - lift(tz.at(ZERO))), 0))
                        r = norm_p(lift(tz.at(nz - 1)) - lift(D.lo) - D.T)
                        if causal:
                            pr.eq(nm + ".t_z.extended.right", pc, r, ZERO)
                        else:
                            pr.holds(nm + ".t_z.extended.right", pc, alg.ge(norm_p(r - last), 0))
                    if ext and auto:
                        return
                    power(pr, D, nm, pc, m, causal)
                pr.paths(f"{tag}.__init__[{'automatic' if auto else 'given'} numbers{',extended' if ext else ''}]", I, thunk, ret(pr, chk))
        instantiate_white(pr, cls, extra, tag)


def power(pr, D, nm, pc, m, causal):
    """Unit power: mean kernel at lag zero, variance of the excitation inducing variables."""
    I = D.I

    def sub():
        for c in pc:
            I.assume(c)
        x = alg.sym("x")
        tx = T((1,), lambda i: lift(x))
        q = Obj(m.cls, **m.attrs)
        om, om_t = lift(obs(I, m, "omega")), lift(obs(I, m, "omega_t"))
        if prove_zero(pc, om_t - alg.power(2 * om / alg.pi(), Fraction(1, 4)), 7):
            # forget how the decay of the transform was chosen
            q.attrs["omega"] = lift(alg.sym("omega", pos=True))
            q.attrs["omega_t"] = alg.power(2 * q.attrs["omega"] / alg.pi(), Fraction(1, 4))
        return I.callm(q, "compute_i_hx"), I.callm(q, "compute_i_hx", tx, tx), I.callm(q, "compute_K_z")

    def chk(p, q):
        h0, hx, K = p.value
        pr.eq(q + ".kernel at lag zero", p.pc, scal(h0), ONE)
        pr.eq(q + ".kernel at lag zero anywhere", p.pc, scal(hx), ONE)
        i = P.atom(alg.fresh("i", int=True, nonneg=True))
        pr.eq(q + ".excitation variance", p.pc, norm_p(K.at(i, i)), ONE)
    pr.paths(nm + ".power", I, sub, ret(pr, chk))


def scal(v):
    if isinstance(v, T):
        return lift(v.at(*([ZERO] * v.rank)))
    return lift(v)


# ------------------------------------------------------------------------------ registration
def register(I, cls, attrs):
    """Run the registration of parameters of an unfitted model."""
    st = Store(I)
    I.contracts["model.AbstractGPCM.__prior__"] = lambda I2, a, k: None
    m = Obj(I.get(cls), ps=st.root(), **attrs)
    I.callm(m, "__prior__")
    return m, st


def valid_inits(pr, nm, pc, st):
    """The initial value of every parameter satisfies its constraint strictly."""
    for w in st.writes:
        op, path, v, vis, kind, k = w
        name = ".".join(x if isinstance(x, str) else "#" for x in path)
        i = P.atom(alg.fresh("i", int=True, nonneg=True))
        e = v.at(i) if isinstance(v, T) and v.rank == 1 else v
        q = list(pc)
        if isinstance(v, T) and v.rank == 1:
            q.append(alg.ge(lift(v.shape[0]) - 1, i))
        if kind in ("positive", "pos"):
            pr.holds(f"{nm}.{name}.positive", q, alg.gt(lift(e), 0))
        elif kind in ("bounded", "bnd"):
            pr.holds(f"{nm}.{name}.above", q, alg.gt(norm_p(lift(e) - lift(k["lower"])), 0))
            pr.holds(f"{nm}.{name}.below", q, alg.gt(norm_p(lift(k["upper"]) - lift(e)), 0))
        elif kind not in ("unbounded", "ubnd", "get"):
            raise Unsupported("constraint " + kind)


def instantiate_white(pr, cls, extra, tag):
    D = Defaults(pr)
    I = D.I
    noise = alg.sym("noise0", pos=True)
    names = ["noise", "alpha", "alpha_t", "gamma", "omega", "omega_t", "t_u", "t_z"]

    def thunk():
        I.assume(alg.gt(2 * lift(D.w) ** 2, lift(D.s) ** 2))
        m0 = D.make(cls, **dict(extra, n_u=D.num_u, n_z=D.num_z, noise=noise, **fixes(I)))
        before = {n: obs(I, m0, n) for n in names}
        attrs = dict(m0.attrs)
        m, st = register(I, cls, attrs)
        return before, {n: obs(I, m, n) for n in names}, {n: obs(I, m0, n) for n in names}, st

    def chk(p, nm):
        before, after, again, st = p.value
        for n in names:
            same(pr, I, nm + "." + n, p.pc, after[n], before[n])
        valid_inits(pr, nm, p.pc, st)
    pr.paths(f"{tag}.__prior__[unfitted]", I, thunk, ret(pr, chk))


def fixes(I):
    return {f: I.nondet(f) for f in ("fix_noise", "fix_window", "fix_scale")}


def same(pr, I, nm, pc, a, b):
    if isinstance(b, T):
        return pr.tensor(nm, I, pc, a, b)
    pr.eq(nm, pc, lift(a), lift(b))


# ------------------------------------------------------------------------------ rough model
def rough(pr):
    for tag in ("given numbers", "given n_z", "automatic numbers"):
        D = Defaults(pr)
        I = D.I
        auto = tag == "automatic numbers"
        kw = dict(n_u=D.num_u, m_max=D.num_m) if tag == "given numbers" else dict(n_u=D.num_u, n_z=D.num_z)

        def thunk(D=D, kw=kw, auto=auto):
            I = D.I
            if auto:
                I.assume(alg.ge(alg.app("ceil", norm_p(4 * lift(D.w) / D.s)) - 2, 0))
            return D.make("rgpcm.RGPCM", **(dict(n_u_cap=D.cap_u, m_max_cap=D.cap_m) if auto else kw))

        def chk(p, nm, D=D, auto=auto, tag=tag):
            I = D.I
            m, pc = p.value, list(p.pc)
            tu, ms = obs(I, m, "t_u"), obs(I, m, "ms")
            if not (isinstance(tu, T) and tu.rank == 1 and isinstance(ms, T) and ms.rank == 1):
                raise Unsupported("inducing points are not vectors")
            n = length(tu)
            pr.eq(nm + ".n_u", pc, lift(obs(I, m, "n_u")), n)
            pr.eq(nm + ".n_z", pc, lift(obs(I, m, "n_z")), length(ms))
            spaced(pr, I, pc, nm + ".t_u", tu)
            last = norm_p(tu.at(n - 1))
            pr.eq(nm + ".t_u.lag zero", pc, norm_p(tu.at(ZERO)), ZERO)
            pr.eq(nm + ".t_u.reach", pc, norm_p(lift(obs(I, m, "alpha")) * last), alg.pi())
            if auto:
                pr.holds(nm + ".t_u.cap", pc, alg.ge(lift(D.cap_u) - n, 0))
                pr.holds(nm + ".ms.cap", pc, alg.ge(2 * lift(D.cap_m) + 1 - length(ms), 0))
            else:
                pr.eq(nm + ".t_u.number", pc, n, lift(D.num_u))
                if tag == "given numbers":
                    pr.eq(nm + ".ms.number", pc, length(ms), 2 * lift(D.num_m) + 1)
                else:
                    pr.holds(nm + ".ms.number", pc, alg.cand(alg.ge(length(ms) - lift(D.num_z), 0), alg.ge(lift(D.num_z) + 2 - length(ms), 0)))
            # the filter stays inside the interval of the features
            pr.holds(nm + ".a", pc, alg.ge(norm_p(lift(D.lo) - last - lift(obs(I, m, "a"))), 0))
            pr.holds(nm + ".b", pc, alg.ge(norm_p(lift(obs(I, m, "b")) - lift(D.lo) - D.T), 0))
            ga, al = lift(obs(I, m, "gamma")), lift(obs(I, m, "alpha"))
            pr.holds(nm + ".gamma below alpha", pc, alg.gt(al - ga, 0))
            pr.holds(nm + ".gamma positive", pc, alg.gt(ga, 0))

            def sub():
                for c in pc:
                    I.assume(c)
                x = alg.sym("x")
                tx = T((1,), lambda i: lift(x))
                return I.callm(m, "compute_i_hx"), I.callm(m, "compute_i_hx", tx, tx), I.callm(m, "compute_K_u")

            def chk2(p2, q):
                h0, hx, K = p2.value
                pr.eq(q + ".kernel at lag zero", p2.pc, scal(h0), ONE)
                pr.eq(q + ".kernel at lag zero anywhere", p2.pc, scal(hx), ONE)
                i = P.atom(alg.fresh("i", int=True, nonneg=True))
                pr.eq(q + ".filter variance", p2.pc, norm_p(K.at(i, i)), ONE)
            pr.paths(nm + ".power", I, sub, ret(pr, chk2))
        pr.paths(f"RGPCM.__init__[{tag}]", I, thunk, ret(pr, chk))

    D = Defaults(pr)
    I = D.I
    noise = alg.sym("noise0", pos=True)
    names = ["noise", "alpha", "alpha_t", "lam", "gamma", "gamma_t", "t_u"]

    def thunk():
        m0 = D.make("rgpcm.RGPCM", n_u=D.num_u, m_max=D.num_m, noise=noise, **fixes(I))
        before = {n: obs(I, m0, n) for n in names}
        m, st = register(I, "rgpcm.RGPCM", dict(m0.attrs))
        return before, {n: obs(I, m, n) for n in names}, st

    def chk(p, nm):
        before, after, st = p.value
        for n in names:
            same(pr, I, nm + "." + n, p.pc, after[n], before[n])
        valid_inits(pr, nm, p.pc, st)
    pr.paths("RGPCM.__prior__[unfitted]", I, thunk, ret(pr, chk))

    # after learning: every stored value satisfies its constraint, nothing else is known
    D = Defaults(pr)
    I = D.I

    def learned():
        m0 = D.make("rgpcm.RGPCM", n_u=D.num_u, m_max=D.num_m, noise=noise, **fixes(I))
        st = Learned(I)
        I.contracts["model.AbstractGPCM.__prior__"] = lambda I2, a, k: None
        m = Obj(I.get("rgpcm.RGPCM"), **dict(m0.attrs, ps=st.root()))
        I.callm(m, "__prior__")
        return obs(I, m, "gamma"), obs(I, m, "alpha")

    def chkl(p, nm):
        ga, al = p.value
        pr.holds(nm + ".gamma below alpha", p.pc, alg.gt(lift(al) - lift(ga), 0))
        pr.holds(nm + ".gamma positive", p.pc, alg.gt(lift(ga), 0))
    pr.paths("RGPCM.__prior__[learned]", I, learned, ret(pr, chkl))


class Learned(Store):
    """Every parameter holds an arbitrary value that satisfies the constraint it is read with."""

    def getter(self, path, kind, a, k):
        if "name" in k:
            path = path + (k["name"],)
        nm = "learned_" + ".".join(str(x) for x in path)
        init = k.get("init", a[0] if a else None)
        if isinstance(init, T):
            return tens(init.shape, nm)
        if kind in ("positive", "pos"):
            return lift(alg.sym(nm, pos=True))
        v = lift(alg.sym(nm))
        if kind in ("bounded", "bnd"):
            self.I.assume(alg.gt(v - lift(k["lower"]), 0))
            self.I.assume(alg.gt(lift(k["upper"]) - v, 0))
        return v
