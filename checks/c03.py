"""C03: covariances and cross integrals of the white-noise models.  The real methods are executed
on a symbolic model -- any parameters, any inducing points, any times -- through the real
arithmetic of exponentiated polynomials; every entry has to equal the integral that defines it.
Both sides are brought to the closed form of a Gaussian integral, which is unique for the exponent:
the coefficients of the specified integrand are read off from the integrand itself."""
from fractions import Fraction
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE
from pyvc.values import *
from pyvc.lib import vec, tens, Obj, LibFn
from .common import ret

ASSUMPTIONS = [
    "Gaussian integrals over the line, a half-line and a quadrant by their closed forms (the last in terms of the bivariate normal distribution function of lab)",
    "alpha, gamma, omega and alpha_t positive; real arithmetic; the floor of 1e-30 under the arguments of square roots is not active: positive arguments exceed it",
]


# ------------------------------------------------------------------------------ Gaussian integrals
def coefficients(f):
    """a, b, c with f(x) = a x^2 + b x + c."""
    x = P.atom(alg.fresh("x"))
    at = x.single()[2][0][0]
    p = f(x)
    s = lambda v: alg.subs(p, {at: lift(v)})
    c = s(0)
    a, b = (s(1) + s(-1)) / 2 - c, (s(1) - s(-1)) / 2
    if not alg.is_zero(p - (a * x * x + b * x + c)):
        raise Unsupported("exponent is not quadratic")
    return a, b, c


def line(f):
    a, b, c = coefficients(f)
    return alg.sqrt(-alg.pi() / a) * alg.exp(c - b * b / (4 * a))


def below(f, upper):
    """Integral of exp(f) up to the limit."""
    a, b, c = coefficients(lambda x: f(x + upper))
    return alg.sqrt(-alg.pi() / a) * alg.exp(c - b * b / (4 * a)) * (1 - alg.app("erf", b / (2 * alg.sqrt(-a)))) / 2


def coefficients2(f):
    x, y = P.atom(alg.fresh("x")), P.atom(alg.fresh("y"))
    ax, ay = (z.single()[2][0][0] for z in (x, y))
    p = f(x, y)
    s = lambda u, v: alg.subs(p, {ax: lift(u), ay: lift(v)})
    c = s(0, 0)
    a11, b1 = (s(1, 0) + s(-1, 0)) / 2 - c, (s(1, 0) - s(-1, 0)) / 2
    a22, b2 = (s(0, 1) + s(0, -1)) / 2 - c, (s(0, 1) - s(0, -1)) / 2
    a12 = s(1, 1) - a11 - a22 - b1 - b2 - c
    if not alg.is_zero(p - (a11 * x * x + a22 * y * y + a12 * x * y + b1 * x + b2 * y + c)):
        raise Unsupported("exponent is not quadratic")
    return a11, a22, a12, b1, b2, c


def gauss2(co):
    """det, quadratic form, means and covariances of exp of a quadratic."""
    a11, a22, a12, b1, b2, c = co
    A11, A22, A12 = -2 * a11, -2 * a22, -a12
    det = A11 * A22 - A12 * A12
    i11, i22, i12 = A22 / det, A11 / det, -A12 / det
    m1, m2 = i11 * b1 + i12 * b2, i12 * b1 + i22 * b2
    q = (i11 * b1 * b1 + i22 * b2 * b2 + 2 * i12 * b1 * b2) / 2
    return det, q + c, m1, m2, i11, i22, i12


def quadrant(f, u1, u2):
    """Integral of exp(f) up to the limits."""
    det, q, m1, m2, i11, i22, i12 = gauss2(coefficients2(lambda x, y: f(x + u1, y + u2)))
    s = alg.sqrt
    return 2 * alg.pi() / s(det) * alg.exp(q) * alg.app("bvn_cdf", -m1 / s(i11), -m2 / s(i22), i12 / s(i11 * i22))


def plane(f):
    """One variable after the other."""
    y0 = P.atom(alg.fresh("y"))
    a, _, _ = coefficients(lambda x: f(x, y0))

    def rest(y):
        a, b, c = coefficients(lambda x: f(x, y))
        return c - b * b / (4 * a)
    return alg.sqrt(-alg.pi() / a) * line(rest)


# ------------------------------------------------------------------------------ the model
class White:
    def __init__(self, pr, cls, causal, kw):
        self.pr, self.I = pr, pr.new()
        I = self.I
        I.ignore_floor = True
        self.causal = causal
        self.alpha, self.gamma, self.omega, self.alpha_t = (alg.sym(n, pos=True) for n in ("alpha", "gamma", "omega", "alpha_t"))
        self.omega_t = alg.power(2 * self.omega / alg.pi(), Fraction(1, 4))
        self.nu, self.nz = (alg.sym(n, int=True, nonneg=True) + 2 for n in ("nu", "nz"))
        self.t_u, self.t_z = vec(self.nu, "tu"), vec(self.nz, "tz")
        I.libfns[("varz", "Vars")] = LibFn("Vars", lambda I2, a, k: Opaque("vars"))
        I.libfns[("B", "bvn_cdf")] = LibFn("bvn_cdf", lambda I2, a, k: lib.ew(I2, lambda x, y, r: alg.app("bvn_cdf", lift(x), lift(y), lift(r)), *a))
        self.cls, self.kw = cls, kw

    def model(self):
        I = self.I
        m = I.call(I.get(self.cls), [], dict(self.kw, alpha=self.alpha, gamma=self.gamma, omega=self.omega, alpha_t=self.alpha_t, t_u=self.t_u, t_z=self.t_z,
                                              noise=alg.sym("noise", pos=True)))
        m.attrs.setdefault("dtype", Opaque("dtype"))
        return m

    # the definitions
    def log_kh(self, a, b):
        return -self.alpha * (a * a + b * b) - self.gamma * (a - b) ** 2

    def log_kxs(self, a, b):
        return -self.omega * (a - b) ** 2

    def over(self, f, upper):
        return below(f, upper) if self.causal else line(f)

    def K_u(self, i, j):
        return self.alpha_t ** 2 * alg.exp(self.log_kh(self.t_u.at(i), self.t_u.at(j)))

    def K_z(self, i, j):
        return self.omega_t ** 2 * line(lambda x: self.log_kxs(self.t_z.at(i), x) + self.log_kxs(x, self.t_z.at(j)))

    def i_hx(self, t1, t2):
        return self.alpha_t ** 2 * self.over(lambda x: self.log_kh(t1 - x, t2 - x), least(t1, t2))

    def I_ux(self, t1, t2, i, j):
        return self.alpha_t ** 4 * self.over(lambda x: self.log_kh(t1 - x, self.t_u.at(i)) + self.log_kh(self.t_u.at(j), t2 - x), least(t1, t2))

    def I_uz(self, t, i, m):
        return self.alpha_t ** 2 * self.omega_t * self.over(lambda x: self.log_kh(t - x, self.t_u.at(i)) + self.log_kxs(x, self.t_z.at(m)), t)

    def I_hz(self, t, m, n):
        f = lambda x, y: self.log_kh(t - x, t - y) + self.log_kxs(x, self.t_z.at(m)) + self.log_kxs(self.t_z.at(n), y)
        return self.alpha_t ** 2 * self.omega_t ** 2 * (quadrant(f, t, t) if self.causal else plane(f))


def least(a, b):
    return lift(a) if lift(a).key == lift(b).key else alg.app("min", lift(a), lift(b))


CLASSES = [("gpcm.GPCM", False, {}), ("gpcm.GPCM", True, {"causal": True}), ("gpcm.CGPCM", True, {}), ("gpcm.CGPCM", False, {"causal": False})]


def run(pr, tier):
    for cls, causal, kw in CLASSES:
        integrals(pr, cls, causal, kw)


def integrals(pr, cls, causal, kw):
    tag = cls.split(".")[1] + (",causal" if causal else ",acausal")
    mk = lambda: White(pr, cls, causal, kw)

    def one(name, args, spec, shape):
        W = mk()
        I = W.I
        a, k, sh, f = args(W)
        pr.paths(f"{name}[{tag}]", I, lambda: I.callm(W.model(), "compute_" + name.split(":")[0], *a, **k),
                 ret(pr, lambda p, nm: pr.tensor(nm, I, list(p.pc), val(p.value), T(sh, f) if sh else f())))

    one("K_u", lambda W: ([], {}, (W.nu, W.nu), W.K_u), None, None)
    one("K_z", lambda W: ([], {}, (W.nz, W.nz), W.K_z), None, None)
    n1, n2 = (alg.sym(n, int=True, nonneg=True) + 2 for n in ("n1", "n2"))
    t, s = vec(n1, "t"), vec(n2, "s")
    t1, s1 = vec(n1, "t"), vec(n1, "s")
    z = lambda *i: ZERO
    col = T((n1, 1), lambda i, j: t.at(i))
    row = T((1, n2), lambda i, j: s.at(j))
    one("i_hx:", lambda W: ([], {}, (), lambda: W.i_hx(ZERO, ZERO)), None, None)
    one("i_hx:t1", lambda W: ([t], {}, (n1,), lambda i: W.i_hx(t.at(i), ZERO)), None, None)
    one("i_hx:t2", lambda W: ([], dict(t2=t), (n1,), lambda i: W.i_hx(ZERO, t.at(i))), None, None)
    one("i_hx:t,t", lambda W: ([t, t], {}, (n1,), lambda i: W.i_hx(t.at(i), t.at(i))), None, None)
    one("i_hx:t1,t2", lambda W: ([t1, s1], {}, (n1,), lambda i: W.i_hx(t1.at(i), s1.at(i))), None, None)
    one("i_hx:pairs", lambda W: ([col, row], {}, (n1, n2), lambda i, j: W.i_hx(t.at(i), s.at(j))), None, None)
    one("I_ux:", lambda W: ([], {}, (W.nu, W.nu), lambda i, j: W.I_ux(ZERO, ZERO, i, j)), None, None)
    one("I_ux:t1", lambda W: ([t], {}, (n1, W.nu, W.nu), lambda q, i, j: W.I_ux(t.at(q), ZERO, i, j)), None, None)
    one("I_ux:t2", lambda W: ([], dict(t2=t), (n1, W.nu, W.nu), lambda q, i, j: W.I_ux(ZERO, t.at(q), i, j)), None, None)
    one("I_ux:t1,t2", lambda W: ([t, s], {}, (n1, n2, W.nu, W.nu), lambda q, r, i, j: W.I_ux(t.at(q), s.at(r), i, j)), None, None)
    one("I_uz", lambda W: ([t], {}, (n1, W.nu, W.nz), lambda q, i, m: W.I_uz(t.at(q), i, m)), None, None)
    one("I_hz", lambda W: ([t], {}, (n1, W.nz, W.nz), lambda q, m, n: W.I_hz(t.at(q), m, n)), None, None)


def val(v):
    return v
