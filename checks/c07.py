"""C07: the optimal factors are the exact conditionals: natural parameters of
prior times exponentiated expected log-likelihood, for symbolic dimensions, data and integrals."""
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE
from pyvc.values import *
from pyvc.lib import pd, tens, vec, m_inv, m_mm, mat_transpose, binop, Obj
from .common import World, ret

ASSUMPTIONS = [
    "real arithmetic: floating-point rounding is not part of the contracts",
    "compute_i_hx, compute_I_ux, compute_I_hz, compute_I_uz, compute_K_u, compute_K_z by contract: arbitrary functions with the symmetry of the integrals (their values are the subject of C03 and C04)",
    "an exponentiated quadratic -x'Px/2 + x'l is the density of the normal with precision P and precision-weighted mean l (conjugacy)",
]


def run(pr, tier):
    for scheme in ("structured", "mean-field"):
        W = World(pr, scheme)
        I = W.I
        nu, nz, N, s2 = W.nu, W.nz, W.N, W.s2
        y, t = W.y, W.t

        def ap():
            return I.getattr(W.model(), "approximation")

        # log p(y|u,z) collapsed over f is, in u for fixed z,  -u'[sum A_i + (I_i z)(I_i z)']u/(2s2) + u' sum y_i I_i z/s2
        def spec(which, X1, X2, var):
            """Natural parameters with first moment X1 (column) and second moment X2 of the other factor."""
            if which == "u":
                n, m, K = nu, nz, W.K_u
                F = lambda q, i, a: W.f_uz(t.at(q), i, a)
                C = lambda q, i, j: W.A(t.at(q), i, j)
            else:
                n, m, K = nz, nu, W.K_z
                F = lambda q, i, a: W.f_uz(t.at(q), a, i)
                C = lambda q, i, j: W.Bm(t.at(q), i, j)
            lam = T((n, 1), lambda i, _: alg.Sum(N, lambda q: y.at(q) * alg.Sum(m, lambda a: F(q, i, a) * X1.at(a, ZERO))) / s2)
            prec = T((n, n), lambda i, j: K.at(i, j) + alg.Sum(N, lambda q: C(q, i, j) + W.dbl(lambda a, b: F(q, i, a) * X2(a, b) * F(q, j, b), m, m)) / s2)
            return lam, prec

        def check(which, X1, X2):
            lam, prec = spec(which, X1, X2, None)

            def f(p, nm):
                pr.tensor(nm + ".lam", I, p.pc, I.getattr(p.value, "lam"), lam)
                pr.tensor(nm + ".prec", I, p.pc, I.getattr(p.value, "prec"), prec)
            return ret(pr, f)

        z = tens((nz, 1), "z")
        u = tens((nu, 1), "u")

        def go(meth, arg):
            def thunk():
                a = ap()
                ts = I.callm(a, "construct_terms", t, y)
                return I.callm(a, meth, ts, arg() if callable(arg) else arg)
            return thunk
        pr.paths(f"approx.{scheme}.q_u_optimal", I, go("q_u_optimal", z), check("u", z, lambda a, b: z.at(a, ZERO) * z.at(b, ZERO)))
        pr.paths(f"approx.{scheme}.q_z_optimal", I, go("q_z_optimal", u), check("z", u, lambda a, b: u.at(a, ZERO) * u.at(b, ZERO)))

        # mean field: first and second moment of the other factor
        def other(n, nm):
            lam, K = tens((n, 1), "lam_" + nm), pd(n, "Q_" + nm)
            S = m_inv(I, K)
            mu = m_mm(I, [S, lam])
            return (lambda: I.call(I.get("normal.NaturalNormal"), [lam, K], {})), mu, (lambda a, b: S.at(a, b) + mu.at(a, ZERO) * mu.at(b, ZERO))
        q, mu, m2 = other(nz, "z")
        pr.paths(f"approx.{scheme}.q_u_optimal_mean_field", I, go("q_u_optimal_mean_field", q), check("u", mu, m2))
        q, mu, m2 = other(nu, "u")
        pr.paths(f"approx.{scheme}.q_z_optimal_mean_field", I, go("q_z_optimal_mean_field", q), check("z", mu, m2))

        # the sums over the data are order independent facts about the same ts after reuse: a second
        # call on the same terms gives the same factor (frame: construct_terms results are not mutated)
        def twice():
            a = ap()
            ts = I.callm(a, "construct_terms", t, y)
            I.callm(a, "q_u_optimal", ts, tens((nz, 1), "z0"))
            I.callm(a, "q_z_optimal", ts, tens((nu, 1), "u0"))
            return I.callm(a, "q_u_optimal", ts, z)
        pr.paths(f"approx.{scheme}.q_u_optimal.reuse", I, twice, check("u", z, lambda a, b: z.at(a, ZERO) * z.at(b, ZERO)))
