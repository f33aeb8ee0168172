"""C15: projection onto positive semi-definite matrices.  Any square real matrix of any size, in
its spectral form a = V diag(d) V' + W with V orthogonal and W antisymmetric: every square matrix
has one, so nothing is lost.  Repeated eigenvalues and eigenvalues of opposite sign included."""
from pyvc import alg, lib, smt
from pyvc.alg import P, lift, ZERO, ONE, ind
from pyvc.values import *
from pyvc.prove import Model
from pyvc.lib import LibFn
from .common import ret

ASSUMPTIONS = [
    "spectral theorem: the symmetric part of a real matrix is V diag(d) V' with V orthogonal",
    "singular value decomposition by contract: the left singular vectors are some orthonormal basis of eigenvectors of M M'; which basis is left open, so that the code may rely on them only where the eigenvalues of M M' tell those of the matrix apart (a proof obligation at the call)",
    "the projection onto positive semi-definite matrices in Frobenius norm clips the eigenvalues of the symmetric part (Higham 1988; the inequality behind it is proved per eigenvalue and the reduction to it rests on the invariance of the norm)",
    "real arithmetic; the cut-off of the pseudo-inverse is below 1e-6 of the largest eigenvalue",
]


def run(pr, tier):
    for inv in (None, False, True):
        projection(pr, inv)
    optimal(pr)


class Spectral:
    def __init__(self, pr, symmetric=False):
        self.pr, self.I = pr, pr.new()
        I = self.I
        self.n = alg.sym("n", pos=True, int=True)
        d = lambda a, b: alg.delta(a[0], b[0])
        alg.CONTRACT[("V", 0, "V", 0)] = d
        alg.CONTRACT[("V", 1, "V", 1)] = d
        self.V = lambda i, k: alg.app("V", lift(i), lift(k))
        self.d = lambda k: alg.app("d", lift(k))
        W = lambda i, j: alg.app("w", lift(i), lift(j)) - alg.app("w", lift(j), lift(i))
        self.a = T((self.n, self.n), lambda i, j: self.conj(self.d)(i, j) + W(i, j))
        self.calls = []
        for m in ("B", "np.linalg", "scipy.linalg", "jax.numpy.linalg"):
            I.libfns[(m, "svd")] = LibFn("svd", self.svd)
            I.libfns[(m, "eigh")] = LibFn("eigh", self.eigh)

    def conj(self, h):
        """V diag(h) V'."""
        return lambda i, j: alg.Sum(self.n, lambda k: self.V(i, k) * h(k) * self.V(j, k))

    def weights(self, M):
        """h with M = V diag(h) V', or None."""
        def proj(k, l):
            return alg.Sum(self.n, lambda i: alg.Sum(self.n, lambda j: self.V(i, k) * lift(M.at(i, j)) * self.V(j, l)))
        g, h = GENS[0], GENS[1]
        w = proj(g, g)
        if "app:V(" in w.key or "app:w(" in w.key:
            return None
        off = alg.amap(proj(g, h), lambda a: ZERO if a.kind == "app" and a.name == "delta" else None)
        if not alg.is_zero(off):         # equal to w where the positions coincide, zero elsewhere
            return None
        return lambda k: alg.subs(w, {g.single()[2][0][0]: lift(k)})

    def facts(self, terms):
        """Sums over the spectrum that bound each eigenvalue."""
        out = []
        ds = lambda k: self.d(k)
        roots = [alg.sqrt(alg.Sum(self.n, lambda k: self.d(k) ** 2)), alg.Sum(self.n, lambda k: alg.absv(self.d(k)))]
        for k in terms:
            for r in roots:
                out += [alg.ge(r, self.d(k)), alg.ge(r, -self.d(k))]
        return [c for c in out if c.op != "true"]

    def basis(self, M, key, what):
        """Some orthonormal basis of eigenvectors of M (key: what its eigenvalues tell apart)."""
        if not isinstance(M, T) or M.rank != 2 or not dim_eq(M.shape[0], self.n) or not dim_eq(M.shape[1], self.n):
            raise Unsupported(what)
        h = self.weights(M)
        if h is None:
            raise Unsupported(f"{what} of a matrix that does not share the eigenvectors")
        k, l = P.atom(alg.fresh("k", int=True, nonneg=True)), P.atom(alg.fresh("l", int=True, nonneg=True))
        pc = list(self.I.pc()) + self.facts([k, l]) + [alg.lt(k, self.n), alg.lt(l, self.n), alg.eq(key(h(k)), key(h(l)))]
        want = alg.eq(self.d(k), self.d(l))
        if not smt.implied(pc, want, 4000):
            w = self.coincidence(h, key, k, l)
            if w is not None:
                # whether that matters is up to the real code: a candidate for the replay
                if not any(x["spectrum"] == w for x in self.pr.witnesses):
                    self.pr.witnesses.append({"case": f"witness-{what}", "spectrum": w})
            raise Unsupported(f"{what}: eigenvectors are not determined: {h(k)!r}")
        self.calls.append((what, pc, want))
        return h, T((self.n, self.n), lambda i, j: self.V(i, j))

    def coincidence(self, h, key, k, l):
        """Different eigenvalues of the matrix that the decomposition does not tell apart."""
        name = lambda p: p.single()[2][0][0].name
        f = key(h(k)) - key(h(l))

        def ev(t, w):
            table = lambda i: t * w[int(round(i))] if 0 <= int(round(i)) < len(w) else 0.0
            m = Model(1, over={name(k): 0, name(l): 1, name(self.n): len(w)}, funs={"d": table})
            try:
                return float(m.ev(f)) if all(m.cond(c) for c in self.I.pc()) else None
            except Exception:
                return None
        for w in ([1, -0.5], [0.3, -1], [1, -0.9, 0.2], [1, 0.4], [-1, 0.7, 0.7], [1.0, -1.0]):
            last = None
            for e in range(-40, 41):
                t = 10 ** (e / 10)
                v = ev(t, w)
                if v == 0:
                    return [t * x for x in w]
                if v is not None and last is not None and last[1] * v < 0:
                    a, b = last[0], t
                    for _ in range(200):
                        c = (a + b) / 2
                        u = ev(c, w)
                        if u is None:
                            return None
                        a, b = (c, b) if u * last[1] > 0 else (a, c)
                    if abs(ev(a, w)) < 1e-9 * abs(last[1]) + 1e-12:
                        return [a * x for x in w]
                last = (t, v) if v is not None else None
        return None

    def svd(self, I, a, k):
        h, U = self.basis(a[0], lambda x: x * x, "svd")
        if k.get("compute_uv") is False:
            raise Unsupported("singular values only")
        s = T((self.n,), lambda i: alg.absv(h(i)))

        def right(i, j):
            raise Unsupported("right singular vectors")
        return (U, s, T((self.n, self.n), right))

    def eigh(self, I, a, k):
        h, U = self.basis(a[0], lambda x: x, "eigh")
        return (T((self.n,), lambda i: h(i)), U)


def projection(pr, inv):
    s = Spectral(pr)
    I = s.I
    pos = lambda k: alg.app("max", s.d(k), ZERO)
    kw = {} if inv is None else {"inv": inv}

    def thunk():
        s.calls.clear()
        return I.call(I.get("util.closest_psd"), [s.a], dict(kw))

    def chk(p, nm):
        R = p.value
        pc = list(p.pc)
        for k, (what, c, want) in enumerate(s.calls):
            pr.holds(f"{nm}.{what}{k}.determines the eigenvectors", c, want)
        if not isinstance(R, T) or R.rank != 2:
            return pr.true(nm + ".matrix", False, repr(R))
        pr.tensor(nm + ".symmetric", I, pc, R, lib.mat_transpose(R))
        w = s.weights(R)
        if w is None:
            raise Unsupported("result in another basis")
        k = P.atom(alg.fresh("k", int=True, nonneg=True))
        dom = pc + [alg.lt(k, s.n)]
        dk = s.d(k)
        if not inv:
            # the closest matrix: negative eigenvalues are dropped, the others are kept
            pr.eq(nm + ".eigenvalues", dom, w(k), pos(k))
            pr.holds(nm + ".no negative eigenvalue", dom, alg.ge(pos(k), 0))
            pr.eq(nm + ".positive semi-definite matrices are kept", dom + [alg.ge(dk, 0)], w(k), dk)
            return
        top = lib.extremum("max", s.n, pos)
        dom += [alg.ge(top, pos(k)), alg.ge(top, 0), alg.le(alg.sym("epsilon", pos=True), P.const("1/1000000"))]
        pr.eq(nm + ".null eigenvalues stay", dom + [alg.le(dk, 0)], w(k), ZERO)
        pr.eq(nm + ".others are inverted", dom + [alg.gt(dk, 0), alg.gt(dk * 1000000, top)], w(k) * dk, ONE)
    pr.paths(f"util.closest_psd[inv={inv}]", I, thunk, ret(pr, chk))


def optimal(pr):
    """In the eigenbasis, X has diagonal y_k >= 0 if it is positive semi-definite, and
    ||A - X||^2 >= sum_k (d_k - y_k)^2 >= sum_k (d_k - max(d_k, 0))^2 = ||A - R||^2."""
    I = pr.new()
    d, y = alg.sym("dk"), alg.sym("yk", nonneg=True)
    best = (d - y) ** 2
    pr.holds("nearest eigenvalue[d >= 0]", [alg.ge(d, 0), alg.ge(y, 0)], alg.ge(best, 0))
    pr.holds("nearest eigenvalue[d < 0]", [alg.lt(d, 0), alg.ge(y, 0)], alg.ge(best, d * d))
