"""C11: conditioning turns the latest posterior into the prior; storing and reading back; the list
of excluded parameters; frame of the fits.  Any dimensions, any number of previous steps."""
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE, ind, TRUE, FALSE
from pyvc.values import *
from pyvc.lib import pd, tens, vec, Obj, LibFn
from .common import World, Store, posteriors, ret, pstate, mk_approximation, set_index, pstr
from .fits import Fits, SCHEMES

ASSUMPTIONS = [
    "varz by contract: a getter returns the value stored under its path and creates it from its initial value when there is none; assign overwrites, delete removes; the pattern of `all()` matches exactly the variables below its path",
    "probmods by contract: instantiating a model copies it, runs __prior__ and replays the conditioning steps, on the same variables",
    "the optimisers of varz by contract: they change only trainable variables that the list of names does not exclude",
    "the integrals and covariances by contract: arbitrary functions with the symmetry of the integrals (C03, C04)",
]


def arb(W, w, tag):
    n = W.nu if w == "u" else W.nz
    return tens((n, 1), f"{tag}.{w}.lam"), pd(n, f"{tag}.{w}.prec")


def nat(W, lp):
    return W.I.call(W.I.get("normal.NaturalNormal"), list(lp), {})


def read(I, a, nm):
    q = I.getattr(a, nm)
    return I.getattr(q, "lam"), I.getattr(q, "prec")


def same(pr, nm, I, pc, got, want):
    pr.tensor(nm + ".lam", I, pc, got[0], want[0])
    pr.tensor(nm + ".prec", I, pc, got[1], want[1])


def run(pr, tier):
    for scheme in ("structured", "mean-field"):
        steps(pr, scheme)
        generic(pr, scheme)
        ignore(pr, scheme)
    samples(pr)
    frame(pr)


def steps(pr, scheme):
    """From construction through conditioning steps, by public methods only."""
    for num in (0, 1, 2, 3):
        W = World(pr, scheme)
        I = W.I

        def thunk():
            st = Store(I)
            W.ps = st.root()
            M = W.model()
            a = I.getattr(M, "approximation")
            obs = []

            def look(tag, *names):
                obs.append((tag, {n: read(I, I.getattr(M, "approximation"), n) for n in names}))
            look("0", "p_u", "p_z")
            for s in range(num):
                for w in "uz":
                    I.setattr(a, "q_" + w, nat(W, arb(W, w, f"s{s}")))
                look(f"{s}.set", "q_u", "q_z", "p_u", "p_z")
                I.callm(M, "__condition__", W.t, W.y)
                a = I.getattr(M, "approximation")
                look(f"{s}.condition", "p_u", "p_z")
                for w in "zu":
                    I.setattr(a, "q_" + w, nat(W, arb(W, w, f"later{s}")))
                look(f"{s}.later", "p_u", "p_z", "q_u", "q_z")
            return obs

        def chk(p, nm):
            zero = {w: (T(((W.nu if w == "u" else W.nz), 1), lambda i, j: ZERO), W.K_u if w == "u" else W.K_z) for w in "uz"}
            prior, q = dict(zero), {}
            for tag, got in p.value:
                s, _, op = tag.partition(".")
                for w in "uz":
                    if op == "set":
                        q[w] = arb(W, w, f"s{s}")
                    elif op == "condition":
                        prior[w] = q[w]
                    elif op == "later":
                        q[w] = arb(W, w, f"later{s}")
                for n, v in got.items():
                    same(pr, f"{nm}.{tag}.{n}", I, p.pc, v, prior[n[-1]] if n[0] == "p" else q[n[-1]])
        pr.paths(f"approx.{scheme}.steps[{num}]", I, thunk, ret(pr, chk))


def generic(pr, scheme):
    """One step from an arbitrary number of previous steps."""
    W = World(pr, scheme)
    I = W.I
    k = alg.sym("k", int=True, nonneg=True)
    base = posteriors(W)

    def stored(i, w):
        return base((f"q_{w}", lift(i), "lam")), base((f"q_{w}", lift(i), "prec"))

    def thunk():
        a = mk_approximation(W, k)
        p0 = {w: read(I, a, "q_" + w) for w in "uz"}
        I.callm(a, "condition", W.t, W.y)
        p1 = {w: read(I, a, "p_" + w) for w in "uz"}
        for w in "uz":
            I.setattr(a, "q_" + w, nat(W, arb(W, w, "new")))
        p2 = {w: read(I, a, "p_" + w) for w in "uz"}
        q2 = {w: read(I, a, "q_" + w) for w in "uz"}
        return p0, p1, p2, q2, list(W.store.writes)

    def chk(p, nm):
        p0, p1, p2, q2, wr = p.value
        for w in "uz":
            same(pr, f"{nm}.q_{w}.before", I, p.pc, p0[w], stored(k, w))
            same(pr, f"{nm}.p_{w}.after", I, p.pc, p1[w], stored(k, w))
            same(pr, f"{nm}.p_{w}.after storing", I, p.pc, p2[w], stored(k, w))
            same(pr, f"{nm}.q_{w}.stored", I, p.pc, q2[w], arb(W, w, "new"))
        newest(pr, nm, p.pc, wr, lift(k) + 1)
    pr.paths(f"approx.{scheme}.condition[any]", I, thunk, ret(pr, chk))

    # the prior at a later index is the posterior before
    def prior():
        a = mk_approximation(W, lift(k) + 1)
        return {w: read(I, a, "p_" + w) for w in "uz"}, list(W.store.writes)

    def chkp(p, nm):
        got, wr = p.value
        for w in "uz":
            same(pr, f"{nm}.p_{w}", I, p.pc, got[w], stored(k, w))
        pr.true(nm + ".only reads", not wr, repr([x[:2] for x in wr]))
    pr.paths(f"approx.{scheme}.prior[any]", I, prior, ret(pr, chkp))

    # setting one factor changes nothing else
    for w in "uz":
        def one(w=w):
            a = mk_approximation(W, k)
            I.setattr(a, "q_" + w, nat(W, arb(W, w, "new")))
            o = "z" if w == "u" else "u"
            return read(I, a, "q_" + w), read(I, a, "q_" + o), list(W.store.writes)

        def chk1(p, nm, w=w):
            q, other, wr = p.value
            o = "z" if w == "u" else "u"
            same(pr, nm + ".stored", I, p.pc, q, arb(W, w, "new"))
            same(pr, nm + ".other factor", I, p.pc, other, stored(k, o))
            newest(pr, nm, p.pc, wr, lift(k), ("q_" + w,))
        pr.paths(f"approx.{scheme}.q_{w}.setter", I, one, ret(pr, chk1))


def newest(pr, nm, pc, writes, i, roots=("q_u", "q_z"), leaves=("lam", "prec", "samples")):
    """Every write goes to the posterior of the given index."""
    for n, w in enumerate(writes):
        path = w[1]
        ok = len(path) == 3 and path[0] in roots and not isinstance(path[1], str) and path[2] in leaves
        pr.true(f"{nm}.write{n}", ok, pstr(path))
        if ok:
            pr.eq(f"{nm}.write{n}.index", pc, lift(path[1]), lift(i))


# ------------------------------------------------------------------------------ samples
def column(x, n):
    return T((n, 1), lambda i, j: x(i))


def samples(pr):
    W = World(pr, "structured")
    I = W.I
    k = alg.sym("k", int=True, nonneg=True)
    S = alg.sym("S", pos=True, int=True)

    def listing(w, n, num=None):
        nm = f"sample.{w}"
        if num is not None:
            return [T((n, 1), lambda i, j, c=c: alg.app(nm, lift(i), P.const(c))) for c in range(num)]
        at = alg.fresh("c", int=True, nonneg=True)
        return SSeq([Seg(((at, lift(S)),), TRUE, T((n, 1), lambda i, j: alg.app(nm, lift(i), P.atom(at))))])

    for num in (None, 1, 3):
        def thunk(num=num):
            a = mk_approximation(W, k)
            for w, n in (("u", W.nu), ("z", W.nz)):
                I.setattr(a, f"q_{w}_samples", listing(w, n, num))
            r0 = {w: I.getattr(a, f"q_{w}_samples") for w in "uz"}
            q0 = {w: read(I, a, "q_" + w) for w in "uz"}
            wr = list(W.store.writes)
            I.callm(a, "condition", W.t, W.y)
            r1 = {w: I.getattr(a, f"p_{w}_samples") for w in "uz"}
            for w, n in (("u", W.nu), ("z", W.nz)):
                I.setattr(a, f"q_{w}_samples", [tens((n, 1), "later")])
            r2 = {w: I.getattr(a, f"p_{w}_samples") for w in "uz"}
            r3 = {w: I.getattr(a, f"q_{w}_samples") for w in "uz"}
            return r0, q0, wr, r1, r2, r3

        def chk(p, nm, num=num):
            r0, q0, wr, r1, r2, r3 = p.value
            base = posteriors(W)
            for w, n in (("u", W.nu), ("z", W.nz)):
                want = T((n, lift(S) if num is None else num), lambda i, c: alg.app(f"sample.{w}", lift(i), lift(c)))
                for tag, r in (("stored", r0), ("prior", r1), ("prior after storing", r2)):
                    pr.tensor(f"{nm}.{w}.{tag}", I, p.pc, r[w], want)
                pr.tensor(f"{nm}.{w}.later", I, p.pc, r3[w], T((n, 1), lambda i, c: tens((n, 1), "later").at(i, ZERO)))
                same(pr, f"{nm}.q_{w}", I, p.pc, q0[w], (base((f"q_{w}", lift(k), "lam")), base((f"q_{w}", lift(k), "prec"))))
            newest(pr, nm, p.pc, wr, lift(k), leaves=("samples",))
            for x in wr:
                if x[0] == "create":
                    pr.true(nm + ".invisible", x[3] is False, repr(x[3]))
        pr.paths(f"approx.Structured.samples[{'any' if num is None else num}]", I, thunk, ret(pr, chk))


# ------------------------------------------------------------------------------ exclusion
def excluded(I, names, w, j, leaf):
    """Condition: the list of names excludes parameter `leaf` of posterior j of w.  Also returns
    entries that are not exclusions of posteriors."""
    out, odd = [], []
    for seg in seq_of(names).segs:
        v = seg.value
        parts = lib.as_fparts(v)
        if not (len(parts) == 2 and parts[0] == "-" and isinstance(parts[1], Opaque) and parts[1].tag == "regex"):
            odd.append(repr(v))
            continue
        path = parts[1].attrs["path"]
        if len(path) < 2 or path[0] not in ("q_u", "q_z") or isinstance(path[1], str) or len(path) > 3:
            odd.append(pstr(path))
            continue
        if path[0] != "q_" + w or (len(path) == 3 and path[2] != leaf):
            continue
        c = alg.cand(seg.guard, alg.eq(lift(path[1]), lift(j)))
        out.append((seg.bounds, c))
    return out, odd


def ignore(pr, scheme):
    W = World(pr, scheme)
    I = W.I
    for tag, k in (("0", ZERO), ("1", ONE), ("any", alg.sym("k", pos=True, int=True))):
        for prev in (True, False):
            for cur in (True, False, "u", "z"):
                for kw in (False, True):
                    if kw and (tag != "any"):
                        continue

                    def thunk(prev=prev, cur=cur, kw=kw, k=k):
                        a = mk_approximation(W, k)
                        return I.callm(a, "ignore_qs", previous=prev, current=cur) if kw else I.callm(a, "ignore_qs", prev, cur)

                    def chk(p, nm, prev=prev, cur=cur, k=k):
                        names = p.value
                        i = P.atom(alg.fresh("i", int=True, nonneg=True))
                        for w in "uz":
                            for leaf in ("lam", "prec"):
                                ent, odd = excluded(I, names, w, k, leaf)
                                pr.true(nm + ".only posteriors", not odd, ", ".join(odd))
                                want = cur is True or cur == w
                                pr.holds(f"{nm}.current.{w}.{leaf}", p.pc, covered(I, ent) if want else alg.cnot(covered(I, ent)))
                                ent, odd = excluded(I, names, w, i, leaf)
                                q = list(p.pc) + [alg.gt(lift(k), i)]
                                if lift(k).const_value() == 0:
                                    continue
                                pr.holds(f"{nm}.previous.{w}.{leaf}", q, covered(I, ent) if prev else alg.cnot(covered(I, ent)))
                    pr.paths(f"approx.{scheme}.ignore_qs[{tag},{prev},{cur}{',keywords' if kw else ''}]", I, thunk, ret(pr, chk))
            for bad in ("x", "both", ""):
                def thunk(prev=prev, bad=bad, k=k):
                    return I.callm(mk_approximation(W, k), "ignore_qs", prev, bad)

                def chk(p, nm):
                    pr.true(nm, p.kind == "exc" and p.value.name == "ValueError", repr(p.value))
                pr.paths(f"approx.{scheme}.ignore_qs[{tag},{prev},invalid {bad!r}]", I, thunk, chk)


def covered(I, ent):
    """Some entry matches: bounded variables are solved from the index equation."""
    cs = []
    for bounds, c in ent:
        if not bounds:
            cs.append(c)
            continue
        if len(bounds) != 1:
            raise Unsupported("nested list of names")
        a, d = bounds[0]
        eqs = [x for x in (c.args if c.op == "and" else [c]) if x.op in ("eq", "==", "eq0") or x.op.startswith("eq")]
        sol = None
        for x in eqs:
            e = lift(x.args[0])
            z = alg.subs(e, {a: ZERO})
            b = alg.subs(e, {a: ONE}) - z
            bc = b.const_value()
            if bc and a not in z.leaves:
                sol = -z / bc
        if sol is None:
            raise Unsupported("list of names")
        cs.append(alg.cand(alg.ge(sol, 0), alg.gt(lift(d), sol), alg.subs_cond(c, {a: sol})))
    return alg.cor(*cs) if cs else FALSE


# ------------------------------------------------------------------------------ fits
def frame(pr):
    """Fitting at any index writes only the newest posterior and excludes the others from training."""
    for scheme in SCHEMES:
        F = Fits(pr, scheme)
        I = F.W.I

        def thunk(F=F):
            return F.fit()

        def chk(p, nm, F=F, I=I):
            r = p.value
            newest(pr, nm, p.pc, r.writes, F.k)
            for n, m in enumerate(r.minimise):
                i = P.atom(alg.fresh("i", int=True, nonneg=True))
                for w in "uz":
                    for leaf in ("lam", "prec"):
                        ent, odd = excluded(I, m.names, w, i, leaf)
                        pr.holds(f"{nm}.minimise{n}.previous.{w}.{leaf}", list(p.pc) + [alg.gt(lift(F.k), i)], covered(I, ent))
        pr.paths(f"approx.fit[{scheme}]", I, thunk, ret(pr, chk))
