"""C12: every documented scheme trains and stores a posterior.  Any dimensions, data, numbers of
iterations and of previous conditioning steps."""
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE, TRUE
from pyvc.values import *
from pyvc.lib import Obj
from .common import World, Store, posteriors, ret, pstate, set_index
from .fits import Fits, SCHEMES
from .c11 import excluded, covered

ASSUMPTIONS = [
    "probmods by contract: instantiating a model copies it, runs __prior__ and replays the conditioning steps, on the same variables",
    "the optimisers of varz by contract: they evaluate the objective at arbitrary values of the trainable variables and leave these at arbitrary values, only of the variables that the list of names does not exclude; convergence is not claimed",
    "the optimal factors by contract (C07), sampling by contract (C06), the objectives by contract (C08)",
    "a jitted function returns what the function returns",
]


def run(pr, tier):
    names(pr)
    for scheme in SCHEMES:
        trains(pr, scheme)
    sweeps(pr)
    limits(pr)
    moves(pr)
    structured(pr)


# ------------------------------------------------------------------------------ names
def names(pr):
    for s in SCHEMES + tuple(x.upper() for x in SCHEMES) + ("Structured", "Mean-Field-CA"):
        W = World(pr, s)

        def thunk(W=W, s=s):
            M = construct(W, s)
            return W.I.getattr(M, "approximation")

        def chk(p, nm, W=W, s=s):
            n = getattr(p.value.cls, "name", None)
            want = "Structured" if s.lower() == "structured" else "MeanField"
            if n not in ("Structured", "MeanField"):
                raise Unsupported("class of the approximation")
            pr.true(nm, n == want, str(n))
        pr.paths(f"model.AbstractGPCM.__prior__[{s}]", W.I, thunk, ret(pr, chk))
    for s in ("", "mean-field-cb", "structure", "mean-field-gradient-ca", "gibbs", "meanfield", "ca", "structured "):
        W = World(pr, s)

        def thunk(W=W, s=s):
            return construct(W, s)

        def chk(p, nm):
            pr.true(nm, p.kind == "exc" and p.value.name in ("ValueError",), repr(p.value))
        pr.paths(f"model.AbstractGPCM.__prior__[unknown {s!r}]", W.I, thunk, chk)


def construct(W, s):
    """Through the constructor and the construction of the prior."""
    I = W.I
    I.libfns[("varz", "Vars")] = lib.LibFn("Vars", lambda I2, a, k: Opaque("vars"))
    M = W.model(scheme="structured")
    q = Obj(M.cls, **{n: v for n, v in M.attrs.items() if n not in ("scheme", "approximation", "p_u", "p_z")})
    I.call(I.getattr(I.get("model.AbstractGPCM"), "__init__"), [q, s], {})
    I.callm(q, "__prior__")
    return q


# ------------------------------------------------------------------------------ generic facts
def carried(rec, v):
    """(initial value, values after an iteration) of the loop variable that v reads, or None."""
    if rec is None:
        return None
    for n, ph in rec.ph.items():
        for get in accessors(ph):
            x = get(ph)
            if isinstance(x, T) and isinstance(v, T) and x.rank == v.rank and base(x) is not None and base(x) == base(v):
                return get(rec.init[n]), [get(o[3][n]) for o in rec.outs], x
            if isinstance(x, Opaque) and isinstance(v, Opaque) and x.tag == v.tag == "state" and head(lift(x.attrs["id"])) == head(lift(v.attrs["id"])):
                return get(rec.init[n]), [get(o[3][n]) for o in rec.outs], x
    return None


def accessors(ph):
    if isinstance(ph, (tuple, list)):
        return [lambda x, k=k: x[k] for k in range(len(ph))]
    return [lambda x: x]


def head(p):
    a = lift(p).single()
    if a is None:
        return None
    c, b, f = a if len(a) == 3 else (None, None, None)
    if b or not f or len(f) != 1 or f[0][1] != 1:
        return None
    at = f[0][0]
    return at.name if at.kind == "app" else None


def base(t):
    h = head(t.at(*GENS[:t.rank]))
    return h if h and h.startswith("it:") else None


def sametensor(a, b):
    return isinstance(a, T) and isinstance(b, T) and a.rank == b.rank and lift(a.at(*GENS[:a.rank])).key == lift(b.at(*GENS[:b.rank])).key


def find_rec(r, v):
    h = base(v)
    if h is None:
        return None
    for rec in r.loops:
        if h.startswith(f"it:{rec.uid}:"):
            return rec
    return None


def nat_of(F, x):
    return F.I.getattr(x, "lam"), F.I.getattr(x, "prec")


def given(o):
    return o.given.lam, o.given.K


def pair(a, b):
    return all(sametensor(x, y) for x, y in zip(a, b))


def opt_giving(r, which, v):
    return [o for o in r.opt if o.which == which and pair(given(o), v)]


def own(pr, nm, F, r, o, s2=None):
    pr.true(nm + ".data", o.data, "terms of other data")
    pr.eq(nm + ".noise", (), o.noise, lift(r.s2 if s2 is None else s2))


# ------------------------------------------------------------------------------ mean field
def trains(pr, scheme):
    F = Fits(pr, scheme)
    I = F.I
    F.keep = ("q_u_samples", "q_z_samples") if scheme == "structured" else ("q_u", "q_z")

    def thunk():
        return F.fit()

    def chk(p, nm):
        r = p.value
        n = 0 if scheme == "mean-field-ca" else 1
        pr.true(nm + ".trainings", len(r.minimise) == n, str(len(r.minimise)))
        if len(r.minimise) != n:
            return
        if scheme != "structured":
            for w in "uz":
                lam, prec = r.final["q_" + w]
                for x, s in ((lam, (F.W.nu if w == "u" else F.W.nz, 1)), (prec, (F.W.nu if w == "u" else F.W.nz,) * 2)):
                    pr.true(f"{nm}.q_{w}.stored", isinstance(x, T) and [lib.dim_key(d) for d in x.shape] == [lib.dim_key(d) for d in s], repr(x))
        if n:
            objective(pr, nm, F, r, p)
        if scheme in ("mean-field-ca", "mean-field-ca-gradient", "mean-field-ca-collapsed-gradient", "mean-field"):
            ascent(pr, nm, F, r, p.pc, r.final["q_u"], r.final["q_z"])
        elif scheme == "mean-field-collapsed-gradient":
            os = opt_giving(r, "z", r.final["q_z"])
            pr.true(nm + ".q_z.optimal", bool(os), "stored factor is not an optimal factor")
            if os:
                pr.value(nm + ".q_z.given q_u", I, p.pc, nat_of(F, os[-1].arg), r.final["q_u"])
                own(pr, nm + ".q_z", F, r, os[-1])
    pr.paths(f"approx.fit[{scheme}]", I, thunk, ret(pr, chk))


def objective(pr, nm, F, r, p):
    """What is minimised is the negative objective of the scheme at the offered parameters."""
    m = r.minimise[0]
    pr.true(nm + ".own variables", m.own, "")
    for w in "uz":
        ent, odd = excluded(F.I, m.names, w, F.k, "lam")
        pr.true(nm + ".only posteriors excluded", not odd, ", ".join(odd))
        if F.scheme == "mean-field-gradient" or F.scheme == "mean-field-ca-gradient" or (F.scheme != "structured" and w == "u"):
            for leaf in ("lam", "prec"):
                ent, odd = excluded(F.I, m.names, w, F.k, leaf)
                pr.holds(f"{nm}.trains.{w}.{leaf}", p.pc, alg.cnot(covered(F.I, ent)))
    got = m.result[0] if isinstance(m.result, tuple) else m.result
    want = m.want
    pr.eq(nm + ".objective", p.pc, lift(got), -lift(want[1]))
    if F.scheme == "structured":
        for x, y, t in zip(m.result[1:], (want[0],) + tuple(want[2:]), ("state", "u", "z")):
            if isinstance(x, T):
                pr.tensor(f"{nm}.objective.{t}", F.I, p.pc, x, y)
            else:
                pr.eq(f"{nm}.objective.{t}", p.pc, lift(x.attrs["id"]), lift(y.attrs["id"]))


def ascent(pr, nm, F, r, pc, qu, qz):
    """The stored factors are those of the last sweep of alternating optimal factors."""
    rec = find_rec(r, qz[0])
    if rec is None:
        raise Unsupported("stored factors are not loop variables")
    zc, uc = [carried(rec, x) for x in qz], [carried(rec, x) for x in qu]
    if None in zc or None in uc:
        raise Unsupported("stored factors are not loop variables of the same loop")
    W = F.W
    # what was stored before the sweeps: initial values of the loop
    zi, ui = tuple(c[0] for c in zc), tuple(c[0] for c in uc)
    for w, got in (("u", ui), ("z", zi)):
        if opt_giving(r, w, got):
            pr.true(f"{nm}.start.q_{w}", True)  # explicitly updated before the sweeps
        else:
            pr.value(f"{nm}.start.q_{w}", F.I, pc, got, F.start(r, w))
    for n in range(len(rec.outs)):
        zn, un = tuple(c[1][n] for c in zc), tuple(c[1][n] for c in uc)
        oz, ou = opt_giving(r, "z", zn), opt_giving(r, "u", un)
        pr.true(f"{nm}.sweep{n}.q_u optimal", bool(ou), "not an optimal factor")
        pr.true(f"{nm}.sweep{n}.q_z optimal", bool(oz), "not an optimal factor")
        if not (oz and ou):
            continue
        ph = tuple(c[2] for c in zc)
        pr.value(f"{nm}.sweep{n}.q_u given last q_z", F.I, (), nat_of(F, ou[-1].arg), ph)
        pr.value(f"{nm}.sweep{n}.q_z given new q_u", F.I, (), nat_of(F, oz[-1].arg), un)
        own(pr, f"{nm}.sweep{n}.q_u", F, r, ou[-1])
        own(pr, f"{nm}.sweep{n}.q_z", F, r, oz[-1])


def sweeps(pr):
    """Concrete numbers of iterations, every place where it may stop."""
    for iters in (0, 1, 2, 3):
        F = Fits(pr, "mean-field-ca")
        F.keep = ("q_u", "q_z")
        I = F.I

        def thunk(F=F, iters=iters):
            r = F.fit(iters=iters)
            r.before = {w: F.start(None, w) for w in "uz"}
            return r

        def chk(p, nm, F=F, iters=iters):
            r = p.value
            pr.true(nm + ".number", len(r.opt) % 2 == 0 and (len(r.opt) // 2 <= iters) and (iters == 0 or r.opt), str(len(r.opt)))
            last = {w: r.before[w] for w in "uz"}
            for n, o in enumerate(r.opt):
                pr.true(f"{nm}.step{n}.alternates", o.which == "uz"[n % 2], o.which)
                pr.value(f"{nm}.step{n}.argument", I, (), nat_of(F, o.arg), last["zu"[n % 2]])
                own(pr, f"{nm}.step{n}", F, r, o)
                last[o.which] = given(o)
            for w in "uz":
                pr.value(f"{nm}.stored.q_{w}", I, (), r.final["q_" + w], last[w])
        pr.paths(f"approx.fit[mean-field-ca,{iters} iterations]", I, thunk, ret(pr, chk))


def limits(pr):
    """Stops once a full sweep changes nothing: after m sweeps the factors are fixed points."""
    for m in (0, 1, 2):
        F = Fits(pr, "mean-field-ca")
        F.keep = ("q_u", "q_z")
        I = F.I

        def fixed(F, which, g, m=m):
            """The optimal factor is the previous one from sweep m on."""
            prev = [o.given for o in F.opt if o.which == which]
            if len(prev) < m:
                return g
            if prev:
                return prev[-1]
            lam, prec = F.start(None, which)
            g.lam, g.K = lam, prec
            return g
        F.fixed = fixed

        def thunk(F=F):
            return F.fit(iters=6)

        def chk(p, nm, m=m):
            r = p.value
            pr.true(nm + ".sweeps", len(r.opt) // 2 <= m + 1, f"{len(r.opt) // 2} sweeps")
        pr.paths(f"approx.fit[mean-field-ca,fixed point after {m}]", I, thunk, ret(pr, chk))


def moves(pr):
    """Does not stop while a sweep still changes something: the named parts move by one."""
    every = [("u.lam", "z.lam"), ("u.prec", "z.prec"), ("u.lam", "z.prec"), ("u.prec", "z.lam"), ("u.lam", "u.prec", "z.lam", "z.prec")]
    first = [("z.lam",), ("z.prec",), ("z.lam", "z.prec")]  # the filter is already optimal
    for parts, most, least in [(x, 3, 3) for x in every] + [(x, 1, 2) for x in first]:
        F = Fits(pr, "mean-field-ca")
        F.keep = ("q_u", "q_z")
        I = F.I

        def fixed(F, which, g, parts=parts, most=most):
            prev = [o.given for o in F.opt if o.which == which]
            lam, prec = (prev[-1].lam, prev[-1].K) if prev else F.start(None, which)
            move = len(prev) < most
            g.lam, g.K = ((T(x.shape, lambda *i, x=x: x.at(*i) + 1) if move and f"{which}.{n}" in parts else x) for x, n in ((lam, "lam"), (prec, "prec")))
            return g
        F.fixed = fixed

        def chk(p, nm, least=least):
            n = len(p.value.opt) // 2
            pr.true(nm + ".sweeps", n >= least, f"stops after {n} sweeps of which the last changed the factors")
        pr.paths(f"approx.fit[mean-field-ca,{'+'.join(parts)} moves {'every sweep' if most > 1 else 'once'}]", I, lambda F=F: F.fit(iters=3), ret(pr, chk))


# ------------------------------------------------------------------------------ Gibbs sampling
def structured(pr):
    for tag, kw in (("", {}), (",no training", dict(optimise_hypers=False)), (",number", dict(optimise_hypers=7, num_samples=2))):
        F = Fits(pr, "structured")
        F.keep = ("q_u_samples", "q_z_samples")
        I = F.I

        def thunk(F=F, kw=kw):
            return F.fit(iters=F.iters, **kw)

        def chk(p, nm, F=F, I=I, kw=kw):
            r = p.value
            if kw.get("optimise_hypers") is False:
                pr.true(nm + ".no training", not r.minimise, "")
            us, zs = r.final["q_u_samples"], r.final["q_z_samples"]
            j = None
            for w, x, n in (("u", us, F.W.nu), ("z", zs, F.W.nz)):
                ok = isinstance(x, T) and x.rank == 2
                pr.true(f"{nm}.{w}.matrix", ok, repr(x))
                if not ok:
                    return
                pr.eq(f"{nm}.{w}.rows", p.pc, lift(x.shape[0]), lift(n))
                thousand(pr, f"{nm}.{w}.number", p.pc, x.shape[1])
            pr.true(nm + ".pairs", lib.dim_key(us.shape[1]) == lib.dim_key(zs.shape[1]), "")
            # each pair was sampled in one sweep
            c = P.atom(alg.fresh("c", int=True, nonneg=True))
            lu = [s for s in r.smp if matches(s, us, c)]
            lz = [s for s in r.smp if matches(s, zs, c)]
            pr.true(nm + ".u.sampled", bool(lu), f"{us.at(GENS[0], c)}")
            pr.true(nm + ".z.sampled", bool(lz), f"{zs.at(GENS[0], c)}")
            if not (lu and lz):
                return
            chain(pr, nm, F, r, p.pc, lu[-1], lz[-1])
        pr.paths(f"approx.fit[structured{tag}]", I, thunk, ret(pr, chk))


def matches(s, x, c):
    """Column c of x is the sample of sweep c."""
    f = lift(x.at(GENS[0], c))
    g = lift(s.x.at(GENS[0], ZERO))
    vs = [a for a in g.leaves if a.kind == "bv" or (a.kind == "sym" and a.name.startswith("?"))]
    return len(vs) == 1 and lift(alg.subs(g, {vs[0]: c})).key == f.key


def thousand(pr, nm, pc, d):
    if not isinstance(d, FAxis):
        return pr.eq(nm, pc, lift(d), P.const(1000))
    # kept positions are 0, m, ..., 999 m
    ms = {a.args[1].key: a.args[1] for a in mods(d.pred(GEN))}
    if len(ms) != 1:
        raise Unsupported("thinning of the samples")
    m = list(ms.values())[0]
    pc = list(pc)
    j = P.atom(alg.fresh("j", int=True, nonneg=True))
    pr.holds(nm + ".positive", pc, alg.ge(m - 1, 0))
    pr.holds(nm + ".limit", pc, alg.eq(lift(d.base) - m * 1000, 0))
    i = P.atom(alg.fresh("i", int=True, nonneg=True))
    # kept exactly when divisible
    div = alg.eq(alg.app("mod", i, m), 0)
    pr.holds(nm + ".kept", pc + [div], d.pred(i))
    pr.holds(nm + ".dropped", pc + [d.pred(i)], div)


def mods(c):
    out = []

    def walk(x):
        for l in alg.apps(x) if hasattr(alg, "apps") else []:
            out.append(l)
    for x in ([c] if c.op != "and" else c.args):
        for a in x.args:
            if isinstance(a, P):
                for (b, f), _ in a.t.items():
                    for at, e in f:
                        if at.kind == "app" and at.name == "mod":
                            out.append(at)
    return out


def chain(pr, nm, F, r, pc, su, sz):
    """z is sampled given the u of the same sweep, u given the z of the sweep before."""
    I = F.I
    rec = None
    for x in r.loops:
        if any(l.name.startswith(x.uid) or True for l in []):
            pass
    ou, oz = opt_giving(r, "u", (su.lam, su.prec)), opt_giving(r, "z", (sz.lam, sz.prec))
    pr.true(nm + ".u.conditional", bool(ou), "u is not sampled from the conditional")
    pr.true(nm + ".z.conditional", bool(oz), "z is not sampled from the conditional")
    if not (ou and oz):
        return
    ou, oz = ou[-1], oz[-1]
    own(pr, nm + ".u", F, r, ou)
    own(pr, nm + ".z", F, r, oz)
    for o, m in ((ou, "q_u_optimal"), (oz, "q_z_optimal")):
        pr.true(f"{nm}.{m}", o.meth == m, o.meth)
    # which of both is sampled first in a sweep
    def is_new(arg, s):
        return sametensor(arg, s.x)
    if is_new(oz.arg, su):
        first, second, fo, so = su, sz, ou, oz
    elif is_new(ou.arg, sz):
        first, second, fo, so = sz, su, oz, ou
    else:
        return pr.true(nm + ".second given first", False, f"{oz.arg.at(GENS[0], ZERO)}")
    pr.true(nm + ".second given first", True)
    if not isinstance(fo.arg, T):
        return pr.true(nm + ".first given last", False, "")
    rec = find_rec(r, fo.arg)
    if rec is None:
        return pr.true(nm + ".first given last", False, f"{fo.arg.at(GENS[0], ZERO)}")
    c = carried(rec, fo.arg)
    if c is None:
        raise Unsupported("loop variable")
    for n, x in enumerate(c[1]):
        pr.true(f"{nm}.first given last{n}", sametensor(x, second.x), f"{x.at(GENS[0], ZERO)}")
    # fresh randomness
    pr.eq(nm + ".state.second", (), lift(second.state.attrs["id"]), lift(first.out.attrs["id"]))
    c = carried(rec, first.state)
    if c is None:
        return pr.true(nm + ".state.first", False, f"{first.state.attrs['id']}")
    for n, x in enumerate(c[1]):
        pr.eq(f"{nm}.state.next{n}", (), lift(x.attrs["id"]), lift(second.out.attrs["id"]))
