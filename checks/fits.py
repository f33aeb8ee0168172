"""Running the real `fit` of a scheme on a symbolic model at an arbitrary posterior index."""
from types import SimpleNamespace
from pyvc import alg, lib
from pyvc.alg import P, lift, ZERO, ONE
from pyvc.values import *
from pyvc.lib import pd, tens, vec, Obj, LibFn
from pyvc.interp import NOCONTRACT
from .common import World, Store, posteriors, pstate, set_index, pstr, Given, generics

SCHEMES = ("structured", "mean-field", "mean-field-ca", "mean-field-gradient", "mean-field-collapsed-gradient",
           "mean-field-ca-gradient", "mean-field-ca-collapsed-gradient")


class FitStore(Store):
    """Parameters of a model that is being fitted.  Training changes every trainable variable that
    is not excluded to an arbitrary value; samples are invisible and never trained."""

    def __init__(self, W, tag=""):
        Store.__init__(self, W.I, base=posteriors(W, tag))
        self.W, self.tag = W, tag
        self.s2 = W.s2

    def train(self, n, excluded, s2):
        self.log.append(("train", n, excluded))
        self.s2 = s2

    def lookup(self, path):
        for p, v, e in reversed(self.log):
            if p == "train":
                if path[-1] != "samples" and not e(path):
                    return True, posteriors(self.W, f"{self.tag}fit{v}.")(path)
                continue
            if self.same(p, path):
                return v is not None, v
        saved, self.log = self.log, [x for x in self.log if x[0] != "train"]
        try:
            return Store.lookup(self, path)
        finally:
            self.log = saved


class Fits:
    def __init__(self, pr, scheme, k=None, dims=None):
        self.W = W = World(pr, scheme)
        if dims:
            W.nu, W.nz = dims
            W.K_u, W.K_z = pd(W.nu, "K_u"), pd(W.nz, "K_z")
        self.I = W.I
        self.k = alg.sym("k", int=True, nonneg=True) if k is None else lift(k)
        self.scheme = scheme
        self.iters = alg.sym("iters", pos=True, int=True)
        for name in ("minimise_l_bfgs_b", "minimise_adam"):
            self.I.libfns[("varz", name)] = LibFn(name, lambda I2, a, k, name=name: self.minimise(name, a, k))
        for meth in ("q_u_optimal", "q_z_optimal", "q_u_optimal_mean_field", "q_z_optimal_mean_field"):
            self.I.contracts["approx.Approximation." + meth] = self.optimal(meth)
        self.I.contracts["approx.Approximation.construct_terms"] = self.construct
        self.I.contracts["normal.NaturalNormal.sample"] = self.sample
        self.fixed, self.busy, self.keep = None, False, ()

    def optimal(self, meth):
        """Contract of the optimal factors (C07): a normal that is a function of the data, the noise
        and the argument."""
        which = meth[2]

        def contract(I2, a, k):
            arg = a[2] if len(a) > 2 else list(k.values())[-1]
            ts = a[1] if len(a) > 1 else k.get("ts")
            W = self.W
            if isinstance(arg, T):
                v = arg
                if len(v.shape) != 2 or not lib.dim1(v.shape[1]):
                    raise Unsupported("sample that is not a column")
                key = (arg.at(GENS[0], ZERO).key,)
            else:
                v = I2.getattr(arg, "lam")
                key = v.at(GENS[0], ZERO).key, I2.getattr(arg, "prec").at(*GENS[:2]).key
            noise = lift(I2.getattr(I2.getattr(a[0], "model"), "noise"))
            built = [c for c in self.terms if c.ts is ts]
            key = (meth, noise.key, tuple((id(c.t), id(c.y)) for c in built)) + key
            for o in self.opt:
                if o.key == key:
                    g = o.given
                    break
            else:
                ps = tuple(P.atom(l) for l in self.loopvars()) or tuple(P.atom(l) for l in generics(v.at(*GENS[:v.rank])))
                if len(ps) > 1:
                    raise Unsupported("a factor over several samples")
                g = Given(W, W.nu if which == "u" else W.nz, f"opt{len(self.opt)}.q_{which}", ps)
                if self.fixed is not None:
                    g = self.fixed(self, which, g)
            q = I2.call(I2.get("normal.NaturalNormal"), [g.lam, g.K], {})
            self.opt.append(SimpleNamespace(which=which, meth=meth, arg=arg, ts=ts, given=g, self=a[0], noise=noise, key=key,
                                            data=len(built) == 1 and built[0].t is W.t and built[0].y is W.y and built[0].self is a[0]))
            return q
        return contract

    def construct(self, I2, a, k):
        """Keeps track of the data that terms were constructed from."""
        if self.busy:
            return NOCONTRACT
        self.busy = True
        try:
            ts = I2.call(I2.getattr(a[0], "construct_terms"), list(a[1:]), k)
        finally:
            self.busy = False
        x = list(a[1:]) + [k[n] for n in ("t", "y") if n in k]
        self.terms.append(SimpleNamespace(ts=ts, self=a[0], t=x[0] if x else None, y=x[1] if len(x) > 1 else None))
        return ts

    def sample(self, I2, a, k):
        """Contract of sampling (C06): a function of the distribution and the random state."""
        q = a[0]
        if len(a) < 2 or not (isinstance(a[1], Opaque) and a[1].tag == "state"):
            return NOCONTRACT
        num = a[2] if len(a) > 2 else k.get("num", 1)
        if lift(num).key != ONE.key:
            return NOCONTRACT
        st = a[1]
        lam, prec = I2.getattr(q, "lam"), I2.getattr(q, "prec")
        key = lam.at(GENS[0], ZERO).key, prec.at(*GENS[:2]).key, lift(st.attrs["id"]).key
        for o in self.smp:
            if o.key == key:
                n = o.n
                break
        else:
            n = len(self.smp)
        ps = tuple(P.atom(l) for l in self.loopvars())
        x = T((lam.shape[0], 1), lambda i, j: alg.app(f"smp{n}", *ps, lift(i)))
        out = Opaque("state", id=alg.app("next_state", lift(st.attrs["id"])))
        self.smp.append(SimpleNamespace(key=key, n=n, q=q, lam=lam, prec=prec, state=st, out=out, x=x))
        return out, x

    def loopvars(self):
        gens = []
        for l in self.I.locals_:
            gens += [a for a in sorted(l.gens, key=lambda a: a.key) if a not in gens]
        return [g for g in gens if alg.SYMS.get(getattr(g, "name", ""), {}).get("int")]

    def read(self, w):
        """The stored posterior."""
        a = self.I.getattr(self.instance(self.st), "approximation")
        if w.endswith("samples"):
            return self.I.getattr(a, w)
        q = self.I.getattr(a, w)
        return self.I.getattr(q, "lam"), self.I.getattr(q, "prec")

    def instance(self, st):
        W, I = self.W, self.W.I
        W.ps = st.root()
        W.s2 = st.s2
        M = W.model(vs=Opaque("vars", store=st))
        a = I.getattr(M, "approximation")
        if self.k.const_value() != 0:
            set_index(I, a, self.k)
        self.made.append(M)
        return M

    def fit(self, *args, **kw):
        if not args and "iters" not in kw:
            kw["iters"] = self.iters
        return self.run(*args, **kw)

    def run(self, *args, **kw):
        """Runs AbstractGPCM fit; returns what was written, how training was called."""
        W, I = self.W, self.W.I
        self.num_samples = kw.get("num_samples", 5)
        W.s2 = alg.sym("sigma2", pos=True)
        self.made, self.opt, self.terms, self.smp = [], [], [], []
        nl = len(I.loops)
        st = self.st = FitStore(W)
        r = self.r = SimpleNamespace(minimise=[], writes=st.writes, store=st, ca=[])
        vs = Opaque("vars", store=st)
        attrs = dict(scheme=self.scheme, vs=vs, ps=st.root(), dtype=Opaque("dtype"))
        attrs.update({n: LibFn(n, f) for n, f in W.calls().items()})
        self.model = Obj(I.get("model.AbstractGPCM"), **attrs)

        def call(I2, o, a, k):
            s = a[0] if a else None
            if s is None:
                return self.instance(st)
            if not (isinstance(s, Opaque) and s.tag == "vars"):
                raise Unsupported("model called with something else than variables")
            return self.instance(s.attrs["store"])

        lib.OBJ_CALL["ext:Model"] = call
        try:
            I.call(I.get("model.fit"), [self.model, W.t, W.y] + list(args), kw)
        finally:
            lib.OBJ_CALL.pop("ext:Model", None)
        r.made, r.opt, r.smp, r.loops, r.s2 = self.made, self.opt, self.smp, I.loops[nl:], st.s2
        r.final = {w: self.read(w) for w in self.keep}
        return r

    def minimise(self, name, a, k):
        """Contract of the optimisers of varz: the objective is evaluated at arbitrary values of the
        trainable variables, which are left at arbitrary values; the other arguments are what some
        evaluation returned."""
        from .c11 import excluded, covered
        I, W = self.I, self.W
        n = len(self.r.minimise)
        f = a[0] if a else k["f"]
        args = a[1] if len(a) > 1 else k["vs"]
        args = args if isinstance(args, tuple) else (args,)
        if not args or not (isinstance(args[0], Opaque) and args[0].tag == "vars"):
            raise Unsupported("optimiser called without variables")
        names = k.get("names")
        if names is None:
            names = []
        st = args[0].attrs["store"]
        m = SimpleNamespace(name=name, args=args, names=names, kw=dict(k), n=n, own=st is self.st)
        self.r.minimise.append(m)
        # an evaluation of the objective
        at = FitStore(W, f"at{n}.")
        at.log = list(st.log)
        at.base, at.tag = st.base, f"at{n}."

        def ex(path):
            if len(path) != 3 or path[0] not in ("q_u", "q_z"):
                return False
            ent, odd = excluded(I, names, path[0][2:], path[1], path[2])
            return I.decide(covered(I, ent))
        s2 = W.s2
        at.train(n, ex, alg.sym(f"sigma2.at{n}", pos=True))
        nw = len(at.writes)
        given = tuple(self.arbitrary(x, f"at{n}.{i}") for i, x in enumerate(args[1:]))
        m.at, m.given = at, given
        m.result = I.call(f, [Opaque("vars", store=at)] + list(given), {})
        m.at_writes = list(at.writes[nw:])
        m.want = self.objective(at, given)
        W.s2 = s2
        st.train(n, ex, alg.sym(f"sigma2.fit{n}", pos=True))
        rest = m.result[1:] if isinstance(m.result, tuple) else ()
        m.out = tuple(self.arbitrary(x, f"out{n}.{i}") for i, x in enumerate(args[1:]))
        if len(rest) != len(args) - 1:
            raise Unsupported("objective returns other arguments than it takes")
        if not rest:
            return lift(alg.sym(f"min{n}"))
        return (lift(alg.sym(f"min{n}")),) + m.out

    def start(self, r, w):
        """Stored posterior that the last training left behind (initially arbitrary)."""
        n = len(r.minimise) - 1 if r is not None else -1
        b = posteriors(self.W, f"fit{n}." if n >= 0 else "")
        return b((f"q_{w}", self.k, "lam")), b((f"q_{w}", self.k, "prec"))

    def objective(self, at, given):
        """Objective of the scheme at the offered parameters, by its own method (C08)."""
        I = self.I
        a = I.getattr(self.instance(at), "approximation")
        W = self.W
        if self.scheme == "structured":
            return I.callm(a, "elbo_gibbs", given[0], W.t, W.y, given[1], given[2], num_samples=self.num_samples)
        coll = self.scheme in ("mean-field", "mean-field-collapsed-gradient", "mean-field-ca-collapsed-gradient")
        return I.callm(a, "elbo", given[0], W.t, W.y, **(dict(collapsed="z") if coll else {}))

    def arbitrary(self, x, nm):
        if isinstance(x, T):
            return tens(x.shape, nm)
        if isinstance(x, Opaque) and x.tag == "state":
            return Opaque("state", id=alg.sym(nm))
        if is_num(x):
            return lift(alg.sym(nm))
        raise Unsupported("argument of the objective")
