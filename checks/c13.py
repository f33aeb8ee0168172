"""C13: contracts of gpcm.sample.ESS.

Ghost state: y, the prior draw that spans the ellipse.  Invariant of the class:
log_lik_x == L(x) for the given log-likelihood L."""
from pyvc import alg, lib, smt
from pyvc.alg import P, lift, ZERO, ONE, cand
from pyvc.interp import NOCONTRACT, Ret, Brk, Cont
from pyvc.lib import tens, binop, Obj, LibFn
from pyvc.values import *
from pyvc.values import PathDead, PyExc

ASSUMPTIONS = [
    "real arithmetic; the state lives in a real vector space of symbolic dimension",
    "the log-likelihood is a function of the state (equal states have equal values) and its result is a number that can be compared",
    "numpy.random.uniform(a, b) lies in [a, b] for a <= b; numpy.random.exponential is positive; draws are fresh",
    "values that only feed the progress display are unconstrained",
]


def L_of(x):
    return alg.app("L", x.at(GENS[0], ZERO))


def ellipse(x, y, th):
    return lib.T(x.shape, lambda i, j: alg.cos(th) * lift(x.at(i, j)) + alg.sin(th) * lift(y.at(i, j)))


class World:
    def __init__(self, pr):
        I = self.I = pr.new()
        self.n = alg.sym("n", pos=True, int=True)
        self.x = tens((self.n, 1), "x")
        self.cls = I.get("sample.ESS")
        self.exc = I.get("sample.SampleFailedException")
        self.evals = []
        self.priors = []

        def loglik(I, a, k):
            self.evals.append((a[0], list(I.pc())))
            return L_of(a[0])

        def prior(I, a, k):
            t = tens((self.n, 1), alg.fresh("prior").name)
            self.priors.append(t)
            return t
        self.loglik, self.prior = LibFn("log_lik", loglik), LibFn("sample_prior", prior)

    def reset(self):
        self.evals.clear()
        self.priors.clear()
        self.I.draws.clear()

    def obj(self, **kw):
        o = Obj(self.cls, log_lik=self.loglik, sample_prior=self.prior, x=self.x, log_lik_x=L_of(self.x))
        o.attrs.update(kw)
        return o


def run(pr, tier):
    construct(pr)
    draw(pr)
    sample1(pr)
    sample(pr)


def inv(pr, nm, I, p, o):
    x = o.attrs.get("x")
    ok = isinstance(x, T) and x.rank == 2
    pr.true(nm + ".state", ok, repr(x))
    if ok:
        pr.eq(nm + ".invariant", p.pc, o.attrs.get("log_lik_x"), L_of(x))


def construct(pr):
    w = World(pr)
    I = w.I

    def init_given():
        w.reset()
        return I.call(w.cls, [w.loglik, w.prior, w.x], {})

    def chk(p, nm):
        if p.kind != "ret":
            return pr.true(nm, False, repr(p.value))
        inv(pr, nm, I, p, p.value)
        pr.tensor(nm + ".start", I, p.pc, p.value.attrs["x"], w.x)
    pr.paths("sample.ESS.__init__.given", I, init_given, chk)

    def init_prior():
        w.reset()
        o = I.call(w.cls, [w.loglik, w.prior], {})
        return o, list(w.priors)

    def chk2(p, nm):
        if p.kind != "ret":
            return pr.true(nm, False, repr(p.value))
        o, ps = p.value
        inv(pr, nm, I, p, o)
        pr.true(nm + ".one_draw", len(ps) == 1)
        if len(ps) == 1:
            pr.tensor(nm + ".start", I, p.pc, o.attrs["x"], ps[0])
    pr.paths("sample.ESS.__init__.prior", I, init_prior, chk2)

    z = tens((w.n, 1), "z")

    def move():
        w.reset()
        o = w.obj()
        I.callm(o, "move", z)
        return o

    def chk3(p, nm):
        if p.kind != "ret":
            return pr.true(nm, False, repr(p.value))
        inv(pr, nm, I, p, p.value)
        pr.tensor(nm + ".moved", I, p.pc, p.value.attrs["x"], z)
    pr.paths("sample.ESS.move", I, move, chk3)


def draw_args(I, a, k):
    f = I.get("sample.ESS._draw")
    env = I.bindargs(f, a, k)
    return env.vars


def draw_result(I, w, o, v):
    """Postcondition of _draw as a fresh outcome."""
    # frame: only the scratch attributes of the proposal change
    for at in ("theta", "x_proposed", "log_lik_x_proposed"):
        o.attrs[at] = lib.Poison("scratch attribute")
    if I.nondet("draw"):
        raise PyExc("SampleFailedException", ("failed",), cls=w.exc)
    th = P.atom(alg.fresh("theta"))
    I.assume(alg.ge(th, lift(v["lower"])))
    I.assume(alg.le(th, lift(v["upper"])))
    x2 = ellipse(o.attrs["x"], o.attrs["y"], th)
    l2 = L_of(x2)
    I.assume(alg.gt(l2, lift(v["u"])))
    n = P.atom(alg.fresh("att", int=True, pos=True))
    I.draw_out = (x2, th, l2)
    return (x2, l2, n)


def draw(pr):
    w = World(pr)
    I = w.I
    lo, up, u = alg.sym("lower"), alg.sym("upper"), alg.sym("u")
    att, mx = alg.sym("attempts", int=True, pos=True), alg.sym("max_attempts", int=True)
    y = tens((w.n, 1), "y")
    pre = [alg.le(lo, 0), alg.ge(up, 0), alg.le(up - lo, alg.pi() * 2)]
    pr.reachable("sample.ESS._draw", pre)
    calls = []

    def contract(I, a, k):
        o = a[0]
        v = draw_args(I, a, k)
        calls.append((v, list(I.pc()), o, dict(o.attrs)))
        return draw_result(I, w, o, v)
    I.contracts["sample.ESS._draw"] = contract

    def loop(I, st, env):
        """A loop instead of the recursion: the head of the loop is the head of the method, with
        the current bracket and attempts; the rest of the loop is a call of the method there."""
        pars = set(I.bindargs(I.get("sample.ESS._draw"), [None] * 6, {}).vars)
        extra = {n for n, v in env.vars.items() if n not in pars and not n.startswith("$")}
        if extra:
            raise Unsupported(f"local variables {sorted(extra)} before the loop")
        head = env.vars.get("self")
        if not I.decide_value(I.eval(st.test, env)):
            I.exec_block(st.orelse, env)
            return
        try:
            I.exec_block(st.body, env)
        except Brk:
            return
        except Cont:
            pass
        if any(n not in env.vars for n in pars) or env.vars["self"] is not head:
            raise Unsupported("parameters of the method")
        raise Ret(contract(I, [env.vars[n] for n in ("self", "lower", "upper", "u", "attempts", "max_attempts")], {}))
    I.while_contracts["sample.ESS._draw"] = loop

    def thunk():
        w.reset()
        calls.clear()
        for c in pre:
            I.assume(c)
        o = w.obj(y=y)
        try:
            r = I.verify_body(I.get("sample.ESS._draw"), [o, lo, up, u, att, mx])
            k = "ret"
        except PyExc as e:
            r, k = e, "exc"
        return k, r, o, list(calls), list(w.evals), list(w.priors), list(I.draws), getattr(I, "draw_out", None)

    def chk(p, nm):
        if p.kind != "ret":
            return pr.true(nm, False, repr(p.value))
        k, r, o, cs, evs, pri, draws, out = p.value
        pr.tensor(nm + ".frame.x", I, p.pc, o.attrs["x"], w.x)
        pr.eq(nm + ".frame.log_lik_x", p.pc, o.attrs["log_lik_x"], L_of(w.x))
        pr.tensor(nm + ".frame.y", I, p.pc, o.attrs["y"], y)
        pr.true(nm + ".no_new_ellipse", not pri)
        for q, (_, pc) in enumerate(evs):
            pr.holds(f"{nm}.attempt{q}_bounded", pc, alg.le(att, mx))
        pr.true(nm + ".one_attempt_per_level", len(evs) <= 1, len(evs))
        for q, (v, pc, _, at) in enumerate(cs):
            pr.holds(f"{nm}.call{q}.lower_shrinks", pc, cand(alg.ge(lift(v["lower"]), lo), alg.le(lift(v["lower"]), 0)))
            pr.holds(f"{nm}.call{q}.upper_shrinks", pc, cand(alg.le(lift(v["upper"]), up), alg.ge(lift(v["upper"]), 0)))
            pr.eq(f"{nm}.call{q}.slice", pc, v["u"], u)
            pr.eq(f"{nm}.call{q}.attempts", pc, v["attempts"], att + 1)
            pr.eq(f"{nm}.call{q}.maximum", pc, v["max_attempts"], mx)
            pr.tensor(f"{nm}.call{q}.x", I, pc, at["x"], w.x)
            th = at.get("theta")
            if is_num(th):
                # the rejected angle becomes an end of the bracket
                e = lambda s, t: alg.eq(lift(s), lift(t))
                pr.holds(f"{nm}.call{q}.rejected_angle_excluded", pc, alg.cor(
                    cand(e(v["lower"], lo), e(v["upper"], th)), cand(e(v["upper"], up), e(v["lower"], th))))
        if k == "exc":
            ok = isinstance(r, PyExc) and (r.name == "SampleFailedException" or r.cls is w.exc)
            pr.true(nm + ".exception", ok, repr(r))
            if not cs:
                pr.holds(nm + ".fails_only_at_the_maximum", p.pc, alg.gt(att, mx))
                pr.true(nm + ".failure_evaluates_nothing", not evs)
            return
        if not (isinstance(r, tuple) and len(r) == 3):
            return pr.true(nm + ".result", False, repr(r))
        x2, l2, n = r
        pr.true(nm + ".result", isinstance(x2, T), repr(r))
        pr.eq(nm + ".log_lik_of_result", p.pc, l2, L_of(x2))
        pr.holds(nm + ".strictly_above_the_slice", p.pc, alg.gt(lift(l2), u))
        pr.holds(nm + ".attempts_positive", p.pc, alg.ge(lift(n), 1))
        ths = [v for kd, _, v in draws if kd == "uniform"]
        th = ths[-1] if ths and not cs else (out[1] if cs else None)
        if th is None:
            return pr.unknown(nm + ".on_ellipse", "no angle")
        pr.tensor(nm + ".on_ellipse", I, p.pc, x2, ellipse(w.x, y, th))
        pr.holds(nm + ".angle_in_bracket", p.pc, cand(alg.ge(th, lo), alg.le(th, up)))
    pr.paths("sample.ESS._draw", I, thunk, chk)


def sample1(pr):
    w = World(pr)
    I = w.I
    calls = []
    fails = []

    def contract(I, a, k):
        o = a[0]
        v = draw_args(I, a, k)
        calls.append((v, list(I.pc()), dict(o.attrs), list(w.priors), list(I.draws)))
        if "y" not in o.attrs:
            raise Unsupported("no ellipse")
        return draw_result(I, w, o, v)
    I.contracts["sample.ESS._draw"] = contract

    def loop(I, st, env):
        # Invariant: the state is the one before the draw.  One iteration from an arbitrary state.
        if not I.decide_value(I.eval(st.test, env)):
            I.exec_block(st.orelse, env)
            return
        try:
            I.exec_block(st.body, env)
        except Brk:
            return
        except Cont:
            pass
        raise PyExc("$retry")
    I.while_contracts["sample.ESS._sample"] = loop

    def thunk():
        w.reset()
        calls.clear()
        o = w.obj()
        try:
            r = I.verify_body(I.get("sample.ESS._sample"), [o])
            k = "ret"
        except PyExc as e:
            if e.name != "$retry":
                raise
            r, k = None, "retry"
        return k, r, o, list(calls), list(I.draws), list(w.priors), getattr(I, "draw_out", None)

    def chk(p, nm):
        if p.kind != "ret":
            return pr.true(nm + ".no_exception", False, repr(p.value))
        k, r, o, cs, draws, pri, out = p.value
        pr.true(nm + ".one_draw", len(cs) == 1, len(cs))
        for v, pc, at, pri0, dr in cs:
            pr.true(nm + ".fresh_ellipse", len(pri0) == 1 and same(at.get("y"), pri0[0]), repr(at.get("y")))
            pr.tensor(nm + ".state_before", I, pc, at["x"], w.x)
            es = [(a, d) for kd, a, d in dr if kd == "exponential"]
            pr.true(nm + ".one_height", len(es) == 1, len(es))
            if len(es) == 1:
                pr.eq(nm + ".unit_exponential", pc, es[0][0][0], 1)
                pr.eq(nm + ".height", pc, v["u"], L_of(w.x) - es[0][1])
            us = [(a, d) for kd, a, d in dr if kd == "uniform"]
            pr.holds(nm + ".bracket_contains_state", pc, cand(alg.le(lift(v["lower"]), 0), alg.ge(lift(v["upper"]), 0)))
            pr.holds(nm + ".bracket_at_most_one_turn", pc, alg.le(lift(v["upper"]) - lift(v["lower"]), alg.pi() * 2))
            pr.true(nm + ".bracket_drawn", len(us) == 1)
            if len(us) == 1:
                pr.eq(nm + ".bracket_upper", pc, v["upper"], us[0][1])
                pr.eq(nm + ".bracket_lower", pc, v["lower"], us[0][1] - alg.pi() * 2)
                pr.eq(nm + ".bracket_range", pc, lift(us[0][0][1]) - lift(us[0][0][0]), alg.pi() * 2)
            pr.eq(nm + ".first_attempt", pc, v["attempts"], 1)
        if k == "retry":
            pr.tensor(nm + ".failure_keeps_state", I, p.pc, o.attrs["x"], w.x)
            pr.eq(nm + ".failure_keeps_log_lik", p.pc, o.attrs["log_lik_x"], L_of(w.x))
        else:
            inv(pr, nm, I, p, o)
            pr.tensor(nm + ".accepted_state", I, p.pc, o.attrs["x"], out[0])
            pr.true(nm + ".result", isinstance(r, tuple) and len(r) == 2, repr(r))
        kinds.add(k)
    kinds = set()
    pr.paths("sample.ESS._sample", I, thunk, chk)
    if kinds:
        pr.true("sample.ESS._sample.cover", kinds == {"retry", "ret"}, kinds, "cover")


def sample(pr):
    w = World(pr)
    I = w.I
    num = alg.sym("num", int=True, nonneg=True)
    n0 = alg.sym("n0", int=True, nonneg=True)

    def state(k):
        return T((w.n, 1), lambda i, j: alg.app("X", k, i))

    def contract(I, a, k):
        o = a[0]
        o.attrs["$n"] = norm(lift(o.attrs["$n"]) + 1)
        o.attrs["x"] = state(lift(o.attrs["$n"]))
        o.attrs["log_lik_x"] = L_of(o.attrs["x"])
        return (P.atom(alg.fresh("att", int=True, pos=True)), P.atom(alg.fresh("ms", nonneg=True)))
    I.contracts["sample.ESS._sample"] = contract
    I.contracts["util.autocorr"] = lambda I, a, k: UNKNOWN

    for trace in (False, True):
        def thunk(trace=trace):
            w.reset()
            o = w.obj(**{"$n": n0, "x": state(n0)})
            o.attrs["log_lik_x"] = L_of(o.attrs["x"])
            r = I.callm(o, "sample", num=num, trace=trace)
            return o, r

        def chk(p, nm):
            if p.kind != "ret":
                return pr.true(nm, False, repr(p.value))
            o, r = p.value
            s = seq_of(r)
            pr.true(nm + ".ordered", getattr(s, "ordered", True))
            pr.eq(nm + ".count", p.pc, I.call(lib.LibFn("len", lib.b_len), [r], {}), num)
            parts = lib.elem_list(I, s)
            i = alg.sym("i_el", int=True, nonneg=True)
            acc = ZERO
            for q, (d, f) in enumerate(parts):
                v = f(i)
                pr.tensor(f"{nm}.element{q}", I, list(p.pc) + [alg.lt(i, dim_size(d))], v, state(n0 + acc + i + 1))
                acc = acc + dim_size(d)
        pr.paths(f"sample.ESS.sample.trace={trace}", I, thunk, chk)

    def default():
        w.reset()
        o = w.obj(**{"$n": n0, "x": state(n0)})
        return o, I.callm(o, "sample")

    def chkd(p, nm):
        if p.kind != "ret":
            return pr.true(nm, False, repr(p.value))
        o, r = p.value
        l = I.aslist(r)
        pr.true(nm + ".one", len(l) == 1)
        pr.tensor(nm + ".state", I, p.pc, l[0], state(n0 + 1))
        pr.tensor(nm + ".current", I, p.pc, o.attrs["x"], state(n0 + 1))
    pr.paths("sample.ESS.sample.default", I, default, chkd)
