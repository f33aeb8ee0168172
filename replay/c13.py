from common import *
import numpy.random as npr
import lab as B
from gpcm.sample import ESS
from scipy import stats


class Rec:
    """Records draws and evaluations of one sampler."""

    def __init__(self, lik, dim, r, cov=None, exps=None):
        self.ev = []
        self.lik, self.dim, self.r = lik, dim, r
        self.L = np.eye(dim) if cov is None else np.linalg.cholesky(cov)
        self.exps = list(exps or [])
        self.ess = None
        self.frozen = None

    def loglik(self, x):
        v = self.lik(np.array(x, dtype=float))
        st = None
        if self.ess is not None and getattr(self.ess, "x", None) is not None:
            st = (np.array(self.ess.x, dtype=float).copy(), self.ess.log_lik_x)
        self.ev.append(("lik", np.array(x, dtype=float).copy(), v, st))
        return v

    def prior(self):
        y = self.L @ self.r.randn(self.dim, 1)
        self.ev.append(("prior", y.copy()))
        return y

    def __enter__(self):
        self.u0, self.e0 = npr.uniform, npr.exponential

        def uniform(low=0.0, high=1.0, size=None):
            v = low + (high - low) * self.r.rand() if size is None else self.u0(low, high, size)
            self.ev.append(("uniform", float(low), float(high), v))
            return v

        def exponential(scale=1.0, size=None):
            v = self.exps.pop(0) if self.exps else scale * self.r.exponential()
            self.ev.append(("exp", float(scale), v))
            return v
        npr.uniform, npr.exponential = uniform, exponential
        np.random.uniform, np.random.exponential = uniform, exponential
        return self

    def __exit__(self, *a):
        npr.uniform, npr.exponential = self.u0, self.e0
        np.random.uniform, np.random.exponential = self.u0, self.e0


def on_ellipse(x, x0, y):
    a = np.concatenate([x0, y], axis=1)
    c, res, rk, _ = np.linalg.lstsq(a, x, rcond=None)
    close("state on the plane of the ellipse", a @ c, x, 1e-9)
    close("state on the ellipse", float((c ** 2).sum()), 1.0, 1e-7)
    return float(np.arctan2(c[1, 0], c[0, 0]))


def walk(ev, samples, x0, l0, lik, maxatt=100):
    """Replays the recorded history against the contract."""
    accepted = []
    x, l = x0.copy(), l0
    y = None
    u = None
    att = 0
    br = None
    last_uni = None
    pend = None           # last proposal

    def flush():
        return None
    i = 0
    draws = 0
    nexp = sum(1 for e in ev if e[0] == "exp")
    for e in ev:
        if e[0] in ("exp", "prior") and pend is not None:
            # a new draw starts: the pending proposal was accepted or the draw failed
            xp, lp = pend
            if u is not None and lp > u:
                accepted.append(xp)
                x, l = xp, lp
            else:
                true(f"a draw stops before the maximum number of attempts without acceptance ({att})", att >= maxatt)
            pend, att, br = None, 0, None
            y = u = None
        if e[0] == "exp":
            true("slice height is drawn from the unit exponential", e[1] == 1.0)
            u = l - e[2]
            draws += 1
        elif e[0] == "prior":
            y = e[1]
        elif e[0] == "uniform":
            last_uni = e
        elif e[0] == "lik":
            _, xp, lp, st = e
            if nexp and u is None:
                raise Bad("proposal before a slice height was drawn")
            if y is None:
                raise Bad("proposal without a fresh prior draw")
            if pend is not None and u is not None:
                true("proposal after acceptance in the same draw", not pend[1] > u)
            att += 1
            true(f"more than {maxatt} attempts in a draw", att <= maxatt)
            th = on_ellipse(xp, x, y)
            if st is not None:
                close("state is untouched during a draw", st[0], x, 1e-12)
                true("log-likelihood is untouched during a draw", st[1] == l)
            if last_uni is not None:
                _, lo, hi, t = last_uni
                if abs(np.sin((t - th) / 2)) < 1e-6 and (lo, hi) != (0.0, 2 * np.pi):
                    true(f"bracket [{lo}, {hi}] contains the current state", lo <= 1e-12 and hi >= -1e-12)
                    true(f"bracket [{lo}, {hi}] at most one turn", hi - lo <= 2 * np.pi + 1e-9)
                    if br is not None:
                        true(f"bracket [{lo}, {hi}] shrinks from {br}", lo >= br[0] - 1e-12 and hi <= br[1] + 1e-12 and (hi - lo) < (br[1] - br[0]))
                        true("one end is the rejected angle", min(abs(lo - br[2]), abs(hi - br[2])) < 1e-9)
                    br = (lo, hi, t)
            pend = (xp, lp)
    if pend is not None and (u is None or pend[1] > u):
        accepted.append(pend[0])
    return accepted


def logp(kind, dim, r):
    if kind == "flat":
        return lambda x: 0.0
    if kind == "gauss":
        m = r.randn(dim, 1)
        return lambda x: float(-0.5 * np.sum((x - m) ** 2) / 0.3)
    if kind == "tight":
        m = 0.3 * r.randn(dim, 1)
        return lambda x: float(-0.5 * np.sum((x - m) ** 2) / 1e-4)
    if kind == "half":
        return lambda x: 0.0 if x[0, 0] > 0 else -np.inf
    if kind == "steps":
        return lambda x: float(np.floor(x.sum()))
    if kind == "jaxy":
        return lambda x: np.float64(-np.abs(x).sum())


for k in range(48 if THOROUGH else 18):
    r = rng("c13", k)
    dim = [2, 3, 5][k % 3]
    kind = ["flat", "gauss", "tight", "half", "steps", "jaxy"][k % 6]
    init = k % 2 == 0
    trace = (k // 2) % 2 == 0
    num = [1, 3, 24, 0, 45, 7][(k // 3) % 6]

    def run():
        f = logp(kind, dim, r)
        cov = None if k % 4 else np.cov(r.randn(dim, 4 * dim))
        rec = Rec(f, dim, r, cov)
        with rec:
            x0 = np.abs(r.randn(dim, 1)) if init else None
            ess = ESS(rec.loglik, rec.prior, x0) if init else ESS(rec.loglik, rec.prior)
            if init:
                close("start", ess.x, x0, 1e-14)
                true("no prior draw for a given start", not any(e[0] == "prior" for e in rec.ev))
            else:
                pr = [e for e in rec.ev if e[0] == "prior"]
                true("start is one prior draw", len(pr) == 1)
                close("start", ess.x, pr[0][1], 1e-14)
            true("log-likelihood after construction", ess.log_lik_x == f(ess.x))
            if kind == "half" and not np.isfinite(ess.log_lik_x):
                ess.move(np.abs(r.randn(dim, 1)))
                true("log-likelihood after a move", ess.log_lik_x == f(ess.x))
            rec.ess = ess
            rec.ev.clear()
            x0, l0 = np.array(ess.x).copy(), ess.log_lik_x
            out = ess.sample(num, trace) if k % 3 else ess.sample(num=num, trace=trace)
        true(f"number of samples {len(out)} of {num}", len(out) == num)
        copies = [np.array(s).copy() for s in out]
        acc = walk(rec.ev, out, x0, l0, f)
        true(f"accepted {len(acc)} samples of {num}", len(acc) == num)
        for a, s in zip(acc, copies):
            close("samples in order", s, a, 1e-12)
        true("log-likelihood after sampling", ess.log_lik_x == f(ess.x))
        close("state after sampling", ess.x, copies[-1] if num else x0, 1e-14)
        # move, then sample again
        with rec:
            m = np.abs(r.randn(dim, 1))
            ess.move(m)
            close("move", ess.x, m, 1e-14)
            true("log-likelihood after a move", ess.log_lik_x == f(m))
            rec.ev.clear()
            out2 = ess.sample()
            true("one sample by default", len(out2) == 1)
            acc = walk(rec.ev, out2, m, f(m), f)
            close("sample after a move", out2[0], acc[0], 1e-12)
        for a, s in zip(out, copies):
            close("earlier samples are unchanged", a, s, 1e-14)
    case(f"history[{k}]", run, dict(kind=kind, dim=dim, num=num, trace=trace, init=init), kind=f"{kind}-{trace}-{init}-{num}", limit=60)

for k in range(6 if THOROUGH else 3):
    def fail():
        # with a slice height equal to the log-likelihood, a flat likelihood is never strictly above:
        # the draw fails after the maximum number of attempts and is retried
        r = rng("c13fail", k)
        nfail = k + 1
        f = lambda x: 1.5
        rec = Rec(f, 2, r, exps=[0.0] * nfail + [0.7])
        with rec:
            ess = ESS(rec.loglik, rec.prior, np.ones((2, 1)))
            rec.ess = ess
            rec.ev.clear()
            out = ess.sample(2)
        acc = walk(rec.ev, out, np.ones((2, 1)), 1.5, f)
        true("two samples", len(out) == 2 and len(acc) == 2)
        true("number of draws", sum(e[0] == "exp" for e in rec.ev) == nfail + 2)
        true("number of ellipses", sum(e[0] == "prior" for e in rec.ev) == nfail + 2)
        n = sum(e[0] == "lik" for e in rec.ev)
        true(f"number of attempts {n}", n == 100 * nfail + 2)
    case(f"failed draw[{k}]", fail, dict(failures=k + 1), kind="failed draw")

for mx in (1, 2, 7, 150, 250):
    def maxatt():
        r = rng("c13max", mx)
        rec = Rec(lambda x: 0.0, 2, r)
        with rec:
            ess = ESS(rec.loglik, rec.prior, np.ones((2, 1)))
            if not hasattr(ess, "_draw") or not hasattr(ess, "_establish_ellipse"):
                return
            ess._establish_ellipse()
            rec.ev.clear()
            try:
                ess._draw(-1.0, 2.0, 5.0, max_attempts=mx)
                raise Bad("draw below the slice was accepted")
            except Bad:
                raise
            except Exception as e:
                true(f"failure is reported ({e!r})", "attempts" in str(e).lower() or "Fail" in type(e).__name__)
            n = sum(e[0] == "lik" for e in rec.ev)
            true(f"number of attempts {n}, maximum {mx}", n == mx)
            close("state", ess.x, np.ones((2, 1)), 0, atol=0)
            true("log-likelihood", ess.log_lik_x == 0.0)
    case(f"configured maximum[{mx}]", maxatt, dict(max_attempts=mx), kind="maximum")

for k in range(2):
    def dist():
        r = rng("c13dist", k)
        n = 40000 if THOROUGH else 8000
        rec = Rec((lambda x: 0.0) if k == 0 else (lambda x: float(-0.5 * (x[0, 0] - 1) ** 2 / 0.5)), 1 if k == 1 else 2, r)
        with rec:
            ess = ESS(rec.loglik, rec.prior)
            xs = np.array([np.array(s)[0, 0] for s in ess.sample(n)])
        m, v = (0.0, 1.0) if k == 0 else (2 / 3, 1 / 3)
        close("mean of the chain", xs[100:].mean(), m, atol=12 * np.sqrt(v / n) + 1e-3)
        close("variance of the chain", xs[100:].var(), v, atol=16 * v / np.sqrt(n) + 1e-3)
    case(f"stationary[{k}]", dist, dict(k=k), kind="stationary", limit=120)
done("histories of draws with six kinds of log-likelihood, traced and untraced, with and without a given start, forced failures, configured maxima; distinct by kind, options and length")
