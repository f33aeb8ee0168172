"""Replay on the real code: cases, comparison, result file."""
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
BUDGET = float(os.environ.get("REPLAY_BUDGET", "1500" if THOROUGH else "240"))
T0 = time.time()

R = {"cases": 0, "distinct": 0, "failures": [], "samples": [], "rule": ""}
_seen = set()
ONLY = os.environ.get("REPLAY_ONLY")


WITNESS = json.loads(os.environ.get("REPLAY_WITNESS") or "null")


def witnesses():
    """Counterexamples of the verifier that are run on the real code."""
    return WITNESS or []


class Bad(Exception):
    pass


class Slow(Exception):
    pass


def _alarm(*a):
    raise Slow()


def rng(*k):
    import zlib
    return np.random.RandomState(zlib.crc32(repr((SEED,) + k).encode()))


def close(what, a, b, tol=1e-6, atol=None):
    a = np.asarray(a, dtype=complex if np.iscomplexobj(a) or np.iscomplexobj(b) else float)
    b = np.asarray(b, dtype=a.dtype)
    if a.shape != b.shape:
        raise Bad(f"{what}: shape {a.shape}, expected {b.shape}")
    if a.size == 0:
        return
    sc = np.max(np.abs(b)) if b.size else 0
    sc = sc if np.isfinite(sc) else 1
    err = np.abs(a - b)
    lim = tol * (1 + sc) if atol is None else atol
    both = (a == b) | (np.isnan(a) & np.isnan(b))
    if not np.all((err <= lim) | both):
        k = np.unravel_index(np.nanargmax(np.where(both, -1, np.where(np.isnan(err), np.inf, err))), a.shape)
        raise Bad(f"{what}: got {a[k]!r}, expected {b[k]!r} at {tuple(int(x) for x in k)}")


def true(what, c):
    if not c:
        raise Bad(what)


def raises(what, exc, f):
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Bad(f"{what}: raised {type(e).__name__} instead of {exc}")
    raise Bad(f"{what}: did not raise")


def over():
    return time.time() - T0 > BUDGET


def case(name, f, inp=None, limit=60, kind=None):
    """Run one case.  An exception of the code on a valid input is a failure."""
    if ONLY and ONLY not in name or WITNESS is not None and not name.startswith("witness"):
        return
    if over():
        return
    R["cases"] += 1
    key = kind or name
    if key not in _seen:
        _seen.add(key)
    R["distinct"] = len(_seen)
    if len(R["samples"]) < 5 and inp is not None:
        R["samples"].append({"case": name, "input": str(inp)[:300]})
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        f()
    except Bad as e:
        R["failures"].append({"case": name, "input": str(inp)[:2000], "detail": str(e)})
    except Slow:
        R.setdefault("slow", []).append(name)
    except Exception as e:
        R["failures"].append({"case": name, "input": str(inp)[:2000], "detail": "exception: " + "".join(traceback.format_exception_only(type(e), e)).strip() + "\n" + traceback.format_exc(limit=-4)})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def done(rule=""):
    R["rule"] = rule
    R["wall_s"] = time.time() - T0
    with open(sys.argv[1], "w") as f:
        json.dump(R, f)
    if os.environ.get("REPLAY_PRINT"):
        for x in R["failures"]:
            print("FAIL", x["case"], x["detail"][:1500])
        print("cases", R["cases"], "failures", len(R["failures"]), "slow", R.get("slow"), f"{time.time() - T0:.1f}s")
