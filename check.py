#!/usr/bin/env python3
"""Run the check of one property: proof obligations from the current source of /repo, replay on
the real code, verdict and evidence."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("GPCM_REPO", "/repo")
PY = "/opt/venv/bin/python"


def start_replay(pid, tier, seed, witnesses=None):
    f = os.path.join(HERE, "replay", pid.lower() + ".py")
    if not os.path.exists(f):
        return None
    env = dict(os.environ)
    env.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=str(seed), VERIF_TIER=tier,
               PYTHONPATH=REPO + os.pathsep + os.path.join(HERE, "replay"), PYTHONHASHSEED="0", OMP_NUM_THREADS="2",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false")
    if witnesses is not None:
        env["REPLAY_WITNESS"] = json.dumps(witnesses)
    out = os.path.join(HERE, "evidence", f".replay-{pid}-{os.getpid()}.json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.Popen([PY, "-W", "ignore", f, out], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, out


def end_replay(h, budget):
    p, out = h
    try:
        log, _ = p.communicate(timeout=budget)
        dead = False
    except subprocess.TimeoutExpired:
        p.kill()
        log, _ = p.communicate()
        dead = True
    r = None
    if os.path.exists(out):
        try:
            r = json.load(open(out))
        except Exception:
            r = None
        os.remove(out)
    if r is None:
        r = {"cases": 0, "distinct": 0, "failures": [], "samples": [], "error": ("time limit" if dead else "replay ended without a result") + "\n" + (log or "")[-3000:]}
    r["log"] = (log or "")[-3000:]
    return r


def known():
    out = {}
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("finding: "):
                d = line[len("finding: "):]
                kv, _, what = d.partition(" :: ")
                m = dict(x.split("=", 1) for x in kv.split())
                out[(m["property"], m["case"])] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--no-replay", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    t0 = time.time()
    h = None if a.no_replay else start_replay(pid, tier, seed)

    from pyvc import prove, smt
    pr = prove.Prover(pid, seed=seed, limit=60 if tier == "quick" else 240, budget=450 if tier == "quick" else 6000)
    assumptions = []
    if not a.no_proof:
        sys.setrecursionlimit(20000)
        import threading
        try:
            mod = importlib.import_module("checks." + pid.lower())
            assumptions = list(getattr(mod, "ASSUMPTIONS", []))
            mod.run(pr, tier)
        except (Exception, prove.Timeout):
            pr.rec("driver", "unsupported", "", traceback.format_exc(limit=-6))
        pr.finish()
    proof_s = time.time() - t0
    r = end_replay(h, max(30, 820 - (time.time() - t0)) if tier == "quick" else 3000) if h else {"cases": 0, "distinct": 0, "failures": [], "samples": []}

    if pr.witnesses and not a.no_replay:
        # counterexamples of the verifier, on the real code
        rw = end_replay(start_replay(pid, tier, seed, pr.witnesses), 60)
        r["failures"] = rw["failures"] + r["failures"]
        r["cases"] += rw["cases"]

    kf = known()
    fails = []
    for f in r["failures"]:
        k = (pid, f["case"])
        if k in kf:
            print(f"KNOWN-FINDING: property={pid} {f['case']}: {kf[k]}")
        else:
            fails.append(f)
    bad = [o for o in pr.obls if o["status"] == "refuted"]
    open_ = [o for o in pr.obls if o["status"] in ("unknown", "unsupported")]
    proved = [o for o in pr.obls if o["status"] == "proved"]

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    violations = 0
    lines = []
    if fails or bad:
        violations = len(fails) + len(bad)
        rp = os.path.join(HERE, "evidence", f"replay-{pid}.json")
        json.dump({"property": pid, "failed_obligations": bad, "failing_inputs": fails, "undecided": open_,
                   "how": f"cd /verif && python3-vt check.py {pid}; failing inputs are run by replay/{pid.lower()}.py on /repo"}, open(rp, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={rp}" + ("" if fails else " no-failing-input-found"))
    undecided = not fails and not bad and not proved and not r["cases"]
    be = {}
    for o in proved:
        be[o["backend"]] = be.get(o["backend"], 0) + 1
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(pr.obls), "discharged": len(proved),
            "checker_cmd": f"python3-vt check.py {pid} --tier {tier}",
            "trusted_base": sorted(["pyvc (AST interpreter, term algebra)", "z3 5.3.2", "CPython ast"] + ["library contract: " + x for x in pr.trusted]),
            "functions_under_contract": {k: v for k, v in sorted(pr.functions.items())},
            "callee_contracts_used": sorted(pr.contracts),
            "back_ends": be,
            "undischarged": [{k: o[k] for k in ("name", "status", "detail")} for o in open_ + bad][:60],
            "solver": {"z3_calls": smt.STATS["calls"], "z3_seconds": round(smt.STATS["time"], 3), "z3_unknown": smt.STATS["unknown"]},
            "obligation_seconds": round(sum(o["time"] for o in pr.obls), 3),
            "proof_seconds": round(proof_s, 2),
            "evaluations": r["cases"], "distinct_nontrivial": r.get("distinct", 0),
            "rule": "bounded replay of the contracts on the real code: " + r.get("rule", "seeded random and special inputs"),
            "samples": r.get("samples", [])[:5],
            "bounded_stand_ins": sorted({o["name"] for o in open_}),
        },
        "assumptions": assumptions + pr.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    if r.get("error"):
        ev["coverage"]["replay_error"] = r["error"]
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid} {tier}: obligations {len(pr.obls)}, discharged {len(proved)}, refuted {len(bad)}, undecided {len(open_)}; "
          f"replayed {r['cases']} cases, {len(fails)} failures; proof {proof_s:.1f}s, total {time.time() - t0:.1f}s")
    if a.v:
        for o in pr.obls:
            if o["status"] == "proved" and not os.environ.get("VV"):
                continue
            print("  ", o["status"], o["name"], o["backend"], f"{o['time']:.2f}s", o["detail"][:600] if o["status"] != "proved" else "")
    for o in bad[:8]:
        print("  failed obligation:", o["name"], o["detail"][:400])
    for o in open_[:8]:
        print("  undecided obligation (bounded replay stands in):", o["name"], o["detail"].strip()[-200:] if not a.v else "")
    for f in fails[:8]:
        print("  failing input:", f["case"], str(f.get("detail", ""))[:400])
    if r.get("error"):
        print("  replay:", r["error"][-800:])
    for l in lines:
        print(l)
    if lines:
        return 1
    if undecided:
        print("nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
