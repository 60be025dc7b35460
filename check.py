#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property.

1. Every contract that carries PID is verified against /repo's current source (pyvc, z3).
2. The run-time oracle of PID is run on the real code (bounded; it supplies failing inputs, and stands in for functions the
   verifier could not take).
Verdict: failing input -> VIOLATION; obligation not discharged and no failing input -> VIOLATION ... no-failing-input-found."""
import os
import sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"   # the same queries in the same order on every run
    os.execv(sys.executable, [sys.executable] + sys.argv)
import hashlib
import json
import multiprocessing as mp
import signal
import subprocess
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
REPO = "/repo"
PY = "/opt/venv/bin/python"
CONTRACT_LIMIT = 540


def _timeout(*a):
    raise TimeoutError("time budget of the contract")


def _verify(a):
    ix, pid = a
    import contracts
    from pyvc.contract import verify
    from pyvc import solver
    prog, reg = contracts.load()
    c = reg.all[ix]
    signal.signal(signal.SIGALRM, _timeout)
    signal.alarm(CONTRACT_LIMIT)
    try:
        r = verify(prog, reg, c, pid=pid)
        signal.alarm(0)
        return {
            "qual": r.qual, "contract": type(c).__name__, "absent": r.absent, "unsupported": r.unsupported, "error": r.error, "vacuous": r.vacuous, "paths": r.paths, "time": round(r.time, 2),
            "obls": [{"name": o.name(), "label": o.label, "tags": list(o.tags), "ok": bool(o.ok), "why": o.why, "backend": getattr(o, "backend", "z3")} for o in r.obls],
            "inlined": sorted(r.inlined), "used": sorted(r.used), "externals": sorted(r.externals), "solver_s": round(solver.STATS["time"], 2), "queries": solver.STATS["queries"],
            "loops": [[str(x) for x in l[:2]] + [list(l[2])] for l in r.loops], "assumes": list(getattr(c, "assumes", ())), "lean": list(getattr(c, "lean", ())),
        }
    except TimeoutError as e:
        return {"qual": c.qual, "contract": type(c).__name__, "absent": False, "unsupported": "verifier ran out of its time budget", "error": None, "vacuous": False, "paths": 0, "time": CONTRACT_LIMIT,
                "obls": [], "inlined": [], "used": [], "externals": [], "solver_s": 0, "queries": 0, "loops": [], "assumes": [], "lean": []}
    finally:
        signal.alarm(0)


def run_contracts(pid, workers=8):
    import contracts
    prog, reg = contracts.load()
    ixs = [i for i, c in enumerate(reg.all) if pid in c.props]
    if not ixs:
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(workers, len(ixs)), maxtasksperchild=1) as p:
        return p.map(_verify, [(i, pid) for i in ixs], chunksize=1)


def start_replay(pid, seed, tier, cases, seconds, shards=8, salt=0):
    env = dict(os.environ, PYTHONPATH=REPO + "/src", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    ps = []
    for s in range(shards):
        ps.append(subprocess.Popen([PY, "-W", "ignore", os.path.join(ROOT, "replay", "run.py"), pid, str(seed + 1000 * salt), str(s), str(shards), str(cases), str(seconds)],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/tmp", text=True, start_new_session=True))
    return ps


def end_replay(ps, seconds):
    tot = {"evaluations": 0, "skipped": 0, "exhaustive": 0, "exhaustive_total": 0, "samples": [], "violation": None, "errors": [], "digests": set(), "seconds": 0}
    end = time.time() + seconds + 90
    for p in ps:
        try:
            out, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            tot["errors"].append("oracle process timed out")
            continue
        line = [l for l in out.split("\n") if l.startswith("RESULT ")]
        if not line:
            tot["errors"].append((err or out)[-1500:])
            continue
        d = json.loads(line[-1][7:])
        for k in ("evaluations", "skipped", "exhaustive"):
            tot[k] += d[k]
        tot["exhaustive_total"] = max(tot["exhaustive_total"], d["exhaustive_total"])
        tot["samples"] += d["samples"][:1]
        tot["digests"] |= set(d["digests"])
        tot["seconds"] = max(tot["seconds"], d["seconds"])
        if d["violation"] and (tot["violation"] is None or len(json.dumps(d["violation"])) < len(json.dumps(tot["violation"]))):
            tot["violation"] = d["violation"]
    return tot


def run_lean(results):
    """lemmas about finite lists used by the contracts, checked by Lean"""
    out = []
    for f in sorted({f for r in results or [] for f in r["lean"]}):
        try:
            p = subprocess.run(["lean", os.path.join(ROOT, f)], capture_output=True, text=True, timeout=300)
            ok, why = p.returncode == 0 and "error" not in p.stdout and "sorry" not in p.stdout, (p.stdout + p.stderr)[-500:] or "accepted"
        except (OSError, subprocess.TimeoutExpired) as e:
            ok, why = False, repr(e)
        out.append({"name": f, "label": f, "tags": [], "ok": ok, "why": why, "backend": "lean"})
    return out


def static_standins(pid):
    import contracts
    prog, reg = contracts.load()
    return [{"function": q, "reason": "no contract for this function: bounded run-time oracle only"} for q in contracts.missing(reg, pid)]


def known(pid):
    fn = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn))["findings"] if k["property"] == pid]


def main():
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    quick_s, quick_c = (45, 6000) if tier == "quick" else (400, 200000)
    ps = start_replay(pid, seed, tier, quick_c, quick_s)
    try:
        results = run_contracts(pid)
    except Exception as e:  # noqa
        results = None
        perr = repr(e)
    lean = run_lean(results)
    rep = end_replay(ps, quick_s)
    # ------------------------------------------------------------------------------------------------ obligations
    obls, failed, undecided, funcs = list(lean), [o for o in lean if not o["ok"]], [], []
    standins = static_standins(pid)
    if results is None:
        undecided.append({"function": "(all)", "reason": "verifier error: " + perr})
        results = []
    for r in results:
        if r["absent"]:
            continue
        if r["unsupported"]:
            undecided.append({"function": r["qual"], "reason": r["unsupported"]})
            continue
        mine = [o for o in r["obls"] if not o["tags"] or pid in o["tags"]]
        if not mine or r["vacuous"]:
            undecided.append({"function": r["qual"], "reason": "vacuous contract" if r["vacuous"] else "no obligation generated"})
            continue
        obls += mine
        bad = [o for o in mine if not o["ok"]]
        failed += bad
        funcs.append({"function": r["qual"], "contract": r["contract"], "obligations": len(mine), "discharged": len(mine) - len(bad), "paths": r["paths"], "inlined_callees": r["inlined"], "callees_by_contract": r["used"],
                      "external_calls": r["externals"], "loops": [{"at": l[0] + ":" + l[1], "invariants": l[2]} for l in r["loops"]], "seconds": r["time"], "solver_seconds": r["solver_s"], "queries": r["queries"]})
    viol = rep["violation"]
    if viol is None and (failed or undecided):
        # no failing input yet: search longer on the real code
        extra = 150 if tier == "quick" else 400
        rep2 = end_replay(start_replay(pid, seed, tier, 10 ** 7, extra, salt=1), extra)
        for k in ("evaluations", "skipped"):
            rep[k] += rep2[k]
        rep["digests"] |= rep2["digests"]
        rep["errors"] += rep2["errors"]
        viol = rep2["violation"]
    # ---------------------------------------------------------------------------------------------------- verdict
    broken_import = None
    if rep["evaluations"] == 0:
        broken_import = (rep["errors"] or ["no case was run"])[0]
    rp = os.path.join(ROOT, "evidence", pid + ".replay.json")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if os.path.exists(rp):
        os.unlink(rp)
    code, line = 0, None
    for k in known(pid):
        if k["status"] == "open":
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol is not None:
        case = viol["case"]
        json.dump({"property": pid, "kind": "failing input on the real code", "case": case, "what": viol["what"], "replay_cmd": f"PYTHONPATH=/repo/src {PY} {ROOT}/replay/run.py {pid} --replay {rp}",
                   "failed_obligations": failed[:20]}, open(rp, "w"), indent=1, ensure_ascii=False)
        code, line = 1, f"VIOLATION property={pid} replay={rp}"
    elif failed:
        json.dump({"property": pid, "kind": "obligation not discharged, no failing input found", "failed_obligations": failed, "searched": rep["evaluations"]}, open(rp, "w"), indent=1, ensure_ascii=False)
        code, line = 1, f"VIOLATION property={pid} replay={rp} no-failing-input-found"
    elif broken_import is not None:
        json.dump({"property": pid, "kind": "the code cannot be run", "output": broken_import}, open(rp, "w"), indent=1)
        code, line = 1, f"VIOLATION property={pid} replay={rp} no-failing-input-found"
    undecided = undecided + standins
    proved = bool(obls) and not failed and not undecided
    level = "proof" if proved or failed else "exploration"
    ass = sorted({a for r in results for a in r["assumes"]})
    cov = {
        "obligations": len(obls), "discharged": len([o for o in obls if o["ok"]]), "checker_cmd": f"python3-vt check.py {pid}",
        "trusted_base": TRUST + ass,
        "by_backend": {b: len([o for o in obls if o["ok"] and o["backend"] == b]) for b in sorted({o["backend"] for o in obls})},
        "functions_under_contract": funcs, "bounded_stand_ins": undecided, "failed_obligations": [o["name"] for o in failed],
        "solver_seconds": round(sum(r["solver_s"] for r in results), 2),
        "evaluations": rep["evaluations"], "distinct_nontrivial": len(rep["digests"]),
        "rule": "run-time oracle on the real code, a bounded cross-check next to the proof: small cases enumerated (" + str(rep["exhaustive"]) + " of " + str(rep["exhaustive_total"]) + "), then seeded random cases; non-trivial as defined by the oracle in replay/oracles.py (distinct by content)",
        "samples": rep["samples"][:2] or ["none"], "skipped": rep["skipped"], "oracle_errors": rep["errors"][:2],
        "source_sha256": sha(),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": TRUST + ass, "wall_s": round(time.time() - t0, 2), "violations": 1 if code else 0}
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False, default=str)
    print(f"{pid}: {len(obls)} obligations, {len([o for o in obls if o['ok']])} discharged, {len(funcs)} functions under contract, {len(undecided)} bounded stand-ins; oracle: {rep['evaluations']} cases; {time.time() - t0:.1f}s")
    for u in undecided:
        print(f"  bounded stand-in for {u['function']}: {u['reason']}")
    for o in failed[:10]:
        print(f"  failed obligation {o['name']}: {o['why']}")
    if viol is not None:
        print(f"  failing input: {viol['what']}")
    if line:
        print(line)
    sys.exit(code)


TRUST = [
    "pyvc (this repository's verification-condition generator) and its model of Python: container, string-order and control-flow semantics of pyvc/theory.py and pyvc/execu.py",
    "z3 (unsat answers)",
    "floats are mathematical reals (no rounding, no NaN); integers are unbounded as in Python",
    "data IDs are strings, totally ordered by <",
]


def sha():
    h = hashlib.sha256()
    base = REPO + "/src"
    for d, ds, fs in sorted(os.walk(base)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


if __name__ == "__main__":
    main()
