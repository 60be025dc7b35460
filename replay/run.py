"""python run.py PID SEED SHARD NSHARDS MAXCASES MAXSECONDS -> one JSON line: what was tried, and the first violation found.
python run.py PID --replay FILE: re-run the case of a replay file (exit 1 if it still fails)."""
import hashlib
import json
import os
import random
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)
sys.dont_write_bytecode = True


class Slow(Exception):
    pass


def _alarm(*a):
    raise Slow()


def one(o, case, limit=20):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return o.check(json.loads(json.dumps(case)))
    except Slow:
        return "skip"
    finally:
        signal.alarm(0)


def main():
    pid = sys.argv[1]
    import oracles
    o = oracles.REG[pid]
    if sys.argv[2] == "--replay":
        d = json.load(open(sys.argv[3]))
        r = one(o, d["case"], 60)
        print("violated: " + r if r and r != "skip" else "holds")
        sys.exit(1 if r and r != "skip" else 0)
    seed, shard, n, maxc, maxs = [int(float(x)) for x in sys.argv[2:7]]
    t0 = time.time()
    out = {"evaluations": 0, "skipped": 0, "nontrivial": 0, "exhaustive": 0, "exhaustive_total": 0, "samples": [], "violation": None, "digests": []}
    seen = set()

    def try_(case):
        out["evaluations"] += 1
        key = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        if o.nontrivial(case):
            seen.add(key)
        r = one(o, case)
        if r == "skip":
            out["skipped"] += 1
            return False
        if r:
            out["violation"] = {"case": case, "what": r}
            return True
        if len(out["samples"]) < 2:
            out["samples"].append(case)
        return False
    done = False
    for k, case in enumerate(o.exhaustive()):
        out["exhaustive_total"] += 1
        if k % n != shard:
            continue
        if time.time() - t0 > maxs * 0.5:
            continue
        out["exhaustive"] += 1
        if try_(case):
            done = True
            break
    if not done:
        rng = random.Random(f"{pid}/{seed}/{shard}")
        c = 0
        for case in o.cases(rng):
            if c >= maxc or time.time() - t0 > maxs:
                break
            c += 1
            if try_(case):
                break
    out["digests"] = sorted(seen)
    out["nontrivial"] = len(seen)
    out["seconds"] = round(time.time() - t0, 2)
    print("RESULT " + json.dumps(out))


main()
