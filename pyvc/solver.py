"""Discharging obligations: z3 (E-matching over the theory's axioms, resource-limited, deterministic), cvc5 as second opinion."""
import os
import pickle
import selectors
import signal
import subprocess
import sys
import tempfile
import time
import z3
from . import theory as T

RLIMIT = int(os.environ.get("PYVC_RLIMIT", "30000000"))
PROF = {} if os.environ.get("PYVC_PROF") else None
WHERE = [0]
STATS = {"queries": 0, "time": 0.0, "unsat": 0, "cached": 0}
_cache = {}


def mk_solver(rlimit, seed=0, mbqi=False, depth=20.0):
    s = z3.Solver()
    s.set("auto_config", False)
    s.set("smt.mbqi", mbqi)
    s.set("smt.ematching", True)
    s.set("smt.qi.eager_threshold", float(depth))
    s.set("smt.qi.lazy_threshold", float(depth))
    s.set("smt.random_seed", seed)
    s.set("rlimit", rlimit)
    s.set("timeout", 120000)
    return s


def ground(goal):
    """the closed terms inside the quantifiers of a formula: z3 matches on them only once they occur outside"""
    out, seen = [], set()

    def free(e, memo={}):
        if z3.is_var(e):
            return True
        if z3.is_quantifier(e):
            return True
        k = e.get_id()
        if k not in memo:
            memo[k] = (any(free(c) for c in e.children()), e)
        return memo[k][0]

    def go(e, inq):
        if (e.get_id(), inq) in seen:
            return
        seen.add((e.get_id(), inq))
        if z3.is_quantifier(e):
            go(e.body(), True)
        elif z3.is_app(e):
            if inq and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort().kind() == z3.Z3_UNINTERPRETED_SORT and not free(e):
                out.append(e)
                return
            for c in e.children():
                go(c, inq)
    go(goal, False)
    return [z3.Function("touch_" + str(e.sort()), e.sort(), z3.BoolSort())(e) for e in out]


_names = {}


def names(f):
    """generated symbols (of values computed by the code) in a formula"""
    got = _names.get(f.get_id())
    if got is not None:
        return got[0]
    out, st, seen = set(), [f], set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body())
        elif z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if "!" in n and not n.startswith("lit!"):
                    out.add(n)
            st += e.children()
    _names[f.get_id()] = (out, f)
    return out


def relevant(facts, goal):
    """the facts about the values named in the goal, and about the values these are directly computed from"""
    g = names(goal)
    ns = [names(f) for f in facts]
    near = set(g)
    for n in ns:
        if n & g:
            near |= n
    return [f for f, n in zip(facts, ns) if not n or n & g or n <= near]


def check(facts, goal, rlimit=None, lemmas=(), tag=None):
    """True iff facts |= goal is proved.  facts: list of formulas.  A negative rlimit: only try with the facts near the goal."""
    rl = abs(rlimit or RLIMIT)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True, "trivial"
    neg = z3.Not(goal)
    gid = goal.get_id()
    for f in facts:
        if f.get_id() == gid:
            return True, "trivial"
    key = (frozenset(f.get_id() for f in facts), gid)
    got = _cache.get(key)
    if got is not None and (got[0] is True or got[3] >= rl):
        STATS["cached"] += 1
        return got[0], got[1]
    t0 = time.time()
    fs = list(facts)
    # instantiation depth is raised step by step: shallow proofs are found fast, and failing queries end early
    steps = [(4.0, 0)] if rl <= 2000000 else [(4.0, 0), (8.0, 0)] if rl < RLIMIT else [(4.0, 0), (8.0, 0), (20.0, 0), (6.0, 7), (12.0, 3)]
    touch = ground(goal)
    rel = relevant(fs, goal)
    plan = [(fs, rl, d, sd) for d, sd in steps]
    if len(rel) < len(fs):
        plan = [(rel, min(rl, 2500000), d, 0) for d in ((4.0,) if rl <= 400000 else (4.0, 8.0, 20.0))] + (plan if (rlimit or 1) > 0 else [])
    axs = {}
    for use, lim, depth, seed in plan:
        s = mk_solver(lim, seed, depth=depth)
        if id(use) not in axs:
            axs[id(use)] = T.axioms_for(use + [neg] + list(lemmas))
        for a in axs[id(use)]:
            s.add(a)
        for l in lemmas:
            s.add(l)
        for f in use:
            s.add(f)
        s.add(neg)
        for f in touch:
            s.add(f)
        try:
            r = s.check()
            why = str(r) if r == z3.unsat else f"{r} ({s.reason_unknown() if r == z3.unknown else 'candidate model'})"
        except z3.Z3Exception as e:
            r, why = z3.unknown, f"unknown ({e})"
        if r == z3.unsat:
            break
    ok = r == z3.unsat
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    STATS["unsat"] += ok
    if PROF is not None:
        q = PROF.setdefault((WHERE[0], (tag or "")[:4], ok), [0, 0.0])
        q[0] += 1
        q[1] += time.time() - t0
    if os.environ.get("PYVC_SLOW") and time.time() - t0 > float(os.environ["PYVC_SLOW"]):
        print("SLOW", tag, round(time.time() - t0, 1), why, flush=True)
    if os.environ.get("PYVC_DUMP") and not ok and tag and os.environ["PYVC_DUMP"] in tag:
        n = STATS.setdefault("dump", 0)
        STATS["dump"] = n + 1
        open("/tmp/w/dump%d_%d.smt2" % (n, os.getpid()), "w").write(smt2(facts, goal, lemmas))
        print("DUMP", n, tag)
    _cache[key] = (ok, why, (facts, goal), rl)
    return ok, why


WORKERS = int(os.environ.get("PYVC_WORKERS", "8"))


def look(facts, goal, rlimit=None):
    """the answer when no solver is needed, else None"""
    if z3.is_true(z3.simplify(goal)):
        return True, "trivial"
    gid = goal.get_id()
    ids = {f.get_id() for f in facts}
    if gid in ids:
        return True, "trivial"
    got = _cache.get((frozenset(ids), gid))
    if got is not None and (got[0] is True or got[3] >= abs(rlimit or RLIMIT)):
        STATS["cached"] += 1
        return got[0], got[1]
    return None


def check_many(qs):
    """answers of independent queries (facts, goal, rlimit, lemmas, tag); the queries are spread over forked processes in a fixed way"""
    out = [look(q[0], q[1], q[2]) for q in qs]
    todo = [n for n, a in enumerate(out) if a is None]
    if WORKERS <= 1 or len(todo) <= 2:
        for n in todo:
            out[n] = check(*qs[n])
        return out
    size = max(1, min(6, len(todo) // (2 * WORKERS)))
    jobs = [todo[a::-(-len(todo) // size)] for a in range(-(-len(todo) // size))]
    running = {}
    sel = selectors.DefaultSelector()
    try:
        while jobs or running:
            while jobs and len(running) < WORKERS:
                job = jobs.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        signal.signal(signal.SIGTERM, signal.SIG_DFL)
                        signal.alarm(0)
                        base = dict(STATS)
                        if PROF is not None:
                            PROF.clear()
                        ans = [check(*qs[n]) for n in job]
                        data = pickle.dumps((ans, {k: STATS[k] - base.get(k, 0) for k in ("queries", "time", "unsat", "cached")}, PROF))
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                        sys.stdout.flush()
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (pid, job, bytearray())
                sel.register(r, selectors.EVENT_READ)
            for key, _ in sel.select():
                r = key.fd
                data = os.read(r, 1 << 16)
                if data:
                    running[r][2].extend(data)
                    continue
                sel.unregister(r)
                os.close(r)
                pid, job, buf = running.pop(r)
                os.waitpid(pid, 0)
                if not buf:
                    # the process died: answer here
                    for n in job:
                        out[n] = check(*qs[n])
                    continue
                ans, st, prof = pickle.loads(bytes(buf))
                for k, v in st.items():
                    STATS[k] += v
                for k, v in (prof or {}).items():
                    q = PROF.setdefault(k, [0, 0.0])
                    q[0] += v[0]
                    q[1] += v[1]
                for n, a in zip(job, ans):
                    out[n] = a
                    facts, goal = qs[n][0], qs[n][1]
                    _cache[(frozenset(f.get_id() for f in facts), goal.get_id())] = (a[0], a[1], (facts, goal), abs(qs[n][2] or RLIMIT))
    finally:
        for r, (pid, job, buf) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        sel.close()
    return out


def sat_hint(facts, rlimit=2000000):
    """'unsat' if the facts are refuted, otherwise 'open'"""
    ok, _ = check(facts, z3.BoolVal(False), rlimit)
    return "unsat" if ok else "open"


def smt2(facts, goal, lemmas=()):
    s = z3.Solver()
    neg = z3.Not(goal)
    for a in T.axioms_for(list(facts) + [neg] + list(lemmas)):
        s.add(a)
    for l in lemmas:
        s.add(l)
    for f in facts:
        s.add(f)
    for f in ground(goal):
        s.add(f)
    s.add(neg)
    return "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")


def cvc5(text, tlimit_ms=20000):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % tlimit_ms, f.name], capture_output=True, text=True, timeout=tlimit_ms / 1000 + 20)
        return p.stdout.strip().split("\n")[0] if p.stdout.strip() else "error " + p.stderr[:200]
    except Exception as e:  # noqa
        return "error " + str(e)[:100]
    finally:
        os.unlink(f.name)
