"""Run-time oracles: for each property, generators of concrete cases and a check on the real code.
check(case) returns None (the property held), "skip" (the case says nothing), or a description of the violation."""
import contextlib
import io
import itertools
import json
import os
import random
import shutil
import tempfile
import warnings
from gen import *

warnings.simplefilter("ignore")
REG = {}


def oracle(pid):
    def deco(c):
        REG[pid] = c()
        return c
    return deco


def pairs(ids):
    return [(a, b) for a in ids for b in ids]


def state(m):
    ids = m.get_list_of_managed_data_IDs()
    return (list(ids), {p: m.get_added_constraint(*p) for p in pairs(ids)}, {p: m.get_inferred_constraint(*p) for p in pairs(ids)},
            [list(c) for c in m.get_connected_components()])


def norm_state(s):
    """order of components and of their members is not part of the state"""
    return (s[0], s[1], s[2], sorted(sorted(c) for c in s[3]))


def call(f, *a, **k):
    try:
        return ("ok", f(*a, **k))
    except Exception as e:  # noqa
        return ("raise", type(e).__name__, str(e)[:200])


class Hist:
    """oracles over histories of the binary manager"""
    small = True

    def cases(self, rng):
        while True:
            yield history(rng)

    def exhaustive(self):
        return small_histories() if self.small else ()

    def nontrivial(self, case):
        return len(case["ops"]) > 0

    def check(self, case):
        from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
        m = BinaryConstraintsManager(list_of_data_IDs=list(case["ids"]))
        ref = Ref(case["ids"])
        r = self.start(m, ref)
        if r:
            return r
        for k, op in enumerate(case["ops"]):
            old = ref.copy()
            before = self.before(m, ref, op)
            want = ref.apply(op)
            got = call(run_op, m, op)
            r = self.step(m, old, ref, op, want, got, before)
            if r:
                return f"after operation {k} {op}: {r}"
        return self.end(m, ref)

    def start(self, m, ref):
        return None

    def before(self, m, ref, op):
        return None

    def step(self, m, old, ref, op, want, got, before):
        return None

    def end(self, m, ref):
        return None


def diff(name, got, want):
    if got != want:
        if isinstance(got, dict) and isinstance(want, dict):
            ks = [k for k in list(want) + [k for k in got if k not in want] if got.get(k, "<absent>") != want.get(k, "<absent>")]
            return f"{name}{ks[0]}: got {got.get(ks[0], '<absent>')!r}, expected {want.get(ks[0], '<absent>')!r}"
        return f"{name}: got {got!r}, expected {want!r}"
    return None


def want_added(ref):
    return {(a, b): ((ref.added[ref.key(a, b)], 1.0) if ref.key(a, b) in ref.added else None) for a, b in pairs(ref.ids) if a != b}


def got_added(m, ids):
    out = {}
    for a, b in pairs(ids):
        if a != b:
            r = call(m.get_added_constraint, a, b)
            v = r[1] if r[0] == "ok" else r
            out[a, b] = tuple(v) if isinstance(v, list) else v
    return out


def got_inferred(m, ids):
    out = {}
    for a, b in pairs(ids):
        r = call(m.get_inferred_constraint, a, b)
        out[a, b] = r[1] if r[0] == "ok" else r
    return out


@oracle("C01")
class C01(Hist):
    def start(self, m, ref):
        return diff("inferred", got_inferred(m, ref.ids), ref.closure())

    def step(self, m, old, ref, op, want, got, before):
        return diff("inferred", got_inferred(m, ref.ids), ref.closure())


@oracle("C02")
class C02(Hist):
    def cases(self, rng):
        while True:
            h = history(rng, bad=rng.choice([0.0, 0.15, 0.3]))
            yield h

    def before(self, m, ref, op):
        if op[0] == "add_c":
            return state(m)

    def step(self, m, old, ref, op, want, got, before):
        if op[0] != "add_c":
            return None
        if want:
            if got != ("ok", True):
                return f"a valid addition gives {got}"
            # never both types: in whatever order the pair is asked
            for a, b in pairs(ref.ids):
                if m.get_inferred_constraint(a, b) != m.get_inferred_constraint(b, a):
                    return f"both types are inferred for {(a, b)}"
        else:
            if got[0] == "ok":
                return f"an invalid addition is accepted ({got})"
            if got[1] != "ValueError":
                return f"an invalid addition raises {got[1]}"
            return diff("state changed by a rejected addition", norm_state(state(m)), norm_state(before))


@oracle("C03")
class C03(Hist):
    def step(self, m, old, ref, op, want, got, before):
        if op[0] == "add_c" and want and got[0] != "ok":
            return f"addition refused: {got}"
        if op[0] == "del_c" and want and got[0] != "ok":
            return f"deletion refused: {got}"
        return diff("added", got_added(m, ref.ids), want_added(ref))


@oracle("C04")
class C04(Hist):
    def cases(self, rng):
        while True:
            h = history(rng, nmin=0, nmax=5, bad=0.1)
            pool = IDS[:9]
            ops = []
            for op in h["ops"]:
                ops.append(op)
                if rng.random() < 0.35:
                    ops.append([rng.choice(["add_d", "del_d"]), rng.choice(pool)])
            h["ops"] = ops
            yield h

    def before(self, m, ref, op):
        if op[0] in ("add_d", "del_d"):
            return state(m)

    def start(self, m, ref):
        return diff("managed IDs", m.get_list_of_managed_data_IDs(), ref.ids) or diff("added", got_added(m, ref.ids), want_added(ref)) or diff("inferred", got_inferred(m, ref.ids), ref.closure())

    def step(self, m, old, ref, op, want, got, before):
        if op[0] not in ("add_d", "del_d"):
            return None
        if want:
            if got != ("ok", True):
                return f"gives {got}"
        else:
            if got[:2] != ("raise", "ValueError"):
                return f"should raise ValueError, gives {got}"
            return diff("state changed by a rejected call", norm_state(state(m)), norm_state(before))
        r = diff("managed IDs", m.get_list_of_managed_data_IDs(), ref.ids) or diff("added", got_added(m, ref.ids), want_added(ref)) or diff("inferred", got_inferred(m, ref.ids), ref.closure())
        if r:
            return r
        if op[0] == "del_d":
            for f in (m.get_inferred_constraint, m.get_added_constraint):
                for o in [op[1]] + ref.ids:
                    if call(f, op[1], o)[:2] != ("raise", "ValueError"):
                        return f"the deleted ID is still known to {f.__name__}"


@oracle("C05")
class C05(Hist):
    def step(self, m, old, ref, op, want, got, before):
        r = call(m.get_connected_components)
        if r[0] != "ok":
            return f"raises {r}"
        cc = r[1]
        ids = m.get_list_of_managed_data_IDs()
        flat = [x for c in cc for x in c]
        if sorted(flat) != sorted(ids) or len(set(flat)) != len(flat):
            return f"components {cc} are not a partition of {ids}"
        if any(len(c) == 0 for c in cc):
            return f"empty component in {cc}"
        where = {x: k for k, c in enumerate(cc) for x in c}
        for a, b in pairs(ids):
            if (where[a] == where[b]) != (m.get_inferred_constraint(a, b) == "MUST_LINK"):
                return f"components {cc} but inferred({a!r}, {b!r}) = {m.get_inferred_constraint(a, b)}"


@oracle("C06")
class C06(Hist):
    def cases(self, rng):
        while True:
            yield history(rng, nmin=0, nmax=rng.choice([3, 4, 6]), length=rng.choice([4, 10, 25]), bad=0.02)

    def step(self, m, old, ref, op, want, got, before):
        ids = m.get_list_of_managed_data_IDs()
        full = all(m.get_inferred_constraint(a, b) is not None for a, b in pairs(ids))
        r = call(m.check_completude_of_constraints)
        if r != ("ok", full):
            return f"completeness check gives {r}, expected {full}"


def colourable(nodes, edges, k):
    col = {}

    def go(i):
        if i == len(nodes):
            return True
        used = {col[q] for p, q in edges if p == nodes[i] and q in col}
        top = max(col.values(), default=-1)
        for c in range(min(k, top + 2)):
            if c not in used:
                col[nodes[i]] = c
                if go(i + 1):
                    return True
                del col[nodes[i]]
        return False
    return go(0)


@oracle("C07")
class C07(Hist):
    def cases(self, rng):
        while True:
            if rng.random() < 0.4:
                # conflict graphs with few must-links
                ids = rng.sample(IDS, rng.randint(2, 8))
                ops = []
                dens = rng.choice([0.2, 0.4, 0.6, 0.9])
                for a, b in itertools.combinations(ids, 2):
                    if rng.random() < dens:
                        ops.append(["add_c", a, b, "MUST_LINK" if rng.random() < 0.08 else "CANNOT_LINK"])
                rng.shuffle(ops)
                yield {"ids": ids, "ops": ops, "final": True}
            else:
                yield dict(history(rng, nmax=8, length=16, bad=0.0), final=True)

    def check(self, case):
        self.final = case.get("final")
        return super().check(case)

    def step(self, m, old, ref, op, want, got, before):
        return None if self.final else self.end(m, ref)

    def end(self, m, ref):
        ids = m.get_list_of_managed_data_IDs()
        if not ids:
            return None
        r = call(m.get_min_and_max_number_of_clusters)
        if r[0] != "ok":
            return f"raises {r}"
        lo, hi = r[1]
        inf = {p: m.get_inferred_constraint(*p) for p in pairs(ids)}
        rep = {}
        for a in ids:
            rep[a] = min(b for b in ids if inf[a, b] == "MUST_LINK")
        reps = sorted(set(rep.values()))
        if hi != len(reps):
            return f"maximum {hi}, but {len(reps)} must-link components"
        if lo < 2:
            return f"minimum {lo} < 2"
        edges = {(rep[a], rep[b]) for a, b in pairs(ids) if inf[a, b] == "CANNOT_LINK"}
        if not colourable(reps, edges, lo):
            return f"minimum {lo}, but the data cannot be split into {lo} labels"


@oracle("C08")
class C08(Hist):
    def cases(self, rng):
        while True:
            yield dict(history(rng, bad=0.0), final=True)

    def check(self, case):
        self.final = case.get("final")
        return super().check(case)

    def step(self, m, old, ref, op, want, got, before):
        return None if self.final else self.end(m, ref)

    def end(self, m, ref):
        ids = m.get_list_of_managed_data_IDs()
        f = m.get_list_of_involved_data_IDs_in_a_constraint_conflict
        for a in ids + ["unknown!"]:
            for b in ids + ["unknown!"]:
                for t in ("MUST_LINK", "CANNOT_LINK", "OTHER"):
                    r = call(f, a, b, t)
                    if a == "unknown!" or b == "unknown!" or t == "OTHER":
                        if r[:2] != ("raise", "ValueError"):
                            return f"{(a, b, t)}: should raise ValueError, gives {r}"
                        continue
                    cur = m.get_inferred_constraint(a, b)
                    if cur is None or cur == t:
                        if r != ("ok", None):
                            return f"{(a, b, t)}: no conflict but {r}"
                        continue
                    want = sorted(x for x in ids if "MUST_LINK" in (m.get_inferred_constraint(a, x), m.get_inferred_constraint(b, x)))
                    if r[0] != "ok" or r[1] is None or sorted(r[1]) != want:
                        return f"{(a, b, t)}: got {r}, expected {want}"


@oracle("C09")
class C09(Hist):
    def cases(self, rng):
        while True:
            yield dict(history(rng, nmin=0, bad=0.0, length=16), final=True)

    def check(self, case):
        self.final = case.get("final")
        return super().check(case)

    def step(self, m, old, ref, op, want, got, before):
        return None

    def end(self, m, ref):
        from cognitivefactory.interactive_clustering.constraints.binary import load_constraints_manager_from_json
        d = tempfile.mkdtemp(prefix="vp_json_")
        try:
            fn = os.path.join(d, "m.json")
            s0 = state(m)
            r = call(m.to_json, fn)
            if r[0] != "ok":
                return f"saving fails: {r}"
            if norm_state(state(m)) != norm_state(s0):
                return "saving changed the manager"
            r = call(load_constraints_manager_from_json, fn)
            if r[0] != "ok":
                return f"loading fails: {r}"
            m2 = r[1]
            ids = s0[0]
            return diff("managed IDs", m2.get_list_of_managed_data_IDs(), ids) or diff("added", got_added(m2, ids), got_added(m, ids)) or diff("inferred", got_inferred(m2, ids), got_inferred(m, ids))
        finally:
            shutil.rmtree(d)


# ------------------------------------------------------------------------------------------------------------ sampling
def eligible(case, m):
    ids = m.get_list_of_managed_data_IDs()
    kw = case["kw"]
    out = []
    for a, b in pairs(ids):
        if not a < b:
            continue
        if kw.get("clusters_restriction") == "same_cluster" and case["labels"][a] != case["labels"][b]:
            continue
        if kw.get("clusters_restriction") == "different_clusters" and case["labels"][a] == case["labels"][b]:
            continue
        if kw.get("without_added_constraints", True) and m.get_added_constraint(a, b) is not None:
            continue
        if kw.get("without_inferred_constraints", True) and m.get_inferred_constraint(a, b) is not None:
            continue
        out.append((a, b))
    return out


def run_sample(case, m=None, vec=None, sampler=None):
    from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
    m = m or build(case["hist"])
    s = sampler or ClustersBasedConstraintsSampling(**case["kw"])
    vec = vec if vec is not None else mkvec(case["vectors"])
    return call(s.sample, constraints_manager=m, nb_to_select=case["nb"], clustering_result=dict(case["labels"]), vectors=vec)


class Sampling:
    distance = None

    def cases(self, rng):
        while True:
            yield sampling_case(rng, self.distance and rng.choice(self.distance))

    def exhaustive(self):
        return ()

    def nontrivial(self, case):
        return case["nb"] > 0 and len(case["labels"]) > 1


@oracle("C10")
class C10(Sampling):
    def check(self, case):
        m = build(case["hist"])
        el = eligible(case, m)
        r = run_sample(case, m)
        if r[0] != "ok":
            return f"sampling raises {r}"
        s = [tuple(p) for p in r[1]]
        bad = [p for p in s if p not in el]
        if bad:
            return f"sampled pair {bad[0]} is not eligible"
        if len(set(s)) != len(s):
            return f"a pair is sampled twice: {s}"
        if len(s) != min(case["nb"], len(el)):
            return f"{len(s)} pairs sampled, expected {min(case['nb'], len(el))}"


@oracle("C11")
class C11(Sampling):
    distance = ["closest_neighbors", "farthest_neighbors"]

    def check(self, case):
        import math
        m = build(case["hist"])
        el = eligible(case, m)
        r = run_sample(case, m)
        if r[0] != "ok":
            return f"sampling raises {r}"
        s = [tuple(p) for p in r[1]]
        v = case["vectors"]
        d = lambda p: math.sqrt(sum((x - y) ** 2 for x, y in zip(v[p[0]], v[p[1]])))
        sgn = 1 if case["kw"]["distance_restriction"] == "closest_neighbors" else -1
        tol = 1e-6
        ds = [sgn * d(p) for p in s]
        for k in range(len(ds) - 1):
            if ds[k] > ds[k + 1] + tol:
                return f"order broken: {s[k]} at {abs(ds[k])} before {s[k + 1]} at {abs(ds[k + 1])}"
        if ds:
            for p in el:
                if p not in s and sgn * d(p) < max(ds) - tol:
                    return f"left out {p} at {d(p)} although {s[ds.index(max(ds))]} at {abs(max(ds))} is sampled"


# ---------------------------------------------------------------------------------------------------------- clustering
def run_cluster(case, m=None, vec=None, obj=None):
    m = m or build(case["hist"])
    vec = vec if vec is not None else mkvec(case["vectors"])
    if case["algo"] == "spectral":
        stable_sklearn()
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            o = obj or make_algo(case)
            return ("ok", {str(k): int(v) for k, v in o.cluster(constraints_manager=m, vectors=vec, nb_clusters=case["nb"]).items()}, o, m)
        except Exception as e:  # noqa
            return ("raise", type(e).__name__, str(e)[:200], m)


_STABLE = []


def stable_sklearn():
    """sklearn's spectral embedding is not reproducible to the last bit on degenerate affinities (BLAS results depend on memory alignment, and
    eigenvectors of repeated eigenvalues amplify that).  That noise is outside the code under check: inside one oracle process the embedding and
    the k-means on it are functions of (input rounded to 1e-9, state of the generator), as their documentation says."""
    if _STABLE:
        return
    _STABLE.append(1)
    import pickle
    import numpy as np
    from collections import OrderedDict
    import sklearn.cluster._spectral as sp

    def memo(f):
        cache = OrderedDict()

        def g(x, *a, **k):
            rs = k.get("random_state")
            if not isinstance(rs, np.random.RandomState):
                return f(x, *a, **k)
            xa = np.asarray(x.todense() if hasattr(x, "todense") else x)
            key = pickle.dumps((np.round(xa, 9) + 0.0, xa.shape, a, {n: b for n, b in k.items() if n != "random_state"}, rs.get_state()))
            if key not in cache:
                r = f(x, *a, **k)
                cache[key] = pickle.dumps((r, rs.get_state()))
                while len(cache) > 50:
                    cache.popitem(last=False)
            r, st = pickle.loads(cache[key])
            rs.set_state(st)
            return r
        return g
    for n in ("spectral_embedding", "k_means"):
        if hasattr(sp, n):
            setattr(sp, n, memo(getattr(sp, n)))


class Clustering:
    algos = ()
    nmin, nmax = 1, 9

    def cases(self, rng):
        while True:
            a = rng.choice(self.algos)
            yield clustering_case(rng, a, max(self.nmin, 2 if a in ("spectral", "mpckmeans") else 1), self.nmax)

    def exhaustive(self):
        return ()

    def nontrivial(self, case):
        return len(case["vectors"]) > 1 and bool(case["hist"]["ops"])


def violated(m, c, ml=True, cl=True):
    ids = m.get_list_of_managed_data_IDs()
    if set(c) != set(ids):
        return f"labels for {sorted(c)} instead of {sorted(ids)}"
    for a, b in pairs(ids):
        t = m.get_inferred_constraint(a, b)
        if ml and t == "MUST_LINK" and c[a] != c[b]:
            return f"MUST_LINK {(a, b)} but labels {c[a]} and {c[b]}"
        if cl and t == "CANNOT_LINK" and c[a] == c[b]:
            return f"CANNOT_LINK {(a, b)} but both have label {c[a]}"


class Never(Clustering):
    ml = cl = True

    def check(self, case):
        r = run_cluster(case)
        if r[0] != "ok":
            return f"clustering raises {r[:3]}"
        return violated(r[3], r[1], self.ml, self.cl)


@oracle("C12")
class C12(Never):
    algos = ("kmeans",)


@oracle("C13")
class C13(Never):
    algos = ("hierarchical",)


@oracle("C24")
class C24(Never):
    algos = ("dbscan",)
    ml = False
    nmin, nmax = 2, 14


@oracle("C16")
class C16(Never):
    algos = ("affinity_propagation",)
    cl = False

    def cases(self, rng):
        for c in super().cases(rng):
            c["kw"].pop("absolute_must_links", None)
            if rng.random() < 0.3:
                c["kw"]["absolute_must_links"] = True
            yield c


@oracle("C14")
class C14(Clustering):
    algos = ("kmeans", "hierarchical", "spectral", "affinity_propagation", "dbscan", "dbscan", "mpckmeans")
    nmin, nmax = 1, 12

    def check(self, case):
        r = run_cluster(case)
        if r[0] != "ok":
            return "skip" if case["algo"] in ("spectral", "mpckmeans") else f"clustering raises {r[:3]}"
        c, o, m = r[1:]
        ids = m.get_list_of_managed_data_IDs()
        if set(c) != set(ids):
            return f"labels for {sorted(c)} instead of {sorted(ids)}"
        seen = []
        for i in sorted(ids):
            if c[i] >= 0 and c[i] not in seen:
                seen.append(c[i])
        if seen != list(range(len(seen))):
            return f"labels {c} are not numbered by first appearance"
        neg = sorted([v for v in c.values() if v < 0], reverse=True)
        if neg != list(range(-1, -1 - len(neg), -1)):
            return f"negative labels {neg}"
        if neg and case["algo"] != "dbscan":
            return f"negative labels {neg}"
        if case["algo"] == "dbscan":
            got = (o.number_of_regular_clusters, o.number_of_single_noise_point_clusters, o.number_of_clusters)
            if got != (len(seen), len(neg), len(seen) + len(neg)):
                return f"counters {got} for labels {c}"


@oracle("C15")
class C15:
    def cases(self, rng):
        while True:
            ids = rng.sample(IDS, rng.randint(0, 9))
            k = rng.choice([1, 2, 3, 9])
            yield {"clusters": {i: rng.choice([rng.randint(0, k), rng.randint(-3, 30)]) for i in ids}}

    def exhaustive(self):
        for n in range(5):
            for perm in ([["b", "a", "10", "9"][:n]] if n < 2 else itertools.islice(itertools.permutations(["b", "a", "10", "9"][:n]), 6)):
                for labs in itertools.product([-1, 0, 1, 2, 5], repeat=n):
                    yield {"clusters": dict(zip(perm, labs))}

    def nontrivial(self, case):
        return len(case["clusters"]) > 1

    def check(self, case):
        from cognitivefactory.interactive_clustering.clustering.abstract import rename_clusters_by_order
        c = dict(case["clusters"])
        r = call(rename_clusters_by_order, c)
        if list(c.items()) != list(case["clusters"].items()):
            return "the given labelling was modified"
        if r[0] != "ok":
            return f"raises {r}"
        n = r[1]
        if list(n) != sorted(c):
            return f"IDs {list(n)}, expected {sorted(c)}"
        for a, b in pairs(sorted(c)):
            if (n[a] == n[b]) != (c[a] == c[b]):
                return f"partition changed for {(a, b)}: {c[a]},{c[b]} -> {n[a]},{n[b]}"
        seen = []
        for i in sorted(c):
            if n[i] not in seen:
                seen.append(n[i])
        if seen != list(range(len(seen))):
            return f"labels {n} are not numbered by first appearance"
        if n is c:
            return "the given labelling itself is returned"


def vecstate(vec):
    return [(k, v.toarray().tolist() if hasattr(v, "toarray") else [list(map(float, x)) for x in v]) for k, v in vec.items()]


@oracle("C17")
class C17:
    KINDS = ["query", "query", "sample", "cluster", "cluster", "cluster", "rename", "freq", "text"]
    ALGOS = ("kmeans", "hierarchical", "spectral", "affinity_propagation", "dbscan", "mpckmeans")

    def cases(self, rng):
        while True:
            k = rng.choice(self.KINDS)
            if k == "query":
                yield {"kind": k, "hist": history(rng, bad=0.0)}
            elif k == "sample":
                yield {"kind": k, "case": sampling_case(rng)}
            elif k == "cluster":
                a = rng.choice(self.ALGOS)
                yield {"kind": k, "case": clustering_case(rng, a, 2, 9)}
            elif k in ("rename", "freq"):
                ids = rng.sample(IDS, rng.randint(0, 6))
                yield {"kind": k, "clusters": {i: rng.randint(-1, 4) for i in ids}}
            else:
                yield {"kind": k, "texts": texts(rng)}

    def exhaustive(self):
        return ()

    def nontrivial(self, case):
        return True

    def check(self, case):
        k = case["kind"]
        if k == "query":
            m = build(case["hist"])
            s0 = state(m)
            ids = list(s0[0])
            for j in range(2):
                L = m.get_list_of_managed_data_IDs()
                L.append("intruder")
                L.reverse()
                CC = m.get_connected_components()
                for c in CC:
                    c.append("intruder")
                CC.append(["intruder2"])
                for a in ids:
                    for b in ids:
                        for t in ("MUST_LINK", "CANNOT_LINK"):
                            r = m.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, t)
                            if r is not None:
                                r.append("intruder")
                m.check_completude_of_constraints()
                if ids:
                    m.get_min_and_max_number_of_clusters()
                d = tempfile.mkdtemp(prefix="vp_json_")
                try:
                    m.to_json(os.path.join(d, "m.json"))
                finally:
                    shutil.rmtree(d)
            return diff("manager changed", state(m), s0)
        if k == "sample":
            c = case["case"]
            m, vec, lab = build(c["hist"]), mkvec(c["vectors"]), dict(c["labels"])
            from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
            s0, v0 = state(m), vecstate(vec)
            r = call(ClustersBasedConstraintsSampling(**c["kw"]).sample, constraints_manager=m, nb_to_select=c["nb"], clustering_result=lab, vectors=vec)
            return diff("manager changed", state(m), s0) or diff("vectors changed", vecstate(vec), v0) or diff("clustering result changed", list(lab.items()), list(c["labels"].items()))
        if k == "cluster":
            c = case["case"]
            m, vec = build(c["hist"]), mkvec(c["vectors"])
            s0, v0 = state(m), vecstate(vec)
            run_cluster(c, m, vec)
            return diff("manager changed", state(m), s0) or diff("vectors changed", vecstate(vec), v0)
        if k in ("rename", "freq"):
            from cognitivefactory.interactive_clustering.clustering.abstract import rename_clusters_by_order
            from cognitivefactory.interactive_clustering.utils.frequency import compute_clusters_frequency
            c = dict(case["clusters"])
            call(rename_clusters_by_order if k == "rename" else compute_clusters_frequency, c)
            return diff("labelling changed", list(c.items()), list(case["clusters"].items()))
        t = dict(case["texts"])
        with fake_spacy():
            from cognitivefactory.interactive_clustering.utils.preprocessing import preprocess
            from cognitivefactory.interactive_clustering.utils.vectorization import vectorize
            call(preprocess, t, True)
            call(vectorize, t, "tfidf")
            call(vectorize, t, "spacy")
        return diff("texts changed", list(t.items()), list(case["texts"].items()))


NAMES = ["", "COP", "cop", "MPC", "mpc", "SPEC", "spec", "ward", "Ward", "average", "complete", "single", "binary", "Binary", "random", "kmeans", "KMEANS", "same_cluster", "different_clusters",
         "different_cluster", "closest_neighbors", "farthest_neighbors", "CO", "COP ", "dbscan", "hierarchical", "spectral", "mpckmeans", "affinity_propagation", "random_in_same_cluster",
         "farthest_in_same_cluster", "closest_in_different_clusters", "closest_in_same_cluster", "wardaverage", "unknown"]


@oracle("C18")
class C18:
    def cases(self, rng):
        while True:
            yield self.one(rng)

    def exhaustive(self):
        out = []
        A = ("kmeans", "hierarchical", "spectral", "affinity_propagation", "dbscan", "mpckmeans")
        nums = [-5, -1, -1e-9, 0, 0.0, 1e-9, 0.5, 1, 2, 3, 150]
        for n in NAMES:
            out.append(("ctor", "kmeans", {"model": n}, n == "COP"))
            out.append(("ctor", "mpckmeans", {"model": n}, n == "MPC"))
            out.append(("ctor", "spectral", {"model": n}, n == "SPEC"))
            out.append(("ctor", "hierarchical", {"linkage": n}, n in ("ward", "average", "complete", "single")))
            out.append(("ctor", "sampling", {"clusters_restriction": n}, n in ("same_cluster", "different_clusters")))
            out.append(("ctor", "sampling", {"distance_restriction": n}, n in ("closest_neighbors", "farthest_neighbors")))
            out.append(("cfactory", n, {}, n in A))
            out.append(("sfactory", n, {}, n in ("random", "random_in_same_cluster", "farthest_in_same_cluster", "closest_in_different_clusters")))
            out.append(("mfactory", n, {}, n == "binary"))
        for v in nums:
            out.append(("ctor", "kmeans", {"tolerance": v}, v >= 0))
            out.append(("ctor", "dbscan", {"eps": v}, v > 0))
            out.append(("ctor", "mpckmeans", {"w": v}, v >= 0))
            if isinstance(v, int):
                out.append(("ctor", "kmeans", {"max_iteration": v}, v >= 1))
                out.append(("ctor", "mpckmeans", {"max_iteration": v}, v >= 1))
                out.append(("ctor", "affinity_propagation", {"max_iteration": v}, v >= 1))
                out.append(("ctor", "affinity_propagation", {"convergence_iteration": v}, v >= 1))
                out.append(("ctor", "dbscan", {"min_samples": v}, v >= 1))
                out.append(("ctor", "spectral", {"nb_components": v}, v >= 2))
                for a in ("kmeans", "hierarchical", "spectral", "mpckmeans"):
                    out.append(("cluster", a, {"nb": v}, v >= 2))
                for a in ("affinity_propagation", "dbscan"):
                    out.append(("cluster", a, {"nb": v}, False))
        out.append(("ctor", "spectral", {"nb_components": None}, True))
        out.append(("ctor", "sampling", {}, True))
        for b in (True, False, None, 0, 1, "True"):
            for n in ("without_added_constraints", "without_inferred_constraints"):
                out.append(("ctor", "sampling", {n: b}, isinstance(b, bool)))
        for a in A:
            out.append(("ctor", a, {}, True))
            for bad in ("none", "dict", "list", "object", "str"):
                out.append(("cluster", a, {"manager": bad}, False))
                if bad != "dict":
                    out.append(("cluster", a, {"vectors": bad}, False))
            out.append(("cluster", a, {"nb": None}, a in ("affinity_propagation", "dbscan")))
        for bad in ("none", "dict", "list", "object", "str"):
            out.append(("sample", "manager", bad, False))
        for v in (-3, -1, 1.5, 0.0, 2.0, "2", None):
            out.append(("sample", "nb", v, False))
        for v in (0, 1, 5):
            out.append(("sample", "nb", v, True))
        for cr in (None, "same_cluster", "different_clusters"):
            for dr in (None, "closest_neighbors", "farthest_neighbors"):
                for lab in (None, "list", "ok"):
                    for vec in (None, "list", "ok"):
                        out.append(("sample", "args", [cr, dr, lab, vec], (cr is None or lab == "ok") and (dr is None or vec == "ok")))
        # every setting must be judged on its own value, whatever the others are
        full = dict(kmeans={"model": "COP", "max_iteration": 3, "tolerance": 0.1, "random_seed": 1}, mpckmeans={"model": "MPC", "max_iteration": 3, "w": 0.5, "random_seed": 1},
                    spectral={"model": "SPEC", "nb_components": 3, "random_seed": 1}, hierarchical={"linkage": "single", "random_seed": 1},
                    dbscan={"eps": 0.1, "min_samples": 2, "random_seed": 1}, affinity_propagation={"max_iteration": 9, "convergence_iteration": 3, "random_seed": 1, "absolute_must_links": False},
                    sampling={"clusters_restriction": "same_cluster", "distance_restriction": "closest_neighbors", "random_seed": 1})
        for k, n, kw, ok in list(out):
            if k == "ctor" and n in full:
                out.append((k, n, dict(full[n], **kw), ok))
        return [{"t": list(x)} for x in out]

    def one(self, rng):
        """random settings judged independently"""
        a = rng.choice(["kmeans", "dbscan", "mpckmeans", "affinity_propagation", "spectral", "sampling"])
        n = lambda: rng.choice([-2, -1, 0, 1, 2, 7])
        f = lambda: rng.choice([-1.0, -1e-6, 0.0, 1e-6, 1.0, 5.0])
        if a == "kmeans":
            kw = {"max_iteration": n(), "tolerance": f()}
            ok = kw["max_iteration"] >= 1 and kw["tolerance"] >= 0
        elif a == "dbscan":
            kw = {"eps": f(), "min_samples": n()}
            ok = kw["eps"] > 0 and kw["min_samples"] >= 1
        elif a == "mpckmeans":
            kw = {"max_iteration": n(), "w": f()}
            ok = kw["max_iteration"] >= 1 and kw["w"] >= 0
        elif a == "affinity_propagation":
            kw = {"max_iteration": n(), "convergence_iteration": n()}
            ok = kw["max_iteration"] >= 1 and kw["convergence_iteration"] >= 1
        elif a == "spectral":
            kw = {"nb_components": n()}
            ok = kw["nb_components"] >= 2
        else:
            kw = {"clusters_restriction": rng.choice([None, "same_cluster", "different_clusters", "x"]), "distance_restriction": rng.choice([None, "closest_neighbors", "farthest_neighbors", "x"])}
            ok = "x" not in kw.values()
        if rng.random() < 0.5:
            kw["random_seed"] = rng.randint(0, 3)
        if rng.random() < 0.4:
            al = rng.choice(["kmeans", "hierarchical", "spectral", "affinity_propagation", "dbscan", "mpckmeans"])
            return {"t": ["clusterok", al, clustering_case(rng, al, 3 if al in ("spectral", "mpckmeans") else 1, 8), True]}
        return {"t": ["ctor", a, kw, ok]}

    def nontrivial(self, case):
        return not case["t"][3]

    def check(self, case):
        k, n, a, ok = case["t"]
        junk = {"none": None, "dict": {}, "list": [], "object": object(), "str": "x"}
        if k == "ctor":
            if n == "sampling":
                from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling as S
                r = call(S, **a)
            else:
                r = call(make_algo, {"algo": n, "kw": a})
        elif k == "cfactory":
            from cognitivefactory.interactive_clustering.clustering.factory import clustering_factory
            r = call(clustering_factory, n)
        elif k == "sfactory":
            from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory
            r = call(sampling_factory, n)
        elif k == "mfactory":
            from cognitivefactory.interactive_clustering.constraints.factory import managing_factory
            r = call(managing_factory, ["a", "b"], n)
        elif k == "cluster":
            c = {"algo": n, "kw": {"random_seed": 1}, "nb": 2 if n in ("kmeans", "hierarchical", "spectral", "mpckmeans") else None, "hist": {"ids": ["a", "b", "c", "d"], "ops": []},
                 "vectors": {"a": [0.0, 1.0], "b": [0.1, 1.0], "c": [5.0, 2.0], "d": [5.0, 2.5]}}
            if "nb" in a:
                c["nb"] = a["nb"]
            m = junk[a["manager"]] if "manager" in a else build(c["hist"])
            v = junk[a["vectors"]] if "vectors" in a else mkvec(c["vectors"])
            with contextlib.redirect_stdout(io.StringIO()):
                r = call(make_algo(c).cluster, constraints_manager=m, vectors=v, nb_clusters=c["nb"])
        elif k == "clusterok":
            r = run_cluster(a)
        else:
            from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling as S
            m = build({"ids": ["a", "b", "c"], "ops": []})
            lab, vec = {"a": 0, "b": 0, "c": 1}, mkvec({"a": [0.0], "b": [1.0], "c": [3.0]})
            if n == "manager":
                r = call(S().sample, constraints_manager=junk[a], nb_to_select=1)
            elif n == "nb":
                r = call(S().sample, constraints_manager=m, nb_to_select=a)
                if a == 0 and isinstance(a, int) and r != ("ok", []):
                    return f"0 pairs asked: {r}"
            else:
                cr, dr, l, v = a
                pick = lambda x, good: None if x is None else ([] if x == "list" else good)
                r = call(S(clusters_restriction=cr, distance_restriction=dr).sample, constraints_manager=m, nb_to_select=2, clustering_result=pick(l, lab), vectors=pick(v, vec))
        if ok and r[0] == "raise" and r[1] == "ValueError":
            return f"valid {case['t'][:3]} raises {r[:3]}"
        if not ok and (r[0] == "ok" or r[1] != "ValueError"):
            return f"invalid {case['t'][:3]} should raise ValueError, gives {r[0] if r[0] == 'ok' else r[:3]}"


def disturb(k):
    import numpy as np
    random.seed(k)
    np.random.seed(k % 1000)
    for _ in range(k % 7):
        random.random()
        np.random.rand()


@oracle("C19")
class C19:
    ALGOS = ("kmeans", "hierarchical", "spectral", "affinity_propagation", "dbscan", "mpckmeans", "kmeans", "mpckmeans", "sample", "sample")

    def cases(self, rng):
        while True:
            a = rng.choice(self.ALGOS)
            mk = (lambda: sampling_case(rng)) if a == "sample" else (lambda: clustering_case(rng, a, 2, 9))
            c1, c2 = mk(), mk()
            if rng.random() < 0.4:
                # same data, other constraints or number: leftovers of the earlier call are most visible there
                c2 = json.loads(json.dumps(c1))
                if rng.random() < 0.5 and c2["nb"]:
                    c2["nb"] = c2["nb"] + 1
                else:
                    c2["hist"]["ops"] = c2["hist"]["ops"][: len(c2["hist"]["ops"]) // 2]
                    if a == "sample" or any(o[0] in ("add_d", "del_d") for o in c1["hist"]["ops"]):
                        c2 = mk()
            c2["kw"] = dict(c1["kw"])
            yield {"a": a, "c1": c1, "c2": c2, "k": rng.randint(0, 99)}

    def exhaustive(self):
        return ()

    def nontrivial(self, case):
        return len(case["c1"]["vectors"]) > 2

    def check(self, case):
        a, c1, c2, k = case["a"], case["c1"], case["c2"], case["k"]
        if a == "sample":
            from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
            new = lambda: ClustersBasedConstraintsSampling(**c1["kw"])
            run = lambda c, o: run_sample(c, sampler=o)
        else:
            new = lambda: make_algo(c1)
            run = lambda c, o: run_cluster(c, obj=o)[:2]
        disturb(k)
        r1 = run(c1, new())
        disturb(k + 13)
        r2 = run(c1, new())
        if r1 != r2:
            return f"two fresh {a} runs differ: {r1} / {r2}"
        o = new()
        run(c2, o)
        disturb(k + 31)
        r3 = run(c1, o)
        if r1 != r3:
            return f"{a} after an earlier call with the same object: {r3}, fresh: {r1}"
        r4 = run(c1, o)
        if r1 != r4:
            return f"{a} repeated with the same object: {r4}, first: {r1}"


@oracle("C20")
class C20(C15):
    def check(self, case):
        from cognitivefactory.interactive_clustering.utils.frequency import compute_clusters_frequency
        c = dict(case["clusters"])
        r = call(compute_clusters_frequency, c)
        if r[0] != "ok":
            return f"raises {r}"
        vals = list(c.values())
        want = [(l, vals.count(l) / len(vals)) for l in sorted(set(vals))]
        if list(r[1].items()) != want:
            return f"got {list(r[1].items())}, expected {want}"


# ---------------------------------------------------------------------------------------------------------------- text
WORDS = ["bonjour", "le", "chat", "carte", "perdue", "été", "Vol", "d'argent", "plafond!", "(code)", "12", "virement", "gérer", "  ", "mon", "de"]


def texts(rng):
    ids = rng.sample(IDS, rng.randint(1, 6))
    return {i: " ".join(rng.choice(WORDS[: rng.choice([4, 10, 16])]) for _ in range(rng.randint(1, 6))) for i in ids}


class FakeTok:
    def __init__(self, t):
        self.text, self.lemma_, self.is_space = t, "L" + t, False
        self.is_punct, self.is_quote, self.is_stop = False, False, t in ("le", "de", "mon")
        self.ancestors = [0] * (len(t) % 3)


class FakeDoc(list):
    vector = None


class FakeNlp:
    def __call__(self, text):
        import numpy as np
        d = FakeDoc(FakeTok(t) for t in str(text).split())
        d.vector = np.array([float(sum(map(ord, str(text)))), float(len(str(text))), float(ord(str(text)[0]) if text else 0)])
        d.text = str(text)
        return d

    def pipe(self, it, **k):
        for t in it:
            yield self(t)


@contextlib.contextmanager
def fake_spacy():
    import spacy
    old = spacy.load

    def load(name, **k):
        if name == "not-installed":
            raise OSError("no model " + name)
        return FakeNlp()
    spacy.load = load
    try:
        yield
    finally:
        spacy.load = old


@oracle("C21")
class C21:
    def cases(self, rng):
        while True:
            yield {"kind": rng.choice(["pre", "pre", "tfidf", "spacy"]), "texts": texts(rng), "flags": [rng.random() < 0.5 for _ in range(3)], "perm": rng.randint(0, 999)}

    def exhaustive(self):
        return [{"kind": "err", "n": n} for n in ("", "TFIDF", "spacy2", "tfidf ", "word2vec")] + [{"kind": "err2"}]

    def nontrivial(self, case):
        return len(case.get("texts", ())) > 1

    def check(self, case):
        from cognitivefactory.interactive_clustering.utils.preprocessing import preprocess
        from cognitivefactory.interactive_clustering.utils.vectorization import vectorize
        k = case["kind"]
        if k == "err":
            r = call(vectorize, {"a": "x y", "b": "x y"}, case["n"])
            return None if r[:2] == ("raise", "ValueError") else f"unknown vectorizer gives {r}"
        if k == "err2":
            with fake_spacy():
                for f in (lambda: preprocess({"a": "x"}, spacy_language_model="not-installed"), lambda: vectorize({"a": "x"}, "spacy", spacy_language_model="not-installed")):
                    r = call(f)
                    if r[:2] != ("raise", "ValueError"):
                        return f"uninstalled model gives {r}"
            return None
        t = dict(case["texts"])
        order = list(t)
        random.Random(case["perm"]).shuffle(order)
        tp = {i: t[i] for i in order}
        f = case["flags"]
        if k == "pre":
            with fake_spacy():
                run = lambda d: call(preprocess, d, f[0], f[1], f[2])
                r, rp, single = run(t), run(tp), {i: run({i: t[i]}) for i in t}
            if r[0] != "ok" or rp[0] != "ok":
                return f"raises {r}"
            if list(r[1]) != list(t):
                return f"IDs {list(r[1])}, expected {list(t)}"
            for i in t:
                if single[i] != ("ok", {i: r[1][i]}):
                    return f"text of {i!r} depends on the other texts: {r[1][i]!r} / {single[i]}"
                if r[1][i] != rp[1][i]:
                    return f"text of {i!r} depends on the order of the texts"
            # different texts stay different where the model does not drop anything
            return None
        arr = lambda v: v.toarray().tolist() if hasattr(v, "toarray") else v
        if k == "spacy":
            with fake_spacy():
                r = call(vectorize, t, "spacy")
            if r[0] != "ok":
                return f"raises {r}"
            if list(r[1]) != list(t):
                return f"IDs {list(r[1])}, expected {list(t)}"
            for i in t:
                if arr(r[1][i]) != [FakeNlp()(t[i]).vector.tolist()]:
                    return f"vector of {i!r} is not computed from its own text"
            return None
        t = dict(t, **{"p1": "chat carte", "p2": "carte chat perdue", "p3": "chat carte perdue"})
        tp = {i: t[i] for i in sorted(t, key=lambda i: (order + ["p3", "p1", "p2"]).index(i))}
        from sklearn.feature_extraction.text import TfidfVectorizer
        rec = []
        old = TfidfVectorizer.fit_transform

        def spy(self, docs, y=None):
            docs = list(docs)
            m = old(self, docs)
            rec.append((docs, m))
            return m
        TfidfVectorizer.fit_transform = spy
        try:
            r = call(vectorize, t, "tfidf")
        finally:
            TfidfVectorizer.fit_transform = old
        rp = call(vectorize, tp, "tfidf")
        if r[0] != "ok" or rp[0] != "ok":
            return f"raises {r if r[0] != 'ok' else rp}"
        if list(r[1]) != list(t):
            return f"IDs {list(r[1])}, expected {list(t)}"
        import numpy as np
        for i in t:
            if len(rec) == 1 and len(set(rec[0][0])) > 0 and str(t[i]) in rec[0][0]:
                row = rec[0][0].index(str(t[i]))
                if not np.allclose(r[1][i].toarray(), rec[0][1][row].toarray()):
                    return f"vector of {i!r} is not that of its own text"
            if not np.allclose(r[1][i].toarray(), rp[1][i].toarray()):
                return f"vector of {i!r} depends on the order of the texts"
            for j in t:
                if t[i] == t[j] and not np.allclose(r[1][i].toarray(), r[1][j].toarray()):
                    return f"equal texts {i!r}, {j!r} have different vectors"


@oracle("C22")
class C22(Clustering):
    algos = ("spectral",)
    nmin = 2

    def check(self, case):
        import numpy as np
        from sklearn.cluster import SpectralClustering
        from sklearn.metrics import pairwise_kernels
        rec = []
        old = SpectralClustering.fit

        def spy(self, X, y=None):
            rec.append((np.array(X.toarray() if hasattr(X, "toarray") else X, dtype=float), self.n_clusters))
            r = old(self, X)
            rec[-1] += (list(map(int, self.labels_)),)
            return r
        SpectralClustering.fit = spy
        m = build(case["hist"])
        try:
            r = run_cluster(case, m)
        finally:
            SpectralClustering.fit = old
        ids = m.get_list_of_managed_data_IDs()
        base = pairwise_kernels(np.array([case["vectors"][i] for i in ids]), metric="rbf")
        want = base.copy()
        for p, a in enumerate(ids):
            for q, b in enumerate(ids):
                t = m.get_inferred_constraint(a, b)
                if t == "MUST_LINK":
                    want[p, q] = 1.0
                elif t == "CANNOT_LINK":
                    want[p, q] = 0.0
        if not rec:
            return f"the spectral solver was not called: {r[:3]}" if r[0] != "ok" else "skip"
        X = rec[0][0]
        if X.shape != want.shape:
            return f"matrix of shape {X.shape} for {len(ids)} data"
        if not np.array_equal(X, X.T) and not np.allclose(X, X.T):
            return "the matrix is not symmetric"
        if not np.allclose(X, want, atol=1e-9):
            p, q = np.argwhere(~np.isclose(X, want, atol=1e-9))[0]
            return f"similarity of {(ids[p], ids[q])} is {X[p, q]}, expected {want[p, q]} ({m.get_inferred_constraint(ids[p], ids[q])})"
        if r[0] != "ok":
            return "skip" if len(rec[0]) < 3 else f"clustering raises {r[:3]} after the solver"
        c, lab = r[1], rec[0][2]
        for p, a in enumerate(ids):
            for q, b in enumerate(ids):
                if (c[a] == c[b]) != (lab[p] == lab[q]):
                    return f"labels of {(a, b)} are {c[a]}, {c[b]}; the solver gave {lab[p]}, {lab[q]}"


@oracle("C23")
class C23(Clustering):
    algos = ("hierarchical",)
    nmin = 1

    def check(self, case):
        r = run_cluster(case)
        if r[0] != "ok":
            return f"clustering raises {r[:3]}"
        o, m = r[2], r[3]
        ids = m.get_list_of_managed_data_IDs()
        root = o.clustering_root
        if root is None:
            return "no tree"
        comps = sorted(sorted(c) for c in m.get_connected_components())
        seen, leaves, err = [], [], []

        def go(n, d, top):
            seen.append(n.cluster_ID)
            if len(set(n.members)) != len(n.members):
                err.append(f"node {n.cluster_ID} has repeated members {n.members}")
            if d.get("cluster_ID") != n.cluster_ID or sorted(d.get("members", ())) != sorted(n.members) or len(d.get("children", ())) != len(n.children):
                err.append(f"to_dict of node {n.cluster_ID} disagrees with the node")
                return
            if not top:
                for a, b in pairs(n.members):
                    if m.get_inferred_constraint(a, b) == "CANNOT_LINK":
                        err.append(f"inner node {n.cluster_ID} holds the CANNOT_LINK pair {(a, b)}")
            if n.children:
                if sorted(x for c in n.children for x in c.members) != sorted(n.members):
                    err.append(f"members of node {n.cluster_ID} are not those of its children")
                for c, dc in zip(n.children, d["children"]):
                    go(c, dc, False)
            else:
                leaves.append(sorted(n.members))
        go(root, root.to_dict(), True)
        if sorted(root.members) != sorted(ids):
            return f"root holds {sorted(root.members)}, managed {sorted(ids)}"
        if len(set(seen)) != len(seen):
            return f"node IDs repeat: {seen}"
        if sorted(leaves) != comps:
            return f"leaves {sorted(leaves)}, components {comps}"
        return err[0] if err else None


@oracle("C25")
class C25:
    ALGOS = ("kmeans", "hierarchical", "spectral", "affinity_propagation", "dbscan", "mpckmeans", "sample")

    def cases(self, rng):
        while True:
            a = rng.choice(self.ALGOS)
            c = sampling_case(rng, rng.choice(["closest_neighbors", "farthest_neighbors"])) if a == "sample" else clustering_case(rng, a, 2, 8)
            order = list(c["vectors"])
            rng.shuffle(order)
            d = len(next(iter(c["vectors"].values())))
            yield {"a": a, "c": c, "order": order, "extra": {f"extra{k}": [round(rng.uniform(-9, 9), 2) for _ in range(d)] for k in range(rng.randint(0, 3))}, "first": rng.random() < 0.5}

    def exhaustive(self):
        return ()

    def nontrivial(self, case):
        return list(case["c"]["vectors"]) != case["order"] or bool(case["extra"])

    def check(self, case):
        c = case["c"]
        v0 = c["vectors"]
        v1 = {k: v0[k] for k in case["order"]}
        v2 = dict(case["extra"], **v1) if case["first"] else dict(v1, **case["extra"])
        # vectors listed in the order of the managed data
        m = build(c["hist"])
        v3 = {k: v0[k] for k in m.get_list_of_managed_data_IDs() if k in v0}
        run = (lambda v: run_sample(c, vec=mkvec(v))) if case["a"] == "sample" else (lambda v: run_cluster(c, vec=mkvec(v))[:2])
        disturb(1)
        r3 = run(v3)
        for name, v in (("given order", v0), ("another order", v1), ("extra vectors", v2)):
            r = run(v)
            if r != r3:
                return f"{case['a']}: vectors in {name} give {r}, in managed order {r3}"


@oracle("C26")
class C26:
    def cases(self, rng):
        while True:
            yield self.one(rng)

    def exhaustive(self):
        return [{"f": "m", "n": n, "kw": {}} for n in NAMES] + [{"f": "c", "n": n, "kw": {}} for n in NAMES] + [{"f": "s", "n": n, "kw": {}} for n in NAMES]

    def nontrivial(self, case):
        return bool(case["kw"])

    def one(self, rng):
        a = rng.choice(["kmeans", "hierarchical", "spectral", "affinity_propagation", "dbscan", "mpckmeans", "s", "s", "m"])
        if a == "s":
            kw = {"random_seed": rng.randint(0, 9), "without_added_constraints": rng.random() < 0.5, "without_inferred_constraints": rng.random() < 0.5}
            kw = {k: v for k, v in kw.items() if rng.random() < 0.6}
            n = rng.choice(["random", "random_in_same_cluster", "farthest_in_same_cluster", "closest_in_different_clusters"])
            if n in ("random", "random_in_same_cluster") and rng.random() < 0.4:
                kw["distance_restriction"] = rng.choice([None, "closest_neighbors", "farthest_neighbors"])
            if n == "random" and rng.random() < 0.4:
                kw["clusters_restriction"] = rng.choice([None, "same_cluster", "different_clusters"])
            return {"f": "s", "n": n, "kw": kw}
        if a == "m":
            return {"f": "m", "n": "binary", "kw": {}, "ids": rng.sample(IDS, rng.randint(0, 5))}
        kw = clustering_case(rng, a, 2, 3)["kw"]
        if rng.random() < 0.5:
            kw = {k: v for k, v in kw.items() if rng.random() < 0.6}
        if a == "kmeans" and rng.random() < 0.3:
            kw["model"] = "COP"
        return {"f": "c", "n": a, "kw": kw}

    def check(self, case):
        import inspect
        n, kw = case["n"], case["kw"]
        if case["f"] == "m":
            from cognitivefactory.interactive_clustering.constraints.factory import managing_factory
            from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
            ids = case.get("ids", ["a", "b"])
            r = call(managing_factory, list(ids), n)
            if n != "binary":
                return None if r[:2] == ("raise", "ValueError") else f"unknown manager {n!r} gives {r}"
            if r[0] != "ok" or type(r[1]) is not BinaryConstraintsManager:
                return f"binary manager: {r}"
            d = call(managing_factory, list(ids))
            if d[0] != "ok" or type(d[1]) is not BinaryConstraintsManager:
                return f"default manager: {d}"
            return diff("managed IDs", r[1].get_list_of_managed_data_IDs(), ids)
        if case["f"] == "c":
            from cognitivefactory.interactive_clustering.clustering.factory import clustering_factory
            A = ("kmeans", "hierarchical", "spectral", "affinity_propagation", "dbscan", "mpckmeans")
            r = call(clustering_factory, n, **kw)
            if n not in A:
                return None if r[:2] == ("raise", "ValueError") else f"unknown algorithm {n!r} gives {r}"
            if r[0] != "ok":
                return f"{n}: {r}"
            ref = make_algo({"algo": n, "kw": kw})
        else:
            from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory
            from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling as S
            R = {"random": {}, "random_in_same_cluster": {"clusters_restriction": "same_cluster"},
                 "farthest_in_same_cluster": {"clusters_restriction": "same_cluster", "distance_restriction": "farthest_neighbors"},
                 "closest_in_different_clusters": {"clusters_restriction": "different_clusters", "distance_restriction": "closest_neighbors"}}
            r = call(sampling_factory, n, **kw)
            if n not in R:
                return None if r[:2] == ("raise", "ValueError") else f"unknown sampler {n!r} gives {r}"
            if r[0] != "ok":
                return f"{n}: {r}"
            ref = S(**dict(kw, **R[n]))
        o = r[1]
        if type(o) is not type(ref):
            return f"{n}: {type(o).__name__} instead of {type(ref).__name__}"
        so = {k: v for k, v in vars(o).items() if not callable(v)}
        sr = {k: v for k, v in vars(ref).items() if not callable(v)}
        for k in sorted(set(so) | set(sr)):
            if so.get(k, "<absent>") != sr.get(k, "<absent>"):
                return f"{n}: setting {k} is {so.get(k, '<absent>')!r}, expected {sr.get(k, '<absent>')!r}"
        # the given settings themselves, and the names of the samplers
        for k, v in list(kw.items()) + list((R[n] if case["f"] == "s" else {}).items()):
            if hasattr(o, k) and getattr(o, k) != v:
                return f"{n}: {k} is {getattr(o, k)!r}, given {v!r}"
