"""Case generation and an independent reference for the run-time oracles.  Cases are plain JSON values."""
import itertools
import random

IDS = ["10", "9", "a", "B", "é", "NONE", "0", "-1", "zz top", "aa", "b", "11", "A1", "MUST_LINK", "x", "y"]


class Ref:
    """added constraints and their closure, computed naively"""

    def __init__(self, ids):
        self.ids, self.added = [], {}
        for i in ids:
            if i not in self.ids:
                self.ids.append(i)

    def copy(self):
        r = Ref(self.ids)
        r.added = dict(self.added)
        return r

    def groups(self):
        g = {i: {i} for i in self.ids}
        for (a, b), t in self.added.items():
            if t == "MUST_LINK" and g[a] is not g[b]:
                u = g[a] | g[b]
                for k in u:
                    g[k] = u
        return g

    def closure(self):
        g = self.groups()
        out = {}
        for a in self.ids:
            for b in self.ids:
                out[a, b] = "MUST_LINK" if b in g[a] else None
        for (a, b), t in self.added.items():
            if t == "CANNOT_LINK":
                for p in g[a]:
                    for q in g[b]:
                        out[p, q] = out[q, p] = "CANNOT_LINK"
        return out

    def key(self, a, b):
        return (a, b) if a <= b else (b, a)

    def valid(self, op):
        k = op[0]
        if k == "add_d":
            return op[1] not in self.ids
        if k == "del_d":
            return op[1] in self.ids
        if op[1] not in self.ids or op[2] not in self.ids:
            return False
        if k == "del_c":
            return True
        if op[3] not in ("MUST_LINK", "CANNOT_LINK"):
            return False
        cur = self.closure()[op[1], op[2]]
        return cur is None or cur == op[3]

    def apply(self, op):
        """returns True if accepted"""
        if not self.valid(op):
            return False
        k = op[0]
        if k == "add_d":
            self.ids.append(op[1])
        elif k == "del_d":
            self.ids.remove(op[1])
            self.added = {p: t for p, t in self.added.items() if op[1] not in p}
        elif k == "add_c":
            if op[1] != op[2]:
                self.added.setdefault(self.key(op[1], op[2]), op[3])
        elif k == "del_c":
            self.added.pop(self.key(op[1], op[2]), None)
        return True


def run_op(m, op):
    k = op[0]
    if k == "add_d":
        return m.add_data_ID(op[1])
    if k == "del_d":
        return m.delete_data_ID(op[1])
    if k == "del_c":
        return m.delete_constraint(op[1], op[2])
    return m.add_constraint(op[1], op[2], op[3])


def build(case):
    from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
    m = BinaryConstraintsManager(list_of_data_IDs=list(case["ids"]))
    for op in case["ops"]:
        try:
            run_op(m, op)
        except ValueError:
            pass
    return m


def history(rng, nmin=1, nmax=7, length=12, keep=False, bad=0.1, pool=None):
    pool = pool or IDS
    n = rng.randint(nmin, min(nmax, len(pool)))
    ids = rng.sample(pool, n)
    ref = Ref(ids)
    ops = []
    bias = rng.choice([0.3, 0.5, 0.7, 0.85])
    for _ in range(rng.randint(0, length)):
        r = rng.random()
        cur = ref.ids
        anyid = lambda: rng.choice(pool) if not cur or rng.random() < bad else rng.choice(cur)
        if r < 0.72 or (keep and r < 0.9):
            t = "MUST_LINK" if rng.random() < bias else "CANNOT_LINK"
            if rng.random() < bad * 0.5:
                t = rng.choice(["must_link", "", "NONE", "CANNOT_LINKS"])
            op = ["add_c", anyid(), anyid(), t]
        elif r < 0.84 or keep:
            if ref.added and rng.random() < 0.7:
                a, b = rng.choice(sorted(ref.added))
                op = ["del_c", a, b] if rng.random() < 0.5 else ["del_c", b, a]
            else:
                op = ["del_c", anyid(), anyid()]
        elif r < 0.92:
            op = ["del_d", anyid()]
        else:
            op = ["add_d", rng.choice(pool)]
        ref.apply(op)
        ops.append(op)
    return {"ids": ids, "ops": ops}


def small_histories():
    """all histories of up to 4 constraint operations over three IDs"""
    ids = ["b", "a", "c"]
    pairs = [("a", "b"), ("c", "a"), ("b", "c")]
    alph = [["add_c", p, q, t] for p, q in pairs for t in ("MUST_LINK", "CANNOT_LINK")] + [["del_c", q, p] for p, q in pairs] + [["del_d", "b"], ["add_d", "b"]]
    for k in range(5):
        for ops in itertools.product(alph, repeat=k):
            yield {"ids": ids, "ops": [list(o) for o in ops]}


def vectors(rng, ids, dim=None):
    dim = dim or rng.randint(1, 3)
    mode = rng.random()
    if mode < 0.3:
        f = lambda: float(rng.choice([0, 1, 2]))
    elif mode < 0.4:
        f = lambda: 0.0
    elif mode < 0.7:
        f = lambda: rng.choice([0.0, 0.1, 0.2, 3.0, 3.1]) + rng.random() * 0.05
    else:
        f = lambda: round(rng.uniform(-1, 1), 3)
    v = {i: [f() for _ in range(dim)] for i in ids}
    if mode >= 0.95:  # mutually equidistant data
        v = {i: [1.0 if k == j else 0.0 for k in range(len(ids))] for j, i in enumerate(ids)}
    return v


def mkvec(v):
    from scipy.sparse import csr_matrix
    return {k: csr_matrix([x]) for k, x in v.items()}


def clustering_case(rng, algo, nmin=1, nmax=9):
    while True:
        h = history(rng, nmin=nmin, nmax=nmax, length=rng.choice([0, 3, 8, 16]), keep=rng.random() < 0.7, bad=0.0)
        r = Ref(h["ids"])
        for op in h["ops"]:
            r.apply(op)
        ids = r.ids
        if len(ids) >= nmin:
            break
    v = vectors(rng, ids)
    order = list(ids)
    rng.shuffle(order)
    if rng.random() < 0.5:
        v = {k: v[k] for k in order}
    kw, nb = {"random_seed": rng.randint(0, 5)}, None
    if algo in ("kmeans", "hierarchical", "spectral", "mpckmeans"):
        nb = rng.randint(2, 6)
    if algo == "kmeans":
        kw.update(max_iteration=rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 40]), tolerance=rng.choice([0.0, 1e-4, 0.5, 100.0]))
    elif algo == "hierarchical":
        kw.update(linkage=rng.choice(["ward", "average", "complete", "single"]))
    elif algo == "dbscan":
        kw.update(eps=rng.choice([0.02, 0.1, 0.3, 0.5, 1.0, 1.5, 3.5]), min_samples=rng.randint(1, 4))
    elif algo == "affinity_propagation":
        kw.update(max_iteration=rng.choice([1, 2, 11, 50, 150]), convergence_iteration=rng.choice([1, 5, 10]))
        if rng.random() < 0.3:
            kw["absolute_must_links"] = rng.random() < 0.5
    elif algo == "spectral":
        if rng.random() < 0.5:
            kw["nb_components"] = rng.randint(2, 5)
    elif algo == "mpckmeans":
        kw.update(max_iteration=rng.choice([1, 2, 10]), w=rng.choice([0.0, 0.5, 1.0]))
    return {"algo": algo, "hist": h, "vectors": v, "kw": kw, "nb": nb}


def make_algo(case):
    import warnings
    warnings.simplefilter("ignore")
    from cognitivefactory.interactive_clustering.clustering.kmeans import KMeansConstrainedClustering
    from cognitivefactory.interactive_clustering.clustering.hierarchical import HierarchicalConstrainedClustering
    from cognitivefactory.interactive_clustering.clustering.spectral import SpectralConstrainedClustering
    from cognitivefactory.interactive_clustering.clustering.affinity_propagation import AffinityPropagationConstrainedClustering
    from cognitivefactory.interactive_clustering.clustering.dbscan import DBScanConstrainedClustering
    from cognitivefactory.interactive_clustering.clustering.mpckmeans import MPCKMeansConstrainedClustering
    c = dict(kmeans=KMeansConstrainedClustering, hierarchical=HierarchicalConstrainedClustering, spectral=SpectralConstrainedClustering,
             affinity_propagation=AffinityPropagationConstrainedClustering, dbscan=DBScanConstrainedClustering, mpckmeans=MPCKMeansConstrainedClustering)[case["algo"]]
    return c(**case["kw"])


def sampling_case(rng, distance=None):
    while True:
        h = history(rng, nmin=1, nmax=7, length=rng.choice([0, 4, 10]), keep=False, bad=0.0)
        r = Ref(h["ids"])
        for op in h["ops"]:
            r.apply(op)
        ids = r.ids
        if ids:
            break
    labels = {i: rng.randint(-1, 2) for i in ids}
    v = vectors(rng, ids)
    kw = {"random_seed": rng.randint(0, 4), "clusters_restriction": rng.choice([None, "same_cluster", "different_clusters"]),
          "distance_restriction": distance if distance is not None else rng.choice([None, None, "closest_neighbors", "farthest_neighbors"])}
    if rng.random() < 0.6:
        kw["without_added_constraints"] = rng.random() < 0.5
        kw["without_inferred_constraints"] = rng.random() < 0.5
    return {"hist": h, "labels": labels, "vectors": v, "kw": kw, "nb": rng.choice([0, 1, 2, 3, 5, 9, 100])}
