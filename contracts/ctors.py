"""Constructors (settings accepted and stored, or ValueError) and factories (the class asked for, with the options given)."""
import z3
from pyvc.values import *
from pyvc.execu import *
from pyvc.expr import NewObj
from pyvc.theory import TypeMismatch
from pyvc.contract import Contract

SEED = Opt(INT)
P = "clustering."
IS_BOOL = lambda t: z3.Function("isinstance_bool", OpqS, z3.BoolSort())(t)
one_of = lambda t, *ns: z3.Or([t == lit(n) for n in ns])
opt_one_of = lambda t, *ns: z3.Or([is_none(Opt(STR), t)] + [t == some_of(Opt(STR), lit(n)) for n in ns])


def ident(ex, a, b):
    """the same value (opaque values: the same object)"""
    try:
        return ex.coerce_t(a, b.ty) == b.t
    except (TypeMismatch, Unsupported):
        return FALSE


class Ctor(Contract):
    """tys: parameter -> type; ok: parameters -> formula; the settings are stored under the names of `stored`"""
    props = ("C18",)
    tys = {}

    def setup(self, ex, fi):
        ex.st.objs["self"] = {}
        env = {fi.params[0]: ObjR("self", fi.cls)}
        self.p = {}
        for n in fi.params[1:]:
            if n not in self.tys:
                raise Unsupported("parameter " + n)
            self.p[n] = z3.Const("arg_" + n, sort(self.tys[n]))
            env[n] = V(self.tys[n], self.p[n])
        if fi.node.args.kwarg is not None:
            env[fi.node.args.kwarg.arg] = Kw({}, V(OPQ, z3.Const("kw_rest", OpqS)))
        return env

    def ok(self, p):
        return TRUE

    def post(self, ex, out):
        good = self.ok(self.p)
        if out.kind == "raise":
            if out.val.name != "ValueError":
                ex.obligation("raises only ValueError", FALSE, self.props)
            else:
                ex.obligation("raises ValueError only for an invalid setting", z3.Not(good), self.props)
            return
        ex.obligation("an invalid setting raises ValueError", good, self.props)
        fs = ex.st.objs["self"]
        for n in self.tys:
            ex.obligation("the setting is stored: " + n, ident(ex, fs[n], V(self.tys[n], self.p[n])) if n in fs else FALSE, self.props)


class KMeansInit(Ctor):
    qual = P + "kmeans:KMeansConstrainedClustering.__init__"
    tys = {"model": STR, "max_iteration": INT, "tolerance": REAL, "random_seed": SEED}
    ok = lambda s, p: z3.And(one_of(p["model"], "COP"), p["max_iteration"] >= 1, p["tolerance"] >= 0)


class HierarchicalInit(Ctor):
    qual = P + "hierarchical:HierarchicalConstrainedClustering.__init__"
    tys = {"linkage": STR, "random_seed": SEED}
    ok = lambda s, p: one_of(p["linkage"], "ward", "average", "complete", "single")


class SpectralInit(Ctor):
    qual = P + "spectral:SpectralConstrainedClustering.__init__"
    tys = {"model": STR, "nb_components": Opt(INT), "random_seed": SEED}
    ok = lambda s, p: z3.And(one_of(p["model"], "SPEC"), z3.Or(is_none(Opt(INT), p["nb_components"]), opt_val(Opt(INT), p["nb_components"]) >= 2))


class APInit(Ctor):
    qual = P + "affinity_propagation:AffinityPropagationConstrainedClustering.__init__"
    tys = {"max_iteration": INT, "convergence_iteration": INT, "random_seed": SEED, "absolute_must_links": BOOL}
    ok = lambda s, p: z3.And(p["max_iteration"] >= 1, p["convergence_iteration"] >= 1)


class DBSCANInit(Ctor):
    qual = P + "dbscan:DBScanConstrainedClustering.__init__"
    tys = {"eps": REAL, "min_samples": INT, "random_seed": SEED}
    ok = lambda s, p: z3.And(p["eps"] > 0, p["min_samples"] > 0)


class MPCInit(Ctor):
    qual = P + "mpckmeans:MPCKMeansConstrainedClustering.__init__"
    tys = {"model": STR, "max_iteration": INT, "w": REAL, "random_seed": SEED}
    ok = lambda s, p: z3.And(one_of(p["model"], "MPC"), p["max_iteration"] >= 1, p["w"] >= 0)


class SamplerInit(Ctor):
    qual = "sampling.clusters_based:ClustersBasedConstraintsSampling.__init__"
    props = ("C18", "C10", "C11")
    tys = {"random_seed": SEED, "clusters_restriction": Opt(STR), "distance_restriction": Opt(STR), "without_added_constraints": OPQ, "without_inferred_constraints": OPQ}
    ok = lambda s, p: z3.And(opt_one_of(p["clusters_restriction"], "same_cluster", "different_clusters"), opt_one_of(p["distance_restriction"], "closest_neighbors", "farthest_neighbors"),
                             IS_BOOL(p["without_added_constraints"]), IS_BOOL(p["without_inferred_constraints"]))


class SamplerDefaults(Contract):
    """a sampler made without options filters annotated and inferable pairs and has no restriction"""
    qual = SamplerInit.qual
    props = ("C10",)

    def setup(self, ex, fi):
        ex.st.objs["self"] = {}
        me = ObjR("self", fi.cls)
        return ex.bind_params(fi, [me], {})

    def post(self, ex, out):
        if self.no_raise(ex, out):
            return
        fs = ex.st.objs["self"]
        for n, v in (("random_seed", NONEV), ("clusters_restriction", NONEV), ("distance_restriction", NONEV), ("without_added_constraints", V(BOOL, TRUE)), ("without_inferred_constraints", V(BOOL, TRUE))):
            ex.obligation("default: " + n, ex.eq(fs[n], v) if n in fs else FALSE)


# ------------------------------------------------------------------------------------------------------------- factories
class Factory(Contract):
    props = ("C26", "C18")
    table = {}          # name -> (class, fixed options)
    default = None
    name_pos = 0

    def setup(self, ex, fi):
        a = fi.node.args
        names = fi.params
        self.name = z3.Const("arg_name", StrS)
        self.ids = z3.Const("arg_ids", LT(STR).S)
        env = {}
        for k, n in enumerate(names):
            env[n] = V(STR, self.name) if k == self.name_pos else V(Lst(STR), self.ids)
        self.kr = z3.Const("kw_rest", OpqS)
        if a.kwarg is None:
            raise Unsupported("no **kargs")
        env[a.kwarg.arg] = Kw({}, V(OPQ, self.kr))
        if self.default is not None:
            d = ex.bind_params(fi, [V(Lst(STR), self.ids)] * self.name_pos, {})
            self.dflt = d[names[self.name_pos]]
        return env

    def want(self):
        return {}

    def post(self, ex, out):
        t = self.props
        good = one_of(self.name, *self.table)
        if self.default is not None:
            ex.obligation("the default is documented: " + self.default, ex.eq(self.dflt, V(STR, lit(self.default))), ("C26",))
        if out.kind == "raise":
            ex.obligation("raises only ValueError", z3.BoolVal(out.val.name == "ValueError"), t)
            ex.obligation("raises ValueError only for an unknown name", z3.Not(good), t)
            return
        ex.obligation("an unknown name raises ValueError", good, t)
        v = out.val
        for n, (cls, opts) in self.table.items():
            okc = isinstance(v, NewObj) and v.ci.name == cls
            ex.obligation("class made for " + n, z3.Implies(self.name == lit(n), z3.BoolVal(okc)), ("C26",))
            if not okc:
                continue
            exp = dict({k: V(STR, lit(w)) for k, w in opts.items()}, **self.want())
            init = ex.prog.method(v.ci, "__init__")
            same = set(v.kw) == set(exp) and v.rest is not None
            f = and_([ident(ex, v.kw[k], exp[k]) for k in exp] + [ident(ex, v.rest, V(OPQ, self.kr))]) if same else FALSE
            ex.obligation("options passed on for " + n, z3.Implies(self.name == lit(n), f), ("C26",))


class ClusteringFactory(Factory):
    qual = "clustering.factory:clustering_factory"
    default = "kmeans"
    table = {"affinity_propagation": ("AffinityPropagationConstrainedClustering", {}), "dbscan": ("DBScanConstrainedClustering", {}), "hierarchical": ("HierarchicalConstrainedClustering", {}),
             "kmeans": ("KMeansConstrainedClustering", {}), "mpckmeans": ("MPCKMeansConstrainedClustering", {}), "spectral": ("SpectralConstrainedClustering", {})}


class SamplingFactory(Factory):
    qual = "sampling.factory:sampling_factory"
    props = ("C26", "C18", "C10", "C11")
    table = {"random": ("ClustersBasedConstraintsSampling", {}), "random_in_same_cluster": ("ClustersBasedConstraintsSampling", {"clusters_restriction": "same_cluster"}),
             "farthest_in_same_cluster": ("ClustersBasedConstraintsSampling", {"clusters_restriction": "same_cluster", "distance_restriction": "farthest_neighbors"}),
             "closest_in_different_clusters": ("ClustersBasedConstraintsSampling", {"clusters_restriction": "different_clusters", "distance_restriction": "closest_neighbors"})}


class ManagingFactory(Factory):
    qual = "constraints.factory:managing_factory"
    default = "binary"
    name_pos = 1
    table = {"binary": ("BinaryConstraintsManager", {})}

    def want(self):
        return {"list_of_data_IDs": V(Lst(STR), self.ids)}


def install(prog, reg):
    reg.ext_prefix.append(("warnings.", lambda ex, args, kw, e: NONEV))

    def ctor(ex, ci, args, kw):
        if not isinstance(ex.contract, Factory):
            return NotImplemented
        init = ex.prog.method(ci, "__init__")
        names = init.params[1:]
        if len(args) > len(names):
            raise PyRaise("TypeError", "too many arguments")
        k = dict(zip(names, args))
        for n, v in kw.items():
            if n != "**":
                if n in k:
                    raise PyRaise("TypeError", "multiple values")
                k[n] = v
        return NewObj(ci, k, kw.get("**"))
    for n in ("AffinityPropagationConstrainedClustering", "DBScanConstrainedClustering", "HierarchicalConstrainedClustering", "KMeansConstrainedClustering", "MPCKMeansConstrainedClustering",
              "SpectralConstrainedClustering", "ClustersBasedConstraintsSampling", "BinaryConstraintsManager"):
        reg.ctors[n] = ctor
