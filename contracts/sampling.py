"""ClustersBasedConstraintsSampling: eligible, distinct, as many as possible; extremes; seeding; frame; rejection of bad calls."""
import z3
from pyvc.values import *
from pyvc.execu import *
from pyvc.contract import Contract
from . import client as K
from .client import *

CR = Dct(STR, INT)
DCR = DT(STR, INT)
PAIR = Tup(STR, STR)
LP = LT(PAIR)
SAME, DIFF = lit("same_cluster"), lit("different_clusters")
CLOSE, FAR = lit("closest_neighbors"), lit("farthest_neighbors")
Q = "sampling.clusters_based:ClustersBasedConstraintsSampling."


class Sample(Contract):
    qual = Q + "sample"
    props = ("C10", "C11", "C17", "C18", "C19", "C25")
    assumes = ("random.sample(L, k) returns k elements of L taken at different positions, and depends only on its arguments and the state of the generator",
               "sorted(L, key=k) is a permutation of L in non-decreasing order of k; reverse=True in non-increasing order",
               "pairwise_distances(vstack(V), metric='euclidean')[i, j] is the euclidean distance between V[i] and V[j]",
               "the clustering result and the vectors given have an entry for every managed data ID")

    def setup(self, ex, fi):
        st = ex.st
        ps = fi.params
        self.nb = z3.Const("arg_nb", sort(Opt(INT)))
        self.cr = z3.Const("arg_clustering_result", sort(Opt(CR)))
        self.vo = z3.Const("arg_vectors_opt", sort(Opt(VEC)))
        self.seed = z3.Const("f_seed", sort(Opt(INT)))
        self.f_cl = z3.Const("f_clusters_restriction", sort(OSTR))
        self.f_di = z3.Const("f_distance_restriction", sort(OSTR))
        self.f_wa, self.f_wi = z3.Bools("f_without_added f_without_inferred")
        ex.seed_term = V(Opt(INT), self.seed)
        st.objs["self"] = {"random_seed": ex.seed_term, "clusters_restriction": V(OSTR, self.f_cl), "distance_restriction": V(OSTR, self.f_di),
                           "without_added_constraints": V(BOOL, self.f_wa), "without_inferred_constraints": V(BOOL, self.f_wi)}
        self.cfg = dict(st.objs["self"])
        o = OSTR
        ex.assume(z3.Or(is_none(o, self.f_cl), self.f_cl == some_of(o, SAME), self.f_cl == some_of(o, DIFF)))
        ex.assume(z3.Or(is_none(o, self.f_di), self.f_di == some_of(o, CLOSE), self.f_di == some_of(o, FAR)))
        for f in mgr_facts():
            ex.assume(f)
        self.c = opt_val(Opt(CR), self.cr)
        ex.assume(z3.Implies(is_some(Opt(VEC), self.vo), opt_val(Opt(VEC), self.vo) == vecs))
        ex.assume(z3.Implies(is_some(Opt(CR), self.cr), FA([x], z3.Implies(managed(x), DCR.has(self.c, x)), [managed(x), DCR.has(self.c, x)])))
        env = {ps[0]: ObjR("self", fi.cls), ps[1]: V(MGR, m), ps[2]: V(Opt(INT), self.nb), ps[3]: V(Opt(CR), self.cr), ps[4]: V(Opt(VEC), self.vo)}
        if fi.node.args.kwarg is not None:
            env[fi.node.args.kwarg.arg] = Kw({}, V(OPQ, z3.Const("kw_rest", OpqS)))
        return env

    def elig(self, a, b):
        o = OSTR
        c = self.c
        return z3.And(managed(a), managed(b), rk(a) < rk(b),
                      z3.Implies(self.f_cl == some_of(o, SAME), DCR.get(c, a) == DCR.get(c, b)), z3.Implies(self.f_cl == some_of(o, DIFF), DCR.get(c, a) != DCR.get(c, b)),
                      z3.Implies(self.f_wa, is_none(OCON, ADD(a, b))), z3.Implies(self.f_wi, z3.And(z3.Not(ML(a, b)), z3.Not(CL(a, b)))))

    def post(self, ex, out):
        oi = Opt(INT)
        nbv = opt_val(oi, self.nb)
        need_cr = z3.And(is_some(OSTR, self.f_cl), is_none(Opt(CR), self.cr))
        need_v = z3.And(is_some(OSTR, self.f_di), z3.Or(is_none(Opt(VEC), self.vo), z3.Not(IS_DICT)))
        bad0 = z3.Or(z3.Not(IS_MGR), is_none(oi, self.nb), nbv < 0)
        bad = z3.Or(bad0, need_cr, need_v)
        if out.kind == "raise":
            if out.val.name != "ValueError":
                ex.obligation("raises only ValueError", FALSE, ("C18", "C10"))
            else:
                ex.obligation("raises ValueError only for an invalid call", bad, ("C18", "C10"))
            return
        ex.obligation("an invalid call raises ValueError", z3.Not(z3.Or(bad0, z3.And(nbv > 0, z3.Or(need_cr, need_v)))), ("C18",))
        for n, v in self.cfg.items():
            w = ex.st.objs["self"].get(n)
            ex.obligation("settings are kept: " + n, ex.eq(w, v) if w is not None else FALSE, ("C19",))
        if isinstance(out.val, Ref) and unresolved(ex.type_of(out.val)):
            L = LP.nil
        else:
            L = ex.coerce_t(out.val, Lst(PAIR))
        p = z3.Const("p", sort(PAIR))
        a, b = tup_get(PAIR, p, 0), tup_get(PAIR, p, 1)
        ex.obligation("no pair twice", LP.distinct(L), ("C10",))
        ex.obligation("every pair is eligible", FA([p], z3.Implies(LP.mem(L, p), self.elig(a, b)), [LP.mem(L, p)]), ("C10",))
        ex.obligation("not more pairs than requested", LP.len(L) <= nbv, ("C10",))
        q = tup_mk(PAIR, [x, y])
        ex.obligation("fewer pairs than requested only if all eligible pairs are returned", z3.Implies(LP.len(L) < nbv, FA([x, y], z3.Implies(self.elig(x, y), LP.mem(L, q)), [q])), ("C10",))
        d = lambda s: edist(vec(tup_get(PAIR, s, 0)), vec(tup_get(PAIR, s, 1)))
        i, j = z3.Ints("i j")
        r = z3.Const("r", sort(PAIR))
        for lab, r_, f in (("closest", CLOSE, lambda s, t: s <= t), ("farthest", FAR, lambda s, t: s >= t)):
            on = self.f_di == some_of(OSTR, r_)
            ex.obligation(lab + ": in order of distance", z3.Implies(on, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < LP.len(L)), f(d(LP.at(L, i)), d(LP.at(L, j)))))), ("C11",))
            ex.obligation(lab + ": no eligible pair left out is more extreme", z3.Implies(on, z3.ForAll([p, r], z3.Implies(z3.And(LP.mem(L, p), self.elig(tup_get(PAIR, r, 0), tup_get(PAIR, r, 1)), z3.Not(LP.mem(L, r))), f(d(p), d(r))))), ("C11",))
