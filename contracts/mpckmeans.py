"""MPC K-means: all managed data labelled with canonical labels, seeding, vectors by ID, frame, rejection of bad calls.

The contract is partial: on a valid call the algorithm may give up with an exception (empty cluster, degenerate data, inconsistent
constraints)."""
import z3
from pyvc.values import *
from pyvc.execu import *
from .client import *
from .basic import CL as CLT, DC
from pyvc.contract import Contract
from .kmeans import Cluster
from .arrays import NP

Q = "clustering.mpckmeans:MPCKMeansConstrainedClustering."


GR, VIS, COMP = Dct(INT, St_(INT)), Lst(BOOL), Lst(INT)


class Dfs(Contract):
    """depth-first search: changes only the marks and the component it is given; keeps the number of marks"""
    qual = Q + "_dfs"
    props = ("C14", "C17", "C19", "C25")
    callable = True
    optional = True
    partial = True

    def bad(self):
        return FALSE

    def setup(self, ex, fi):
        self.g, self.v, self.c, self.i = z3.Const("arg_graph", sort(GR)), z3.Const("arg_visited", sort(VIS)), z3.Const("arg_component", sort(COMP)), z3.Const("arg_i", sort(INT))
        ex.st.objs["self"] = {}
        vs = [V(INT, self.i), V(GR, self.g), ex.new_box(VIS, self.v), ex.new_box(COMP, self.c)]
        self.refs = vs[2:]
        return dict(zip(fi.params, [ObjR("self", fi.cls)] + vs))

    def applies(self, ex, fi, args, kw):
        return len(fi.params) == 5 and isinstance(args[0] if args else None, ObjR)

    def apply(self, ex, fi, env):
        i, g, v, c = [env[n] for n in fi.params[1:]]
        ex.coerce_t(i, INT)
        ex.coerce_t(g, GR)
        old = ex.coerce_t(v, VIS)
        ex.coerce_t(c, COMP)
        ex.st.mut += 1
        for r, ty in ((v, VIS), (c, COMP)):
            t = ex.fresh("dfs", sort(ty))
            bx = ex.st.heap[r.bid]
            ex.st.heap[r.bid] = bx.but(t=t, slotver=bx.slotver + 1, nestver=bx.nestver + 1)
            if ty is VIS:
                ex.assume(LT(BOOL).len(t) == LT(BOOL).len(old))
        return NONEV

    def post(self, ex, out):
        if out.kind == "raise":
            return
        ex.obligation("the number of marks is kept", LT(BOOL).len(ex.term(self.refs[0])) == LT(BOOL).len(self.v), ("C14",))
        ex.obligation("nothing is returned", ex.eq(out.val, NONEV), ("C14",))
        ex.obligation("no attribute is set", z3.BoolVal(not ex.st.objs["self"]), ("C19", "C14"))


k_ = z3.Int("k_")


def label_templates(lv):
    """arrays of labels by position: every element is a number >= -1; those of the positions gone through are not negative"""
    out = []
    for h in lv.syms:
        if h.ty is None or res(h.ty).kind != "opq":
            continue
        A = h.const
        n = LS.len(ids)
        e = arr_get(A, k_)
        v = unbox_opq(e, z3.IntSort())
        shape = z3.And(arr_dim(A) == 1, arr_rows(A) == n)
        inr = z3.And(0 <= k_, k_ < n)
        out.append(("one label per data", shape))
        out.append(("labels are integers", FA([k_], z3.Implies(inr, z3.And(e == box_opq(v), v >= -1)), [e])))
        out.append(("labels are not negative", FA([k_], z3.Implies(inr, z3.And(e == box_opq(v), v >= 0)), [e])))
        if lv.i is not None:
            li = LT(INT)
            for q in [lv.pre.heap[b] for b in lv.pre.heap]:
                if q.t is not None and res(q.ty).kind == "list" and q.t.sort() == li.S:
                    out.append(("labels so far", FA([k_], z3.Implies(z3.And(inr, li.mem(q.t, k_), li.idx(q.t, k_) < lv.i), v >= 0), [e])))
        for c in lv.syms:
            if c.ty is not None and res(c.ty).kind == "int":
                out.append(("labelled after an iteration", z3.Implies(c.const >= 1, z3.And(shape, FA([k_], z3.Implies(inr, z3.And(e == box_opq(v), v >= 0)), [e])))))
    return out


class MPCKMeans(Cluster):
    qual = Q + "cluster"
    props = ("C14", "C17", "C18", "C19", "C25")
    fields = {"model": STR, "max_iteration": INT, "w": REAL}
    assumes = Cluster.assumes + (NP,)
    partial = True
    templates = (label_templates,)

    def config(self, ex):
        ex.assume(self.f["max_iteration"] >= 1)
        ex.assume(self.f["w"] >= 0)
        ex.assume(self.f["model"] == lit("MPC"))

    def setup(self, ex, fi):
        env = super().setup(ex, fi)
        for n in fi.params[5:]:
            env[n] = V(OPQ, z3.Const("arg_" + n, OpqS))
        return env

    def post(self, ex, out):
        if out.kind == "raise":
            if out.val.name != "ValueError":
                ex.obligation("an invalid call raises ValueError", z3.Not(self.bad()), ("C18",))
            return
        self.guards(ex, out)
        self.labels(ex, ex.coerce_t(out.val, CLT))
