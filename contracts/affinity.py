"""Affinity propagation: must-linked data together, all managed data labelled, canonical labels, seeding, vectors by ID, frame."""
import z3
from pyvc.values import *
from pyvc.execu import *
from .client import *
from .basic import CL as CLT, DC
from .kmeans import Cluster
from .arrays import NP

Q = "clustering.affinity_propagation:AffinityPropagationConstrainedClustering."
place = lambda a: LS.idx(ids, a)


def member_templates(lv):
    """labels by position, filled in component by component"""
    out = []
    for h in lv.syms:
        if h.ty is None:
            continue
        ty = res(h.ty)
        if ty.kind == "opq":
            L = lambda a: arr_get(h.const, place(a))
        elif ty.kind == "list" and not unresolved(ty) and res(ty.args[0]).kind in ("int", "opq"):
            L = lambda a: LT(ty.args[0]).at(h.const, place(a))
        else:
            continue
        outer = [c[0] for c in lv.ex.outers if c[0] is not None and not c[0].eq(lv.i)]
        if lv.i is None:
            continue
        o = outer[-1] if outer else lv.i
        inside = z3.And(compix(x) == o, LS.idx(LC.at(comps, o), x) < lv.i) if outer else FALSE
        done = z3.Or(compix(x) < o, inside)
        doney = z3.substitute(done, (x, y))
        out.append(("must-linked data so far", FA([x, y], z3.Implies(z3.And(ML(x, y), done, doney), L(x) == L(y)), [ML(x, y)])))
        if outer:
            import ast
            for nd in ast.walk(lv.ex.outers[-1][2].target if lv.ex.outers[-1][0].eq(o) else lv.node.target):
                v = lv.pre.env.get(nd.id) if isinstance(nd, ast.Name) else None
                if isinstance(v, V) and res(v.ty).kind in ("int", "opq", "real"):
                    lx = L(x)
                    out.append(("members so far have the label " + nd.id, FA([x], z3.Implies(z3.And(managed(x), inside), (box_opq(lx) if lx.sort() == OpqS else lx) == (unbox_opq(box_opq(v.t), lx.sort()) if lx.sort() != OpqS else box_opq(v.t))), [compix(x)])))
        if ty.kind == "list":
            out.append(("others are not labelled", FA([x, y], z3.Implies(z3.And(ML(x, y), z3.Not(done), z3.Not(doney)), L(x) == L(y)), [ML(x, y)])))
            out.append(("length", LT(ty.args[0]).len(h.const) == LS.len(ids)))
        else:
            out.append(("length", z3.And(arr_rows(h.const) == LS.len(ids), arr_dim(h.const) == 1)))
    return out


def shape_templates(lv):
    out = []
    for h in lv.syms:
        if h.ty is not None and res(h.ty).kind == "opq":
            p = h.get(lv.pre) if callable(getattr(h, "get", None)) else None
            if p is not None and z3.is_expr(p) and p.sort() == OpqS:
                out.append(("shape of " + str(h.key), z3.And(arr_rows(h.const) == arr_rows(p), arr_dim(h.const) == arr_dim(p))))
    return out


class Affinity(Cluster):
    qual = Q + "cluster"
    props = ("C14", "C16", "C17", "C18", "C19", "C25")
    fields = {"max_iteration": INT, "convergence_iteration": INT, "absolute_must_links": BOOL}
    needs_nb = False
    templates = (member_templates, shape_templates)
    assumes = Cluster.assumes + (NP,)

    def config(self, ex):
        ex.assume(self.f["max_iteration"] >= 1)
        ex.assume(self.f["convergence_iteration"] >= 1)

    def post(self, ex, out):
        if self.guards(ex, out):
            return
        r = ex.coerce_t(out.val, CLT)
        self.labels(ex, r)
        ex.obligation("must-linked data have the same label", FA([x, y], z3.Implies(z3.And(self.f["absolute_must_links"], ML(x, y)), DC.get(r, x) == DC.get(r, y)), [ML(x, y)]), ("C16",))
