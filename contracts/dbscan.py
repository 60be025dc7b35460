"""DBSCAN: no cannot-link inside a cluster, all managed data labelled, canonical and negative labels, counters, vectors by ID, frame."""
import z3
from pyvc.values import *
from pyvc.execu import *
from pyvc import theory as T
from .client import *
from .basic import CL as CLT, DC, MARK, v_
from .kmeans import Cluster
from .arrays import NP

Q = "clustering.dbscan:DBScanConstrainedClustering."
DLT, DST = Dct(STR, Lst(STR)), Dct(STR, STR)
DL, DS = DT(STR, Lst(STR)), DT(STR, STR)
LI = LT(INT)
k = z3.Const("k", StrS)
NOISE, UNL, CORE, SINGLE = (lit(v) for v in ("NOISE", "UNLABELED", "CORE", "SINGLE_CORE"))


def boxes(lv, ty, fields=False):
    """terms of the dictionaries of a type that the code can reach at the loop head"""
    st = lv.head
    seen, out = set(), []
    for fs in ([] if fields else [st.env]) + list(st.objs.values()):
        for v in fs.values():
            if isinstance(v, Ref) and v.bid not in seen:
                seen.add(v.bid)
                b = st.heap.get(v.bid)
                if b is not None and b.t is not None and not unresolved(b.ty) and res(b.ty) == ty:
                    out.append(b.t)
    return out


def group_templates(lv):
    out = []
    mod = {h.const.get_id() for h in lv.syms if h.const is not None}
    ds, lbs = boxes(lv, DLT), boxes(lv, DST)
    for n, D in enumerate(ds):
        has, C = DL.has(D, k), DL.get(D, k)
        if D.get_id() in mod:
            out += [
                ("groups are managed", FA([k, x], z3.Implies(z3.And(has, LS.mem(C, x)), managed(x)), [LS.mem(C, x)])),
                ("group names are managed", FA([k], z3.Implies(has, managed(k)), [has])),
                ("groups have no cannot-link", FA([k, x, y], z3.Implies(z3.And(has, LS.mem(C, x), LS.mem(C, y)), z3.Not(CL(x, y))), [[LS.mem(C, x), LS.mem(C, y)]])),
                ("groups have their name", FA([k], z3.Implies(has, LS.mem(C, k)), [has])),
                ("groups are not empty", FA([k], z3.Implies(has, LS.len(C) > 0), [has])),
                ("groups have no repetition", FA([k], z3.Implies(has, LS.distinct(C)), [C])),
                ("group names", DL.keys(D) == ids),
            ]
            if lv.i is not None and not lv.ex.outers[:-1]:
                out += [
                    ("groups still to visit", FA([k], z3.Implies(z3.And(managed(k), LS.idx(ids, k) >= lv.i), has), [has])),
                    ("visited groups are not empty", FA([k], z3.Implies(z3.And(has, LS.idx(ids, k) < lv.i), LS.len(C) > 0), [has])),
                ]
            if lv.it is not None and lv.it.lst is not None and res(lv.it.lst[0]) == STR:
                L, j = lv.it.lst[1], z3.Int("j")
                for v in lv.pre.env.values():
                    if isinstance(v, V) and v.t is not None and res(v.ty) == STR:
                        G = DL.get(D, v.t)
                        out.append(("still in the group", FA([j], z3.Implies(z3.And(lv.i <= j, j < LS.len(L)), LS.mem(G, LS.at(L, j))), [LS.at(L, j)])))
        for D2 in boxes(lv, DLT, True):
            if D2.eq(D) or D.get_id() not in mod or D2.get_id() in mod:
                continue
            out.append(("within the must-links and the neighbourhood", FA([k, x], z3.Implies(z3.And(has, LS.mem(C, x)), z3.Or(ML(k, x), z3.And(DL.has(D2, k), LS.mem(DL.get(D2, k), x)))), [LS.mem(C, x)])))
        for Lb in lbs:
            if not (D.get_id() in mod and Lb.get_id() in mod):
                continue
            l = DS.get(Lb, k)
            out.append(("groups of the labelled data", FA([k], z3.Implies(managed(k), has == z3.Or(l == CORE, l == SINGLE)), [has, l])))
    for Lb in lbs:
        if Lb.get_id() not in mod:
            continue
        l = DS.get(Lb, k)
        out.append(("keys are the managed data", DS.keys(Lb) == ids))
        out.append(("known labels", FA([k], z3.Implies(managed(k), z3.Or(l == NOISE, l == UNL, l == CORE, l == SINGLE)), [l])))
        if lv.i is not None:
            i0 = lv.ex.outers[0][0] if lv.ex.outers and lv.ex.outers[0][0] is not None else lv.i
            out.append(("visited data are labelled", FA([k], z3.Implies(z3.And(managed(k), LS.idx(ids, k) < i0), l != UNL), [l])))
            out.append(("data to visit", FA([k], z3.Implies(z3.And(managed(k), LS.idx(ids, k) >= i0), z3.Or(l == UNL, l == SINGLE)), [l])))
    return out


def label_templates(lv):
    out = []
    ints = [h.const for h in lv.syms if h.ty is not None and res(h.ty) == INT]
    for h in lv.syms:
        if h.ty is None or res(h.ty) != CLT:
            continue
        P = h.const
        has, g, hy, gy = DC.has(P, x), DC.get(P, x), DC.has(P, y), DC.get(P, y)
        out += [
            ("labelled data are managed", FA([x], z3.Implies(has, managed(x)), [has])),
            ("labels are not negative", FA([x], z3.Implies(has, g >= 0), [g])),
            ("negative labels are not shared", FA([x, y], z3.Implies(z3.And(has, hy, g == gy, g < 0), x == y), [[g, gy]])),
            ("same label, no cannot-link", FA([x, y], z3.Implies(z3.And(has, hy, g == gy), z3.Not(CL(x, y))), [CL(x, y)])),
        ]
        P0 = h.get(lv.pre) if callable(getattr(h, "get", None)) else None
        if z3.is_expr(P0) and P0.sort() == DC.S:
            out.append(("new labels are negative", FA([x], z3.Implies(z3.And(has, z3.Not(DC.has(P0, x))), g < 0), [g])))
        its = list(ints)
        for v in lv.pre.env.values():
            if isinstance(v, V) and res(v.ty) == INT and v.t is not None and not any(v.t.eq(q) for q in its):
                its.append(v.t)
        for a in its:
            out.append(("labels below the counter", FA([x], z3.Implies(has, g < a), [g])))
            out.append(("labels up to the counter", FA([x], z3.Implies(has, g <= a), [g])))
            out.append(("labels above the counter", FA([x], z3.Implies(has, g > a), [g])))
            out.append(("negative labels so far", z3.And(a < 0, FA([v_], z3.Implies(z3.And(MARK(v_), a < v_, v_ < 0), z3.Not(FA([x], z3.Implies(has, g != v_), [has, g]))), [MARK(v_)]))))
            if lv.it is not None and lv.it.lst is not None and res(lv.it.lst[0]) == STR:
                out.append(("the new label is for the group", FA([x], z3.Implies(z3.And(has, g == a), LS.mem(lv.it.lst[1], x)), [g])))
    return out


class Dbscan(Cluster):
    qual = Q + "cluster"
    props = ("C14", "C17", "C18", "C19", "C24", "C25")
    fields = {"eps": REAL, "min_samples": INT}
    needs_nb = False
    deep_triggers = True
    far = ("visited data are labelled", "groups have their name", "groups have no cannot-link", "within the must-links and the neighbourhood")
    houdini_rlimit = -2500000
    lean = ("lemmas/Card.lean",)
    templates = (group_templates, label_templates)
    assumes = Cluster.assumes + ("the distance of a vector to itself is 0",)

    def config(self, ex):
        ex.assume(self.f["eps"] > 0)
        ex.assume(self.f["min_samples"] >= 1)
        p = z3.Const("p", OpqS)
        ex.assume(FA([p], edist(p, p) == 0, [edist(p, p)]))

    def post(self, ex, out):
        if self.guards(ex, out):
            return
        r = ex.coerce_t(out.val, CLT)
        ex.obligation("cannot-linked data have different labels", FA([x, y], z3.Implies(CL(x, y), DC.get(r, x) != DC.get(r, y)), [CL(x, y)]), ("C24",))
        x2, y2, U = z3.Const("x2", StrS), z3.Const("y2", StrS), z3.Const("anyU", LI.S)
        g = lambda a: DC.get(r, a)
        f = {}
        for n in ("number_of_regular_clusters", "number_of_single_noise_point_clusters", "number_of_clusters"):
            w = ex.st.objs["self"].get(n)
            f[n] = ex.as_int(w) if w is not None else None
        tag = ("C14",)
        ex.obligation("labels are numbered by first appearance", FA([x, v_], z3.Implies(z3.And(managed(x), MARK(v_), 0 <= v_, v_ < g(x)), z3.Not(FA([y], z3.Implies(z3.And(managed(y), T.rk(y) < T.rk(x)), g(y) != v_), [g(y)]))), [[g(x), MARK(v_)]]), tag)
        m_ = f["number_of_single_noise_point_clusters"]
        ex.obligation("ignored data are numbered from -1 down to minus their number", FA([x], z3.Implies(managed(x), g(x) >= -m_), [g(x)]) if m_ is not None else FALSE, tag)
        ex.obligation("ignored data have different labels", FA([x, y], z3.Implies(z3.And(managed(x), managed(y), g(x) == g(y), g(x) < 0), x == y), [[g(x), g(y)]]), tag)
        if m_ is not None:
            ex.obligation("each label of an ignored data is used", FA([v_], z3.Implies(z3.And(MARK(v_), -m_ <= v_, v_ < 0), z3.Not(FA([x], z3.Implies(managed(x), g(x) != v_), [g(x)]))), [MARK(v_)]), tag)
        nr, nc = f["number_of_regular_clusters"], f["number_of_clusters"]
        ex.obligation("the number of clusters is the sum", nc == nr + m_ if None not in (nr, nc, m_) else FALSE, tag)
        used = z3.Not(FA([x], z3.Implies(managed(x), g(x) != v_), [g(x)]))
        ex.lemmas = ex.lemmas + [T.card_uniq_lemma(INT)]
        ex.obligation("the number of regular clusters is the number of non-negative labels", z3.ForAll([U], z3.Implies(z3.And(LI.distinct(U), FA([v_], LI.mem(U, v_) == z3.And(v_ >= 0, used), [LI.mem(U, v_)]), FA([x], z3.Implies(z3.And(managed(x), g(x) >= 0), LI.mem(U, g(x))), [g(x)])), nr == LI.len(U))) if nr is not None else FALSE, tag)
        ex.obligation("all managed data and only them are labelled", FA([x], DC.has(r, x) == managed(x), [DC.has(r, x), managed(x)]), ("C14",))
