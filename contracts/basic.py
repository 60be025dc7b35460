"""rename_clusters_by_order and compute_clusters_frequency."""
import z3
from pyvc.values import *
from pyvc.execu import *
from pyvc.contract import Contract
from pyvc import theory as T

CL = Dct(STR, INT)
DC = DT(STR, INT)
LS = LT(STR)
x, y = z3.Consts("x y", StrS)
i, j = z3.Ints("i j")
SORTED = LS.sorted_()


MARK = z3.Function("mark", z3.IntSort(), z3.BoolSort())   # always true; only a trigger that keeps instantiation finite
v_ = z3.Int("v")
T.add_ax(MARK, FA([v_], MARK(v_), [MARK(v_)]))


def growth(at, n, pats):
    """0..k-1 numbered by first appearance: every number below at(i) already appears before position i"""
    prev = z3.Not(forall([j], z3.Implies(z3.And(0 <= j, j < i), at(j) != v_), pats(j)))
    body = z3.Implies(z3.And(0 <= i, i < n), z3.And(at(i) >= 0, z3.Implies(z3.And(MARK(v_), 0 <= v_, v_ < at(i)), prev)))
    return z3.ForAll([i, v_], body, patterns=[z3.MultiPattern(*(pats(i) + [MARK(v_)]))]) if pats(i) else z3.ForAll([i, v_], body, patterns=[z3.MultiPattern(at(i), MARK(v_))])


def canonical(t):
    """non-negative labels canonical along the sorted IDs (all labels non-negative here)"""
    L = SORTED(DC.keys(t))
    return growth(lambda k: DC.get(t, LS.at(L, k)), LS.len(L), lambda k: [LS.at(L, k)])


def rename_templates(lv):
    """a dict old ID -> new ID built along a list of data, numbering by first appearance"""
    out = []
    ex, it = lv.ex, lv.it
    if it is None:
        return out
    keyed = []
    for kind, root, path, data, conds, ctx in lv.events:
        if kind == "set" and not path:
            keyed.append(data[0])
    for h in lv.syms:
        if h.ty is None or res(h.ty) != Dct(INT, INT):
            continue
        d = DT(INT, INT)
        m = h.const
        a, b = z3.Ints("a b")
        n = d.size(m)
        out.append(("map inj", FA([a, b], z3.Implies(z3.And(d.has(m, a), d.has(m, b), d.get(m, a) == d.get(m, b)), a == b), [[d.get(m, a), d.get(m, b)]])))
        out.append(("map range", FA([a], z3.Implies(d.has(m, a), z3.And(0 <= d.get(m, a), d.get(m, a) < n)), [d.has(m, a), d.get(m, a)])))
        # insertion order of the mapping is the numbering
        out.append(("map order", FA([a], z3.Implies(z3.And(0 <= a, a < n), d.get(m, d.kl.at(d.keys(m), a)) == a), [d.kl.at(d.keys(m), a)])))
        out.append(("map order'", FA([a], z3.Implies(d.has(m, a), d.get(m, a) == d.kl.idx(d.keys(m), a)), [d.get(m, a), d.has(m, a)])))
        for key in keyed:
            if key.sort() != z3.IntSort():
                continue
            if ex.new_syms(key, lv.head.ctr, [lv.i]) or contains(key, [s.const for s in lv.syms]):
                continue
            kat = lambda k, key=key: z3.substitute(key, (lv.i, k))
            pats = lambda k: [LT(it.lst[0]).at(it.lst[1], k)] if it.lst is not None else []
            r = lambda k: d.get(m, kat(k))
            out.append(("map growth", growth(r, lv.i, pats)))
            out.append(("map seen", FA([v_], z3.Implies(z3.And(MARK(v_), 0 <= v_, v_ < n), z3.Not(forall([j], z3.Implies(z3.And(0 <= j, j < lv.i), r(j) != v_), pats(j)))), [MARK(v_)])))
            out.append(("map onto", FA([a], z3.Implies(d.has(m, a), z3.Not(forall([j], z3.Implies(z3.And(0 <= j, j < lv.i), kat(j) != a), pats(j)))), [d.has(m, a)])))
    return out


class Rename(Contract):
    qual = "clustering.abstract:rename_clusters_by_order"
    props = ("C15", "C17")
    templates = (rename_templates,)
    callable = True

    def setup(self, ex, fi):
        self.c = z3.Const("arg_clusters", DC.S)
        return {fi.params[0]: V(CL, self.c)}

    @staticmethod
    def spec(c, r):
        """list of (label, formula)"""
        return [
            ("result keys are the sorted data IDs", z3.And(LS.eq(DC.keys(r), SORTED(DC.keys(c))))),
            ("same data", FA([x], DC.has(r, x) == DC.has(c, x), [DC.has(r, x), DC.has(c, x)])),
            ("same partition", FA([x, y], z3.Implies(z3.And(DC.has(c, x), DC.has(c, y)), (DC.get(r, x) == DC.get(r, y)) == (DC.get(c, x) == DC.get(c, y))), [[DC.get(r, x), DC.get(r, y)]])),
            ("labels are non-negative", FA([x], z3.Implies(DC.has(c, x), DC.get(r, x) >= 0), [DC.get(r, x)])),
            ("labels numbered by first appearance", canonical(r)),
        ]

    def post(self, ex, out):
        if self.no_raise(ex, out, ("C15",)):
            return
        r = ex.coerce_t(out.val, CL)
        for lab, f in self.spec(self.c, r):
            ex.obligation(lab, f, ("C15",))

    def apply(self, ex, fi, env):
        c = ex.coerce_t(env[fi.params[0]], CL)
        r = ex.fresh("renamed", DC.S)
        for lab, f in self.spec(c, r):
            ex.assume(f)
        ex.assume(LS.distinct(SORTED(DC.keys(r))))   # holds of every dictionary; names the list
        return ex.new_box(CL, r)


class Frequency(Contract):
    lean = ("lemmas/Card.lean",)
    qual = "utils.frequency:compute_clusters_frequency"
    props = ("C20", "C17")

    def setup(self, ex, fi):
        self.c = z3.Const("arg_clusters", DC.S)
        return {fi.params[0]: V(CL, self.c)}

    def post(self, ex, out):
        if self.no_raise(ex, out, ("C20",)):
            return
        c = self.c
        n = DC.size(c)
        F = DT(INT, REAL)
        LI = LT(INT)
        if isinstance(out.val, Ref) and unresolved(ex.type_of(out.val)):
            ex.obligation("the empty answer only for an empty result", n == 0, ("C20",))
            return
        r = ex.coerce_t(out.val, Dct(INT, REAL))
        ks = F.keys(r)
        k = z3.Int("k")
        ex.obligation("each key is a label of the result", FA([k], z3.Implies(F.has(r, k), z3.Not(forall([x], z3.Implies(DC.has(c, x), DC.get(c, x) != k)))), [F.has(r, k)]), ("C20",))
        ex.obligation("each label is a key", FA([x], z3.Implies(DC.has(c, x), F.has(r, DC.get(c, x))), [DC.get(c, x)]), ("C20",))
        ex.obligation("keys increase", FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < LI.len(ks)), LI.at(ks, i) < LI.at(ks, j)), [[LI.at(ks, i), LI.at(ks, j)]]), ("C20",))
        # value = |{data with the label}| / n : any duplicate-free list M of exactly these data has that length
        M = z3.Const("anyM", LS.S)
        sel = FA([x], LS.mem(M, x) == z3.And(DC.has(c, x), DC.get(c, x) == k), [LS.mem(M, x), DC.get(c, x), DC.has(c, x)])
        ex.lemmas = ex.lemmas + [T.card_uniq_lemma(STR)]
        ex.obligation("value is the proportion", z3.ForAll([k, M], z3.Implies(z3.And(F.has(r, k), LS.distinct(M), sel), F.get(r, k) == z3.ToReal(LS.len(M)) / z3.ToReal(n))), ("C20",))
