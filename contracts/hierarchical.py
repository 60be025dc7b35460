"""Hierarchical clustering: the merge tree, and labellings read off the tree that respect the constraints."""
import z3
from pyvc.values import *
from pyvc.execu import *
from pyvc.contract import Contract, SymClass
from .client import *
from .basic import CL as CLT, DC, canonical
from .kmeans import Cluster

Q = "clustering.hierarchical:HierarchicalConstrainedClustering."
NODE_CLASS = "Cluster"
CO = Obj(NODE_CLASS)
LO = LT(CO)
LI = LT(INT)
FIELDS = {"vectors": VEC, "cluster_ID": INT, "clustering_iteration": INT, "children": Lst(CO), "cluster_inverse_depth": INT, "members": Lst(STR), "centroid": OPQ}
OS = sort(CO)
o_, c_, d_ = z3.Consts("o_ c_ d_", OS)
childof = z3.Function("child_with", OS, StrS, OS)
isnode = z3.Function("tree_node", OS, B)


def install(prog, reg):
    ci = prog.find_class("clustering.hierarchical", NODE_CLASS)
    if ci is not None:
        reg.symclasses[NODE_CLASS] = SymClass(ci, FIELDS)


class Maps:
    """the fields of the nodes in a state (or given arrays)"""

    def __init__(self, ex, st=None):
        old = ex.st
        if st is not None:
            ex.st = st
        self.mb, self.ch, self.id = (ex.field_map(NODE_CLASS, n) for n in ("members", "children", "cluster_ID"))
        ex.st = old

    def M(self, o):
        return z3.Select(self.mb, o)

    def C(self, o):
        return z3.Select(self.ch, o)

    def I(self, o):
        return z3.Select(self.id, o)


DI = DT(INT, CO)


def node_facts(f, S=None):
    """every node: members are managed and closed under must-link; the children split the members.  S: the nodes are those stored by ID, else isnode"""
    if S is None:
        v, o, g, w, q, h = o_, o_, isnode(o_), c_, c_, isnode(c_)
        pat = isnode(o_)
        node = isnode
    else:
        v, w = z3.Ints("k_ k2_")
        o, g, q, h = DI.get(S, v), DI.has(S, v), DI.get(S, w), DI.has(S, w)
        pat = o
        node = lambda c: z3.And(DI.has(S, f.I(c)), DI.get(S, f.I(c)) == c)
    M, C, I = f.M, f.C, f.I
    mem, cmem = LS.mem, LO.mem
    if S is None:
        some_child = z3.And(cmem(C(o), childof(o, x)), mem(M(childof(o, x)), x))
    else:
        some_child = z3.Not(forall([c_], z3.Implies(cmem(C(o), c_), z3.Not(mem(M(c_), x))), [cmem(C(o), c_)]))
    out = [
        ("members are not empty", FA([v], z3.Implies(g, z3.And(LS.len(M(o)) > 0, mem(M(o), LS.at(M(o), 0)))), [pat])),
        ("members are managed", FA([v, x], z3.Implies(z3.And(g, mem(M(o), x)), managed(x)), [mem(M(o), x)])),
        ("members do not repeat", FA([v], z3.Implies(g, LS.distinct(M(o))), [pat])),
        ("members are closed under must-link", FA([v, x, y], z3.Implies(z3.And(g, mem(M(o), x), ML(x, y)), mem(M(o), y)), [[mem(M(o), x), ML(x, y)]])),
        ("members of a leaf are must-linked", FA([v, x, y], z3.Implies(z3.And(g, LO.len(C(o)) == 0, mem(M(o), x), mem(M(o), y)), ML(x, y)), [[mem(M(o), x), mem(M(o), y)]])),
        ("children are nodes", FA([v, c_], z3.Implies(z3.And(g, cmem(C(o), c_)), node(c_)), [cmem(C(o), c_)])),
        ("children do not repeat", FA([v], z3.Implies(g, LO.distinct(C(o))), [C(o)])),
        ("children do not overlap", FA([v, c_, d_, x], z3.Implies(z3.And(g, cmem(C(o), c_), cmem(C(o), d_), mem(M(c_), x), mem(M(d_), x)), c_ == d_), [[cmem(C(o), c_), cmem(C(o), d_), mem(M(c_), x), mem(M(d_), x)]])),
        ("members of children are members", FA([v, c_, x], z3.Implies(z3.And(g, cmem(C(o), c_), mem(M(c_), x)), mem(M(o), x)), [[cmem(C(o), c_), mem(M(c_), x)]])),
        ("members are members of a child", FA([v, x], z3.Implies(z3.And(g, LO.len(C(o)) > 0, mem(M(o), x)), some_child), [[C(o), mem(M(o), x)]])),
        ("the children have smaller IDs", FA([v, c_], z3.Implies(z3.And(g, cmem(C(o), c_)), I(c_) < I(o)), [cmem(C(o), c_)])),
    ]
    if S is None:
        out.append(("node IDs differ", FA([o_, c_], z3.Implies(z3.And(isnode(o_), isnode(c_), I(o_) == I(c_)), o_ == c_), [[I(o_), I(c_)]])))
    else:
        out.append(("nodes are stored under their ID", FA([v], z3.Implies(g, I(o) == v), [o])))
    return out


def root_facts(f, root, S=None):
    if S is None:
        v, o, g, pat = o_, o_, isnode(o_), isnode(o_)
        isroot = isnode(root)
    else:
        v = z3.Int("k_")
        o, g = DI.get(S, v), DI.has(S, v)
        pat = o
        isroot = z3.And(DI.has(S, f.I(root)), DI.get(S, f.I(root)) == root)
    M, mem = f.M, LS.mem
    return [
        ("the root is a node", isroot),
        ("the members of the root are the managed data", FA([x], mem(M(root), x) == managed(x), [mem(M(root), x), managed(x)])),
        ("no cannot-link below the root", FA([v, x, y], z3.Implies(z3.And(g, o != root, mem(M(o), x), mem(M(o), y)), z3.Not(CL(x, y))), [[mem(M(o), x), mem(M(o), y), CL(x, y)]])),
        ("the root is no child", FA([v, c_], z3.Implies(z3.And(g, LO.mem(f.C(o), c_)), c_ != root), [LO.mem(f.C(o), c_)])),
    ]


def split_templates(lv):
    out = []
    ex = lv.ex
    f = Maps(ex, lv.head)
    root = getattr(ex.contract, "root", None)
    for h in lv.syms:
        if h.ty is None or res(h.ty) != Lst(CO):
            continue
        L = h.const
        out.append(("elements are nodes", FA([o_], z3.Implies(LO.mem(L, o_), isnode(o_)), [LO.mem(L, o_)])))
        out.append(("nodes do not repeat", LO.distinct(L)))
        out.append(("nodes do not overlap", FA([c_, d_, x], z3.Implies(z3.And(LO.mem(L, c_), LO.mem(L, d_), LS.mem(f.M(c_), x), LS.mem(f.M(d_), x)), c_ == d_), [[LO.mem(L, c_), LO.mem(L, d_), LS.mem(f.M(c_), x), LS.mem(f.M(d_), x)]])))
        out.append(("nodes cover the data", FA([x], z3.Implies(managed(x), z3.Not(forall([c_], z3.Implies(LO.mem(L, c_), z3.Not(LS.mem(f.M(c_), x))), [LS.mem(f.M(c_), x)]))), [managed(x)])))
        if root is not None:
            out.append(("the root only alone", z3.Implies(LO.mem(L, root), LO.len(L) == 1)))
    ds = [h for h in lv.syms if h.ty is not None and res(h.ty) == CLT]
    for h in ds:
        N = h.const
        out.append(("keys are the managed data", FA([x], DC.has(N, x) == managed(x), [DC.has(N, x), managed(x)])))
        if lv.it is not None and lv.it.lst is not None and res(lv.it.lst[0]) == CO:
            L = lv.it.lst[1]
            out.append(("label of the nodes so far", FA([c_, x], z3.Implies(z3.And(LO.mem(L, c_), LO.idx(L, c_) < lv.i, LS.mem(f.M(c_), x)), DC.get(N, x) == f.I(c_)), [[LO.mem(L, c_), LS.mem(f.M(c_), x)]])))
    return out


def unfold(ex, sh):
    """the definition of the named tree facts, for this state"""
    if sh.cur is not None and opaque(ex):
        st = State_(sh.S, sh.cur, sh.f, ex.alloc(NODE_CLASS))
        for _, g in st.hidden():
            ex.assume(z3.Implies(st.whole(), g))


class Predicted(Contract):
    """the labelling read off the tree"""
    qual = Q + "compute_predicted_clusters"
    props = ("C13", "C14", "C17", "C23")
    templates = (split_templates,)
    callable = True
    assumes = ("called on the tree of a finished clustering (postcondition of cluster)",)

    def setup(self, ex, fi):
        self.root = z3.Const("root", OS)
        self.nb = z3.Int("arg_nb")
        ex.st.objs["self"] = {"clustering_root": V(CO, self.root), "list_of_data_IDs": ex.new_box(Lst(STR), ids)}
        f = self.f = Maps(ex)
        for g in mgr_facts():
            ex.assume(g)
        for _, g in node_facts(f) + root_facts(f, self.root):
            ex.assume(g)
        ex.assume(LS.len(ids) >= 1)
        env = {fi.params[0]: ObjR("self", fi.cls), fi.params[1]: V(INT, self.nb)}
        for n in fi.params[2:]:
            env[n] = V(STR, z3.Const("arg_" + n, StrS))
        return env

    @staticmethod
    def enough(nb):
        return z3.Or(nb >= 2, LS.len(ids) == 1)

    @classmethod
    def spec(cls, r, nb):
        return [
            ("all managed data and only them are labelled", FA([x], DC.has(r, x) == managed(x), [DC.has(r, x), managed(x)]), ("C13", "C14")),
            ("must-linked data have the same label", FA([x, y], z3.Implies(ML(x, y), DC.get(r, x) == DC.get(r, y)), [ML(x, y)]), ("C13",)),
            ("cannot-linked data have different labels", FA([x, y], z3.Implies(z3.And(cls.enough(nb), CL(x, y)), DC.get(r, x) != DC.get(r, y)), [CL(x, y)]), ("C13",)),
            ("labels are non-negative", FA([x], z3.Implies(managed(x), DC.get(r, x) >= 0), [DC.get(r, x)]), ("C14",)),
            ("labels are numbered by first appearance", canonical(r), ("C14",)),
        ]

    def apply(self, ex, fi, env):
        so = ex.st.objs.get(env[fi.params[0]].oid) if isinstance(env[fi.params[0]], ObjR) else None
        sh = Shape(ex, ex.st)
        root = so.get("clustering_root")
        if sh.S is None or root is None:
            raise Unsupported("the tree is not where it is expected")
        rty = res(ex.type_of(root))
        if rty.kind == "opt":
            ex.obligation("the root is set", is_some(rty, ex.term(root)), ("C13", "C23"))
            root = V(CO, opt_val(rty, ex.term(root)))
        root = ex.term(root)
        ex.obligation("the data to label are the managed data", LS.eq(ex.coerce_t(so["list_of_data_IDs"], Lst(STR)), ids), ("C13", "C14"))
        unfold(ex, sh)
        for lab, g in root_facts(sh.f, root, sh.S) + node_facts(sh.f, sh.S):
            ex.obligation("tree: " + lab, g, ("C13", "C23"))
        nb = ex.coerce_t(env[fi.params[1]], INT)
        r = ex.fresh("predicted", DC.S)
        for _, g, _ in self.spec(r, nb):
            ex.assume(g)
        return ex.new_box(CLT, r)

    def post(self, ex, out):
        if self.no_raise(ex, out):
            return
        g = Maps(ex)
        for n in ("mb", "ch", "id"):
            ex.obligation("frame: the tree is not modified", getattr(g, n) == getattr(self.f, n), ("C23",))
        r = ex.coerce_t(out.val, CLT)
        for lab, fo, tags in self.spec(r, self.nb):
            ex.obligation(lab, fo, tags)


class Shape:
    """where a state keeps the nodes by ID, the current nodes and their distances (found by type)"""

    def __init__(self, ex, st):
        self.f = Maps(ex, st)
        self.S = self.cur = self.D = None
        old = ex.st
        ex.st = st
        try:
            for oid, fs in st.objs.items():
                for n, v in fs.items():
                    if isinstance(v, Guarded) or not isinstance(v, (V, Ref, View)):
                        continue
                    ty = res(ex.type_of(v))
                    if unresolved(ty):
                        continue
                    if ty == Dct(INT, CO):
                        self.S = ex.term(v)
                    elif ty == Lst(INT):
                        self.cur = ex.term(v)
                    elif ty == DTY:
                        self.D = ex.term(v)
        finally:
            ex.st = old


DTY = Dct(INT, Dct(INT, REAL))
D1, D2 = DT(INT, Dct(INT, REAL)), DT(INT, REAL)


def far(f, S, k1, k2, d):
    """d is infinite if the nodes have cannot-linked members"""
    return FA([x, y], z3.Implies(z3.And(LS.mem(f.M(DI.get(S, k1)), x), LS.mem(f.M(DI.get(S, k2)), y), CL(x, y)), d == INF), [[LS.mem(f.M(DI.get(S, k1)), x), LS.mem(f.M(DI.get(S, k2)), y), CL(x, y)]])


class Distance(Contract):
    """distance of two nodes: infinite when a cannot-link separates them"""
    qual = Q + "_compute_distance"
    props = ("C13", "C23", "C17")
    callable = True
    optional = True

    def templates_(lv):
        """no cannot-link among the pairs seen so far"""
        out = []
        lo = [(i, it) for i, it, n in list(lv.ex.outers) if i is not None and it is not None and it.lst is not None and res(it.lst[0]) == STR]
        if lv.it is None or lv.it.lst is None or res(lv.it.lst[0]) != STR or lv.i is None:
            return out
        A = lv.it.lst[1]
        lo = [(i, it) for i, it in lo if not i.eq(lv.i)]
        f = Shape(lv.ex, lv.head)
        if f.S is None:
            return out
        S, f = f.S, f.f
        c = lv.ex.contract
        for B_ in [z for z in (getattr(c, "Mi", None), getattr(c, "Mj", None)) if z is not None]:
            out.append(("no cannot-link so far", FA([x, y], z3.Implies(z3.And(LS.mem(A, x), LS.idx(A, x) < lv.i, LS.mem(B_, y)), z3.Not(CL(x, y))), [[LS.mem(A, x), LS.mem(B_, y), CL(x, y)]])))
        for o, it in lo:
            e = LS.at(it.lst[1], o)
            out.append(("no cannot-link with this data so far", FA([y], z3.Implies(z3.And(LS.mem(A, y), LS.idx(A, y) < lv.i), z3.Not(CL(e, y))), [LS.mem(A, y)])))
        return out
    templates = (templates_,)

    def setup(self, ex, fi):
        self.S = z3.Const("arg_storage", DI.S)
        self.P = z3.Const("arg_distances", DP.S)
        ka, kb = z3.Ints("arg_k1 arg_k2")
        self.ka, self.kb = ka, kb
        ex.st.objs["self"] = {"clusters_storage": V(Dct(INT, CO), self.S), "dict_of_pairwise_distances": V(PTY, self.P), "linkage": V(STR, z3.Const("f_linkage", StrS)), "constraints_manager": V(MGR, m), "vectors": V(VEC, vecs)}
        f = self.f = Maps(ex)
        for g in mgr_facts():
            ex.assume(g)
        for _, g in self.pre(f, self.S, ka, kb, self.P):
            ex.assume(g)
        self.Mi, self.Mj = f.M(DI.get(self.S, ka)), f.M(DI.get(self.S, kb))
        return {fi.params[0]: ObjR("self", fi.cls), fi.params[1]: V(INT, ka), fi.params[2]: V(INT, kb)}

    @staticmethod
    def pre(f, S, ka, kb, P):
        out = []
        for k in (ka, kb):
            o = DI.get(S, k)
            out.append(("the node is known", DI.has(S, k)))
            out.append(("its members are not empty", LS.len(f.M(o)) > 0))
            out.append(("its members are managed", FA([x], z3.Implies(LS.mem(f.M(o), x), managed(x)), [LS.mem(f.M(o), x)])))
        out.append(("distances of all managed data are known", FA([x, y], z3.Implies(z3.And(managed(x), managed(y)), z3.And(DP.has(P, x), DQ.has(DP.get(P, x), y))), [[DP.get(P, x), managed(y)], DQ.has(DP.get(P, x), y), [DP.has(P, x), managed(y)]])))
        return out

    def apply(self, ex, fi, env):
        sh = Shape(ex, ex.st)
        so = ex.st.objs[env[fi.params[0]].oid]
        if sh.S is None or "dict_of_pairwise_distances" not in so:
            raise Unsupported("the tree is not where it is expected")
        ka, kb = (ex.coerce_t(env[p], INT) for p in fi.params[1:3])
        P = ex.coerce_t(so["dict_of_pairwise_distances"], PTY)
        for lab, g in self.pre(sh.f, sh.S, ka, kb, P):
            ex.obligation("distance of two nodes: " + lab, g)
        d = ex.fresh("dist", z3.RealSort())
        ex.assume(far(sh.f, sh.S, ka, kb, d))
        return V(REAL, d)

    def post(self, ex, out):
        if self.no_raise(ex, out):
            return
        d = ex.coerce_t(out.val, REAL)
        g = Maps(ex)
        for n in ("mb", "ch", "id"):
            ex.obligation("frame: the tree is not modified", getattr(g, n) == getattr(self.f, n), ("C23",))
        ex.obligation("infinite if a cannot-link separates the nodes", far(self.f, self.S, self.ka, self.kb, d), ("C13", "C23"))


PTY = Dct(STR, Dct(STR, REAL))
DP, DQ = DT(STR, Dct(STR, REAL)), DT(STR, REAL)


HELPERS = [Q + n for n in ("_add_new_cluster_by_setting_members", "_add_new_cluster_by_merging_clusters")]
tree_ok = None


def opaque(ex):
    """the tree facts are a named predicate where the nodes are built by helpers under contract"""
    return all(ex.prog.find(q) is not None for q in HELPERS)


class State_:
    """the nodes of a clustering under way: stored nodes, current nodes, fields, allocated objects"""

    def __init__(self, S, cur, f, al):
        self.S, self.cur, self.f, self.al = S, cur, f, al

    def whole(self):
        """all facts under one name"""
        a = [self.S, self.cur, self.f.mb, self.f.ch, self.f.id, self.al]
        return z3.Function("clustering_tree", *[t.sort() for t in a], B)(*a)

    def shown(self):
        """the facts about the current nodes"""
        S, cur, f = self.S, self.cur, self.f
        k, k2 = z3.Ints("k_ k2_")
        o, o2 = DI.get(S, k), DI.get(S, k2)
        return [
            ("current nodes are stored", FA([k], z3.Implies(LI.mem(cur, k), DI.has(S, k)), [LI.mem(cur, k)])),
            ("current nodes do not repeat", LI.distinct(cur)),
            ("current nodes have members", FA([k], z3.Implies(LI.mem(cur, k), LS.len(f.M(o)) > 0), [[LI.mem(cur, k), f.M(o)]])),
            ("current nodes have managed members", FA([k, x], z3.Implies(z3.And(LI.mem(cur, k), LS.mem(f.M(o), x)), managed(x)), [LS.mem(f.M(o), x)])),
            ("current nodes do not overlap", FA([k, k2, x], z3.Implies(z3.And(LI.mem(cur, k), LI.mem(cur, k2), LS.mem(f.M(o), x), LS.mem(f.M(o2), x)), k == k2), [[LI.mem(cur, k), LI.mem(cur, k2), LS.mem(f.M(o), x), LS.mem(f.M(o2), x)]]))]

    def hidden(self):
        S, cur, f, al = self.S, self.cur, self.f, self.al
        k = z3.Int("k_")
        o = DI.get(S, k)
        return [("nodes are allocated", FA([k], z3.Implies(DI.has(S, k), z3.Select(al, o)), [o])),
                ("IDs are not negative", FA([k], z3.Implies(DI.has(S, k), k >= 0), [o, DI.has(S, k)])),
                ("current nodes are no children", FA([k, c_], z3.Implies(z3.And(DI.has(S, k), LO.mem(f.C(o), c_)), z3.Not(LI.mem(cur, f.I(c_)))), [LO.mem(f.C(o), c_)]))
                ] + [("tree: " + a, g) for a, g in node_facts(f, S)]

    def facts(self):
        return self.hidden() + self.shown()

    def named(self, ex):
        return (self.hidden() if not opaque(ex) else [("the nodes are a tree", self.whole())]) + self.shown()


class NewNode(Contract):
    """a new node is stored and becomes current"""
    props = ("C13", "C23", "C17")
    callable = True
    optional = True
    aty = None

    def setup(self, ex, fi):
        S, cur = z3.Const("arg_storage", DI.S), z3.Const("arg_current", LI.S)
        A = self.A = z3.Const("arg_new", sort(self.aty))
        bS, bC = ex.new_box(Dct(INT, CO), S), ex.new_box(Lst(INT), cur)
        ex.st.objs["self"] = {"clusters_storage": bS, "current_clusters": bC, "clustering_iteration": V(INT, z3.Int("f_iter")), "vectors": V(VEC, vecs), "constraints_manager": V(MGR, m)}
        for g in mgr_facts():
            ex.assume(g)
        self.a = State_(S, cur, Maps(ex), ex.alloc(NODE_CLASS))
        for _, g in self.a.facts() + self.pre(self.a, A):
            ex.assume(g)
        return {fi.params[0]: ObjR("self", fi.cls), fi.params[1]: V(self.aty, A)}

    @classmethod
    def spec(cls, a, b, A, p):
        """from state a to state b, p: ID of the new node"""
        k = z3.Int("k_")
        new = DI.get(b.S, p)
        removed = cls.removed(A, k)
        return [
            ("the ID is new", z3.And(z3.Not(DI.has(a.S, p)), DI.has(b.S, p), p >= 0)),
            ("the node is new", z3.And(z3.Not(z3.Select(a.al, new)), b.f.I(new) == p)),
            ("other nodes stay stored", FA([k], DI.has(b.S, k) == z3.Or(DI.has(a.S, k), k == p), [DI.has(b.S, k), DI.has(a.S, k)])),
            ("other nodes stay the same", FA([k], z3.Implies(DI.has(a.S, k), DI.get(b.S, k) == DI.get(a.S, k)), [DI.get(b.S, k), DI.get(a.S, k)])),
            ("current nodes", FA([k], LI.mem(b.cur, k) == z3.Or(k == p, z3.And(LI.mem(a.cur, k), z3.Not(removed))), [LI.mem(b.cur, k), LI.mem(a.cur, k)])),
            ("number of current nodes", z3.And(LI.len(b.cur) == LI.len(a.cur) - cls.nremoved(A) + 1, LI.mem(b.cur, p))),
            ("members of other nodes are kept", FA([k], z3.Implies(DI.has(a.S, k), b.f.M(DI.get(a.S, k)) == a.f.M(DI.get(a.S, k))), [b.f.M(DI.get(a.S, k)), a.f.M(DI.get(a.S, k))])),
        ] + cls.members(a, b, A, new)

    def post(self, ex, out):
        if self.no_raise(ex, out):
            return
        sh = Shape(ex, ex.st)
        b = State_(sh.S, sh.cur, sh.f, ex.alloc(NODE_CLASS))
        for lab, g in self.spec(self.a, b, self.A, ex.coerce_t(out.val, INT)) + b.facts():
            ex.obligation(lab, g, ("C13", "C23"))

    def apply(self, ex, fi, env):
        so = ex.st.objs[env[fi.params[0]].oid]
        sh = Shape(ex, ex.st)
        av = env[fi.params[1]]
        rc = so.get("current_clusters")
        rs = so.get("clusters_storage")
        if not isinstance(rc, Ref) or not isinstance(rs, Ref) or isinstance(av, Ref) and av.bid == rc.bid:
            raise Unsupported("the tree is not where it is expected")
        S, cur = ex.coerce_t(rs, Dct(INT, CO)), ex.coerce_t(rc, Lst(INT))
        a = State_(S, cur, sh.f, ex.alloc(NODE_CLASS))
        A = ex.coerce_t(av, self.aty)
        for lab, g in a.named(ex) + self.pre(a, A):
            ex.obligation("new node: " + lab, g, ("C13", "C23"))
        if isinstance(av, Ref) and av.bid in ex.st.heap:
            ex.st.heap[av.bid] = ex.st.heap[av.bid].but(isfrozen=True)
        S2, c2, p = ex.fresh("storage", DI.S), ex.fresh("current", LI.S), ex.fresh("newID", z3.IntSort())
        ex.mutate(rs, lambda t: S2, "other", ())
        ex.mutate(rc, lambda t: c2, "other", ())
        for n in FIELDS:
            arr = ex.field_map(NODE_CLASS, n)
            ex.st.fmap[(NODE_CLASS, n)] = ex.fresh("fm_" + n, arr.sort())
            if ex.fields_written is not None:
                ex.fields_written.add(("fmap", NODE_CLASS, n))
        ex.st.ghost[("alloc", NODE_CLASS)] = ex.fresh("alloc", a.al.sort())
        ex.st.mut += 1
        if ex.fields_written is not None:
            ex.fields_written.add(("ghost", ("alloc", NODE_CLASS)))
        b = State_(S2, c2, Maps(ex), ex.alloc(NODE_CLASS))
        for _, g in self.spec(a, b, A, p) + b.named(ex):
            ex.assume(g)
        return V(INT, p)


class Leaf(NewNode):
    """a node for a must-link component"""
    qual = HELPERS[0]
    aty = Lst(STR)

    def setup(self, ex, fi):
        env = super().setup(ex, fi)
        e = State_(DI.empty, LI.nil, self.a.f, self.a.al)
        for lab, g in e.facts():
            ex.obligation("no node at all: " + lab, g, ("C13", "C23"))
        return env

    @staticmethod
    def pre(a, A):
        k = z3.Int("k_")
        return [("it has members", z3.And(LS.len(A) > 0, LS.mem(A, LS.at(A, 0)))), ("members do not repeat", LS.distinct(A)),
                ("members are managed", FA([x], z3.Implies(LS.mem(A, x), managed(x)), [LS.mem(A, x)])),
                ("members are must-linked", FA([x, y], z3.Implies(z3.And(LS.mem(A, x), LS.mem(A, y)), ML(x, y)), [[LS.mem(A, x), LS.mem(A, y)]])),
                ("members are a whole component", FA([x, y], z3.Implies(z3.And(LS.mem(A, x), ML(x, y)), LS.mem(A, y)), [[LS.mem(A, x), ML(x, y)]])),
                ("members are in no current node", FA([k, x], z3.Implies(z3.And(LI.mem(a.cur, k), LS.mem(a.f.M(DI.get(a.S, k)), x)), z3.Not(LS.mem(A, x))), [LS.mem(a.f.M(DI.get(a.S, k)), x)]))]

    removed = staticmethod(lambda A, k: FALSE)
    nremoved = staticmethod(lambda A: 0)

    @staticmethod
    def members(a, b, A, new):
        return [("the node has these members", FA([x], LS.mem(b.f.M(new), x) == LS.mem(A, x), [LS.mem(b.f.M(new), x), LS.mem(A, x)])), ("the node has no children", LO.len(b.f.C(new)) == 0)]


class Merge(NewNode):
    """a node with the given nodes as children"""
    qual = HELPERS[1]
    aty = Lst(INT)

    @staticmethod
    def pre(a, K):
        k = z3.Int("k_")
        return [("at least one child", z3.And(LI.len(K) >= 1, LI.mem(K, LI.at(K, 0)))), ("children do not repeat", LI.distinct(K)), ("children are current nodes", FA([k], z3.Implies(LI.mem(K, k), LI.mem(a.cur, k)), [LI.mem(K, k)]))]

    removed = staticmethod(lambda A, k: LI.mem(A, k))
    nremoved = staticmethod(lambda A: LI.len(A))

    @staticmethod
    def members(a, b, K, new):
        k = z3.Int("k_")
        old = LS.mem(a.f.M(DI.get(a.S, k)), x)
        return [("the new node has the members of its children", FA([x, k], z3.Implies(z3.And(LI.mem(K, k), old), LS.mem(b.f.M(new), x)), [[LI.mem(K, k), old]])),
                ("the new node has no other members", FA([x], z3.Implies(LS.mem(b.f.M(new), x), z3.Not(forall([k], z3.Implies(LI.mem(K, k), z3.Not(old)), [LI.mem(K, k)]))), [LS.mem(b.f.M(new), x)])),
                ("the new node has children", LO.len(b.f.C(new)) > 0)]


def closest_ok(f, S, cur, D):
    """distances of the current nodes are known and infinite where a cannot-link separates them"""
    k, k2 = z3.Ints("k_ k2_")
    o, o2 = DI.get(S, k), DI.get(S, k2)
    d = D2.get(D1.get(D, k), k2)
    pair = z3.And(LI.mem(cur, k), LI.mem(cur, k2), k < k2)
    pat = [[LI.mem(cur, k), LI.mem(cur, k2)], d]
    return [("distances are known", FA([k, k2], z3.Implies(pair, z3.And(D1.has(D, k), D2.has(D1.get(D, k), k2))), pat)),
            ("distances are infinite across a cannot-link", FA([k, k2, x, y], z3.Implies(z3.And(pair, LS.mem(f.M(o), x), LS.mem(f.M(o2), y), CL(x, y)), d == INF), [[LI.mem(cur, k), LI.mem(cur, k2), LS.mem(f.M(o), x), LS.mem(f.M(o2), y), CL(x, y)]]))]


class Closest(Contract):
    """the two current nodes to merge: never separated by a cannot-link"""
    qual = Q + "_get_the_two_clostest_clusters"
    props = ("C13", "C23", "C17")
    callable = True
    optional = True
    RT = Opt(Tup(INT, INT))

    def setup(self, ex, fi):
        S, cur, D = z3.Const("arg_storage", DI.S), z3.Const("arg_current", LI.S), z3.Const("arg_D", D1.S)
        ex.st.objs["self"] = {"clusters_storage": V(Dct(INT, CO), S), "current_clusters": V(Lst(INT), cur), "clusters_distance": V(DTY, D), "constraints_manager": V(MGR, m), "vectors": V(VEC, vecs)}
        for g in mgr_facts():
            ex.assume(g)
        self.s = (Maps(ex), S, cur, D)
        for _, g in self.pre(*self.s):
            ex.assume(g)
        return {fi.params[0]: ObjR("self", fi.cls)}

    @staticmethod
    def pre(f, S, cur, D):
        k = z3.Int("k_")
        return [("two current nodes at least", LI.len(cur) >= 2), ("current nodes do not repeat", LI.distinct(cur)), ("current nodes are stored", FA([k], z3.Implies(LI.mem(cur, k), DI.has(S, k)), [LI.mem(cur, k)]))] + closest_ok(f, S, cur, D)

    @staticmethod
    def spec(f, S, cur, a, b):
        return [("two different current nodes", z3.And(LI.mem(cur, a), LI.mem(cur, b), a != b)),
                ("no cannot-link between them", FA([x, y], z3.Implies(z3.And(LS.mem(f.M(DI.get(S, a)), x), LS.mem(f.M(DI.get(S, b)), y)), z3.Not(CL(x, y))), [[LS.mem(f.M(DI.get(S, a)), x), LS.mem(f.M(DI.get(S, b)), y), CL(x, y)]]))]

    def post(self, ex, out):
        if self.no_raise(ex, out):
            return
        r = ex.coerce_t(out.val, self.RT)
        f, S, cur, D = self.s
        v = opt_val(self.RT, r)
        tt = Tup(INT, INT)
        for lab, g in self.spec(f, S, cur, tup_get(tt, v, 0), tup_get(tt, v, 1)):
            ex.obligation(lab, z3.Implies(is_some(self.RT, r), g), ("C13", "C23"))

    def apply(self, ex, fi, env):
        sh = Shape(ex, ex.st)
        if sh.S is None or sh.cur is None or sh.D is None:
            raise Unsupported("the tree is not where it is expected")
        for lab, g in self.pre(sh.f, sh.S, sh.cur, sh.D):
            ex.obligation("closest nodes: " + lab, g, ("C13", "C23"))
        r = ex.fresh("closest", sort(self.RT))
        a, b = ex.fresh("closest1", z3.IntSort()), ex.fresh("closest2", z3.IntSort())
        tt = Tup(INT, INT)
        ex.assume(z3.Implies(is_some(self.RT, r), r == some_of(self.RT, tup_mk(tt, [a, b]))))
        for _, g in self.spec(sh.f, sh.S, sh.cur, a, b):
            ex.assume(z3.Implies(is_some(self.RT, r), g))
        return V(self.RT, r)


def tree_templates(lv):
    out = []
    ex = lv.ex
    sh = Shape(ex, lv.head)
    f, S, cur, D = sh.f, sh.S, sh.cur, sh.D
    if S is None:
        return out
    k, k2 = z3.Ints("k_ k2_")
    al = lv.head.ghost.get(("alloc", NODE_CLASS))
    if al is None:
        return out
    o = DI.get(S, k)
    if cur is None:
        return out
    st_ = State_(S, cur, f, al)
    out += st_.named(ex)
    out.append(("no cannot-link in a node", FA([k, x, y], z3.Implies(z3.And(DI.has(S, k), LS.mem(f.M(o), x), LS.mem(f.M(o), y)), z3.Not(CL(x, y))), [[LS.mem(f.M(o), x), LS.mem(f.M(o), y), CL(x, y)]])))
    comp = lv.it is not None and lv.it.lst is not None and res(lv.it.lst[0]) == Lst(STR)
    if comp:
        out.append(("members come from the components so far", FA([k, x], z3.Implies(z3.And(DI.has(S, k), LS.mem(f.M(o), x)), compix(x) < lv.i), [LS.mem(f.M(o), x)])))
    o2 = DI.get(S, k2)
    cov = lambda g: FA([x], z3.Implies(g, z3.Not(forall([k], z3.Implies(LI.mem(cur, k), z3.Not(LS.mem(f.M(o), x))), [LI.mem(cur, k)]))), [managed(x)])
    out.append(("current nodes cover the data", cov(managed(x))))
    if comp:
        out.append(("current nodes cover the components so far", cov(z3.And(managed(x), compix(x) < lv.i))))
    out.append(("a node is current while there are data", LI.len(cur) >= 1))
    if D is None:
        return out
    d = D2.get(D1.get(D, k), k2)
    known = z3.And(D1.has(D, k), D2.has(D1.get(D, k), k2))
    pair = z3.And(LI.mem(cur, k), LI.mem(cur, k2), k < k2)
    pat = [[LI.mem(cur, k), LI.mem(cur, k2)], d]

    def dist(lab, g):
        out.append(("distances known: " + lab, FA([k, k2], z3.Implies(z3.And(pair, g), known), pat)))
        out.append(("distances infinite across a cannot-link: " + lab, FA([k, k2, x, y], z3.Implies(z3.And(pair, g, LS.mem(f.M(o), x), LS.mem(f.M(o2), y), CL(x, y)), d == INF), [[LI.mem(cur, k), LI.mem(cur, k2), LS.mem(f.M(o), x), LS.mem(f.M(o2), y), CL(x, y)]])))
    dist("all", TRUE)
    if lv.i is None or lv.it is None or lv.it.lst is None or res(lv.it.lst[0]) != INT:
        return out
    L = lv.it.lst[1]
    ix = lambda a: LI.idx(L, a)
    prev = [c for c in ex.outers if c[0] is not None and not c[0].eq(lv.i) and c[1] is not None and c[1].lst is not None and res(c[1].lst[0]) == INT]
    if prev:
        p, pt, _ = prev[-1]
        px = lambda a: LI.idx(pt.lst[1], a)
        dist("pairs so far", z3.Or(px(k) < p, z3.And(px(k) == p, ix(k2) < lv.i)))
        dist("pairs so far, both", z3.Or(px(k) < p, px(k2) < p, z3.And(px(k) == p, ix(k2) < lv.i), z3.And(px(k2) == p, ix(k) < lv.i)))
    else:
        dist("rows so far", ix(k) < lv.i)
        dist("rows and columns so far", z3.Or(ix(k) < lv.i, ix(k2) < lv.i))
        for n, v in lv.pre.env.items():
            if isinstance(v, V) and res(v.ty) == INT and not z3.is_int_value(v.t):
                e = v.t
                dist("others, and with %s so far" % n, z3.Or(z3.And(k != e, k2 != e), z3.And(k2 == e, ix(k) < lv.i), z3.And(k == e, ix(k2) < lv.i)))
    return out


class Hierarchical(Cluster):
    qual = Q + "cluster"
    props = ("C13", "C14", "C17", "C18", "C19", "C23", "C25")
    fields = {"linkage": STR}
    templates = (tree_templates,)

    def config(self, ex):
        if NODE_CLASS in ex.reg.symclasses:
            al = ex.alloc(NODE_CLASS)
            if opaque(ex):
                # no node at all (proved in the contract of the helper for leaves)
                f = Maps(ex)
                sm = z3.Const("S_", DI.S)
                ex.assume(State_(DI.empty, LI.nil, f, al).whole())
        ex.assume(z3.Or([self.f["linkage"] == lit(n) for n in ("ward", "average", "complete", "single")]))

    def post(self, ex, out):
        if self.guards(ex, out):
            return
        r = ex.coerce_t(out.val, CLT)
        self.labels(ex, r)
        self.respects(ex, r, "C13")
        root = ex.st.objs["self"].get("clustering_root")
        if root is None:
            ex.obligation("the tree is exposed", FALSE, ("C23",))
            return
        rty = res(ex.type_of(root))
        t = ex.term(root)
        if rty.kind == "opt":
            ex.obligation("the tree is exposed", is_some(rty, t), ("C23",))
            t = opt_val(rty, t)
        sh = Shape(ex, ex.st)
        unfold(ex, sh)
        for lab, g in root_facts(sh.f, t, sh.S) + node_facts(sh.f, sh.S):
            ex.obligation("tree: " + lab, g, ("C23",))
