"""What sampling and clustering may use of a constraints manager and of the vectors: the postconditions of the manager's getters.

The relations ML/CL/ADDED and the list of managed IDs are those of the (one) manager given to the function under contract.  The facts assumed
about them are proved for BinaryConstraintsManager: see the lemma contract ManagerFacts below, which derives them from the manager's
representation invariant, and the contracts of get_inferred_constraint, get_added_constraint, get_list_of_managed_data_IDs and
get_connected_components in contracts/binary.py."""
import z3
from pyvc.values import *
from pyvc.execu import *
from pyvc.contract import Contract
from pyvc import theory as T

MGR, VEC = Obj("Manager"), Obj("Vectors")
B = z3.BoolSort()
LS = LT(STR)
CON = Tup(STR, REAL)
OCON = Opt(CON)
OSTR = Opt(STR)
ML_, CL_ = lit("MUST_LINK"), lit("CANNOT_LINK")
x, y, z = z3.Consts("x y z", StrS)
i, j = z3.Ints("i j")
m = z3.Const("arg_manager", sort(MGR))
vecs = z3.Const("arg_vectors", sort(VEC))
ids = z3.Const("managed_ids", LS.S)
ML = z3.Function("inferred_ml", StrS, StrS, B)
CL = z3.Function("inferred_cl", StrS, StrS, B)
ADD = z3.Function("added_constraint", StrS, StrS, sort(OCON))
comps = z3.Const("components", LT(Lst(STR)).S)
LC = LT(Lst(STR))
compix = z3.Function("component_of", StrS, z3.IntSort())
vec = z3.Function("vector_of", StrS, OpqS)
edist = z3.Function("euclidean_distance", OpqS, OpqS, z3.RealSort())
IS_MGR = z3.Function("isinstance_Manager_AbstractConstraintsManager", sort(MGR), B)(m)
IS_DICT = z3.Function("isinstance_Vectors_dict", sort(VEC), B)(vecs)
managed = lambda a: LS.mem(ids, a)


def rel_facts(ML=ML, CL=CL, managed=managed):
    return [
        ("must-link data are managed", FA([x, y], z3.Implies(ML(x, y), z3.And(managed(x), managed(y))), [ML(x, y)])),
        ("must-link reflexive", FA([x], z3.Implies(managed(x), ML(x, x)), [managed(x)])),
        ("must-link symmetric", FA([x, y], z3.Implies(ML(x, y), ML(y, x)), [ML(x, y)])),
        ("must-link transitive", FA([x, y, z], z3.Implies(z3.And(ML(x, y), ML(y, z)), ML(x, z)), [[ML(x, y), ML(y, z)]])),
        ("cannot-link data are managed", FA([x, y], z3.Implies(CL(x, y), z3.And(managed(x), managed(y))), [CL(x, y)])),
        ("cannot-link symmetric", FA([x, y], z3.Implies(CL(x, y), CL(y, x)), [CL(x, y)])),
        ("cannot-link closed", FA([x, y, z], z3.Implies(z3.And(CL(x, y), ML(x, z)), CL(z, y)), [[CL(x, y), ML(x, z)]])),
        ("consistent", FA([x, y], z3.Not(z3.And(ML(x, y), CL(x, y))), [[ML(x, y), CL(x, y)]])),
    ]


def mgr_facts():
    out = [f for _, f in rel_facts()]
    out.append(LS.distinct(ids))
    out.append(FA([x, y], ADD(x, y) == ADD(y, x), [ADD(x, y)]))
    return out


def comp_facts(C=comps, ix=compix, ML=ML, managed=managed):
    """get_connected_components: the groups of mutually must-linked data, each data exactly once, no empty group"""
    n = LC.len(C)
    return [
        ("components are not empty", FA([i], z3.Implies(z3.And(0 <= i, i < n), LS.len(LC.at(C, i)) > 0), [LC.at(C, i)])),
        ("no repetition in a component", FA([i], z3.Implies(z3.And(0 <= i, i < n), LS.distinct(LC.at(C, i))), [LC.at(C, i)])),
        ("each managed data is in a component", FA([x], z3.Implies(managed(x), z3.And(0 <= ix(x), ix(x) < n, LS.mem(LC.at(C, ix(x)), x))), [ix(x), managed(x)])),
        ("data of components are managed, in one component only", FA([i, x], z3.Implies(z3.And(0 <= i, i < n, LS.mem(LC.at(C, i), x)), z3.And(managed(x), ix(x) == i)), [LS.mem(LC.at(C, i), x)])),
        ("a component is a must-link class", FA([x, y], z3.Implies(z3.And(managed(x), managed(y)), ML(x, y) == (ix(x) == ix(y))), [ML(x, y), [ix(x), ix(y)]])),
    ]


def inferred_value(a, b):
    return z3.If(ML(a, b), some_of(OSTR, ML_), z3.If(CL(a, b), some_of(OSTR, CL_), none_of(OSTR)))


ABS = "constraints.abstract:AbstractConstraintsManager."
MUTATORS = ("add_data_ID", "delete_data_ID", "add_constraint", "delete_constraint")


def install(prog, reg):
    def args_of(ex, recv, name, args, kw):
        fi = prog.find(ABS + name)
        env = ex.bind_params(fi, [recv] + list(args), kw)
        return [env[p] for p in fi.params[1:]]

    def two(ex, recv, name, args, kw):
        a, b = args_of(ex, recv, name, args, kw)[:2]
        a, b = ex.coerce_t(a, STR), ex.coerce_t(b, STR)
        ex.may_raise("ValueError", z3.And(managed(a), managed(b)))
        return a, b

    def inferred(ex, recv, args, kw):
        a, b = two(ex, recv, "get_inferred_constraint", args, kw)
        return V(OSTR, inferred_value(a, b))

    def added(ex, recv, args, kw):
        a, b = two(ex, recv, "get_added_constraint", args, kw)
        return V(OCON, ADD(a, b))

    def listm(ex, recv, args, kw):
        return ex.new_box(Lst(STR), ids)

    def components(ex, recv, args, kw):
        for _, f in comp_facts():
            ex.assume(f)
        return ex.new_box(Lst(Lst(STR)), comps)

    def mutator(ex, recv, args, kw):
        ex.obligation("frame: the constraints manager is modified", FALSE, ("C17",))
        raise Infeasible()
    reg.objmethods[("Manager", "get_inferred_constraint")] = inferred
    reg.objmethods[("Manager", "get_added_constraint")] = added
    reg.objmethods[("Manager", "get_list_of_managed_data_IDs")] = listm
    reg.objmethods[("Manager", "get_connected_components")] = components
    for n in MUTATORS:
        reg.objmethods[("Manager", n)] = mutator

    # vectors: readable only by ID
    def getv(ex, base, k):
        a = ex.coerce_t(k, STR)
        ex.may_raise("KeyError", managed(a))
        return V(OPQ, vec(a))

    def setv(ex, base, k, v):
        ex.obligation("frame: the vectors are modified", FALSE, ("C17",))
        raise Infeasible()
    reg.objops[("obj:Vectors", "getitem")] = getv
    reg.objops[("obj:Vectors", "setitem")] = setv

    # random numbers --------------------------------------------------------------------------------------------------
    def seed(gen):
        def h(ex, args, kw, e):
            a = list(args) + list(kw.values())
            s = a[0] if a else NONEV
            ty = res(ex.type_of(s))
            if ty.kind == "none":
                ok = FALSE
            elif ty.kind == "opt":
                ok = is_some(ty, ex.term(s))
            else:
                ok = TRUE
            ex.st.ghost["rng_" + gen] = ok
            ex.st.mut += 1
            return NONEV
        return h
    reg.externals["random.seed"] = seed("random")
    reg.externals["numpy.random.seed"] = seed("numpy")

    def sample(ex, args, kw, e):
        rng_use(ex, "random")
        fi_args = dict(zip(("population", "k"), args))
        fi_args.update(kw)
        if set(fi_args) != {"population", "k"}:
            return NotImplemented
        l = ex.to_list(fi_args["population"])
        k = ex.as_int(fi_args["k"])
        ty = res(ex.type_of(l))
        if unresolved(ty):
            ex.may_raise("ValueError", k == 0)
            return ex.new_box(ty, None)
        lt = LT(ty.args[0])
        t = ex.term(l)
        ex.may_raise("ValueError", z3.And(0 <= k, k <= lt.len(t)))
        r = ex.fresh("sampled", lt.S)
        e_ = z3.Const("rs_x", lt.E)
        ex.assume(lt.len(r) == k)
        ex.assume(z3.Implies(lt.distinct(t), lt.distinct(r)))
        ex.assume(FA([e_], z3.Implies(lt.mem(r, e_), lt.mem(t, e_)), [lt.mem(r, e_)]))
        ex.assume(z3.Implies(k == lt.len(t), FA([e_], z3.Implies(lt.mem(t, e_), lt.mem(r, e_)), [lt.mem(t, e_)])))
        return ex.new_box(ty, r)
    reg.externals["random.sample"] = sample

    def shuffle(ex, args, kw, e, gen="random"):
        rng_use(ex, gen)
        r = args[0]
        ty = res(ex.type_of(r))
        if ty.kind == "opq":
            if e is None or not e.args:
                ex.unsupported("shuffle of an array")
            ex.opq_mutate(e.args[0], ex.unopt(r), "after_shuffle", [V(OPQ, ex.fresh("rand", OpqS))])
            return NONEV
        if unresolved(ty):
            return NONEV
        lt = LT(ty.args[0])
        t = ex.term(r)
        n = ex.fresh("shuffled", lt.S)
        e_ = z3.Const("rs_x", lt.E)
        ex.mutate(r, lambda t: n, "other", ())
        ex.assume(lt.len(n) == lt.len(t))
        ex.assume(z3.Implies(lt.distinct(t), lt.distinct(n)))
        ex.assume(FA([e_], lt.mem(n, e_) == lt.mem(t, e_), [lt.mem(n, e_), lt.mem(t, e_)]))
        return NONEV
    reg.externals["random.shuffle"] = shuffle
    reg.externals["numpy.random.shuffle"] = lambda ex, args, kw, e: shuffle(ex, args, kw, e, "numpy")

    def other_random(gen):
        def h(ex, args, kw, e):
            rng_use(ex, gen)
            return V(OPQ, ex.fresh("rand", OpqS))
        return h
    for n in ("random.", "numpy.random."):
        reg.ext_prefix.append((n, other_random("random" if n == "random." else "numpy")))

    # euclidean distances -----------------------------------------------------------------------------------------------
    def pairwise(ex, args, kw, e):
        a = dict(zip(("X", "Y", "metric"), args))
        a.update(kw)
        X = ex.unguard(a.pop("X"))
        Y = a.pop("Y", None)
        me = a.pop("metric", None)
        r = ex.ext_call("sklearn.metrics.pairwise_distances", [ex.listify(v) for v in args], {k: ex.listify(v) for k, v in kw.items()})
        if a or Y is not None and res(ex.type_of(Y)).kind != "none":
            return r
        if me is not None and not (isinstance(me, V) and res(me.ty).kind == "str" and me.t.eq(lit("euclidean"))):
            return r
        xt = ex.term(X) if isinstance(X, V) else None
        if xt is None or not z3.is_app(xt) or not xt.decl().name().startswith("ext_scipy.sparse.vstack") or xt.num_args() < 1 or xt.arg(0).sort() != LT(OPQ).S:
            return r
        L = xt.arg(0)
        lo = LT(OPQ)
        g = z3.Function("ext_getitem2", OpqS, z3.IntSort(), z3.IntSort(), OpqS)
        t = ex.term(r)
        ex.assume(z3.And(arr_dim(t) == 2, arr_rows(t) == lo.len(L)), "d")
        ex.assume(FA([i, j], z3.Implies(z3.And(0 <= i, i < lo.len(L), 0 <= j, j < lo.len(L)), unbox_opq(g(t, i, j), z3.RealSort()) == edist(lo.at(L, i), lo.at(L, j))), [g(t, i, j)]))
        return r
    reg.externals["sklearn.metrics.pairwise_distances"] = pairwise
    reg.externals["sklearn.metrics.pairwise.pairwise_distances"] = pairwise


def rng_use(ex, gen):
    ok = ex.st.ghost.get("rng_" + gen, FALSE)
    if ok is True or ok is False:
        ok = z3.BoolVal(ok)
    if ex.seed_term is not None:
        sd = ex.seed_term
        given = is_some(sd.ty, sd.t) if res(sd.ty).kind == "opt" else TRUE
        ex.obligation("the generator was seeded in this call before random numbers are drawn", z3.Implies(given, ok), ("C19",))


class ManagerFacts(Contract):
    """the facts assumed above, for BinaryConstraintsManager (lemma: from its representation invariant)"""
    qual = "constraints.binary:BinaryConstraintsManager.get_list_of_managed_data_IDs"
    props = ("C10", "C11", "C12", "C13")

    def setup(self, ex, fi):
        from . import binary as bm
        self.D, self.T = z3.Const("D0", bm.dd.S), z3.Const("T0", bm.tt.S)
        for n, f in bm.inv(self.D, self.T):
            ex.assume(f)
        from pyvc.values import Box
        ex.st.heap["bD"] = Box(bm.DTY, self.D, "field")
        ex.st.heap["bT"] = Box(bm.TTY, self.T, "field", frozen=frozenset({2}))
        ex.st.objs["self"] = {"_constraints_dictionary": Ref("bD"), "_constraints_transitivity": Ref("bT")}
        return {fi.params[0]: ObjR("self", fi.cls)}

    def post(self, ex, out):
        from . import binary as bm
        D, T_ = self.D, self.T
        mn = lambda a: bm.dd.has(D, a)
        mlr = lambda a, b: z3.And(mn(a), bm.ml(T_, a, b))
        clr = lambda a, b: z3.And(mn(a), bm.cl(T_, a, b))
        a, b, c = z3.Consts("fa fb fc", StrS)
        subst = lambda f: f
        for lab, f in [
            ("managed", z3.Implies(mlr(a, b), z3.And(mn(a), mn(b)))), ("reflexive", z3.Implies(mn(a), mlr(a, a))), ("symmetric", z3.Implies(mlr(a, b), mlr(b, a))),
            ("transitive", z3.Implies(z3.And(mlr(a, b), mlr(b, c)), mlr(a, c))), ("cannot-link managed", z3.Implies(clr(a, b), z3.And(mn(a), mn(b)))),
            ("cannot-link symmetric", z3.Implies(clr(a, b), clr(b, a))), ("cannot-link closed", z3.Implies(z3.And(clr(a, b), mlr(a, c)), clr(c, b))),
            ("consistent", z3.Not(z3.And(mlr(a, b), clr(a, b)))), ("added symmetric", bm.added(D, a, b) == bm.added(D, b, a)), ("distinct IDs", LS.distinct(bm.dd.keys(D))),
        ]:
            ex.obligation("manager fact: " + lab, f)
