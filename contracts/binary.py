"""BinaryConstraintsManager: representation invariant and exact postconditions of every operation."""
import z3
from pyvc.values import *
from pyvc.execu import *
from pyvc.contract import Contract, ClassModel
from pyvc import theory as T

B, N = z3.BoolSort(), z3.IntSort()
SET = Dct(STR, NONE)
CON = Tup(STR, REAL)
OCON = Opt(CON)
ROW = Dct(STR, OCON)
DTY = Dct(STR, ROW)
GRP = Dct(STR, SET)
TTY = Dct(STR, GRP)
dd, row, tt, grp, ss = DT(STR, ROW), DT(STR, OCON), DT(STR, GRP), DT(STR, SET), DT(STR, NONE)
LS = LT(STR)
ML_, CL_ = lit("MUST_LINK"), lit("CANNOT_LINK")
x, y, z, u, w = z3.Consts("x y z u w", StrS)
E = z3.Function("anyE", StrS, StrS, B)   # arbitrary relations: minimality of the closure is proved for every pair (E, F)
F = z3.Function("anyF", StrS, StrS, B)
le = lambda a, b: rk(a) <= rk(b)
MOD = "constraints.binary:BinaryConstraintsManager."


def mlset(t, a):
    return grp.get(tt.get(t, a), ML_)


def clset(t, a):
    return grp.get(tt.get(t, a), CL_)


def ml(t, a, b):
    return ss.has(mlset(t, a), b)


def cl(t, a, b):
    return ss.has(clset(t, a), b)


def ent(d, a, b):
    """entry of the ordered pair (a <= b)"""
    return row.get(dd.get(d, a), b)


def added(d, a, b):
    return z3.If(le(a, b), ent(d, a, b), ent(d, b, a))


def rel_inv(t):
    hx = tt.has(t, x)
    return [
        ("rows", FA([x], z3.Implies(hx, z3.And(grp.has(tt.get(t, x), ML_), grp.has(tt.get(t, x), CL_))), [tt.has(t, x), tt.get(t, x)])),
        ("reflexive", FA([x], z3.Implies(hx, ml(t, x, x)), [tt.has(t, x), tt.get(t, x)])),
        ("must-link groups are shared", FA([x, y], z3.Implies(z3.And(hx, ml(t, x, y)), z3.And(tt.has(t, y), ss.keys(mlset(t, y)) == ss.keys(mlset(t, x)))), [ml(t, x, y)])),
        ("cannot-link symmetric", FA([x, y], z3.Implies(z3.And(hx, cl(t, x, y)), z3.And(tt.has(t, y), cl(t, y, x))), [cl(t, x, y)])),
        ("cannot-link closed", FA([x, y, z], z3.Implies(z3.And(hx, cl(t, x, y), ml(t, x, z)), cl(t, z, y)), [[cl(t, x, y), ml(t, x, z)]])),
        ("consistent", FA([x, y], z3.Implies(z3.And(hx, ml(t, x, y)), z3.Not(cl(t, x, y))), [ml(t, x, y), cl(t, x, y)])),
    ]


def minimal(t):
    hx = tt.has(t, x)
    return [
        ("must-link minimal", FA([x, y], z3.Implies(z3.And(hx, ml(t, x, y)), E(x, y)), [ml(t, x, y)])),
        ("cannot-link minimal", FA([x, y], z3.Implies(z3.And(hx, cl(t, x, y)), F(x, y)), [cl(t, x, y)])),
    ]


def closedEF():
    return z3.And(
        FA([x], E(x, x), [E(x, x)]),
        FA([x, y], z3.Implies(E(x, y), E(y, x)), [E(x, y)]),
        FA([x, y, z], z3.Implies(z3.And(E(x, y), E(y, z)), E(x, z)), [[E(x, y), E(y, z)]]),
        FA([x, y], z3.Implies(F(x, y), F(y, x)), [F(x, y)]),
        FA([x, y, z], z3.Implies(z3.And(F(x, y), E(x, z)), F(z, y)), [[F(x, y), E(x, z)]]))


def is_ml(d, a, b):
    e = ent(d, a, b)
    return z3.And(dd.has(d, a), row.has(dd.get(d, a), b), is_some(OCON, e), tup_get(CON, opt_val(OCON, e), 0) == ML_)


def is_cl(d, a, b):
    e = ent(d, a, b)
    return z3.And(dd.has(d, a), row.has(dd.get(d, a), b), is_some(OCON, e), tup_get(CON, opt_val(OCON, e), 0) == CL_)


def hypEF(d):
    """(E, F) is a closed pair of relations containing the added constraints"""
    return z3.And(closedEF(), FA([x, y], z3.And(z3.Implies(is_ml(d, x, y), E(x, y)), z3.Implies(is_cl(d, x, y), F(x, y))), [ent(d, x, y)]))


def dict_inv(d):
    hx = dd.has(d, x)
    e = ent(d, x, y)
    return [
        ("triangle", FA([x, y], z3.Implies(hx, row.has(dd.get(d, x), y) == z3.And(dd.has(d, y), le(x, y))), [row.has(dd.get(d, x), y), [dd.get(d, x), dd.has(d, y)]])),
        ("entries", FA([x, y], z3.Implies(z3.And(hx, row.has(dd.get(d, x), y), is_some(OCON, e)),
                                          z3.And(tup_get(CON, opt_val(OCON, e), 1) == 1, z3.Or(tup_get(CON, opt_val(OCON, e), 0) == ML_, tup_get(CON, opt_val(OCON, e), 0) == CL_))), [e])),
    ]


def link_inv(d, t):
    e = ent(d, x, y)
    return [
        ("same data", FA([x], tt.has(t, x) == dd.has(d, x), [tt.has(t, x), dd.has(d, x)])),
        ("added must-links are inferred", FA([x, y], z3.Implies(is_ml(d, x, y), ml(t, x, y)), [e])),
        ("added cannot-links are inferred", FA([x, y], z3.Implies(is_cl(d, x, y), cl(t, x, y)), [e])),
    ]


def inv(d, t):
    return dict_inv(d) + rel_inv(t) + link_inv(d, t) + [(n, z3.Implies(hypEF(d), f)) for n, f in minimal(t)]


class Mgr(Contract):
    """set-up of a method of the manager"""
    callable = False
    needs_inv = True
    ptypes = {}

    def setup(self, ex, fi):
        ci = fi.cls
        self.D, self.T = z3.Const("D0", dd.S), z3.Const("T0", tt.S)
        st = ex.st
        st.heap["bD"] = Box(DTY, self.D, "field")
        st.heap["bT"] = Box(TTY, self.T, "field", frozen=frozenset({2}))
        al = DT(STR, NONE)
        st.heap["bA"] = Box(St_(STR), al.set(al.set(al.empty, ML_, UNIT), CL_, UNIT), "field")
        st.objs["self"] = {"_constraints_dictionary": Ref("bD"), "_constraints_transitivity": Ref("bT"), "_allowed_constraint_types": Ref("bA"),
                           "_allowed_constraint_value_range": V(OPQ, z3.Const("range_", OpqS)), "kargs": V(OPQ, z3.Const("kargs_", OpqS))}
        me = ObjR("self", ci)
        env = {fi.params[0]: me}
        self.p = {}
        for n in fi.params[1:]:
            ty = self.ptype(n, fi)
            t = z3.Const("arg_" + n, sort(ty))
            self.p[n] = t
            env[n] = V(ty, t)
        a = fi.node.args
        if a.kwarg is not None:
            env[a.kwarg.arg] = Kw({}, V(OPQ, z3.Const("kw_rest", OpqS)))
        if self.needs_inv:
            for n, f in inv(self.D, self.T):
                ex.assume(f)
        self.args = [self.p[n] for n in fi.params[1:]]
        self.extra(ex)
        return env

    def extra(self, ex):
        pass

    def ptype(self, n, fi):
        i = fi.params.index(n) - 1
        tys = self.tys
        return tys[i] if i < len(tys) else REAL

    tys = (STR, STR, STR, REAL)

    def now(self, ex):
        o = ex.st.objs["self"]
        return ex.coerce_t(o["_constraints_dictionary"], DTY), ex.coerce_t(o["_constraints_transitivity"], TTY)

    def unchanged(self, ex, tags):
        d, t = self.now(ex)
        if not d.eq(self.D):
            ex.obligation("added constraints unchanged", z3.And(dd.keys(d) == dd.keys(self.D), FA([x, y], z3.Implies(dd.has(d, x), z3.And(row.has(dd.get(d, x), y) == row.has(dd.get(self.D, x), y), ent(d, x, y) == ent(self.D, x, y))), [ent(d, x, y)])), tags)
        if not t.eq(self.T):
            ex.obligation("inferred constraints unchanged", z3.And(FA([x], tt.has(t, x) == tt.has(self.T, x), [tt.has(t, x)]), FA([x, y], z3.And(ml(t, x, y) == ml(self.T, x, y), cl(t, x, y) == cl(self.T, x, y)), [ml(t, x, y), cl(t, x, y)])), tags)

    def keep_inv(self, ex, tags=("C01", "C02")):
        d, t = self.now(ex)
        o = ex.st.objs["self"].get("_allowed_constraint_types")
        if isinstance(o, Ref) and ex.st.heap[o.bid].t is not None:
            at = ex.term(o)
            al = DT(STR, NONE)
            k = al.has(at, x) == z3.Or(x == ML_, x == CL_)
            ex.obligation("allowed constraint types", FA([x], k, [al.has(at, x)]), ("C02", "C08"))
        for n, f in inv(d, t):
            ex.obligation("invariant: " + n, f, tags)

    def managed(self, a):
        return dd.has(self.D, a)

    def raise_iff(self, ex, out, bad, tags):
        """ValueError exactly when bad; nothing changes then. returns True if the outcome is exceptional"""
        if out.kind == "raise":
            if out.val.name != "ValueError":
                ex.obligation("raises only ValueError", FALSE, tags)
            else:
                ex.obligation("raises ValueError only for an invalid call", bad, tags)
                self.unchanged(ex, tags)
            return True
        ex.obligation("an invalid call raises ValueError", z3.Not(bad), tags)
        return False

    def ret_true(self, ex, out, tags):
        ex.obligation("returns True", ex.eq(out.val, V(BOOL, TRUE)), tags)


def inferred_is(t, a, b, ty, v):
    """v: Optional[str] term of type ty is the inferred constraint of (a, b)"""
    o = Opt(STR)
    return z3.And((v == some_of(o, ML_)) == ml(t, a, b), (v == some_of(o, CL_)) == cl(t, a, b), is_none(o, v) == z3.And(z3.Not(ml(t, a, b)), z3.Not(cl(t, a, b))))


class GetInferred(Mgr):
    qual = MOD + "get_inferred_constraint"
    props = ("C01", "C02", "C17")
    tys = (STR, STR, REAL)

    def post(self, ex, out):
        a, b = self.args[:2]
        if self.raise_iff(ex, out, z3.Not(z3.And(self.managed(a), self.managed(b))), ("C01", "C17")):
            return
        v = ex.coerce_t(out.val, Opt(STR))
        ex.obligation("the inferred constraint, in either order", z3.And(inferred_is(self.T, a, b, None, v), inferred_is(self.T, b, a, None, v)), ("C01",))
        self.unchanged(ex, ("C17",))


class GetAdded(Mgr):
    qual = MOD + "get_added_constraint"
    props = ("C03", "C17")

    tys = (STR, STR)

    def post(self, ex, out):
        a, b = self.args[:2]
        if self.raise_iff(ex, out, z3.Not(z3.And(self.managed(a), self.managed(b))), ("C03", "C17")):
            return
        v = ex.coerce_t(out.val, OCON)
        ex.obligation("the stored constraint of the pair", v == added(self.D, a, b), ("C03",))
        self.unchanged(ex, ("C17",))


class ListManaged(Mgr):
    qual = MOD + "get_list_of_managed_data_IDs"
    props = ("C04", "C17")

    def post(self, ex, out):
        if self.no_raise(ex, out):
            return
        ex.obligation("the managed IDs in order", LS.eq(ex.coerce_t(out.val, Lst(STR)), dd.keys(self.D)), ("C04",))
        fresh = isinstance(out.val, Ref) and ex.st.heap[out.val.bid].origin == "local" and ex.st.heap[out.val.bid].stored is None
        ex.obligation("the list is fresh", z3.BoolVal(fresh), ("C17",))
        self.unchanged(ex, ("C17",))


def same_entries(d, d0, but):
    return FA([x, y], z3.Implies(z3.And(dd.has(d0, x), row.has(dd.get(d0, x), y), z3.Not(but(x, y))), ent(d, x, y) == ent(d0, x, y)), [ent(d, x, y), ent(d0, x, y)])


class AddConstraint(Mgr):
    qual = MOD + "add_constraint"
    props = ("C01", "C02", "C03", "C09")
    callable = True

    @staticmethod
    def bad(d, t, a, b, c):
        conflict = z3.Or(z3.And(c == ML_, cl(t, a, b)), z3.And(c == CL_, ml(t, a, b)))
        return z3.Or(z3.Not(dd.has(d, a)), z3.Not(dd.has(d, b)), z3.Not(z3.Or(c == ML_, c == CL_)), conflict)

    @staticmethod
    def spec(D, d, a, b, c):
        want = z3.If(is_some(OCON, added(D, a, b)), added(D, a, b), some_of(OCON, tup_mk(CON, [c, z3.RealVal(1)])))
        return [("the added constraint is stored", z3.And(is_some(OCON, added(d, a, b)), tup_get(CON, opt_val(OCON, added(d, a, b)), 0) == c, added(d, a, b) == want)),
                ("other pairs keep their constraint", same_entries(d, D, lambda p, q: z3.Or(z3.And(p == a, q == b), z3.And(p == b, q == a)))),
                ("the managed IDs are kept", dd.keys(d) == dd.keys(D))]

    def post(self, ex, out):
        a, b, c = self.args[:3]
        D, T_ = self.D, self.T
        if self.raise_iff(ex, out, self.bad(D, T_, a, b, c), ("C02", "C09")):
            return
        self.ret_true(ex, out, ("C02",))
        d, t = self.now(ex)
        for lab, f in self.spec(D, d, a, b, c):
            ex.obligation(lab, f, ("C03", "C04", "C09"))
        self.keep_inv(ex, ("C01", "C02", "C09"))

    def applies(self, ex, fi, args, kw):
        return ex.func != self.qual and isinstance(args[0] if args else kw.get("self"), ObjR)

    def apply(self, ex, fi, env):
        o = ex.st.objs[env[fi.params[0]].oid]
        rd, rt = o["_constraints_dictionary"], o["_constraints_transitivity"]
        D, T_ = ex.term(rd), ex.term(rt)
        a, b, c = [ex.coerce_t(env[n], STR) for n in fi.params[1:4]]
        for n, f in dict_inv(D) + rel_inv(T_) + link_inv(D, T_):
            ex.obligation("before adding: " + n, f)
        ex.may_raise("ValueError", z3.Not(self.bad(D, T_, a, b, c)))
        ex.st.mut += 1
        d, t = ex.fresh("D", dd.S), ex.fresh("T", tt.S)
        for r, v in ((rd, d), (rt, t)):
            bx = ex.st.heap[r.bid]
            ex.st.heap[r.bid] = bx.but(t=v, slotver=bx.slotver + 1, nestver=bx.nestver + 1)
        for n, f in self.spec(D, d, a, b, c) + inv(d, t):
            ex.assume(f)
        return V(BOOL, TRUE)


class DelConstraint(Mgr):
    qual = MOD + "delete_constraint"
    props = ("C01", "C03")
    tys = (STR, STR)

    def post(self, ex, out):
        a, b = self.args[:2]
        if self.raise_iff(ex, out, z3.Not(z3.And(self.managed(a), self.managed(b))), ("C03",)):
            return
        self.ret_true(ex, out, ("C03",))
        d, t = self.now(ex)
        D = self.D
        ex.obligation("the constraint is deleted", z3.Implies(a != b, is_none(OCON, added(d, a, b))), ("C03",))
        ex.obligation("other pairs keep their constraint", same_entries(d, D, lambda p, q: z3.Or(z3.And(p == a, q == b), z3.And(p == b, q == a))), ("C03",))
        ex.obligation("the managed IDs are kept", dd.keys(d) == dd.keys(D), ("C03", "C04"))
        self.keep_inv(ex)


class AddData(Mgr):
    qual = MOD + "add_data_ID"
    props = ("C04", "C01")
    tys = (STR,)

    def post(self, ex, out):
        a = self.args[0]
        D, T_ = self.D, self.T
        if self.raise_iff(ex, out, self.managed(a), ("C04",)):
            return
        self.ret_true(ex, out, ("C04",))
        d, t = self.now(ex)
        ex.obligation("the ID is appended to the managed IDs", LS.eq(dd.keys(d), LS.app(dd.keys(D), a)), ("C04",))
        ex.obligation("constraints of other data are kept", same_entries(d, D, lambda p, q: z3.Or(p == a, q == a)), ("C04",))
        ex.obligation("no added constraint involves the new ID", FA([x, y], z3.Implies(z3.And(dd.has(d, x), dd.has(d, y), z3.Or(x == a, y == a), x != y), is_none(OCON, added(d, x, y))), [ent(d, x, y)]), ("C04",))
        ex.obligation("inferred constraints of other data are kept", FA([x, y], z3.Implies(z3.And(tt.has(T_, x), tt.has(T_, y)), z3.And(ml(t, x, y) == ml(T_, x, y), cl(t, x, y) == cl(T_, x, y))), [ml(t, x, y), cl(t, x, y)]), ("C04",))
        self.keep_inv(ex, ("C01", "C04"))


class DelData(Mgr):
    qual = MOD + "delete_data_ID"
    props = ("C04", "C01")
    tys = (STR,)

    def post(self, ex, out):
        a = self.args[0]
        D, T_ = self.D, self.T
        if self.raise_iff(ex, out, z3.Not(self.managed(a)), ("C04",)):
            return
        self.ret_true(ex, out, ("C04",))
        d, t = self.now(ex)
        ex.obligation("the ID is removed from the managed IDs", LS.eq(dd.keys(d), LS.rem(dd.keys(D), a)), ("C04",))
        ex.obligation("constraints of other data are kept", same_entries(d, D, lambda p, q: z3.Or(p == a, q == a)), ("C04",))
        self.keep_inv(ex, ("C01", "C04"))


class Init(Mgr):
    qual = MOD + "__init__"
    props = ("C01", "C04", "C09")
    needs_inv = False
    tys = (Lst(STR),)
    callable = True

    def applies(self, ex, fi, args, kw):
        return ex.func != self.qual and isinstance(args[0] if args else None, ObjR)

    def apply(self, ex, fi, env):
        o = ex.st.objs[env[fi.params[0]].oid]
        L = ex.coerce_t(env[fi.params[1]], Lst(STR))
        d, t = ex.fresh("D", dd.S), ex.fresh("T", tt.S)
        o["_constraints_dictionary"] = ex.new_box(DTY, d)
        ref = o["_constraints_transitivity"] = ex.new_box(TTY, t)
        ex.st.heap[ref.bid] = ex.st.heap[ref.bid].but(frozen=frozenset({2}))
        al = DT(STR, NONE)
        o["_allowed_constraint_types"] = ex.new_box(St_(STR), al.set(al.set(al.empty, ML_, UNIT), CL_, UNIT))
        ex.st.mut += 1
        for _, f in self.spec(L, d) + inv(d, t):
            ex.assume(f)
        return NONEV

    @staticmethod
    def spec(L, d):
        return [("the managed IDs are the given ones", z3.And(FA([x], dd.has(d, x) == LS.mem(L, x), [dd.has(d, x), LS.mem(L, x)]), z3.Implies(LS.distinct(L), LS.eq(dd.keys(d), L)))),
                ("no constraint between different data", FA([x, y], z3.Implies(z3.And(dd.has(d, x), dd.has(d, y), x != y), is_none(OCON, added(d, x, y))), [ent(d, x, y)]))]

    def extra(self, ex):
        ex.st.objs["self"] = {}

    def post(self, ex, out):
        if self.no_raise(ex, out, ("C04",)):
            return
        L = self.args[0]
        d, t = self.now(ex)
        for lab, f in self.spec(L, d):
            ex.obligation(lab, f, ("C04", "C09"))
        self.keep_inv(ex, ("C01", "C04", "C09"))


# ------------------------------------------------------------------------------------------------ private helpers

def trans_spec(t0, t, a, b, c):
    U = lambda p: z3.Or(ml(t0, a, p), ml(t0, b, p))
    K = lambda p: z3.Or(cl(t0, a, p), cl(t0, b, p))
    isml = c == ML_
    hx = tt.has(t0, x)
    mlp = z3.If(isml, z3.Or(ml(t0, x, y), z3.And(U(x), U(y))), ml(t0, x, y))
    clp = z3.If(isml, z3.Or(cl(t0, x, y), z3.And(U(x), K(y)), z3.And(U(y), K(x))), z3.Or(cl(t0, x, y), z3.And(ml(t0, a, x), ml(t0, b, y)), z3.And(ml(t0, b, x), ml(t0, a, y))))
    return [
        ("keys", FA([x], tt.has(t, x) == tt.has(t0, x), [tt.has(t, x), tt.has(t0, x)])),
        ("must-link step", FA([x, y], z3.Implies(hx, ml(t, x, y) == mlp), [ml(t, x, y)])),
        ("cannot-link step", FA([x, y], z3.Implies(hx, cl(t, x, y) == clp), [cl(t, x, y)])),
        ("must-link grows", FA([x, y], z3.Implies(z3.And(hx, ml(t0, x, y)), ml(t, x, y)), [ml(t0, x, y)])),
        ("cannot-link grows", FA([x, y], z3.Implies(z3.And(hx, cl(t0, x, y)), cl(t, x, y)), [cl(t0, x, y)])),
        ("linked", z3.If(isml, ml(t, a, b), cl(t, a, b))),
    ]


class AddTransitivity(Mgr):
    qual = MOD + "_add_constraint_transitivity"
    optional = True
    props = ("C01", "C02")
    callable = True
    needs_inv = False
    tys = (STR, STR, STR)

    def pre(self, t, a, b, c):
        return z3.And(tt.has(t, a), tt.has(t, b), z3.If(c == ML_, z3.Not(cl(t, a, b)), z3.Not(ml(t, a, b))))

    def extra(self, ex):
        for n, f in rel_inv(self.T):
            ex.assume(f)
        ex.assume(self.pre(self.T, *self.args[:3]))

    def post(self, ex, out):
        if self.no_raise(ex, out):
            return
        d, t = self.now(ex)
        for n, f in trans_spec(self.T, t, *self.args[:3]):
            ex.obligation("transitivity: " + n, f)
        for n, f in rel_inv(t):
            ex.obligation("transitivity keeps: " + n, f)
        self.unchangedD(ex)

    def unchangedD(self, ex):
        d, t = self.now(ex)
        if not d.eq(self.D):
            ex.obligation("the added constraints are not touched", d == self.D)

    def applies(self, ex, fi, args, kw):
        return isinstance(args[0] if args else kw.get("self"), ObjR) and len(fi.params) == 4

    def apply(self, ex, fi, env):
        me = env[fi.params[0]]
        o = ex.st.objs[me.oid]
        ref = o["_constraints_transitivity"]
        a, b, c = [ex.coerce_t(env[n], STR) for n in fi.params[1:4]]
        t0 = ex.term(ref)
        ex.obligation("data are managed when a constraint is propagated", z3.And(tt.has(t0, a), tt.has(t0, b)))
        ex.obligation("no contradictory constraint is propagated", self.pre(t0, a, b, c))
        for n, f in rel_inv(t0):
            ex.obligation("before propagation: " + n, f)
        ex.st.mut += 1
        t = ex.fresh("T", tt.S)
        bx = ex.st.heap[ref.bid]
        ex.st.heap[ref.bid] = bx.but(t=t, slotver=bx.slotver + 1, nestver=bx.nestver + 1)
        for n, f in trans_spec(t0, t, a, b, c) + rel_inv(t):
            ex.assume(f)
        return V(BOOL, ex.fresh("ret", B))


def generate_templates(lv):
    """invariants of the loops that rebuild the closure: relational invariants of every transitivity table that is modified"""
    out = []
    ex = lv.ex
    d0, t0 = None, None
    c = ex.contract
    for h in lv.syms:
        if h.ty is None or res(h.ty) != TTY:
            continue
        t = h.const
        for n, f in rel_inv(t):
            out.append((n, f))
        out.append(("same rows", FA([x], tt.has(t, x) == tt.has(h.get(lv.pre), x), [tt.has(t, x)])))
        if isinstance(c, Mgr):
            D = lv.ex.coerce_t(lv.pre.objs["self"]["_constraints_dictionary"], DTY) if "_constraints_dictionary" in lv.pre.objs.get("self", {}) else None
            if D is None:
                continue
            out.append(("rows of D", FA([x], tt.has(t, x) == dd.has(D, x), [tt.has(t, x), dd.has(D, x)])))
            for n, f in minimal(t):
                out.append((n, z3.Implies(hypEF(D), f)))
            T0 = getattr(c, "T", None)
            if T0 is not None:
                out.append(("within old must-links", FA([x, y], z3.Implies(z3.And(tt.has(t, x), ml(t, x, y)), z3.And(tt.has(T0, x), ml(T0, x, y))), [ml(t, x, y)])))
                out.append(("within old cannot-links", FA([x, y], z3.Implies(z3.And(tt.has(t, x), cl(t, x, y)), z3.And(tt.has(T0, x), cl(T0, x, y))), [cl(t, x, y)])))
            # processed entries are inferred
            it = lv.it
            if it is not None and it.lst is not None and res(it.lst[0]) == STR:
                L = it.lst[1]
                i = lv.i
                e = ent(D, x, y)
                def done(guard):
                    return FA([x, y], z3.Implies(guard, z3.And(z3.Implies(is_ml(D, x, y), ml(t, x, y)), z3.Implies(is_cl(D, x, y), cl(t, x, y)))), [e])
                out.append(("processed rows", done(z3.And(LS.mem(L, x), LS.idx(L, x) < i))))
                cur = ex_row(L, D)
                if cur is not None:
                    out.append(("processed entries", done(z3.And(x == cur, LS.mem(L, y), LS.idx(L, y) < i))))
            pt = h.get(lv.pre)
            out.append(("keeps must-links", FA([x, y], z3.Implies(z3.And(tt.has(t, x), ml(pt, x, y)), ml(t, x, y)), [ml(pt, x, y)])))
            out.append(("keeps cannot-links", FA([x, y], z3.Implies(z3.And(tt.has(t, x), cl(pt, x, y)), cl(t, x, y)), [cl(pt, x, y)])))
    return out


def ex_row(L, D):
    """L = keys of a row D[c]: return c"""
    if z3.is_app(L) and L.decl().eq(row.keys) and z3.is_app(L.arg(0)) and L.arg(0).decl().eq(dd.get) and L.arg(0).arg(0).eq(D):
        return L.arg(0).arg(1)
    return None


class Generate(Mgr):
    qual = MOD + "_generate_constraints_transitivity"
    optional = True
    props = ("C01", "C04", "C03")
    callable = True
    needs_inv = False
    templates = (generate_templates,)
    tys = ()

    @staticmethod
    def pre(d, t):
        """entry: t is any consistent closed table containing the added constraints of d (for all data of d)"""
        e = ent(d, x, y)
        return dict_inv(d) + rel_inv(t) + [
            ("data of D", FA([x], z3.Implies(dd.has(d, x), tt.has(t, x)), [dd.has(d, x)])),
            ("must-links of D", FA([x, y], z3.Implies(is_ml(d, x, y), ml(t, x, y)), [e])),
            ("cannot-links of D", FA([x, y], z3.Implies(is_cl(d, x, y), cl(t, x, y)), [e])),
        ]

    def extra(self, ex):
        for n, f in self.pre(self.D, self.T):
            ex.assume(f)

    def post(self, ex, out):
        if self.no_raise(ex, out):
            return
        d, t = self.now(ex)
        if not d.eq(self.D):
            ex.obligation("the added constraints are not touched", d == self.D)
        for n, f in inv(self.D, t):
            ex.obligation("rebuilt: " + n, f)

    def applies(self, ex, fi, args, kw):
        return isinstance(args[0] if args else None, ObjR) and len(fi.params) == 1

    def apply(self, ex, fi, env):
        me = env[fi.params[0]]
        o = ex.st.objs[me.oid]
        d = ex.term(o["_constraints_dictionary"])
        t0 = ex.term(o["_constraints_transitivity"])
        for n, f in self.pre(d, t0):
            ex.obligation("before rebuilding: " + n, f)
        t = ex.fresh("T", tt.S)
        ex.st.mut += 1
        ref = ex.new_box(TTY, t)
        ex.st.heap[ref.bid] = ex.st.heap[ref.bid].but(frozen=frozenset({2}))
        o["_constraints_transitivity"] = ref
        ex.st.ghost[("written", me.oid, "_constraints_transitivity")] = True
        for n, f in inv(d, t):
            ex.assume(f)
        return NONEV


GRAPH = Obj("Graph")
COL = DT(OPQ, INT)
LO = LT(OPQ)


def install(prog, reg):
    install_graph(reg)
    reg.models["BinaryConstraintsManager"] = ClassModel({"_constraints_dictionary": DTY, "_constraints_transitivity": TTY}, {"_constraints_transitivity": {2}})


# ---------------------------------------------------------------------------------------------- derived queries
LLT = Lst(Lst(STR))
LC = LT(Lst(STR))
p_, q_ = z3.Ints("p q")


def comp_inv(C, t):
    """C: a list of must-link groups of t, none twice"""
    g = LC.at(C, p_)
    inr = z3.And(0 <= p_, p_ < LC.len(C))
    return [
        ("groups", FA([p_], z3.Implies(inr, z3.And(LS.len(g) > 0, LS.distinct(g), tt.has(t, LS.at(g, 0)))), [g])),
        ("a group is a must-link class", FA([p_, x], z3.Implies(inr, LS.mem(g, x) == ml(t, LS.at(g, 0), x)), [LS.mem(g, x)])),
        ("groups do not overlap", FA([p_, q_, x], z3.Implies(z3.And(inr, 0 <= q_, q_ < LC.len(C), LS.mem(g, x), LS.mem(LC.at(C, q_), x)), p_ == q_), [[LS.mem(g, x), LS.mem(LC.at(C, q_), x)]])),
    ]


def in_some(C, a):
    return z3.Exists([p_], z3.And(0 <= p_, p_ < LC.len(C), LS.mem(LC.at(C, p_), a)), patterns=[LC.at(C, p_)])


def comp_templates(lv):
    out = []
    c = lv.ex.contract
    t = c.T
    for h in lv.syms:
        if h.ty is None or unresolved(res(h.ty)) or res(h.ty) != LLT:
            continue
        C = h.const
        out += comp_inv(C, t)
        out.append(("groups as stored", FA([p_], z3.Implies(z3.And(0 <= p_, p_ < LC.len(C)), LC.at(C, p_) == ss.keys(mlset(t, LS.at(LC.at(C, p_), 0)))), [LC.at(C, p_)])))
        it = lv.it
        if it is not None and it.lst is not None and res(it.lst[0]) == STR:
            L = it.lst[1]
            out.append(("the groups of seen data are listed", FA([q_], z3.Implies(z3.And(0 <= q_, q_ < lv.i), LC.mem(C, ss.keys(mlset(t, LS.at(L, q_))))), [LS.at(L, q_)])))
            out.append(("seen data are in a group", FA([q_], z3.Implies(z3.And(0 <= q_, q_ < lv.i), in_some(C, LS.at(L, q_))), [LS.at(L, q_)])))
    for h in lv.syms:
        if h.ty is not None and not unresolved(res(h.ty)) and res(h.ty).kind in ("set", "dict") and res(res(h.ty).args[0]) == STR and lv.it is not None and lv.it.lst is not None and res(lv.it.lst[0]) == STR:
            d = DT(STR, res(h.ty).args[1] if res(h.ty).kind == "dict" else NONE)
            out.append(("marked data are closed under must-links", FA([x, y], z3.Implies(z3.And(d.has(h.const, x), tt.has(t, x), ml(t, x, y)), d.has(h.const, y)), [[d.has(h.const, x), ml(t, x, y)]])))
            for g in lv.syms:
                if g.ty is not None and not unresolved(res(g.ty)) and res(g.ty) == LLT:
                    out.append(("marked data are those in a group", FA([x], z3.Implies(d.has(h.const, x), z3.And(tt.has(t, x), in_some(g.const, x))), [d.has(h.const, x)])))
                    out.append(("data in a group are marked", FA([p_, x], z3.Implies(z3.And(0 <= p_, p_ < LC.len(g.const), LS.mem(LC.at(g.const, p_), x)), d.has(h.const, x)), [LS.mem(LC.at(g.const, p_), x)])))
    return out


class Components(Mgr):
    qual = MOD + "get_connected_components"
    props = ("C05", "C17")
    tys = (REAL,)
    templates = (comp_templates,)
    callable = True

    def applies(self, ex, fi, args, kw):
        return isinstance(args[0] if args else kw.get("self"), ObjR)

    def apply(self, ex, fi, env):
        from contracts.client import comp_facts
        o = ex.st.objs[env[fi.params[0]].oid]
        d, t = ex.coerce_t(o["_constraints_dictionary"], DTY), ex.coerce_t(o["_constraints_transitivity"], TTY)
        if not (d.eq(getattr(ex.contract, "D", None)) and t.eq(ex.contract.T)):
            for n, f in inv(d, t):
                ex.obligation("before listing components: " + n, f)
        C = ex.fresh("comps", LC.S)
        ix = z3.Function(str(C) + "_ix", StrS, N)
        for n, f in comp_facts(C, ix, lambda a, b: ml(t, a, b), lambda a: tt.has(t, a)):
            ex.assume(f)
        ex.st.ghost["components"] = (C, ix)
        return ex.new_box(LLT, C)

    def post(self, ex, out):
        if self.no_raise(ex, out):
            return
        C = ex.coerce_t(out.val, LLT)
        t = self.T
        inr = z3.And(0 <= p_, p_ < LC.len(C))
        g = LC.at(C, p_)
        ex.obligation("no component is empty, no data twice in one", FA([p_], z3.Implies(inr, z3.And(LS.len(g) > 0, LS.distinct(g))), [g]), ("C05",))
        ex.obligation("every managed data is in a component", FA([x], z3.Implies(self.managed(x), in_some(C, x)), [self.managed(x)]), ("C05",))
        ex.obligation("components have only managed data", FA([p_, x], z3.Implies(z3.And(inr, LS.mem(g, x)), self.managed(x)), [LS.mem(g, x)]), ("C05",))
        ex.obligation("no data is in two components", FA([p_, q_, x], z3.Implies(z3.And(inr, 0 <= q_, q_ < LC.len(C), LS.mem(g, x), LS.mem(LC.at(C, q_), x)), p_ == q_), [[LS.mem(g, x), LS.mem(LC.at(C, q_), x)]]), ("C05",))
        ex.obligation("the same component exactly when must-linked", FA([p_, x, y], z3.Implies(z3.And(inr, LS.mem(g, x)), LS.mem(g, y) == ml(t, x, y)), [[LS.mem(g, x), LS.mem(g, y)], [LS.mem(g, x), ml(t, x, y)]]), ("C05",))
        fresh = isinstance(out.val, Ref) and ex.st.heap[out.val.bid].origin == "local" and ex.st.heap[out.val.bid].stored is None
        ex.obligation("the list is fresh", z3.BoolVal(fresh), ("C17",))
        self.unchanged(ex, ("C17",))


class Complete(Mgr):
    lean = ("lemmas/Card.lean",)
    qual = MOD + "check_completude_of_constraints"
    props = ("C06", "C17")
    tys = (REAL,)

    def extra(self, ex):
        # counting lemma (lemmas/Card.lean), applied to the must-link and the cannot-link group of each data
        t = self.T
        a = z3.Const("a", StrS)
        A, B_, L = ss.keys(mlset(t, a)), ss.keys(clset(t, a)), tt.keys(t)
        prem, conc = T.card_split(STR, A, B_, L, y, z3.Function("cplw", StrS, StrS)(a))
        ex.obligation("premises of the counting lemma", forall([a, y], z3.Implies(tt.has(t, a), prem)), ("C06",))
        for c in conc:
            ex.assume(FA([a], z3.Implies(tt.has(t, a), c), [[LS.len(A), LS.len(B_)]]))

    def post(self, ex, out):
        if self.no_raise(ex, out):
            return
        t = self.T
        full = FA([x, y], z3.Implies(z3.And(self.managed(x), self.managed(y)), z3.Or(ml(t, x, y), cl(t, x, y))), [ml(t, x, y), cl(t, x, y)])
        v = ex.coerce_t(out.val, BOOL)
        ex.obligation("True only when every pair has an inferred constraint", z3.Implies(v, full), ("C06",))
        ex.obligation("True when every pair has an inferred constraint", z3.Implies(full, v), ("C06",))
        self.unchanged(ex, ("C17",))


class Conflict(Mgr):
    qual = MOD + "get_list_of_involved_data_IDs_in_a_constraint_conflict"
    props = ("C08", "C17")
    tys = (STR, STR, STR)

    def post(self, ex, out):
        a, b, c = self.args[:3]
        t = self.T
        if self.raise_iff(ex, out, z3.Or(z3.Not(self.managed(a)), z3.Not(self.managed(b)), z3.Not(z3.Or(c == ML_, c == CL_))), ("C08",)):
            return
        conflict = z3.Or(z3.And(c == ML_, cl(t, a, b)), z3.And(c == CL_, ml(t, a, b)))
        v = ex.coerce_t(out.val, Opt(Lst(STR)))
        ex.obligation("None exactly when there is no conflict", is_none(Opt(Lst(STR)), v) == z3.Not(conflict), ("C08",))
        R = opt_val(Opt(Lst(STR)), v)
        ok = is_some(Opt(Lst(STR)), v)
        ex.obligation("each data once", z3.Implies(ok, LS.distinct(R)), ("C08",))
        ex.obligation("only the data of the two groups", FA([x], z3.Implies(z3.And(ok, LS.mem(R, x)), z3.Or(ml(t, a, x), ml(t, b, x))), [LS.mem(R, x)]), ("C08",))
        ex.obligation("all data of the two groups", FA([x], z3.Implies(z3.And(ok, z3.Or(ml(t, a, x), ml(t, b, x))), LS.mem(R, x)), [ml(t, a, x), ml(t, b, x)]), ("C08",))
        self.unchanged(ex, ("C17",))


# ------------------------------------------------------------------------------------------- bounds on the number of clusters

def node(v, s):
    return T.box_opq(v)


def install_graph(reg):
    """networkx: a graph is the set of its nodes and edges; a greedy colouring gives two neighbours different non-negative colours (assumed)"""
    def graph(ex, args, kw, e):
        if args or kw:
            return NotImplemented
        g = ex.fresh("graph", sort(GRAPH))
        ex.st.ghost[("graph", str(g))] = ()
        return V(GRAPH, g)

    def part(ex, recv, what, lst):
        k = ("graph", str(ex.term(recv)))
        if k not in ex.st.ghost:
            ex.unsupported("unknown graph")
        l = ex.to_list(ex.unopt(lst))
        ty = res(ex.type_of(l))
        if not unresolved(ty):
            ex.st.ghost[k] = ex.st.ghost[k] + ((what, ty.args[0], ex.term(l)),)
        ex.st.mut += 1
        return NONEV
    reg.externals["networkx.Graph"] = graph
    reg.objmethods[("Graph", "add_nodes_from")] = lambda ex, recv, args, kw: part(ex, recv, "nodes", (args + list(kw.values()))[0])
    reg.objmethods[("Graph", "add_edges_from")] = lambda ex, recv, args, kw: part(ex, recv, "edges", (args + list(kw.values()))[0])

    def one(what):
        def h(ex, recv, args, kw):
            vals = args + [kw[k] for k in kw]
            return part(ex, recv, what, ex.list_lit([vals[0]] if what == "nodes" else [PTup(vals)]))
        return h
    reg.objmethods[("Graph", "add_node")] = one("nodes")
    reg.objmethods[("Graph", "add_edge")] = one("edges")

    def colour(ex, args, kw, e):
        g = args[0] if args else kw.get("G")
        k = ("graph", str(ex.term(g)))
        if k not in ex.st.ghost:
            ex.unsupported("unknown graph")
        c = ex.fresh("colours", COL.S)
        o = z3.Const("o", OpqS)
        ex.assume(FA([o], z3.Implies(COL.has(c, o), COL.get(c, o) >= 0), [COL.get(c, o)]))
        for what, ty, l in ex.st.ghost[k]:
            lt = LT(ty)
            v = lt.at(l, p_)
            inr = z3.And(0 <= p_, p_ < lt.len(l))
            if what == "nodes":
                ex.assume(FA([p_], z3.Implies(inr, COL.has(c, node(v, sort(ty)))), [v]))
                ex.assume(z3.Implies(lt.len(l) > 0, COL.has(c, node(lt.at(l, 0), sort(ty)))))
            else:
                a, b = [node(tup_get(ty, v, n), sort(ty.args[n])) for n in (0, 1)]
                ex.assume(FA([p_], z3.Implies(inr, z3.And(COL.has(c, a), COL.has(c, b), z3.Implies(a != b, COL.get(c, a) != COL.get(c, b)))), [v]))
        ex.st.ghost["colourings"] = ex.st.ghost.get("colourings", ()) + (c,)
        return ex.new_box(Dct(OPQ, INT), c)
    for n in ("networkx.coloring.greedy_color", "networkx.greedy_color", "networkx.algorithms.coloring.greedy_color"):
        reg.externals[n] = colour


WITNESS_RL = 6000000


class Bounds(Mgr):
    qual = MOD + "get_min_and_max_number_of_clusters"
    props = ("C07", "C17")
    tys = (REAL,)
    assumes = ("networkx.coloring.greedy_color colours every node of the graph with a non-negative integer and gives the two ends of an edge different colours",)

    def extra(self, ex):
        ex.assume(z3.And(LS.len(tt.keys(self.T)) > 0, tt.has(self.T, LS.at(tt.keys(self.T), 0))))   # at least one data

    def post(self, ex, out):
        if self.no_raise(ex, out, ("C07",)):
            return
        t = self.T
        r = ex.coerce_t(out.val, Tup(INT, INT))
        mn, mx = tup_get(Tup(INT, INT), r, 0), tup_get(Tup(INT, INT), r, 1)
        g = ex.st.ghost.get("components")
        if g is None:
            ex.unsupported("the components are not those of get_connected_components")
        C, ix = g
        ex.obligation("the maximum is the number of components", mx == LC.len(C), ("C07",))
        ex.obligation("the minimum is at least 2", mn >= 2, ("C07",))
        # a labelling with that many labels: the colouring on the data with several cannot-links, 0 / 1 on the others
        rep = lambda a: LS.at(LC.at(C, ix(a)), 0)
        CLs = lambda a: ss.keys(clset(t, a))
        cols = ex.st.ghost.get("colourings", ())
        if not cols:
            ex.unsupported("no colouring")
        o = z3.Const("o", OpqS)
        below = lambda c: FA([o], z3.Implies(COL.has(c, o), COL.get(c, o) < mn), [COL.get(c, o)])
        ex.obligation("one of the colourings needs at most the minimum", z3.Or(*[below(c) for c in cols]), ("C07",))
        keys = [lambda a: node(a, StrS)]   # the node that stands for a group: its first data, or the position of this data in a list
        for nm, v in ex.st.env.items():
            if isinstance(v, Ref) and ex.st.heap[v.bid].t is not None and res(ex.st.heap[v.bid].ty) == Lst(STR):
                keys.insert(0, lambda a, L=ex.term(v): node(LS.idx(L, a), N))

        isrep = lambda a: z3.And(self.managed(a), rep(a) == a)
        many = lambda a: LS.len(CLs(a)) > 1
        ex.obligation("bounds: first data of a group", FA([x], z3.Implies(self.managed(x), z3.And(isrep(rep(x)), ml(t, x, rep(x)), ml(t, rep(x), x))), [rep(x)]), ("C07",))
        ex.obligation("bounds: groups of cannot-linked data", FA([x, y], z3.Implies(z3.And(self.managed(x), cl(t, x, y)), z3.And(cl(t, rep(x), rep(y)), rep(x) != rep(y))), [cl(t, x, y)]), ("C07",))
        ex.obligation("bounds: a single cannot-link", FA([x, y], z3.Implies(z3.And(self.managed(x), cl(t, x, y), z3.Not(many(x))), z3.And(LS.len(CLs(x)) == 1, y == LS.at(CLs(x), 0))), [cl(t, x, y)]), ("C07",))

        def coloured(c, nd):
            return FA([x, y], z3.Implies(z3.And(isrep(x), isrep(y), many(x), many(y), cl(t, x, y)), z3.And(COL.has(c, nd(x)), COL.has(c, nd(y)), COL.get(c, nd(x)) != COL.get(c, nd(y)))), [cl(t, x, y)])

        def labels(c, nd):
            col = lambda a: z3.If(COL.has(c, nd(a)), COL.get(c, nd(a)), 0)
            rx = rep(x)
            only = LS.at(CLs(rx), 0)
            two = z3.If(many(only), z3.If(col(only) == 0, z3.IntVal(1), z3.IntVal(0)), z3.If(rk(rx) < rk(only), z3.IntVal(0), z3.IntVal(1)))
            val = z3.If(many(rx), col(rx), z3.If(LS.len(CLs(rx)) == 1, two, z3.IntVal(0)))
            ex.st.ctr += 1
            w = z3.Function("label!%d" % ex.st.ctr, StrS, N)
            de = FA([x], w(x) == val, [w(x)])
            hyp = z3.And(below(c), de)
            return [(lab, z3.Implies(hyp, f)) for lab, f in (
                ("labels are below the minimum", FA([x], z3.Implies(self.managed(x), z3.And(0 <= w(x), w(x) < mn)), [w(x)])),
                ("must-linked data have the same label", FA([x, y], z3.Implies(z3.And(self.managed(x), self.managed(y), ml(t, x, y)), w(x) == w(y)), [[w(x), w(y)], ml(t, x, y)])),
                ("cannot-linked data have different labels", FA([x, y], z3.Implies(z3.And(self.managed(x), self.managed(y), cl(t, x, y)), w(x) != w(y)), [cl(t, x, y)])))]
        nd = next((k for k in keys[:-1] if ex.prove(coloured(cols[0], k), rlimit=WITNESS_RL, tag="witness")), keys[-1])
        st = ex.st
        for c in cols:
            ex.st = st.copy()
            ex.obligation("cannot-linked groups have different colours", coloured(c, nd), ("C07",))
            for lab, f in labels(c, nd):
                ex.obligation("the data can be split into the minimum number of labels: " + lab, f, ("C07",))
        ex.st = st
        self.unchanged(ex, ("C17",))
