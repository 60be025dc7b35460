"""Expression evaluation."""
import ast
import z3
from .values import *
from .execu import *
from .execu import _NeedFork
from . import theory as T
from .source import FuncInfo, ClassInfo, ModuleInfo

BUILTINS = {"len", "list", "dict", "set", "tuple", "sorted", "min", "max", "sum", "any", "all", "range", "enumerate", "zip", "str", "int", "float", "bool",
            "isinstance", "print", "abs", "reversed", "map", "filter", "next", "iter", "frozenset", "repr", "round", "open", "super", "type", "getattr", "hasattr", "id", "callable", "divmod", "object"}
TYPES = {"str", "int", "float", "bool", "dict", "list", "set", "tuple", "object", "frozenset"}


class ExprMixin:
    # ------------------------------------------------------------------------------------------------------ driver
    def ev(self, e):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.unsupported("expression " + type(e).__name__)
        return m(e)

    def evr(self, e):
        return self.unguard(self.ev(e))

    def ev_Constant(self, e):
        return self.const(e.value)

    def const(self, v):
        if v is None:
            return NONEV
        if v is True or v is False:
            return V(BOOL, z3.BoolVal(v))
        if isinstance(v, int):
            return V(INT, z3.IntVal(v))
        if isinstance(v, float):
            if v == float("inf"):
                return V(REAL, INF)
            if v != v:
                return V(REAL, NAN_)
            return V(REAL, z3.RealVal(repr(v)))
        if isinstance(v, str):
            return V(STR, lit(v))
        if v is Ellipsis:
            return NONEV
        self.unsupported("constant %r" % (v,))

    def ev_Name(self, e):
        n = e.id
        if n in self.st.env:
            v = self.st.env[n]
            return self.unguard(v)
        return self.global_name(n)

    def global_name(self, n):
        cl = self.st.env.get("__closure__")
        if cl is not None and n in cl:
            return self.unguard(cl[n])
        m = self.fi.module
        if n in m.funcs:
            return FnV(m.funcs[n])
        if n in m.classes:
            return ClsV(m.classes[n])
        if n in m.imports:
            d = m.imports[n]
            r = self.prog.resolve_dotted(d)
            if isinstance(r, FuncInfo):
                return FnV(r)
            if isinstance(r, ClassInfo):
                return ClsV(r)
            if isinstance(r, tuple):
                return self.ev(r[2])
            return ModV(d)
        if n in m.consts:
            return self.ev(m.consts[n])
        if n in TYPES:
            return TyV(n)
        if n in BUILTINS:
            return ModV("builtins." + n)
        if n in EXC_PARENTS or n.endswith("Error") or n.endswith("Warning"):
            return ExcV(n)
        self.unsupported("unknown name " + n)

    def ev_JoinedStr(self, e):
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                self.ev(p.value)
        return V(STR, self.fresh("fstr", StrS))

    def ev_Lambda(self, e):
        return Lam(e, self.st.env, self.fi)

    def ev_Tuple(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iter_of(self.evr(x.value))
                if getattr(it, "concrete", None) is None:
                    self.unsupported("starred element of unknown length")
                items += it.concrete
            else:
                items.append(self.evr(x))
        return PTup(items)

    def ev_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            acc = None
            for x in e.elts:
                part = self.to_list(self.evr(x.value)) if isinstance(x, ast.Starred) else self.list_lit([self.evr(x)])
                acc = part if acc is None else self.list_cat(acc, part)
            return acc
        return self.list_lit([self.evr(x) for x in e.elts])

    def ev_Set(self, e):
        return self.set_lit([self.evr(x) for x in e.elts])

    def set_lit(self, items):
        if not items:
            return self.new_box(St_(TVar()), None)
        ty = self.type_of(items[0])
        for x in items[1:]:
            ty = self.join(ty, self.type_of(x))
        d = DT(ty, NONE)
        t = d.empty
        for x in items:
            t = d.set(t, self.coerce_t(x, ty), UNIT)
        return self.new_box(St_(ty), t)

    def ev_Dict(self, e):
        if not e.keys:
            return self.new_box(Dct(TVar(), TVar()), None)
        if any(k is None for k in e.keys):
            # {**a, **b, k: v}
            acc = None
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = self.unopt(self.ev(v))
                    ty = res(self.type_of(d))
                    if ty.kind != "dict":
                        self.unsupported("** of " + str(ty))
                    t = None if unresolved(ty) else self.term(d)
                    if acc is None:
                        acc = (ty, t)
                    elif t is None:
                        pass
                    elif acc[1] is None:
                        acc = (ty, t)
                    else:
                        unify(acc[0], ty)
                        acc = (ty, DT(*res(ty).args).merge(acc[1], t))
                else:
                    kv, vv = self.evr(k), self.evr(v)
                    if acc is None or acc[1] is None:
                        ty = Dct(self.type_of(kv), self.type_of(vv))
                        if acc is not None:
                            unify(acc[0], ty)
                        acc = (ty, DT(*ty.args).empty)
                    ty = res(acc[0])
                    acc = (ty, DT(*ty.args).set(acc[1], self.coerce_t(kv, ty.args[0]), self.coerce_t(vv, ty.args[1])))
            ref = self.new_box(acc[0], acc[1])
            if is_mutable(res(acc[0]).args[1]) if not unresolved(acc[0]) else False:
                self.st.heap[ref.bid] = self.st.heap[ref.bid].but(frozen=frozenset({1, 2, 3}))
            return ref
        ks = [self.evr(k) for k in e.keys]
        vs = [self.evr(v) for v in e.values]
        return self.dict_lit(ks, vs)

    def dict_lit(self, ks, vs):
        try:
            kt, vt = self.type_of(ks[0]), self.type_of(vs[0])
            for k in ks[1:]:
                kt = self.join(kt, self.type_of(k))
            kinds = {res(self.type_of(v)).kind for v in vs}
            if len(kinds - {"none"}) > 1 and all(isinstance(k, V) and is_lit(k.t) for k in ks):
                raise TypeMismatch("record")
            for v in vs[1:]:
                vt = self.join(vt, self.type_of(v))
            ty = Dct(kt, vt)
            if unresolved(ty):
                ref = self.new_box(ty, None)
                self.st.heap[ref.bid].pending = None
                return self.rec_lit(ks, vs)
            d = DT(kt, vt)
            t = d.empty
            ref = self.new_box(ty, t)
            for k, v in zip(ks, vs):
                t = d.set(t, self.coerce_t(k, kt), self.store_elem(ref, v, vt))
            self.st.heap[ref.bid] = self.st.heap[ref.bid].but(t=t)
            return ref
        except TypeMismatch:
            return self.rec_lit(ks, vs)

    def rec_lit(self, ks, vs):
        if not all(isinstance(k, V) and is_lit(k.t) for k in ks):
            self.unsupported("dict display with mixed value types")
        fs = []
        for k, v in zip(ks, vs):
            vt = self.type_of(v)
            if unresolved(vt):
                return PRec([(lit_value(k.t), v) for k, v in zip(ks, vs)])
            fs.append((lit_value(k.t), vt))
        ty = Rec(fs)
        return V(ty, sort(ty).constructor(0)(*[self.term(v) for v in vs]))

    # ------------------------------------------------------------------------------------------------------ boolean
    def cond(self, e):
        """truth value of an expression, without forking when possible"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = None
            for x in e.values:
                if acc is None:
                    acc = self.cond(x)
                    continue
                g = acc if isand else not_(acc)
                k = self.known(g)
                if k is True:
                    acc = self.cond(x) if isand else self.cond(x)
                    continue
                if k is False:
                    continue
                try:
                    c = self.merged(lambda: self.cond(x), guard=g)
                except Infeasible:
                    c = TRUE if isand else FALSE   # the guard is contradictory: operand never evaluated
                except _NeedFork:
                    if self.binders and not self.loop_forks():
                        self.unsupported("effect inside a boolean operator")
                    if self.decide(g):
                        c = self.cond(x)
                        acc = c
                        continue
                    else:
                        acc = FALSE if isand else TRUE
                        continue
                acc = and_([acc, c]) if isand else or_([acc, c])
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand))
        return self.truth(self.ev(e))

    def loop_forks(self):
        return not self.binders

    def ev_BoolOp(self, e):
        vs = []
        # if every operand is boolean the result is boolean; otherwise use the value semantics
        st0 = self.st
        try:
            probe = self.explore(lambda: [self.type_kind(x) for x in e.values[:1]], st0)
        except Unsupported:
            probe = []
        first = probe[0][1][1][0] if probe and probe[0][1][0] == "ok" else "?"
        if first == "bool":
            return V(BOOL, self.cond(e))
        isand = isinstance(e.op, ast.And)
        v = self.evr(e.values[0])
        for x in e.values[1:]:
            c = self.truth(v)
            if self.decide(c) == isand:
                v = self.evr(x)
            else:
                return v
        return v

    def type_kind(self, x):
        v = self.evr(x)
        return res(self.type_of(v)).kind

    def ev_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return V(BOOL, self.cond(e))
        v = self.unopt(self.ev(e.operand))
        ty = res(self.type_of(v))
        if isinstance(e.op, ast.USub):
            if ty.kind in ("int", "real"):
                return V(ty, z3.simplify(-self.term(v)))
            if ty.kind == "opq":
                return self.ext_app("neg", [v])
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and ty.kind == "opq":
            return self.ext_app("inv", [v])
        self.unsupported("unary operator")

    def ev_IfExp(self, e):
        c = self.cond(e.test)
        k = self.known(c)
        if k is True:
            return self.ev(e.body)
        if k is False:
            return self.ev(e.orelse)
        start = self.st

        def run():
            if self.decide(c):
                return self.evr(e.body)
            return self.evr(e.orelse)

        outs = self.explore(run, start)
        plain = all(kd == "ok" for _, (kd, _) in outs) and all(o.mut == start.mut for o, _ in outs)
        if plain and all(isinstance(r, (V, PTup)) or (self.binders and isinstance(r, (V, Ref, View, PTup))) for _, (_, r) in outs):
            try:
                return self.merge_outs(start, outs)
            except TypeMismatch:
                pass
        if self.binders and not self.forkable:
            if plain:
                return self.merge_outs(start, outs)
            self.unsupported("effect inside a conditional expression")
        return self.take_outcome(outs)

    forkable = False

    def ev_Compare(self, e):
        left = self.evr(e.left)
        res_ = []
        for op, r in zip(e.ops, e.comparators):
            right = self.evr(r)
            res_.append(self.compare(op, left, right))
            left = right
        return V(BOOL, and_(res_))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return not_(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains_(a, b)
        if isinstance(op, ast.NotIn):
            return not_(self.contains_(a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else not_(r)
        a, b = self.unopt(a), self.unopt(b)
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
        strict = isinstance(op, (ast.Lt, ast.Gt))
        ta, tb = res(self.type_of(a)), res(self.type_of(b))
        if ta.kind == "str" and tb.kind == "str":
            x, y = rk(self.term(a)), rk(self.term(b))
        elif ta.kind in ("int", "bool") and tb.kind in ("int", "bool"):
            x, y = self.coerce_t(a, INT), self.coerce_t(b, INT)
        elif ta.kind in ("int", "real", "opq", "bool") and tb.kind in ("int", "real", "opq", "bool"):
            if ta.kind == "opq" and tb.kind == "opq":
                # element-wise comparison of arrays or comparison of numbers: opaque
                return opq_bool(self.ext_app("cmp_lt" if strict else "cmp_le", [a, b]).t)
            x, y = self.coerce_t(a, REAL), self.coerce_t(b, REAL)
        elif ta.kind == "tup" and tb.kind == "tup" and ta == tb:
            f = le_t(ta, self.term(a), self.term(b))
            return z3.And(f, self.term(a) != self.term(b)) if strict else f
        elif ta.kind == "set" and ta == tb:
            return self.subset(a, b, strict)
        else:
            self.unsupported("comparison of %s and %s" % (ta, tb))
        return x < y if strict else x <= y

    def subset(self, a, b, strict):
        ty = res(self.type_of(a))
        d = DT(ty.args[0], NONE)
        x, y = self.term(a), self.term(b)
        r = self.fresh("sub", z3.BoolSort())
        w = self.fresh("subw", d.K)
        k = z3.Const("sk", d.K)
        self.assume(z3.Implies(r, FA([k], z3.Implies(d.has(x, k), d.has(y, k)), [d.has(x, k)])), "d")
        self.assume(z3.Implies(z3.Not(r), z3.And(d.has(x, w), z3.Not(d.has(y, w)))), "d")
        return z3.And(r, z3.Not(d.eq(x, y))) if strict else r

    def is_(self, a, b):
        ta, tb = res(self.type_of(a)), res(self.type_of(b))
        if ta.kind == "none" or tb.kind == "none":
            return self.eq(a, b)
        if ta.kind == "bool" and tb.kind == "bool":
            return self.term(a) == self.term(b)
        if {ta.kind, tb.kind} == {"bool", "opq"} or ta.kind == "opq" and tb.kind == "opq":
            f = z3.Function("py_is", OpqS, OpqS, z3.BoolSort())
            return f(self.coerce_t(a, OPQ), self.coerce_t(b, OPQ))
        if ta.kind == "opt" and tb.kind == "bool":
            return self.eq(a, b)
        if ta.kind.startswith("obj:") and ta == tb:
            return self.term(a) == self.term(b)
        if ta.kind != tb.kind:
            return FALSE
        self.unsupported("identity test")

    # ----------------------------------------------------------------------------------------------------- operators
    def ev_BinOp(self, e):
        return self.binop(e.op, self.unopt(self.ev(e.left)), self.unopt(self.ev(e.right)))

    def list_cat(self, a, b):
        ta, tb = res(self.type_of(a)), res(self.type_of(b))
        if unresolved(ta) and unresolved(tb):
            unify(ta, tb)
            return self.new_box(ta, None)
        if unresolved(ta):
            return self.new_box(tb, self.term(b))
        if unresolved(tb):
            return self.new_box(ta, self.term(a))
        et = self.join(ta.args[0], tb.args[0])
        x, y = self.coerce_t(a, Lst(et)), self.coerce_t(b, Lst(et))
        r = self.new_box(Lst(et), LT(et).cat(x, y))
        if is_mutable(et):
            self.st.heap[r.bid] = self.st.heap[r.bid].but(frozen=frozenset({1, 2, 3}))
        return r

    def binop(self, op, a, b):
        ta, tb = res(self.type_of(a)), res(self.type_of(b))
        nm = type(op).__name__
        num = ("int", "real", "bool")
        if ta.kind in num and tb.kind in num:
            real = "real" in (ta.kind, tb.kind)
            if nm == "Div":
                x, y = self.coerce_t(a, REAL), self.coerce_t(b, REAL)
                self.obligation("no division by zero", y != 0)
                return V(REAL, x / y)
            ty = REAL if real else INT
            x, y = self.coerce_t(a, ty), self.coerce_t(b, ty)
            if nm == "Add":
                return V(ty, z3.simplify(x + y) if (z3.is_int_value(x) and z3.is_int_value(y)) else x + y)
            if nm == "Sub":
                return V(ty, x - y)
            if nm == "Mult":
                if not (z3.is_int_value(x) or z3.is_int_value(y) or z3.is_rational_value(x) or z3.is_rational_value(y)):
                    # non-linear: uninterpreted product with the facts used in proofs
                    f = z3.Function("mul_" + ty.kind, sort(ty), sort(ty), sort(ty))
                    r = f(x, y)
                    self.assume(z3.Implies(z3.And(x > 0, y > 0), r > 0))
                    self.assume(z3.Implies(z3.Or(x == 0, y == 0), r == 0))
                    self.assume(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(r >= x, r >= y)))
                    return V(ty, r)
                return V(ty, x * y)
            if nm in ("FloorDiv", "Mod") and not real:
                self.obligation("no division by zero", y != 0)
                if z3.is_int_value(y) and y.as_long() > 0 or self.known(y > 0):
                    return V(INT, x / y if nm == "FloorDiv" else x % y)
                f = z3.Function("py_" + nm, z3.IntSort(), z3.IntSort(), z3.IntSort())
                return V(INT, f(x, y))
            if nm == "Pow":
                f = z3.Function("py_pow_" + ty.kind, sort(ty), sort(ty), sort(ty))
                return V(ty, f(x, y))
            if nm in ("BitOr", "BitAnd") and ta.kind == tb.kind == "bool":
                p, q = self.term(a), self.term(b)
                return V(BOOL, or_([p, q]) if nm == "BitOr" else and_([p, q]))
            f = z3.Function("py_%s_%s" % (nm, ty.kind), sort(ty), sort(ty), sort(ty))
            return V(ty, f(x, y))
        if "opq" in (ta.kind, tb.kind):
            return self.ext_app("op_" + nm, [a, b])
        if nm == "Add" and ta.kind == tb.kind == "str":
            if is_lit(self.term(a)) and is_lit(self.term(b)):
                return V(STR, lit(lit_value(self.term(a)) + lit_value(self.term(b))))
            f = z3.Function("str_cat", StrS, StrS, StrS)
            return V(STR, f(self.term(a), self.term(b)))
        if nm == "Add" and ta.kind == tb.kind == "list":
            return self.list_cat(a, b)
        if nm == "Add" and isinstance(a, PTup) and isinstance(b, PTup):
            return PTup(a.items + b.items)
        if nm == "Mod" and ta.kind == "str":
            return V(STR, self.fresh("fmt", StrS))
        if nm == "Mult" and ta.kind == "list" and tb.kind == "int":
            a = self.unopt(a)
            if not unresolved(ta):
                lt = LT(ta.args[0])
                src = self.term(a)
                r = self.fresh("rep", lt.S)
                n = self.term(b)
                if str(z3.simplify(lt.len(src))) and src.decl().name().startswith("app_") and src.arg(0).eq(lt.nil):
                    j = z3.Int("rj")
                    self.assume(lt.len(r) == z3.If(n > 0, n, 0), "d")
                    self.assume(FA([j], z3.Implies(z3.And(0 <= j, j < lt.len(r)), lt.at(r, j) == src.arg(1)), [lt.at(r, j)]), "d")
                    return self.new_box(ta, r)
        if ta.kind == "set" and tb.kind == "set":
            return self.set_op(nm, a, b)
        if nm == "BitOr" and ta.kind == tb.kind == "dict":
            unify(ta, tb)
            return self.new_box(ta, DT(*ta.args).merge(self.term(a), self.term(b)))
        self.unsupported("operator %s on %s and %s" % (nm, ta, tb))

    def set_op(self, nm, a, b):
        ta, tb = res(self.type_of(a)), res(self.type_of(b))
        if unresolved(ta) and unresolved(tb):
            return self.new_box(ta, None)
        unify(ta, tb)
        d = DT(ta.args[0], NONE)
        x, y = self.term(a), self.term(b)
        r = self.fresh("setop", d.S)
        k = z3.Const("sk", d.K)
        hx, hy = d.has(x, k), d.has(y, k)
        f = {"BitOr": z3.Or(hx, hy), "BitAnd": z3.And(hx, hy), "Sub": z3.And(hx, z3.Not(hy)), "BitXor": hx != hy}.get(nm)
        if f is None:
            self.unsupported("set operator " + nm)
        self.assume(FA([k], d.has(r, k) == f, [d.has(r, k), hx, hy]), "d")
        self.assume(d.size(r) <= d.size(x) + d.size(y), "d")
        return self.new_box(ta, r)

    # ----------------------------------------------------------------------------------------------------- subscripts
    def ev_Subscript(self, e):
        base = self.unopt(self.ev(e.value))
        if isinstance(e.slice, ast.Slice):
            return self.slice_(base, e.slice)
        if isinstance(base, PRec):
            k = self.evr(e.slice)
            for n, v in base.items:
                if isinstance(k, V) and k.t.eq(lit(n)):
                    return v
            self.unsupported("record key")
        if isinstance(base, PTup):
            k = self.evr(e.slice)
            if isinstance(k, V) and z3.is_int_value(k.t):
                return base.items[k.t.as_long()]
            self.unsupported("tuple index")
        ty = res(self.type_of(base))
        if ty.kind == "opq" and (isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts)):
            args = []
            for x in e.slice.elts:
                if isinstance(x, ast.Slice):
                    args += [self.evr(p) if p is not None else NONEV for p in (x.lower, x.upper, x.step)]
                else:
                    args.append(self.evr(x))
            return self.ext_app("getslice%d" % len(args), [base] + args)
        k = self.evr(e.slice)
        return self.subscript(base, k)

    def index_term(self, lt, t, k):
        """normalised list index with bounds obligation"""
        i = self.as_int(k)
        n = lt.len(t)
        if z3.is_int_value(i) and i.as_long() < 0:
            i2 = n + i
        elif z3.is_int_value(i) or self.nonneg(i):
            i2 = i
        else:
            i2 = z3.If(i < 0, n + i, i)
            if self.prove_quick(i >= 0):
                i2 = i
        self.may_raise("IndexError", z3.And(0 <= i2, i2 < n))
        return i2

    def nonneg(self, i):
        return self.known(i >= 0) is True or self.known(0 <= i) is True

    def prove_quick(self, f):
        if self.dry:
            return True
        return self.prove(f, rlimit=300000)

    def may_raise(self, exc, okcond):
        """operation raising exc unless okcond: obligation, or a fork inside try"""
        if self.try_depth and self.catches(exc):
            if not self.decide(okcond):
                raise PyRaise(exc)
            return
        if getattr(self.contract, "partial", False):
            # a valid call may end in an exception
            if not self.st.ghost.get("valid"):
                self.obligation("no %s before the call is known to be valid" % exc, z3.Or(okcond, z3.Not(self.contract.bad())), ("C18",))
                if self.prove_quick(z3.Not(self.contract.bad())):
                    self.st.ghost["valid"] = True
            if z3.is_false(okcond):
                raise Infeasible()
            self.assume(okcond)
            return
        self.obligation("no " + exc, okcond)

    try_depth = 0

    def catches(self, exc):
        return any(exc == h or h in EXC_PARENTS.get(exc, []) for hs in self.try_handlers for h in hs)

    try_handlers = ()

    def subscript(self, base, k):
        base = self.unopt(base)
        if isinstance(base, PTup):
            if isinstance(k, V) and z3.is_int_value(k.t):
                return base.items[k.t.as_long()]
        if isinstance(base, (Part, It)):
            base = self.to_list(base)
        ty = res(self.type_of(base))
        if ty.kind == "dict":
            if unresolved(ty):
                self.may_raise("KeyError", FALSE)
                raise Infeasible()
            d = DT(*ty.args)
            try:
                kt = self.coerce_t(k, ty.args[0])
            except TypeMismatch:
                self.may_raise("KeyError", FALSE)
                raise Infeasible()
            self.may_raise("KeyError", d.has(self.term(base), kt))
            return self.slot(base, ("k", kt), ty.args[1])
        if ty.kind == "list":
            if unresolved(ty):
                self.may_raise("IndexError", FALSE)
                raise Infeasible()
            lt = LT(ty.args[0])
            i = self.index_term(lt, self.term(base), k)
            return self.slot(base, ("i", i), ty.args[0])
        if ty.kind == "tup":
            if isinstance(k, V) and z3.is_int_value(k.t):
                i = k.t.as_long()
                if -len(ty.args) <= i < len(ty.args):
                    i %= len(ty.args)
                    return V(ty.args[i], tup_get(ty, self.term(base), i))
                self.may_raise("IndexError", FALSE)
                raise Infeasible()
        if ty.kind == "rec":
            if isinstance(k, V) and is_lit(k.t):
                for i, (n, ft) in enumerate(rec_fields(ty)):
                    if n == lit_value(k.t):
                        t = self.term(base)
                        x = t.arg(i) if z3.is_app(t) and t.decl().eq(sort(ty).constructor(0)) else sort(ty).accessor(0, i)(t)
                        return V(ft, x)
                self.may_raise("KeyError", FALSE)
                raise Infeasible()
        if ty.kind == "opq":
            args = list(k.items) if isinstance(k, PTup) else [k]
            if len(args) == 1 and isinstance(k, V):
                d = self.shape_dim(base, k.t)
                if d is not None:
                    return d
                # an element of an array made from a list of strings
                bt = self.term(base)
                if res(k.ty).kind == "int" and z3.is_app(bt) and bt.decl().name() in ("ext_numpy.array", "ext_numpy.asarray") and bt.num_args() == 1 and bt.arg(0).sort() == LT(STR).S:
                    return V(STR, LT(STR).at(bt.arg(0), self.index_term(LT(STR), bt.arg(0), k)))
            return self.ext_app("getitem%d" % len(args), [base] + args)
        if ty.kind == "str":
            return V(STR, self.ext_t("str_at", [base, k], StrS))
        h = self.reg.objops.get((ty.kind, "getitem"))
        if h is not None:
            return h(self, base, k)
        self.unsupported("subscript of " + str(ty))

    def shape_dim(self, v, k):
        """M.shape[k] as an integer"""
        t = self.term(v)
        if z3.is_app(t) and t.decl().name() == "ext_attr_shape" and z3.is_int_value(k) and 0 <= k.as_long() <= 1:
            r = (arr_rows, arr_cols)[k.as_long()](t.arg(0))
            self.assume(r >= 0, "d")
            return V(INT, r)
        return None

    def slice_(self, base, s):
        ty = res(self.type_of(base))
        lo = self.evr(s.lower) if s.lower is not None else None
        hi = self.evr(s.upper) if s.upper is not None else None
        stp = self.evr(s.step) if s.step is not None else None
        if isinstance(base, PTup):
            f = lambda v: None if v is None else v.t.as_long()
            return PTup(base.items[slice(f(lo), f(hi), f(stp))])
        if isinstance(base, (Part, It)):
            base = self.to_list(base)
            ty = res(self.type_of(base))
        if ty.kind == "list":
            if unresolved(ty):
                return self.new_box(ty, None)
            lt = LT(ty.args[0])
            t = self.term(base)
            if stp is not None:
                if lo is None and hi is None and z3.is_int_value(stp.t) and stp.t.as_long() == -1:
                    return self.reversed_(base)
                self.unsupported("slice step")
            none = lambda v: v is None or res(self.type_of(v)).kind == "none"
            if not none(hi):
                t2 = lt.take(t, self.as_int(hi))
            else:
                t2 = t
            if not none(lo):
                i = self.as_int(lo)
                if not none(hi) and not (z3.is_int_value(i) and i.as_long() >= 0):
                    if not self.prove_quick(i >= 0):
                        self.unsupported("slice bounds")
                t2 = lt.drop(t2, i)
            r = self.new_box(ty, t2)
            if is_mutable(ty.args[0]):
                self.st.heap[r.bid] = self.st.heap[r.bid].but(frozen=frozenset({1, 2, 3}))
            return r
        if ty.kind == "opq":
            return self.ext_app("slice", [base] + [x if x is not None else NONEV for x in (lo, hi, stp)])
        if ty.kind == "str":
            return V(STR, self.fresh("substr", StrS))
        self.unsupported("slice of " + str(ty))

    def reversed_(self, v):
        l = self.to_list(v)
        ty = res(self.type_of(l))
        if unresolved(ty):
            return l
        lt = LT(ty.args[0])
        t = self.term(l)
        r = self.fresh("rev", lt.S)
        j = z3.Int("rvj")
        x = z3.Const("rvx", lt.E)
        self.assume(lt.len(r) == lt.len(t), "d")
        self.assume(FA([j], z3.Implies(z3.And(0 <= j, j < lt.len(r)), lt.at(r, j) == lt.at(t, lt.len(t) - 1 - j)), [lt.at(r, j)]), "d")
        self.assume(FA([x], lt.mem(r, x) == lt.mem(t, x), [lt.mem(r, x), lt.mem(t, x)]), "d")
        self.assume(z3.Implies(lt.distinct(t), lt.distinct(r)), "d")
        return self.new_box(ty, r)

    # ------------------------------------------------------------------------------------------------ attributes
    def ev_Attribute(self, e):
        v = self.unopt(self.ev(e.value))
        return self.attr(v, e.attr)

    def attr(self, v, name):
        if isinstance(v, ModV):
            d = v.dotted + "." + name
            r = self.prog.resolve_dotted(d)
            if isinstance(r, FuncInfo):
                return FnV(r)
            if isinstance(r, ClassInfo):
                return ClsV(r)
            return ModV(d)
        if isinstance(v, ObjR):
            f = self.st.objs[v.oid]
            if name in f:
                if self.field_reads is not None:
                    self.field_reads.append((v.oid, name, self.st.ghost.get(("written", v.oid, name), False)))
                return self.unguard(f[name])
            m = self.prog.method(v.ci, name)
            if m is not None:
                if m.prop:
                    return self.call_fn(m, [v], {})
                return BM(v, name)
            for c in self.prog.mro(v.ci):
                if name in c.consts:
                    return self.ev(c.consts[name])
            if self.dry or self.prove(FALSE, rlimit=3000000):
                raise Infeasible()
            self.unsupported("attribute %s is not set" % name)
        if isinstance(v, ClsV):
            if name in v.ci.consts:
                return self.ev(v.ci.consts[name])
            m = self.prog.method(v.ci, name)
            if m is not None:
                return FnV(m) if not m.classm else BM(v, name)
            if name == "__name__":
                return V(STR, lit(v.ci.name))
            self.unsupported("class attribute " + name)
        if isinstance(v, (V, View, Ref)):
            ty = res(self.type_of(v))
            if ty.kind.startswith("obj:"):
                cls = ty.kind[4:]
                sc = self.reg.symclasses.get(cls)
                if sc is not None and name in sc.fields:
                    return self.sym_field(v, cls, name)
                return BM(v, name)
            if ty.kind == "opq":
                return OpqAttr(v, name)
        return BM(v, name)

    def sym_field(self, v, cls, name):
        sc = self.reg.symclasses[cls]
        ft = sc.fields[name]
        arr = self.field_map(cls, name)
        t = z3.Select(arr, self.term(v))
        if res(ft).kind == "none":
            return NONEV
        return V(ft, t)

    def field_map(self, cls, name):
        key = (cls, name)
        if key not in self.st.fmap:
            ft = self.reg.symclasses[cls].fields[name]
            self.st.fmap[key] = z3.Const("fm_%s_%s" % key, z3.ArraySort(sort(Obj(cls)), sort(ft)))
        return self.st.fmap[key]

    # --------------------------------------------------------------------------------------------- comprehensions
    def comp_eval(self, gens, eltfn):
        """evaluate generators and element symbolically.
        returns (binders, guards, value): guards = list of formulas (ranges and conditions), value = result of eltfn"""
        start = self.st
        n0 = len(start.pc)
        saved_env = dict(self.st.env)
        nb = len(self.binders)
        js, its = [], []
        filt = []
        old_fork = self.forkable
        self.forkable = False
        try:
            for g in gens:
                it = self.iter_of(self.merged(lambda: self.iter_of(self.unopt(self.ev(g.iter)))))
                self.st.ctr += 1
                j = z3.Int(f"j!{self.st.ctr}")
                js.append(j)
                its.append(it)
                self.binders = self.binders + [j]
                self.assume(z3.And(0 <= j, j < it.n), "c")
                self.bind(g.target, it.elem(j))
                for c in g.ifs:
                    f = self.merged(lambda: self.cond(c))
                    filt.append(f)
                    self.assume(f, "c")
            want, self.want = self.want, None
            v = self.merged(eltfn)
            for n, x in enumerate(v if isinstance(v, tuple) else (v,)):
                xt = self.type_of(x)
                if unresolved(xt):
                    # an empty container as the element: its type comes from the annotation, else elements are taken to be strings
                    w = res(want) if want is not None else None
                    w = res(w.args[n if isinstance(v, tuple) else 0]) if w is not None and w.kind in ("dict", "list") else None
                    if w is None or w.kind != res(xt).kind or unresolved(w):
                        w = Lst(STR) if res(xt).kind == "list" else St_(STR) if res(xt).kind == "set" else None
                    if w is not None:
                        unify(xt, w)
            if isinstance(v, tuple):
                v = tuple((self.type_of(x), self.term(x)) for x in v)
            else:
                v = (self.type_of(v), self.term(v))
        finally:
            self.binders = self.binders[:nb]
            self.forkable = old_fork
        # lift assumptions made under the binders
        delta = self.st.pc[n0:]
        self.st.pc = self.st.pc[:n0]
        self.st.facts = {f.get_id() for _, f in self.st.pc} | set()
        guards = []
        for tag, f in delta:
            if tag in ("c", "g"):
                guards.append(f)
            else:
                body = z3.Implies(and_(guards), f) if guards else f
                prefer = [t for t in subterms(f) if z3.is_app(t) and t.num_args() >= 1 and "!" in t.decl().name() and all(any(a.eq(b) for b in self.binders + js) or True for a in t.children())]
                lifted = self.quantify(js, body, prefer)
                self.assume(lifted, tag)
        self.st.env = saved_env
        return js, its, guards, filt, v

    def quantify(self, js, body, prefer=()):
        used = contains(body, js)
        vs = [j for j in js if j.get_id() in used]
        if not vs:
            return body
        if z3.is_implies(body) and z3.is_quantifier(body.arg(1)) and body.arg(1).is_forall():
            # merge nested quantifier to keep its patterns
            g, q = body.arg(0), body.arg(1)
            nv = q.num_vars()
            self.st.ctr += 1
            consts = [z3.Const(f"q{self.st.ctr}_{i}", q.var_sort(i)) for i in range(nv)]
            sub = list(reversed(consts))
            inner = z3.substitute_vars(q.body(), *sub)
            pats = []
            for p in range(q.num_patterns()):
                pt = q.pattern(p)
                terms = [z3.substitute_vars(pt.arg(i), *sub) for i in range(pt.num_args())]
                pats.append(terms)
            full = []
            for ts in pats:
                cov = set()
                for t in ts:
                    cov |= contains(t, vs + consts)
                if len(cov) == len(vs) + len(consts):
                    full.append(ts)
                elif getattr(self.contract, "deep_triggers", False) and all(c.get_id() in cov for c in consts):
                    # instances of the inner fact for each inner container
                    own = [t for t in subterms(inner) if z3.is_app(t) and t.num_args() and "!" in t.decl().name() and t.sort().kind() == z3.Z3_UNINTERPRETED_SORT and len(contains(t, vs)) == len(vs) and not contains(t, consts)]
                    if own:
                        full.append(ts + [own[0]])
            b2 = z3.Implies(g, inner)
            if full:
                return z3.ForAll(vs + consts, b2, patterns=[z3.MultiPattern(*ts) if len(ts) > 1 else ts[0] for ts in full])
            return forall(vs + consts, b2)
        return forall(vs, body, [p for p in prefer if len(contains(p, vs)) == len(vs)][:3])

    def src_pats(self, js, its):
        """terms that stand for 'the element of the source at index j'"""
        pats = []
        for j, it in zip(js, its):
            if it.pat is not None:
                pats.append(LT(it.pat[0]).at(it.pat[1], j))
            else:
                return None
        return pats

    def det_args(self, node, st=None):
        """values of the variables a piece of code reads, or None if they are not all values"""
        st = st or self.st
        bound = {n.id for c in ast.walk(node) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - bound)
        out = []
        saved, self.st = self.st, st
        try:
            for n in names:
                v = st.env.get(n)
                if v is None:
                    continue
                if isinstance(v, (Lam, FnV, BM, ClsV, ModV, TyV, ExcV)):
                    continue
                if not isinstance(v, (V, Ref, View, PTup, PRec)):
                    return None
                out.append((n, self.ext_arg(v)))
        except (Unsupported, TypeMismatch):
            return None
        finally:
            self.st = saved
        return out

    def det_result(self, node, hint, srt):
        """result of a comprehension: in `functional` contracts a function of the values it reads (evaluation is deterministic)"""
        if node is not None and getattr(self.contract, "functional", False):
            a = self.det_args(node)
            if a is not None:
                import hashlib
                nm = hint + "_" + hashlib.sha1((ast.unparse(node) + ",".join(n for n, _ in a)).encode()).hexdigest()[:10]
                ts = [t for _, t in a]
                return z3.Function(nm, *[t.sort() for t in ts], srt)(*ts) if ts else z3.Const(nm, srt)
        return self.fresh(hint, srt)

    def list_comp(self, gens, eltfn, node=None):
        # concrete generators are unrolled
        js, its, guards, filt, (ty, t) = self.comp_eval(gens, eltfn)
        lt = LT(ty)
        R = self.det_result(node, "comp", lt.S)
        rng = and_(guards)
        if len(js) == 1 and not filt:
            j, it = js[0], its[0]
            self.assume(lt.len(R) == it.n, "d")
            pats = [lt.at(R, j)]
            sp = self.src_pats(js, its)
            if sp:
                pats.append(sp[0])
            self.assume(self.fa(js, z3.Implies(rng, lt.at(R, j) == t), pats), "d")
            if it.lst is not None and LT(it.lst[0]).at(it.lst[1], j).eq(t):
                # identity: R has the content of the source
                self.assume(R == it.lst[1], "d")
            return self.new_box(Lst(ty), R)
        m = len(js)
        N = z3.IntSort()
        src = [self.fresh_fn("src", [N], N) for _ in js]
        dst = self.fresh_fn("dst", [N] * m, N)
        p = z3.Int("p!q")
        p2 = z3.Int("p2!q")
        sub = [(j, s(p)) for j, s in zip(js, src)]
        inr = z3.And(0 <= p, p < lt.len(R))
        self.assume(lt.len(R) >= 0, "d")
        if m == 1:
            self.assume(lt.len(R) <= its[0].n, "d")
        body = z3.Implies(inr, z3.And(z3.substitute(rng, *sub), lt.at(R, p) == z3.substitute(t, *sub), dst(*[s(p) for s in src]) == p))
        self.assume(FA([p], body, [lt.at(R, p)]), "d")
        d = dst(*js)
        body = z3.Implies(rng, z3.And(0 <= d, d < lt.len(R), lt.at(R, d) == t, *[s(d) == j for s, j in zip(src, js)], lt.mem(R, t)))
        pats = []
        sp = self.src_pats(js, its)
        if sp:
            pats.append(sp if len(sp) > 1 else sp[0])
        pats.append(d)
        self.assume(self.fa(js, body, pats), "d")
        if m >= 2:
            # the first combinations (so that a comprehension is seen not to be empty)
            for first in [(0,) * m] + ([(0, 1), (1, 0)] if m == 2 and filt else []):
                self.assume(z3.substitute(body, *[(j, z3.IntVal(n)) for j, n in zip(js, first)]), "d")
        # order preserved
        if getattr(self.contract, "ordered_comprehensions", False):
            a1, a2 = [s(p) for s in src], [s(p2) for s in src]
            lex = FALSE
            for x, y in reversed(list(zip(a1, a2))):
                lex = z3.Or(x < y, z3.And(x == y, lex))
            self.assume(z3.ForAll([p, p2], z3.Implies(z3.And(0 <= p, p < p2, p2 < lt.len(R)), lex), patterns=[z3.MultiPattern(lt.at(R, p), lt.at(R, p2))]), "d")
        # distinctness carries over when the element is the source element itself
        if m == 1 and its[0].lst is not None and LT(its[0].lst[0]).at(its[0].lst[1], js[0]).eq(t):
            self.assume(z3.Implies(lt.distinct(its[0].lst[1]), lt.distinct(R)), "d")
            x = z3.Const("cx!q", lt.E)
            ix = lt.idx(its[0].lst[1], x)
            c = z3.substitute(and_(filt), (js[0], ix))
            self.assume(FA([x], z3.Implies(lt.distinct(its[0].lst[1]), lt.mem(R, x) == z3.And(lt.mem(its[0].lst[1], x), c)), [lt.mem(R, x), lt.mem(its[0].lst[1], x)]), "d")
        return self.new_box(Lst(ty), R)

    def fa(self, js, body, pats):
        good = []
        for p in pats:
            ps = p if isinstance(p, (list, tuple)) else [p]
            cov = set()
            for q in ps:
                cov |= contains(q, js)
            if len(cov) == len(js) and all(pattern_ok(q) for q in ps):
                good.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
        if good:
            return z3.ForAll(list(js), body, patterns=good)
        return forall(js, body)

    def ev_ListComp(self, e):
        r = self.unroll_comp(e)
        if r is not None:
            return self.list_lit(r)
        return self.list_comp(e.generators, lambda: self.evr(e.elt), e)

    def ev_GeneratorExp(self, e):
        return self.ev_ListComp(e)

    def unroll_comp(self, e):
        """comprehension over a concrete sequence"""
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        if not isinstance(g.iter, (ast.Tuple, ast.List, ast.Name, ast.Constant)):
            return None
        if isinstance(g.iter, ast.List) and not g.iter.elts:
            return []
        it = None
        if isinstance(g.iter, ast.Name):
            v = self.st.env.get(g.iter.id)
            if isinstance(v, PTup):
                it = v.items
        elif isinstance(g.iter, (ast.Tuple,)):
            it = [self.evr(x) for x in g.iter.elts]
        if it is None or g.ifs or len(it) > 64:
            return None
        saved = dict(self.st.env)
        out = []
        for x in it:
            self.bind(g.target, x)
            out.append(self.evr(e.elt) if not isinstance(e, ast.DictComp) else (self.evr(e.key), self.evr(e.value)))
        self.st.env = saved
        return out

    def ev_SetComp(self, e):
        js, its, guards, filt, (kt, k) = self.comp_eval(e.generators, lambda: self.evr(e.elt))
        r = self.dict_comp(js, its, guards, filt, kt, k, NONE, UNIT)
        return self.new_box(St_(kt), r)

    def ev_DictComp(self, e):
        u = self.unroll_comp(e)
        if u is not None:
            return self.dict_lit([k for k, _ in u], [v for _, v in u]) if u else self.new_box(Dct(TVar(), TVar()), None)
        js, its, guards, filt, ((kt, k), (vt, v)) = self.comp_eval(e.generators, lambda: (self.evr(e.key), self.evr(e.value)))
        r = self.dict_comp(js, its, guards, filt, kt, k, vt, v)
        return self.new_box(Dct(kt, vt), r)

    def dict_comp(self, js, its, guards, filt, kt, k, vt, v):
        d = DT(kt, vt)
        kl = d.kl
        R = self.fresh("dcomp", d.S)
        rng = and_(guards)
        N = z3.IntSort()
        w = [self.fresh_fn("wr", [d.K], N) for _ in js]
        x = z3.Const("x!q", d.K)
        sub = [(j, f(x)) for j, f in zip(js, w)]
        unit = res(vt).kind == "none"
        cl = [z3.substitute(rng, *sub), z3.substitute(k, *sub) == x]
        if not unit:
            cl.append(d.get(R, x) == z3.substitute(v, *sub))
        pats = [d.has(R, x)]
        if not unit:
            pats.append(d.get(R, x))
        self.assume(FA([x], z3.Implies(d.has(R, x), and_(cl)), pats), "d")
        sp = self.src_pats(js, its)
        lex = TRUE
        for j, f in reversed(list(zip(js, w))):
            lex = z3.Or(j < f(k), z3.And(j == f(k), lex))
        if len(js) == 1:
            lex = js[0] <= w[0](k)
        body = z3.Implies(rng, z3.And(d.has(R, k), lex))
        pats = []
        if sp:
            pats.append(sp)
        if pattern_ok(d.has(R, k)):
            pats.append(d.has(R, k))
            if not unit:
                pats.append(d.get(R, k))
        self.assume(self.fa(js, body, pats), "d")
        if len(js) == 1:
            it = its[0]
            self.assume(d.size(R) <= it.n, "d")
            if not filt:
                self.assume(z3.Implies(it.n > 0, z3.And(d.size(R) > 0, d.has(R, z3.substitute(k, (js[0], z3.IntVal(0)))))), "d")
            src = it.lst if it.lst is not None else it.pat
            if src is not None:
                sl = LT(src[0])
                L = src[1]
                if sl.at(L, js[0]).eq(k):
                    if not filt:
                        self.assume(z3.Implies(sl.distinct(L), d.keys(R) == L), "d")
                        self.assume(FA([x], d.has(R, x) == sl.mem(L, x), [d.has(R, x), sl.mem(L, x)]), "d")
                        ix = sl.idx(L, x)
                        if not unit:
                            self.assume(FA([x], z3.Implies(z3.And(sl.distinct(L), sl.mem(L, x)), d.get(R, x) == z3.substitute(v, (js[0], ix))), [d.get(R, x)]), "d")
                    else:
                        c = z3.substitute(and_(filt), (js[0], sl.idx(L, x)))
                        self.assume(FA([x], z3.Implies(sl.distinct(L), d.has(R, x) == z3.And(sl.mem(L, x), c)), [d.has(R, x), sl.mem(L, x)]), "d")
                        y = z3.Const("y!q", d.K)
                        self.assume(FA([x, y], z3.Implies(z3.And(d.has(R, x), d.has(R, y), sl.idx(L, x) < sl.idx(L, y)), kl.idx(d.keys(R), x) < kl.idx(d.keys(R), y)), [[kl.idx(d.keys(R), x), kl.idx(d.keys(R), y)]]), "d")
            elif it.desc in ("enumerate", "range") and False:
                pass
        return R

    # --------------------------------------------------------------------------------------------------- binding
    def bind(self, target, v):
        if isinstance(target, ast.Name):
            self.st.env[target.id] = v
            if self.assigned is not None:
                self.assigned.add(target.id)
            return
        if isinstance(target, (ast.Tuple, ast.List)):
            items = self.destructure(v, len(target.elts))
            for t, x in zip(target.elts, items):
                if isinstance(t, ast.Starred):
                    self.unsupported("starred target")
                self.bind(t, x)
            return
        if isinstance(target, ast.Attribute):
            o = self.unopt(self.ev(target.value))
            self.set_attr(o, target.attr, v)
            return
        if isinstance(target, ast.Subscript):
            base = self.unopt(self.ev(target.value))
            if isinstance(target.slice, ast.Slice) or (isinstance(target.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in target.slice.elts)):
                if res(self.type_of(base)).kind == "opq":
                    self.opq_mutate(target.value, base, "setslice", [v])
                    return
                self.unsupported("slice assignment")
            k = self.evr(target.slice)
            self.set_item(base, k, v, target)
            return
        self.unsupported("assignment target")

    assigned = None

    def destructure(self, v, n):
        v = self.unopt(v)
        if isinstance(v, PTup):
            if len(v.items) != n:
                self.may_raise("ValueError", FALSE)
                raise Infeasible()
            return v.items
        ty = res(self.type_of(v))
        if ty.kind == "tup":
            if len(ty.args) != n:
                self.may_raise("ValueError", FALSE)
                raise Infeasible()
            t = self.term(v)
            return [V(a, tup_get(ty, t, i)) for i, a in enumerate(ty.args)]
        if ty.kind == "opq":
            return [self.shape_dim(v, z3.IntVal(i)) or self.ext_app("unpack%d_%d" % (n, i), [v]) for i in range(n)]
        if ty.kind == "list" and not unresolved(ty):
            lt = LT(ty.args[0])
            self.may_raise("ValueError", lt.len(self.term(v)) == n)
            return [self.slot(v, ("i", z3.IntVal(i)), ty.args[0]) for i in range(n)]
        self.unsupported("destructuring of " + str(ty))

    def set_attr(self, o, name, v):
        self.st.mut += 1
        if isinstance(o, ObjR):
            model = self.reg.classmodel(o.ci)
            if model is not None and name in model.fields:
                ty = model.fields[name]
                v = self.fit(v, ty)
                fr = model.frozen.get(name)
                if isinstance(v, Ref):
                    b = self.st.heap[v.bid]
                    if fr:
                        b = b.but(frozen=b.frozen | frozenset(fr))
                    self.st.heap[v.bid] = b
            self.st.objs[o.oid][name] = v
            self.st.ghost[("written", o.oid, name)] = True
            if self.fields_written is not None:
                self.fields_written.add((o.oid, name))
            return
        ty = res(self.type_of(o))
        if ty.kind.startswith("obj:"):
            cls = ty.kind[4:]
            sc = self.reg.symclasses.get(cls)
            if sc is not None and name in sc.fields:
                arr = self.field_map(cls, name)
                if isinstance(v, Ref):
                    b = self.st.heap[v.bid]
                    self.st.heap[v.bid] = b.but(isfrozen=True)
                t = self.coerce_t(v, sc.fields[name])
                self.st.fmap[(cls, name)] = z3.Store(arr, self.term(o), t)
                if self.fields_written is not None:
                    self.fields_written.add(("fmap", cls, name))
                return
            if sc is not None:
                return  # undeclared field of a modelled class: not observed by the contracts
        if ty.kind == "opq":
            self.array_frame(self.term(o))
        self.unsupported("attribute assignment")

    fields_written = None

    def fit(self, v, ty):
        """value v as type ty (boxes keep their identity if the type already fits)"""
        ty = res(ty)
        v = self.unguard(v)
        vt = res(self.type_of(v))
        if isinstance(v, Ref) and (vt == ty or unresolved(vt)):
            if unresolved(vt):
                try:
                    unify(vt, ty)
                except TypeMismatch:
                    return self.val_of(ty, self.coerce_t(v, ty))
            return v
        if vt == ty:
            return v
        if isinstance(v, (Lam, FnV, BM, ClsV, ModV, ObjR, NewObj)):
            return v
        if isinstance(v, (Ref, View)) and ty.kind == "opt" and (vt == res(ty.args[0]) or unresolved(vt)):
            return self.fit(v, ty.args[0])   # a present Optional[container] keeps its identity
        return self.val_of(ty, self.coerce_t(v, ty))

    def set_item(self, base, k, v, target=None):
        base = self.unopt(base)
        ty = res(self.type_of(base))
        if ty.kind == "dict":
            try:
                kt0 = self.type_of(k)
                if unresolved(ty.args[0]):
                    unify(ty.args[0], kt0)
                if unresolved(ty.args[1]):
                    vt0 = self.type_of(v)
                    unify(ty.args[1], vt0)
            except TypeMismatch as e:
                self.unsupported("dict item type: %s" % e)
            kt = self.coerce_t(k, ty.args[0])
            if unresolved(ty):
                # element type still unknown (empty inner container): remember emptiness
                self.unsupported("element type of an empty container is unknown")
            d = DT(*res(ty).args)
            if isinstance(base, Ref) and self.st.heap[base.bid].t is None:
                self.st.heap[base.bid] = self.st.heap[base.bid].but(t=d.empty)
            vt = self.store_elem(base, v, ty.args[1])
            self.mutate(base, lambda t: d.set(t, kt, vt), "set", (kt, vt), slot=is_mutable(ty.args[1]))
            return
        if ty.kind == "list":
            if unresolved(ty):
                self.may_raise("IndexError", FALSE)
                raise Infeasible()
            lt = LT(ty.args[0])
            i = self.index_term(lt, self.term(base), k)
            vt = self.store_elem(base, v, ty.args[0])
            self.mutate(base, lambda t: lt.upd(t, i, vt), "upd", (i, vt), slot=is_mutable(ty.args[0]))
            return
        if ty.kind == "opq":
            args = list(k.items) if isinstance(k, PTup) else [k]
            self.opq_mutate(target.value if target is not None else None, base, "setitem%d" % len(args), args + [v])
            return
        h = self.reg.objops.get((ty.kind, "setitem"))
        if h is not None:
            return h(self, base, k, v)
        self.unsupported("item assignment on " + str(ty))


class PRec:
    """dict literal with string keys, kept concrete"""

    def __init__(self, items):
        self.items = items


class OpqAttr:
    def __init__(self, base, name):
        self.base, self.name = base, name


class NewObj:
    """construction of an object of a repository class, kept symbolic: class, explicit keywords, forwarded **kargs"""

    def __init__(self, ci, kw, rest):
        self.ci, self.kw, self.rest = ci, kw, rest
