"""First-order theory of the Python values the verifier reasons about.

Types are small immutable descriptions; every type has a z3 sort.  Containers are values (terms) of uninterpreted sorts with
axioms attached to the function symbols; ``axioms_for`` collects exactly the axioms of the symbols that occur in a query.
"""
import itertools
import z3

# --------------------------------------------------------------------------------------------------------------- types


class Ty:
    __slots__ = ("kind", "args")

    def __init__(self, kind, args=()):
        self.kind, self.args = kind, tuple(args)

    def __eq__(self, o):
        a, b = res(self), res(o)
        if a is b:
            return True
        if isinstance(a, TVar) or isinstance(b, TVar):
            return False
        return a.kind == b.kind and len(a.args) == len(b.args) and all(x == y for x, y in zip(a.args, b.args))

    def __hash__(self):
        return hash(tname(self))

    def __repr__(self):
        return tname(self)


class TVar(Ty):
    __slots__ = ("ref",)
    n = itertools.count()

    def __init__(self):
        self.kind, self.args, self.ref = "tvar", (), None

    def __eq__(self, o):
        a, b = res(self), res(o)
        if isinstance(a, TVar) or isinstance(b, TVar):
            return a is b
        return a == b

    def __hash__(self):
        return id(self) if self.ref is None else hash(self.ref)


def res(t):
    while isinstance(t, TVar) and t.ref is not None:
        t = t.ref
    return t


INT, BOOL, STR, REAL, NONE, OPQ = (Ty(k) for k in ("int", "bool", "str", "real", "none", "opq"))


def Opt(t):
    t = res(t)
    return t if t.kind in ("opt",) else Ty("opt", (t,))


def Tup(*ts):
    return Ty("tup", ts)


def Rec(fields):
    """record: dict with literal string keys of mixed types; fields: ordered list of (name, type)"""
    return Ty("rec", tuple(Ty("fld:" + n, (t,)) for n, t in fields))


def rec_fields(t):
    return [(f.kind[4:], f.args[0]) for f in res(t).args]


def Lst(t):
    return Ty("list", (t,))


def Dct(k, v):
    return Ty("dict", (k, v))


def St_(t):
    return Ty("set", (t,))


def Obj(name):
    return Ty("obj:" + name)


def unresolved(t):
    t = res(t)
    if isinstance(t, TVar):
        return True
    return any(unresolved(a) for a in t.args)


def tname(t):
    t = res(t)
    if isinstance(t, TVar):
        return "?"
    if not t.args:
        return t.kind.replace(":", "_")
    return t.kind.replace(":", "_") + "<" + ",".join(tname(a) for a in t.args) + ">"


class TypeMismatch(Exception):
    pass


def unify(a, b):
    """make a and b equal if possible (no subtyping)"""
    a, b = res(a), res(b)
    if a is b:
        return a
    if isinstance(a, TVar):
        if occurs(a, b):
            raise TypeMismatch("recursive type")
        a.ref = b
        return b
    if isinstance(b, TVar):
        return unify(b, a)
    if a.kind != b.kind or len(a.args) != len(b.args):
        raise TypeMismatch(f"{tname(a)} vs {tname(b)}")
    for x, y in zip(a.args, b.args):
        unify(x, y)
    return a


def occurs(v, t):
    t = res(t)
    return t is v or any(occurs(v, x) for x in t.args)


# --------------------------------------------------------------------------------------------------------------- sorts

_sorts = {}
_dts = {}
StrS = z3.DeclareSort("Str")
OpqS = z3.DeclareSort("Opq")
_unit = z3.Datatype("Unit")
_unit.declare("unit")
UnitS = _unit.create()
UNIT = UnitS.unit


def sort(t):
    t = res(t)
    if isinstance(t, TVar):
        raise TypeMismatch("unresolved type")
    k = t.kind
    if k == "int":
        return z3.IntSort()
    if k == "bool":
        return z3.BoolSort()
    if k == "real":
        return z3.RealSort()
    if k == "str":
        return StrS
    if k == "none":
        return UnitS
    if k == "opq":
        return OpqS
    if k == "set":
        return sort(Dct(t.args[0], NONE))
    n = tname(t)
    if n in _sorts:
        return _sorts[n]
    if k == "opt":
        d = z3.Datatype(n)
        d.declare("none_" + n)
        d.declare("some_" + n, ("val_" + n, sort(t.args[0])))
        s = d.create()
    elif k == "tup":
        d = z3.Datatype(n)
        d.declare("mk_" + n, *[(f"p{i}_" + n, sort(a)) for i, a in enumerate(t.args)])
        s = d.create()
    elif k == "rec":
        d = z3.Datatype(n)
        d.declare("mk_" + n, *[(f"f_{fn}_" + n, sort(ft)) for fn, ft in rec_fields(t)])
        s = d.create()
    else:
        for a in t.args:
            sort(a)
        s = z3.DeclareSort(n)
    _sorts[n] = s
    return s


def none_of(t):
    return sort(t).constructor(0)()


def some_of(t, x):
    return sort(t).constructor(1)(x)


def is_none(t, x):
    return sort(t).recognizer(0)(x)


def is_some(t, x):
    return sort(t).recognizer(1)(x)


def opt_val(t, x):
    return sort(t).accessor(1, 0)(x)


def tup_mk(t, xs):
    return sort(t).constructor(0)(*xs)


def tup_get(t, x, i):
    if z3.is_app(x) and x.decl().eq(sort(t).constructor(0)):
        return x.arg(i)
    return sort(t).accessor(0, i)(x)


# ------------------------------------------------------------------------------------------------------------- axioms

AX = {}  # decl name -> list of closed formulas
LEMMA_SOURCES = {}


def FA(vs, body, pats):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    ps = []
    for p in pats:
        ps.append(z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p)
    try:
        return z3.ForAll(list(vs), body, patterns=ps)
    except z3.Z3Exception:
        return z3.ForAll(list(vs), body)


def add_ax(decl, *axs):
    if isinstance(decl, z3.ExprRef):
        decl = decl.decl()
    AX.setdefault(decl.name(), []).extend(axs)


_walk_cache = {}


def decl_names(f):
    """names of all uninterpreted symbols of a formula"""
    key = f.get_id()
    got = _walk_cache.get(key)
    if got is not None and got[0].eq(f):
        return got[1]
    seen, out, stack = set(), set(), [f]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body())
            for k in range(e.num_patterns()):
                stack.append(e.pattern(k))
            continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(e.decl().name())
            stack.extend(e.children())
    _walk_cache[key] = (f, out)
    return out


def axioms_for(formulas):
    names, todo, axs = set(), list(formulas), []
    pending = set()
    for f in todo:
        pending |= decl_names(f)
    while pending:
        n = pending.pop()
        if n in names:
            continue
        names.add(n)
        for a in AX.get(n, ()):
            axs.append(a)
            pending |= decl_names(a) - names
    lits = sorted((_lit_rev[n], n) for n in names if n in _lit_rev)
    for (v1, n1), (v2, n2) in zip(lits, lits[1:]):
        axs.append(rk(_lits[v1]) < rk(_lits[v2]))
    return axs


# ------------------------------------------------------------------------------------------------------------ strings

rk = z3.Function("rk", StrS, z3.RealSort())
unrk = z3.Function("unrk", z3.RealSort(), StrS)
_s = z3.Const("s", StrS)
add_ax(rk, FA(_s, unrk(rk(_s)) == _s, [rk(_s)]))
_lits, _lit_rev = {}, {}


def lit(v):
    if v not in _lits:
        n = "lit!" + repr(v)
        _lits[v] = z3.Const(n, StrS)
        _lit_rev[n] = v
    return _lits[v]


def is_lit(t):
    return z3.is_const(t) and t.decl().name() in _lit_rev


def lit_value(t):
    return _lit_rev[t.decl().name()]


INF = z3.Const("INF", z3.RealSort())
NAN_ = z3.Const("NAN", z3.RealSort())
opq_num = z3.Function("opq_num", OpqS, z3.RealSort())
opq_int = z3.Function("opq_int", OpqS, z3.IntSort())
opq_bool = z3.Function("opq_bool", OpqS, z3.BoolSort())
opq_str = z3.Function("opq_str", OpqS, StrS)

_box = {}


def box_opq(t):
    """inject a term of any sort into Opq (injective)"""
    s = t.sort()
    if s == OpqS:
        return t
    k = s.name()
    if k not in _box:
        f = z3.Function("box_" + k, s, OpqS)
        g = z3.Function("unbox_" + k, OpqS, s)
        x = z3.Const("x", s)
        add_ax(f, FA(x, g(f(x)) == x, [f(x)]))
        if s == z3.RealSort():
            add_ax(f, FA(x, opq_num(f(x)) == x, [f(x)]))
        if s == z3.IntSort():
            add_ax(f, FA(x, z3.And(opq_num(f(x)) == z3.ToReal(x), opq_int(f(x)) == x), [f(x)]))
        _box[k] = f
    return _box[k](t)


arr_dim = z3.Function("arr_dim", OpqS, z3.IntSort())
arr_rows = z3.Function("arr_rows", OpqS, z3.IntSort())
arr_cols = z3.Function("arr_cols", OpqS, z3.IntSort())
_arr = {}


def arr_get(M, *ix):
    """cell of an array (an opaque value)"""
    return z3.Function("ext_getitem%d" % len(ix), OpqS, *[z3.IntSort()] * len(ix), OpqS)(M, *ix)


def arr_set(M, ix, v):
    """array after the assignment of one cell: only that cell changes (arrays with as many dimensions as indices)"""
    n = len(ix)
    f = z3.Function("arrset%d" % n, OpqS, *[z3.IntSort()] * n, OpqS, OpqS)
    if n not in _arr:
        _arr[n] = f
        A, x = z3.Consts("A x", OpqS)
        is_ = [z3.Int("i%d" % k) for k in range(n)]
        js = [z3.Int("j%d" % k) for k in range(n)]
        S = f(A, *is_, x)
        pos = z3.And(*[k >= 0 for k in is_ + js], arr_dim(A) == n)
        same = z3.And(*[a == b for a, b in zip(is_, js)])
        add_ax(f,
               FA([A] + is_ + [x] + js, z3.Implies(pos, arr_get(S, *js) == z3.If(same, x, arr_get(A, *js))), [arr_get(S, *js), [S, arr_get(A, *js)]]),
               FA([A] + is_ + [x], z3.And(arr_dim(S) == arr_dim(A), arr_rows(S) == arr_rows(A)), [S]))
    return f(M, *ix, box_opq(v))


def unbox_opq(t, s):
    if z3.is_app(t) and t.decl().name() == "box_" + s.name():
        return t.arg(0)
    if s == OpqS:
        return t
    if s == z3.RealSort():
        return opq_num(t)
    if s == z3.IntSort():
        return opq_int(t)
    if s == z3.BoolSort():
        return opq_bool(t)
    if s == StrS:
        return opq_str(t)
    raise TypeMismatch("cannot convert an opaque value to " + s.name())


def le_t(ty, a, b):
    ty = res(ty)
    if ty.kind == "str":
        return rk(a) <= rk(b)
    if ty.kind in ("int", "real"):
        return a <= b
    if ty.kind == "tup":
        # lexicographic
        n = len(ty.args)
        xs = [tup_get(ty, a, i) for i in range(n)]
        ys = [tup_get(ty, b, i) for i in range(n)]
        f = z3.BoolVal(True)
        for i in reversed(range(n)):
            f = z3.And(le_t(ty.args[i], xs[i], ys[i]), z3.Or(xs[i] != ys[i], f))
        return f
    if ty.kind == "bool":
        return z3.Implies(a, b)
    if ty.kind == "opq":
        return opq_num(a) <= opq_num(b)
    raise TypeMismatch("no order on " + tname(ty))


# -------------------------------------------------------------------------------------------------------------- lists

_LT = {}
I = z3.Int("i")
J = z3.Int("j")


class LT:
    """theory of lists of one element type"""

    def __new__(cls, t):
        s = sort(Lst(t))
        k = s.name()
        if k in _LT:
            return _LT[k]
        o = object.__new__(cls)
        _LT[k] = o
        o.setup(res(t), s, k)
        return o

    def setup(o, t, S, k):
        E = sort(t)
        o.t, o.S, o.E, o.k = t, S, E, k
        F = z3.Function
        B, N = z3.BoolSort(), z3.IntSort()
        o.len = F("len_" + k, S, N)
        o.at = F("at_" + k, S, N, E)
        o.mem = F("mem_" + k, S, E, B)
        o.idx = F("idx_" + k, S, E, N)
        o.distinct = F("distinct_" + k, S, B)
        o.d1 = F("dw1_" + k, S, N)
        o.d2 = F("dw2_" + k, S, N)
        o.nil = z3.Const("nil_" + k, S)
        o.app = F("app_" + k, S, E, S)
        o.cat = F("cat_" + k, S, S, S)
        o.take = F("take_" + k, S, N, S)
        o.drop = F("drop_" + k, S, N, S)
        o.rem = F("rem_" + k, S, E, S)
        o.upd = F("upd_" + k, S, N, E, S)
        o.eq = F("eq_" + k, S, S, B)
        o.eqw = F("eqw_" + k, S, S, N)
        L, M = z3.Consts("L M", S)
        x, y = z3.Consts("x y", E)
        rng = lambda i, l: z3.And(0 <= i, i < o.len(l))
        add_ax(o.len, FA(L, o.len(L) >= 0, [o.len(L)]))
        add_ax(o.mem, FA([L, x], z3.Implies(o.mem(L, x), z3.And(rng(o.idx(L, x), L), o.at(L, o.idx(L, x)) == x)), [o.mem(L, x)]))
        add_ax(o.at, FA([L, I], z3.Implies(rng(I, L), z3.And(o.mem(L, o.at(L, I)), o.idx(L, o.at(L, I)) <= I)), [o.at(L, I)]))
        add_ax(o.distinct,
               FA([L, I], z3.Implies(z3.And(o.distinct(L), rng(I, L)), o.idx(L, o.at(L, I)) == I), [[o.distinct(L), o.at(L, I)]]),
               FA(L, z3.Or(o.distinct(L), z3.And(0 <= o.d1(L), o.d1(L) < o.d2(L), o.d2(L) < o.len(L), o.at(L, o.d1(L)) == o.at(L, o.d2(L)))), [o.distinct(L)]))
        add_ax(o.nil, o.len(o.nil) == 0, FA(x, z3.Not(o.mem(o.nil, x)), [o.mem(o.nil, x)]), o.distinct(o.nil))
        A = o.app(L, x)
        add_ax(o.app,
               FA([L, x], z3.And(o.len(A) == o.len(L) + 1, o.at(A, o.len(L)) == x, o.mem(A, x)), [A]),
               FA([L, x, I], z3.Implies(z3.And(0 <= I, I < o.len(L)), o.at(A, I) == o.at(L, I)), [o.at(A, I), [A, o.at(L, I)]]),
               FA([L, x, y], o.mem(A, y) == z3.Or(o.mem(L, y), x == y), [o.mem(A, y), [A, o.mem(L, y)]]),
               FA([L, x, y], z3.Implies(o.mem(L, y), o.idx(A, y) == o.idx(L, y)), [o.idx(A, y)]),
               FA([L, x], z3.Implies(z3.And(o.distinct(L), z3.Not(o.mem(L, x))), o.distinct(A)), [o.distinct(A)]))
        C = o.cat(L, M)
        add_ax(o.cat,
               FA([L, M], o.len(C) == o.len(L) + o.len(M), [C]),
               FA([L, M, I], z3.Implies(rng(I, L), o.at(C, I) == o.at(L, I)), [o.at(C, I), [C, o.at(L, I)]]),
               FA([L, M, I], z3.Implies(z3.And(o.len(L) <= I, I < o.len(C)), o.at(C, I) == o.at(M, I - o.len(L))), [o.at(C, I)]),
               FA([L, M, x], o.mem(C, x) == z3.Or(o.mem(L, x), o.mem(M, x)), [o.mem(C, x), [C, o.mem(L, x)], [C, o.mem(M, x)]]))
        n = z3.Int("n")
        T = o.take(L, n)
        nn = z3.If(n >= 0, n, z3.If(o.len(L) + n > 0, o.len(L) + n, 0))
        add_ax(o.take,
               FA([L, n], o.len(T) == z3.If(nn < o.len(L), nn, o.len(L)), [T]),
               FA([L, n, I], z3.Implies(z3.And(0 <= I, I < o.len(T)), o.at(T, I) == o.at(L, I)), [o.at(T, I), [T, o.at(L, I)]]),
               FA([L, n, x], z3.Implies(o.mem(T, x), o.mem(L, x)), [o.mem(T, x)]),
               FA([L, n, x], z3.Implies(z3.And(o.mem(L, x), o.idx(L, x) < o.len(T)), z3.And(o.mem(T, x), o.idx(T, x) == o.idx(L, x))), [[T, o.mem(L, x)]]),
               FA([L, n], z3.Implies(o.distinct(L), o.distinct(T)), [T]))
        D = o.drop(L, n)
        add_ax(o.drop,
               FA([L, n], o.len(D) == o.len(L) - z3.If(nn < o.len(L), nn, o.len(L)), [D]),
               FA([L, n, I], z3.Implies(rng(I, D), o.at(D, I) == o.at(L, I + o.len(L) - o.len(D))), [o.at(D, I)]),
               FA([L, n, x], z3.Implies(o.mem(D, x), o.mem(L, x)), [o.mem(D, x)]),
               FA([L, n], z3.Implies(o.distinct(L), o.distinct(D)), [D]))
        R = o.rem(L, x)  # removes the first occurrence
        add_ax(o.rem,
               FA([L, x], o.len(R) == o.len(L) - z3.If(o.mem(L, x), 1, 0), [R]),
               FA([L, x, I], z3.Implies(rng(I, R), o.at(R, I) == z3.If(z3.Or(z3.Not(o.mem(L, x)), I < o.idx(L, x)), o.at(L, I), o.at(L, I + 1))), [o.at(R, I)]),
               FA([L, x, y], z3.Implies(y != x, o.mem(R, y) == o.mem(L, y)), [o.mem(R, y), [R, o.mem(L, y)]]),
               FA([L, x, y], z3.Implies(o.mem(R, y), o.mem(L, y)), [o.mem(R, y)]),
               FA([L, x], z3.Implies(o.distinct(L), z3.Not(o.mem(R, x))), [R]),
               FA([L, x], z3.Implies(o.distinct(L), o.distinct(R)), [R]))
        U = o.upd(L, I, x)
        add_ax(o.upd,
               FA([L, I, x], o.len(U) == o.len(L), [U]),
               FA([L, I, x, J], z3.Implies(z3.And(rng(J, L)), o.at(U, J) == z3.If(I == J, x, o.at(L, J))), [o.at(U, J), [U, o.at(L, J)]]))
        add_ax(o.eq,
               FA([L, M], z3.Implies(o.eq(L, M), o.len(L) == o.len(M)), [o.eq(L, M)]),
               FA([L, M, I], z3.Implies(z3.And(o.eq(L, M), rng(I, L)), o.at(L, I) == o.at(M, I)), [[o.eq(L, M), o.at(L, I)], [o.eq(L, M), o.at(M, I)]]),
               FA([L, M, x], z3.Implies(o.eq(L, M), o.mem(L, x) == o.mem(M, x)), [[o.eq(L, M), o.mem(L, x)], [o.eq(L, M), o.mem(M, x)]]),
               FA(L, o.eq(L, L), [o.eq(L, L)]),
               FA([L, M], z3.Or(o.eq(L, M), o.len(L) != o.len(M), z3.And(rng(o.eqw(L, M), L), o.at(L, o.eqw(L, M)) != o.at(M, o.eqw(L, M)))), [o.eq(L, M)]))

    def setof(o, L):
        """set(L)"""
        d = DT(o.t, NONE)
        f = z3.Function("setof_" + o.k, o.S, d.S)
        if f.name() not in AX:
            l, x = z3.Const("L", o.S), z3.Const("x", o.E)
            s = f(l)
            add_ax(f,
                   FA([l, x], d.has(s, x) == o.mem(l, x), [d.has(s, x), [s, o.mem(l, x)]]),
                   FA(l, z3.And(d.size(s) <= o.len(l), z3.Implies(o.distinct(l), d.size(s) == o.len(l)), z3.Implies(o.len(l) > 0, d.size(s) > 0), z3.Implies(z3.Not(o.distinct(l)), d.size(s) < o.len(l))), [s]))
        return f(L)

    def sorted_(o, rev=False):
        nm = ("rsorted_" if rev else "sorted_") + o.k
        f = z3.Function(nm, o.S, o.S)
        if nm not in AX:
            L = z3.Const("L", o.S)
            x = z3.Const("x", o.E)
            p = z3.Function("perm_" + nm, o.S, z3.IntSort(), z3.IntSort())
            q = z3.Function("permi_" + nm, o.S, z3.IntSort(), z3.IntSort())
            S = f(L)
            lo = le_t(o.t, o.at(S, J), o.at(S, I)) if rev else le_t(o.t, o.at(S, I), o.at(S, J))
            add_ax(f,
                   FA(L, z3.And(o.len(S) == o.len(L), z3.Implies(o.distinct(L), o.distinct(S))), [S]),
                   FA([L, x], o.mem(S, x) == o.mem(L, x), [o.mem(S, x), [S, o.mem(L, x)]]),
                   FA([L, I, J], z3.Implies(z3.And(0 <= I, I < J, J < o.len(S)), lo), [[o.at(S, I), o.at(S, J)]]),
                   FA([L, I], z3.Implies(z3.And(0 <= I, I < o.len(S)), z3.And(o.at(S, I) == o.at(L, p(L, I)), 0 <= p(L, I), p(L, I) < o.len(L), q(L, p(L, I)) == I)), [o.at(S, I)]))
        return f


# -------------------------------------------------------------------------------------------------------------- dicts

_DT = {}


class DT:
    """theory of insertion-ordered dicts (also used, with unit values, for sets)"""

    def __new__(cls, k, v):
        s = sort(Dct(k, v))
        n = s.name()
        if n in _DT:
            return _DT[n]
        o = object.__new__(cls)
        _DT[n] = o
        o.setup(res(k), res(v), s, n)
        return o

    def setup(o, kt, vt, S, n):
        K, V = sort(kt), sort(vt)
        o.kt, o.vt, o.S, o.K, o.V, o.n = kt, vt, S, K, V, n
        o.kl = kl = LT(kt)
        F = z3.Function
        o.keys = F("keys_" + n, S, kl.S)
        o.get = F("get_" + n, S, K, V)
        o.empty = z3.Const("empty_" + n, S)
        o.set = F("set_" + n, S, K, V, S)
        o.pop = F("pop_" + n, S, K, S)
        o.merge = F("merge_" + n, S, S, S)
        o.eq = F("deq_" + n, S, S, z3.BoolSort())
        o.eqw = F("deqw_" + n, S, S, K)
        d, e = z3.Consts("d e", S)
        k, k2 = z3.Consts("k k2", K)
        v = z3.Const("v", V)
        has = o.has
        add_ax(o.keys,
               FA(d, kl.distinct(o.keys(d)), [o.keys(d)]),
               FA([d, I], z3.Implies(z3.And(0 <= I, I < kl.len(o.keys(d))), kl.idx(o.keys(d), kl.at(o.keys(d), I)) == I), [kl.at(o.keys(d), I)]))
        add_ax(o.empty, kl.len(o.keys(o.empty)) == 0, FA(k, z3.Not(has(o.empty, k)), [has(o.empty, k)]))
        s = o.set(d, k, v)
        add_ax(o.set,
               FA([d, k, v], z3.And(z3.Implies(has(d, k), o.keys(s) == o.keys(d)), z3.Implies(z3.Not(has(d, k)), o.keys(s) == kl.app(o.keys(d), k)), o.get(s, k) == v, has(s, k)), [s]),
               FA([d, k, v, k2], has(s, k2) == z3.Or(has(d, k2), k2 == k), [has(s, k2), [s, has(d, k2)]]),
               FA([d, k, v, k2], o.get(s, k2) == z3.If(k2 == k, v, o.get(d, k2)), [o.get(s, k2), [s, o.get(d, k2)]]))
        p = o.pop(d, k)
        add_ax(o.pop,
               FA([d, k], o.keys(p) == z3.If(has(d, k), kl.rem(o.keys(d), k), o.keys(d)), [p]),
               FA([d, k, k2], has(p, k2) == z3.And(has(d, k2), k2 != k), [has(p, k2), [p, has(d, k2)]]),
               FA([d, k, k2], o.get(p, k2) == o.get(d, k2), [o.get(p, k2), [p, o.get(d, k2)]]))
        m = o.merge(d, e)
        add_ax(o.merge,
               FA([d, e, k], has(m, k) == z3.Or(has(d, k), has(e, k)), [has(m, k), [m, has(d, k)], [m, has(e, k)]]),
               FA([d, e, k], o.get(m, k) == z3.If(has(e, k), o.get(e, k), o.get(d, k)), [o.get(m, k)]),
               FA([d, e, I], z3.Implies(z3.And(0 <= I, I < kl.len(o.keys(d))), kl.at(o.keys(m), I) == kl.at(o.keys(d), I)), [kl.at(o.keys(m), I)]),
               FA([d, e], z3.And(kl.len(o.keys(m)) >= kl.len(o.keys(d)), kl.len(o.keys(m)) <= kl.len(o.keys(d)) + kl.len(o.keys(e))), [m]))
        # equality of dicts (membership and values; order is irrelevant in Python)
        w = o.eqw(d, e)
        add_ax(o.eq,
               FA([d, e, k], z3.Implies(z3.And(o.eq(d, e), has(d, k)), z3.And(has(e, k), o.get(d, k) == o.get(e, k))), [[o.eq(d, e), has(d, k)]]),
               FA([d, e, k], z3.Implies(z3.And(o.eq(d, e), has(e, k)), z3.And(has(d, k), o.get(d, k) == o.get(e, k))), [[o.eq(d, e), has(e, k)]]),
               FA([d, e], z3.Or(o.eq(d, e), has(d, w) != has(e, w), z3.And(has(d, w), o.get(d, w) != o.get(e, w))), [o.eq(d, e)]))

    def vals(o, d):
        """the list of the values, in key order"""
        vl = LT(o.vt)
        f = z3.Function("vals_" + o.n, o.S, vl.S)
        if f.name() not in AX:
            d_ = z3.Const("d", o.S)
            k, v = z3.Const("k", o.K), z3.Const("v", o.V)
            w = z3.Function("valw_" + o.n, o.S, o.V, o.K)
            L, ks = f(d_), o.keys(d_)
            add_ax(f,
                   FA(d_, vl.len(L) == o.kl.len(ks), [L]),
                   FA([d_, I], z3.Implies(z3.And(0 <= I, I < o.kl.len(ks)), vl.at(L, I) == o.get(d_, o.kl.at(ks, I))), [vl.at(L, I), [L, o.kl.at(ks, I)]]),
                   FA([d_, v], z3.Implies(vl.mem(L, v), z3.And(o.has(d_, w(d_, v)), o.get(d_, w(d_, v)) == v)), [vl.mem(L, v)]),
                   FA([d_, k], z3.Implies(o.has(d_, k), vl.mem(L, o.get(d_, k))), [[L, o.has(d_, k)], [L, o.get(d_, k)]]))
        return f(d)

    def has(o, d, k):
        return o.kl.mem(o.keys(d), k)

    def size(o, d):
        return o.kl.len(o.keys(d))


def card_uniq_lemma(t):
    """Two duplicate-free lists with the same elements have the same length (proved in lemmas/Card.lean)."""
    lt = LT(t)
    w = z3.Function("cardw_" + lt.k, lt.S, lt.S, lt.E)
    L, M = z3.Consts("L M", lt.S)
    x = w(L, M)
    return FA([L, M], z3.Or(z3.Not(lt.distinct(L)), z3.Not(lt.distinct(M)), lt.len(L) == lt.len(M), lt.mem(L, x) != lt.mem(M, x)), [[lt.len(L), lt.len(M)]])


def card_split(t, A, B, L, y, u):
    """A, B, L duplicate-free, A and B disjoint parts of L: |A| + |B| <= |L|, equal exactly when every element of L is in A or B
    (proved in lemmas/Card.lean). Returns (premises for an element y, conclusion with witness u of a difference)."""
    lt = LT(t)
    prem = z3.And(lt.distinct(L), lt.distinct(A), lt.distinct(B), z3.Implies(lt.mem(A, y), z3.And(lt.mem(L, y), z3.Not(lt.mem(B, y)))), z3.Implies(lt.mem(B, y), lt.mem(L, y)))
    conc = [lt.len(A) + lt.len(B) <= lt.len(L),
            z3.Or(lt.len(A) + lt.len(B) == lt.len(L), z3.And(lt.mem(L, u), z3.Not(lt.mem(A, u)), z3.Not(lt.mem(B, u)))),
            FA([y], z3.Implies(z3.And(lt.len(A) + lt.len(B) == lt.len(L), lt.mem(L, y)), z3.Or(lt.mem(A, y), lt.mem(B, y))), [lt.mem(L, y), lt.mem(A, y), lt.mem(B, y)])]
    return prem, conc
