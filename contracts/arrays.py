"""numpy arrays and itertools: shapes (number of rows), integer index arrays, elementwise look-up; products and combinations as index pairs.

What is assumed of numpy here (listed in the evidence of the contracts that use it): the number of rows of the results below, and that
in-place operations keep the shape and element type of an array."""
import z3
from pyvc.values import *
from pyvc.execu import *

NP = "the number of rows of numpy results (zeros, arange, array, argmax along axis 1, full slices, indexing by an integer array, searchsorted), shapes kept by in-place operations"
is_ix = z3.Function("arr_index", OpqS, z3.BoolSort())   # 1-dimensional array of integers
ints = z3.Function("arr_of_integers", OpqS, z3.BoolSort())
k_ = z3.Int("k_")
def position(t):
    """a non-negative integer"""
    return z3.And(t == box_opq(unbox_opq(t, z3.IntSort())), unbox_opq(t, z3.IntSort()) >= 0)


INPLACE = ("setitem1", "setitem2", "setitem3", "setslice", "augslice", "after_clip", "after_fill", "after_sort", "after_shuffle", "out")


def rows_of(ex, v):
    """number of elements of a list or array"""
    if isinstance(v, (Part, It)):
        return ex.iter_of(v).n
    ty = res(ex.type_of(v))
    if ty.kind == "list" and not unresolved(ty):
        return LT(ty.args[0]).len(ex.term(v))
    if ty.kind == "opq":
        return arr_rows(ex.term(v))
    return None


def first_dim(ex, v):
    v = ex.unguard(v)
    if isinstance(v, PTup):
        v = v.items[0] if v.items else None
    if isinstance(v, V) and res(v.ty).kind == "int":
        return v.t
    return None


def pos(t):
    return z3.If(t >= 0, t, z3.IntVal(0))


def install(prog, reg):
    sh = reg.shapes

    def keep(ex, t, args):
        b = ex.term(args[0])
        ex.assume(z3.And(arr_rows(t) == arr_rows(b), arr_dim(t) == arr_dim(b), is_ix(t) == is_ix(b)), "d")
    for n in INPLACE:
        sh[n] = keep
        for p in ("part_", "partslice_", "attr_flat_", "attr_T_"):
            sh[p + n] = keep

    def put(ex, t, args):
        """A[k] = v, v a number: every element is an old one or v"""
        keep(ex, t, args)
        v = args[-1]
        if isinstance(v, V) and res(v.ty).kind in ("int", "opq"):
            b, vt = ex.term(args[0]), box_opq(v.t)
            num = TRUE if res(v.ty).kind == "int" else vt == box_opq(unbox_opq(vt, z3.IntSort()))
            ex.assume(z3.Implies(z3.And(arr_dim(b) == 1, num), FA([k_], z3.Or(arr_get(t, k_) == arr_get(b, k_), arr_get(t, k_) == vt), [arr_get(t, k_)])), "d")
    sh["setitem1"] = put

    def neg(ex, t, args):
        b = ex.term(args[0])
        ex.assume(z3.And(arr_rows(t) == arr_rows(b), arr_dim(t) == arr_dim(b)), "d")
    sh["neg"] = neg

    def filled(ex, t, args):
        n = first_dim(ex, args[0])
        if n is not None:
            d = len(args[0].items) if isinstance(args[0], PTup) else 1
            ex.array(t, d, pos(n))

    def full(ex, t, args):
        filled(ex, t, args)
        n = first_dim(ex, args[0])
        if n is not None and len(args) == 2 and not isinstance(args[0], PTup) and isinstance(args[1], V) and res(args[1].ty).kind in ("int", "real", "bool", "opq"):
            ex.assume(FA([k_], z3.Implies(z3.And(0 <= k_, k_ < n), arr_get(t, k_) == box_opq(args[1].t)), [arr_get(t, k_)]), "d")
    for n in ("zeros", "ones", "empty"):
        for kw in ("", "_dtype", "_fill_value"):
            sh["numpy." + n + kw] = filled
    sh["numpy.full"] = sh["numpy.full_fill_value"] = full

    def where(ex, args, kw, e):
        """np.where(condition) for a 1-dimensional condition: one array of positions"""
        if len(args) != 1 or kw or res(ex.type_of(args[0])).kind != "opq":
            return NotImplemented
        r = ex.ext_call("numpy.where", [ex.listify(a) for a in args], {})
        f = ex.ext_call("getitem1", [r, V(INT, z3.IntVal(0))], {})
        t = ex.term(f)
        ex.assume(z3.And(arr_dim(t) >= 1, arr_rows(t) >= 0, z3.Implies(arr_dim(t) == 1, z3.And(is_ix(t), FA([k_], z3.Implies(z3.And(0 <= k_, k_ < arr_rows(t)), position(arr_get(t, k_))), [arr_get(t, k_)])))), "d")
        return r
    reg.externals["numpy.where"] = where

    def arange(ex, t, args):
        n = first_dim(ex, args[0]) if len(args) == 1 else None
        if n is None:
            return
        ex.array(t, 1, pos(n))
        g = unbox_opq(arr_get(t, k_), z3.IntSort())
        ex.assume(z3.And(is_ix(t), FA([k_], z3.Implies(z3.And(0 <= k_, k_ < n), g == k_), [arr_get(t, k_)])), "d")
    sh["numpy.arange"] = arange

    def array(ex, t, args):
        ty = res(ex.type_of(args[0])) if not isinstance(args[0], PTup) else None
        if ty is not None and ty.kind == "list" and not unresolved(ty):
            l = ex.term(args[0])
            lt = LT(ty.args[0])
            ex.assume(arr_rows(t) == lt.len(l), "d")
            if res(ty.args[0]).kind in ("int", "real", "str", "bool"):
                ex.array(t, 1, lt.len(l))
                if res(ty.args[0]).kind == "int":
                    ex.assume(ints(t), "d")
                ex.assume(FA([k_], z3.Implies(z3.And(0 <= k_, k_ < lt.len(l)), arr_get(t, k_) == box_opq(lt.at(l, k_))), [arr_get(t, k_)]), "d")
    sh["numpy.array"] = sh["numpy.asarray"] = array

    def argmax(ex, t, args):
        n = rows_of(ex, args[0])
        if n is not None:
            ex.array(t, 1, n)
            ex.assume(is_ix(t), "d")

    def axis1(f):
        def h(ex, t, args):
            if len(args) == 2 and isinstance(args[1], V) and z3.is_int_value(args[1].t) and args[1].t.as_long() == 1 and res(ex.type_of(args[0])).kind == "opq":
                f(ex, t, args)
        return h
    for n in ("argmax", "argmin"):
        sh["numpy." + n + "_axis"] = sh["numpy." + n] = sh["m_" + n + "_axis"] = sh["m_" + n] = axis1(argmax)

    def argmin(name):
        def h(ex, args, kw, e):
            """position of the smallest element of a list"""
            if len(args) != 1 or kw or res(ex.type_of(ex.listify(args[0]))).kind != "list":
                return NotImplemented
            l = ex.listify(args[0])
            ty = res(ex.type_of(l))
            if unresolved(ty):
                ex.may_raise("ValueError", FALSE)
                raise Infeasible()
            ex.may_raise("ValueError", LT(ty.args[0]).len(ex.term(l)) > 0)
            r = ex.ext_t("numpy." + name + "_list", [l], z3.IntSort())
            ex.assume(r >= 0, "d")
            return V(INT, r)
        return h
    for n in ("argmin", "argmax"):
        reg.externals["numpy." + n] = argmin(n)

    def getslice(ex, t, args):
        # M[:, ...]
        if len(args) > 4 and all(res(ex.type_of(a)).kind == "none" for a in args[1:4]):
            ex.assume(arr_rows(t) == arr_rows(ex.term(args[0])), "d")
    for n in range(4, 8):
        sh["getslice%d" % n] = getslice

    def slice_(ex, t, args):
        b, lo, hi, st = args
        if res(ex.type_of(st)).kind == "none" and res(ex.type_of(lo)).kind == "none" and isinstance(hi, V) and res(hi.ty).kind == "int":
            n = arr_rows(ex.term(b))
            ex.assume(z3.Implies(z3.And(arr_dim(ex.term(b)) == 1, hi.t >= 0), z3.And(arr_dim(t) == 1, arr_rows(t) == z3.If(hi.t <= n, hi.t, n), FA([k_], z3.Implies(z3.And(0 <= k_, k_ < hi.t), arr_get(t, k_) == arr_get(ex.term(b), k_)), [arr_get(t, k_)]))), "d")
    sh["slice"] = slice_

    def getitem(ex, t, args):
        # A[c], c an array of integers
        if len(args) == 2 and res(ex.type_of(args[1])).kind == "opq":
            c, b = ex.term(args[1]), ex.term(args[0])
            ex.assume(z3.Implies(z3.And(is_ix(c), arr_dim(b) == 1), z3.And(arr_dim(t) == 1, arr_rows(t) == arr_rows(c))), "d")
    sh["getitem1"] = getitem

    look = {}

    def searchsorted(ex, t, args):
        if len(args) != 2:
            return
        n = rows_of(ex, args[1])
        if n is None:
            return
        v, a = ex.term(args[1]), ex.ext_arg(args[0])
        f = z3.Function("search_position_" + str(a.sort()), a.sort(), OpqS, OpqS)
        if res(ex.type_of(args[1])).kind == "list":
            el = box_opq(LT(res(ex.type_of(args[1])).args[0]).at(v, k_))
            p = [arr_get(t, k_)]
        else:
            el = arr_get(v, k_)
            p = [arr_get(t, k_)]
        ex.assume(z3.And(arr_rows(t) == n, is_ix(t)), "d")
        if res(ex.type_of(args[1])).kind == "list":
            ex.array(t, 1, n)
        else:
            ex.assume(arr_dim(t) == arr_dim(v), "d")
        ex.assume(FA([k_], z3.Implies(z3.And(0 <= k_, k_ < n), arr_get(t, k_) == f(a, el)), p), "d")
    sh["numpy.searchsorted"] = searchsorted

    def flatnonzero(ex, t, args):
        ex.array(t, 1, arr_rows(t))
        ex.assume(z3.And(is_ix(t), arr_rows(t) >= 0), "d")
    sh["numpy.flatnonzero"] = flatnonzero

    def unique(ex, t, args):
        if len(args) != 1:
            return
        li = LT(INT)
        U = ex.fresh("unique", li.S)
        v = z3.Int("v_")
        ex.array(t, 1, li.len(U))
        ex.assume(li.distinct(U), "d")
        ty = res(ex.type_of(args[0]))
        a = ex.term(args[0]) if ty.kind == "opq" or ty.kind == "list" and not unresolved(ty) else None
        if a is not None and z3.is_app(a) and a.decl().name() in ("ext_numpy.array", "ext_numpy.asarray") and a.arg(0).sort() == li.S:
            ty, a = Lst(INT), a.arg(0)
        if ty.kind == "list" and not unresolved(ty) and res(ty.args[0]).kind == "int":
            l = a
            ex.assume(FA([v], li.mem(U, v) == li.mem(l, v), [li.mem(U, v), li.mem(l, v)]), "d")
        elif ty.kind == "opq":
            f = z3.Function(str(U) + "_place", z3.IntSort(), z3.IntSort())
            one = z3.And(arr_dim(a) == 1, ints(a))
            ex.assume(z3.Implies(one, z3.And(
                FA([k_], z3.Implies(z3.And(0 <= k_, k_ < arr_rows(a)), li.mem(U, unbox_opq(arr_get(a, k_), z3.IntSort()))), [arr_get(a, k_)]),
                FA([v], z3.Implies(li.mem(U, v), z3.And(0 <= f(v), f(v) < arr_rows(a), arr_get(a, f(v)) == box_opq(v))), [li.mem(U, v)]))), "d")
    sh["numpy.unique"] = unique

    # a writing ufunc: np.add(a, b, out)
    def ufunc(name, nin):
        def h(ex, args, kw, e):
            out = args[nin] if len(args) > nin else kw.get("out")
            if out is None or res(ex.type_of(out)).kind == "none":
                return NotImplemented
            if e is None:
                ex.unsupported("output argument of numpy." + name)
            tx = e.args[nin] if len(args) > nin else [q.value for q in e.keywords if q.arg == "out"][0]
            ex.opq_mutate(tx, ex.unopt(out), "out", [ex.ext_call("numpy." + name, [ex.listify(a) for a in args[:nin]], {})])
            return ex.evr(tx)
        return h
    for n in ("add", "subtract", "multiply", "divide", "true_divide", "maximum", "minimum", "power", "dot", "logical_and", "logical_or"):
        reg.externals["numpy." + n] = ufunc(n, 2)
    for n in ("negative", "absolute", "exp", "log", "sqrt", "square"):
        reg.externals["numpy." + n] = ufunc(n, 1)
    reg.externals["numpy.clip"] = ufunc("clip", 3)

    def inplace_fn(ex, args, kw, e):
        """np.fill_diagonal(a, v), np.copyto(a, v), np.put..: the first argument changes"""
        if e is None or not e.args:
            ex.unsupported("in-place numpy function")
        ex.opq_mutate(e.args[0], ex.unopt(args[0]), "out", [ex.listify(a) for a in args[1:]])
        return NONEV
    for n in ("fill_diagonal", "copyto", "put", "place", "putmask"):
        reg.externals["numpy." + n] = inplace_fn

    # itertools -------------------------------------------------------------------------------------------------------
    def pairs(kind):
        def h(ex, args, kw, e):
            if kind == "product":
                if kw and set(kw) != {"repeat"}:
                    return NotImplemented
                its = [ex.iter_of(a) for a in args]
                if "repeat" in kw:
                    r = kw["repeat"].t
                    if not z3.is_int_value(r):
                        return NotImplemented
                    its = its * r.as_long()
            else:
                a = dict(zip(("iterable", "r"), args))
                a.update(kw)
                r = ex.as_int(a["r"])
                if not z3.is_int_value(r) or r.as_long() != 2:
                    return NotImplemented
                its = [ex.iter_of(a["iterable"])] * 2
            if len(its) != 2 or any(it.desc == "empty" for it in its):
                return NotImplemented
            A, B_ = its
            n = ex.fresh("npairs", z3.IntSort())
            nm = n.decl().name()
            f, g = (z3.Function(nm + s, z3.IntSort(), z3.IntSort()) for s in ("_f", "_g"))
            pr = z3.Function(nm + "_at", z3.IntSort(), z3.IntSort(), z3.IntSort())
            p, q = z3.Ints("p_ q_")
            valid = z3.And(0 <= p, p < A.n, 0 <= q, q < B_.n)
            if kind == "combinations":
                valid = z3.And(valid, p < q)
            if kind == "permutations":
                valid = z3.And(valid, p != q)
            ex.assume(n >= 0, "d")
            inr = lambda t: z3.And(0 <= t, t < n)
            sub = lambda t: z3.substitute(valid, (p, f(t)), (q, g(t)))
            ex.assume(FA([k_], z3.Implies(inr(k_), z3.And(sub(k_), pr(f(k_), g(k_)) == k_)), [f(k_), g(k_)]), "d")
            ex.assume(FA([p, q], z3.Implies(valid, z3.And(inr(pr(p, q)), f(pr(p, q)) == p, g(pr(p, q)) == q)), [pr(p, q)]), "d")
            first = (z3.IntVal(0), z3.IntVal(0 if kind == "product" else 1))
            ex.assume(z3.Implies(z3.substitute(valid, (p, first[0]), (q, first[1])), n > 0), "d")
            return It(n, lambda t: PTup([A.elem(f(t)), B_.elem(g(t))]), desc=kind)
        return h
    for n in ("product", "combinations", "permutations"):
        reg.externals["itertools." + n] = pairs(n)

    def random_state(ex, args, kw, e):
        a = list(args) + list(kw.values())
        if ex.seed_term is not None:
            sd = ex.seed_term
            ex.obligation("the generator is given the random seed", ex.eq(a[0], sd) if a else is_none(sd.ty, sd.t), ("C19",))
        return NotImplemented
    for n in ("sklearn.utils.check_random_state", "numpy.random.RandomState", "numpy.random.default_rng", "random.Random"):
        reg.externals[n] = random_state

