"""Statements and loops."""
import ast
import z3
from .values import *
from .execu import *
from . import theory as T
from . import solver

PRUNE_RL = 400000
HOUD_RL = 2500000


def consts_in(t):
    seen, stack, out = set(), [t], []
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_const(e):
            out.append(e)
        elif z3.is_app(e):
            stack.extend(e.children())
    return out


class HeadSym:
    """a symbol of the loop head: const, getter(state) -> term"""
    late = None     # guard of a variable that is first assigned in the loop

    def __init__(self, const, get, kind, key, ty):
        self.const, self.get, self.kind, self.key, self.ty = const, get, kind, key, ty


class Cand:
    far = False

    def __init__(self, label, f, guard_init=True):
        self.label, self.f = label, f


class LoopView:
    """what templates see of a loop"""
    pass


class StmtMixin:
    ev_base = 0
    loop_ctx = ()
    cur_loop = None
    split_limit = 6
    cond_names = {}
    want = None     # annotated type of the value being computed

    # ------------------------------------------------------------------------------------------------------ blocks
    def exec_block(self, body, st):
        outs = [Out("next", st)]
        for s in body:
            nxt, done = [], []
            for o in outs:
                (nxt if o.kind == "next" else done).append(o)
            if not nxt:
                return done
            if len(nxt) > 1 and len(nxt) > self.split_limit:
                nxt = self.try_merge(nxt)
            if len(nxt) > 200:
                self.unsupported("too many paths")
            new = []
            for o in nxt:
                new += self.exec_stmt(s, o.st)
            outs = done + new
        return outs

    def try_merge(self, outs):
        """merge states of several paths into one where possible"""
        m = outs[0]
        rest = []
        for o in outs[1:]:
            r = self.merge_states(m.st, o.st)
            if r is None:
                rest.append(o)
            else:
                m = Out("next", r)
        return [m] + rest

    def reachable(self, st):
        """boxes that variables and fields of the state refer to"""
        out, todo, seen = set(), list(st.env.values()) + [v for fs in st.objs.values() for v in fs.values()] + list(st.ghost.values()), set()
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, (Ref, View)):
                out.add(v.bid)
            elif isinstance(v, (list, tuple)):
                todo.extend(v)
            elif isinstance(v, dict):
                todo.extend(v.values())
            elif hasattr(v, "__dict__") and not isinstance(v, (z3.AstRef, Ty)):
                todo.extend(v.__dict__.values())
        return out

    def merge_states(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n][1].eq(b.pc[n][1]):
            n += 1
        ca = [f for t, f in a.pc[n:] if t in ("c", "g")]
        cb = [f for t, f in b.pc[n:] if t in ("c", "g")]
        if not ca or not cb:
            return None
        c = and_(ca)
        cc = and_(cb)
        s = a.copy()
        s.pc = a.pc[:n]
        s.ctr = max(a.ctr, b.ctr)
        s.mut = max(a.mut, b.mut)

        saved = self.st
        self.st = s
        try:
            s.facts = {f.get_id() for _, f in s.pc}
            c, cc = self.named_cond(c), self.named_cond(cc)
            s.heap = {}
            for k in dict.fromkeys([*a.heap, *b.heap]):
                x, y = a.heap.get(k), b.heap.get(k)
                if x is None or y is None:
                    s.heap[k] = x or y
                    continue
                if x is y or (x.t is y.t and x.slotver == y.slotver and x.nestver == y.nestver):
                    s.heap[k] = x.but(frozen=x.frozen | y.frozen, isfrozen=x.isfrozen or y.isfrozen, stored=x.stored or y.stored)
                    continue
                if x.t is None or y.t is None:
                    if unresolved(x.ty):
                        s.heap[k] = x
                        continue
                    x = x if x.t is not None else x.but(t=self.empty_term(x.ty))
                    y = y if y.t is not None else y.but(t=self.empty_term(y.ty))
                if x.t.sort() != y.t.sort():
                    # objects of the two branches that happen to have the same number
                    ra, rb = k in self.reachable(a), k in self.reachable(b)
                    if ra and rb:
                        return None
                    s.heap[k] = y if rb else x
                    continue
                s.heap[k] = x.but(t=self.named_ite(c, x.t, y.t), slotver=max(x.slotver, y.slotver) + 1, nestver=max(x.nestver, y.nestver) + 1,
                                  frozen=x.frozen | y.frozen, isfrozen=x.isfrozen or y.isfrozen, stored=x.stored or y.stored)

            def val(x, y):
                if x is y:
                    return x
                if x is None or y is None:
                    v = x if x is not None else y
                    if isinstance(v, Poison):
                        return v
                    cond = c if x is not None else not_(c)
                    if isinstance(v, Guarded):
                        return Guarded(and_([cond, v.cond]), v.val)
                    return Guarded(cond, v)
                if isinstance(x, Poison) or isinstance(y, Poison):
                    return x if isinstance(x, Poison) else y
                if isinstance(x, Guarded) or isinstance(y, Guarded):
                    xc, xv = (x.cond, x.val) if isinstance(x, Guarded) else (TRUE, x)
                    yc, yv = (y.cond, y.val) if isinstance(y, Guarded) else (TRUE, y)
                    return Guarded(z3.If(c, xc, yc), val(xv, yv))
                if isinstance(x, Ref) and isinstance(y, Ref):
                    if x.bid == y.bid:
                        return x
                    raise TypeMismatch("different boxes")
                if isinstance(x, View) and isinstance(y, View):
                    if x.bid == y.bid and len(x.path) == len(y.path) and all(p[0] == q[0] and p[1].eq(q[1]) for p, q in zip(x.path, y.path)):
                        return x
                    raise TypeMismatch("views")
                if isinstance(x, (Ref, View)) or isinstance(y, (Ref, View)):
                    raise TypeMismatch("boxes")
                if isinstance(x, V) and isinstance(y, V) and res(x.ty).kind == res(y.ty).kind == "opq":
                    return V(OPQ, self.named_ite(c, x.t, y.t))
                return self.ite(c, x, y)

            s.env = {}
            for k in list(dict.fromkeys(list(a.env) + list(b.env))):
                s.env[k] = val(a.env.get(k), b.env.get(k))
            for o in dict.fromkeys([*a.objs, *b.objs]):
                fa, fb = a.objs.get(o), b.objs.get(o)
                if fa is None or fb is None:
                    s.objs[o] = dict(fa or fb)
                    continue
                s.objs[o] = {k: val(fa.get(k), fb.get(k)) for k in list(dict.fromkeys(list(fa) + list(fb)))}
            for k in dict.fromkeys([*a.fmap, *b.fmap]):
                x, y = a.fmap.get(k), b.fmap.get(k)
                if x is None or y is None:
                    base = self.field_map0(k)
                    x = base if x is None else x
                    y = base if y is None else y
                s.fmap[k] = x if x.eq(y) else z3.If(c, x, y)
            for k in dict.fromkeys([*a.ghost, *b.ghost]):
                x, y = a.ghost.get(k), b.ghost.get(k)
                if x is y:
                    s.ghost[k] = x
                elif z3.is_expr(x) and z3.is_expr(y):
                    s.ghost[k] = x if x.eq(y) else z3.If(c, x, y)
                elif isinstance(x, bool) or isinstance(y, bool):
                    s.ghost[k] = bool(x) and bool(y)
                elif x == y:
                    s.ghost[k] = x
                else:
                    raise TypeMismatch("ghost")
            for st in (a, b):
                conds = []
                for t, f in st.pc[n:]:
                    if t in ("c", "g"):
                        conds.append(f)
                    else:
                        self.assume(z3.Implies(self.named_cond(and_(conds)), f) if conds else f, t)
            self.assume(or_([c, cc]), "c")
            return s
        except (TypeMismatch, Unsupported, Infeasible):
            return None
        finally:
            self.st = saved

    def named_cond(self, f):
        """the condition, or a new constant defined by it where it is large"""
        if not big(f, 40):
            return f
        k = self.cond_names.get(f.get_id())
        if k is None:
            k = self.cond_names[f.get_id()] = self.fresh("cond", z3.BoolSort()), f
        d = k[0] == f
        if d.get_id() not in self.st.facts:
            self.assume(d, "d")
        return k[0]

    def named_ite(self, c, x, y):
        """If(c, x, y); a container is given a name, so that triggers on it stay usable"""
        if x.eq(y):
            return x
        if x.sort().kind() != z3.Z3_UNINTERPRETED_SORT:
            return z3.If(c, x, y)
        k = self.fresh("join", x.sort())
        self.assume(z3.Implies(c, k == x), "d")
        self.assume(z3.Implies(z3.Not(c), k == y), "d")
        return k

    def field_map0(self, key):
        ft = self.reg.symclasses[key[0]].fields[key[1]]
        return z3.Const("fm_%s_%s" % key, z3.ArraySort(sort(Obj(key[0])), sort(ft)))

    # --------------------------------------------------------------------------------------------------- statements
    def exec_stmt(self, s, st):
        loc = f"{self.fi.module.relpath}:{getattr(s, 'lineno', 0)}" if self.fi is not None else "?"
        saved = self.loc
        self.loc = loc
        try:
            m = getattr(self, "st_" + type(s).__name__, None)
            if m is None:
                self.unsupported("statement " + type(s).__name__)
            return m(s, st)
        finally:
            self.loc = saved

    def simple(self, fn, st):
        outs = []
        for o, (k, r) in self.explore(fn, st):
            outs.append(Out("next", o, r) if k == "ok" else Out("raise", o, r))
        return outs

    def st_Pass(self, s, st):
        return [Out("next", st)]

    def st_Import(self, s, st):
        return [Out("next", st)]

    st_ImportFrom = st_Global = st_Nonlocal = st_Import

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [Out("next", st)]
        return self.simple(lambda: self.ev(s.value), st)

    def st_Assign(self, s, st):
        def run():
            v = self.unguard(self.ev(s.value))
            for t in s.targets:
                self.bind(t, v)
        return self.simple(run, st)

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [Out("next", st)]

        def run():
            saved = self.want
            try:
                self.want = self.ann_type(s.annotation)
            except Exception:  # noqa
                self.want = None
            try:
                v = self.unguard(self.ev(s.value))
            finally:
                self.want = saved
            self.hint(v, s.annotation)
            self.bind(s.target, v)
        return self.simple(run, st)

    def hint(self, v, ann):
        """an annotation only helps when the element type of an empty container is unknown"""
        try:
            if isinstance(v, Ref) and unresolved(self.st.heap[v.bid].ty):
                ty = self.ann_type(ann)
                if ty is not None:
                    unify(self.st.heap[v.bid].ty, ty)
        except (TypeMismatch, Unsupported):
            pass

    def ann_type(self, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            a = ast.parse(a.value, mode="eval").body
        if isinstance(a, ast.Name):
            m = {"str": STR, "int": INT, "float": REAL, "bool": BOOL, "csr_matrix": OPQ, "ndarray": OPQ, "Any": OPQ}
            if a.id in m:
                return m[a.id]
            if a.id in self.reg.symclasses:
                return Obj(a.id)
            return None
        if isinstance(a, ast.Constant) and a.value is None:
            return NONE
        if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name):
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            ts = [self.ann_type(x) for x in args]
            if any(t is None for t in ts):
                return None
            n = a.value.id
            if n in ("List", "list"):
                return Lst(ts[0])
            if n in ("Dict", "dict"):
                return Dct(*ts)
            if n in ("Set", "set"):
                return St_(ts[0])
            if n in ("Tuple", "tuple"):
                return Tup(*ts)
            if n == "Optional":
                return Opt(ts[0])
        return None

    def st_AugAssign(self, s, st):
        def run():
            tgt = s.target
            if isinstance(tgt, ast.Name):
                cur = self.unguard(self.ev(ast.Name(tgt.id, ast.Load())))
            elif isinstance(tgt, ast.Attribute):
                o = self.unopt(self.ev(tgt.value))
                cur = self.attr(o, tgt.attr)
            else:
                base = self.unopt(self.ev(tgt.value))
                if isinstance(tgt.slice, ast.Slice) or (isinstance(tgt.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in tgt.slice.elts)):
                    if res(self.type_of(base)).kind == "opq":
                        r = self.evr(s.value)
                        self.opq_mutate(tgt.value, base, "augslice", [r])
                        return
                    self.unsupported("slice assignment")
                k = self.evr(tgt.slice)
                cur = self.subscript(base, k)
            cur = self.unguard(cur)
            r = self.unguard(self.ev(s.value))
            nm = type(s.op).__name__
            ty = res(self.type_of(cur))
            if ty.kind == "list" and nm == "Add":
                self.call_method(cur, "extend", [r], {})
                return
            if ty.kind == "set" and nm == "BitOr":
                self.call_method(cur, "update", [r], {})
                return
            if ty.kind == "dict" and nm == "BitOr":
                self.call_method(cur, "update", [r], {})
                return
            if ty.kind == "opq" and isinstance(tgt, ast.Name):
                # in-place arithmetic on arrays may modify aliases
                bt = self.term(cur)
                self.array_frame(bt)
                v = self.binop(s.op, self.unopt(cur), self.unopt(r))
                self.array_aliases(bt, tgt.id)
                self.bind(tgt, v)
                return
            v = self.binop(s.op, self.unopt(cur), self.unopt(r))
            if isinstance(tgt, ast.Name):
                self.bind(tgt, v)
            elif isinstance(tgt, ast.Attribute):
                if ty.kind == "opq":
                    self.array_frame(self.term(cur))
                    self.array_aliases(self.term(cur), (o.oid, tgt.attr) if isinstance(o, ObjR) else None)
                self.set_attr(o, tgt.attr, v)
            else:
                self.set_item(base, k, v, tgt)
        return self.simple(run, st)

    def st_Return(self, s, st):
        if s.value is None:
            return [Out("return", st, NONEV)]
        outs = self.simple(lambda: self.ev_ret(s.value), st)
        for o in outs:
            if o.kind == "next":
                o.kind = "return"
        return outs

    def ev_ret(self, e):
        return self.unguard(self.ev(e))

    def st_Raise(self, s, st):
        def run():
            if s.exc is None:
                raise PyRaise("Exception")
            e = s.exc
            if isinstance(e, ast.Call):
                f = self.ev(e.func)
                for a in e.args:
                    try:
                        if not self.pure_message(a):
                            self.ev(a)
                    except Unsupported:
                        pass
            else:
                f = self.ev(e)
            if isinstance(f, ExcV):
                raise PyRaise(f.name)
            if isinstance(f, ClsV):
                raise PyRaise(f.ci.name)
            if isinstance(f, ModV):
                raise PyRaise(f.dotted.split(".")[-1])
            self.unsupported("raise")
        return self.simple(run, st)

    def pure_message(self, a):
        for n in ast.walk(a):
            if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("str", "repr", "len", "sorted", "list")):
                if not (isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "join")):
                    return False
        return True

    def st_Assert(self, s, st):
        def run():
            c = self.cond(s.test)
            self.may_raise("AssertionError", c)
        return self.simple(run, st)

    def st_Delete(self, s, st):
        def run():
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.st.env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    base = self.unopt(self.ev(t.value))
                    k = self.evr(t.slice)
                    kind = res(self.type_of(base)).kind
                    if kind in ("dict", "list"):
                        self.call_method(base, "pop", [k], {})
                    else:
                        self.unsupported("del")
                else:
                    self.unsupported("del")
        return self.simple(run, st)

    def st_FunctionDef(self, s, st):
        def run():
            self.st.env[s.name] = Lam(s, self.st.env, self.fi, s.name)
        return self.simple(run, st)

    def st_Break(self, s, st):
        return [Out("break", st)]

    def st_Continue(self, s, st):
        return [Out("continue", st)]

    def feasible(self, st, c):
        """assume c in (a copy of) st; None if contradictory"""
        s = st.copy()
        saved = self.st
        self.st = s
        try:
            k = self.known(c)
            if k is False:
                return None
            if k is not True:
                self.assume(c, "c")
                if not self.dry and self.prune(s, c):
                    return None
            return s
        except Infeasible:
            return None
        finally:
            self.st = saved

    def prune(self, st, c):
        ok, _ = solver.check(st.forms()[:-1], not_(c), PRUNE_RL, (), "prune")
        return ok

    def st_If(self, s, st):
        outs = []
        for o, (k, c) in self.explore(lambda: self.cond(s.test), st):
            if k == "raise":
                outs.append(Out("raise", o, c))
                continue
            nxt = []
            for cond, body in ((c, s.body), (not_(c), s.orelse)):
                b = self.feasible(o, cond)
                if b is None:
                    continue
                rs = self.exec_block(body, b) if body else [Out("next", b)]
                nxt += rs
            nn = [x for x in nxt if x.kind == "next"]
            if len(nn) == 2 and self.scalar_diff(nn[0].st, nn[1].st):
                m = self.merge_states(nn[0].st, nn[1].st)
                if m is not None:
                    nxt = [x for x in nxt if x.kind != "next"] + [Out("next", m)]
            outs += nxt
        return outs

    def scalar_diff(self, a, b):
        """the two states differ only in scalar variables"""
        for k in set(a.heap) & set(b.heap):
            x, y = a.heap[k], b.heap[k]
            if x is not y and (x.t is not y.t):
                return False
        for k in dict.fromkeys([*a.env, *b.env]):
            x, y = a.env.get(k), b.env.get(k)
            if x is y:
                continue
            for v in (x, y):
                if isinstance(v, (Ref, View, Lam)) and not (isinstance(x, Ref) and isinstance(y, Ref) and x.bid == y.bid):
                    return False
                if isinstance(v, V) and res(v.ty).kind not in ("int", "real", "bool", "none", "str"):
                    return False
        for o in a.objs:
            for k in set(a.objs[o]) | set(b.objs.get(o, {})):
                if a.objs[o].get(k) is not b.objs.get(o, {}).get(k):
                    return False
        for k in dict.fromkeys([*a.fmap, *b.fmap]):
            if a.fmap.get(k) is not b.fmap.get(k):
                return False
        for k in dict.fromkeys([*a.ghost, *b.ghost]):
            if a.ghost.get(k) is not b.ghost.get(k):
                return False
        return True

    def st_With(self, s, st):
        def run():
            for it in s.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v)
        outs = []
        for o in self.simple(run, st):
            outs += self.exec_block(s.body, o.st) if o.kind == "next" else [o]
        return outs

    def st_Try(self, s, st):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(["Exception"])
            elif isinstance(h.type, ast.Tuple):
                names.append([self.exc_name(x) for x in h.type.elts])
            else:
                names.append([self.exc_name(h.type)])
        saved = (self.try_depth, self.try_handlers)
        self.try_depth = self.try_depth + 1
        self.try_handlers = tuple(self.try_handlers) + tuple(tuple(n) for n in names)
        try:
            outs = self.exec_block(s.body, st)
        finally:
            self.try_depth, self.try_handlers = saved
        res_ = []
        for o in outs:
            if o.kind == "next" and s.orelse:
                res_ += self.exec_block(s.orelse, o.st)
            elif o.kind == "raise":
                for h, ns in zip(s.handlers, names):
                    if any(o.val.name == n or n in EXC_PARENTS.get(o.val.name, ["Exception"]) or n == "BaseException" for n in ns):
                        if h.name:
                            o.st.env[h.name] = V(OPQ, z3.Const("exc", OpqS))
                        rs = self.exec_block(h.body, o.st)
                        for r in rs:
                            if r.kind == "raise" and r.val.name == "Exception" and any(isinstance(b, ast.Raise) and b.exc is None for b in h.body):
                                r.val = o.val
                        res_ += rs
                        break
                else:
                    res_.append(o)
            else:
                res_.append(o)
        if s.finalbody:
            fin = []
            for o in res_:
                for f in self.exec_block(s.finalbody, o.st):
                    fin.append(Out(o.kind, f.st, o.val) if f.kind == "next" else f)
            res_ = fin
        return res_

    def exc_name(self, x):
        if isinstance(x, ast.Name):
            return x.id
        if isinstance(x, ast.Attribute):
            return x.attr
        return "Exception"

    # ------------------------------------------------------------------------------------------------------- loops
    def st_For(self, s, st):
        outs = []
        for o, (k, it) in self.explore(lambda: self.iter_of(self.unopt(self.ev(s.iter))), st):
            if k == "raise":
                outs.append(Out("raise", o, it))
                continue
            conc = getattr(it, "concrete", None)
            if conc is not None and len(conc) <= 8 or it.desc == "empty":
                outs += self.unroll(s, o, conc or [])
            else:
                outs += self.cut_loop(s, o, it)
        return outs

    def unroll(self, s, st, items):
        live, outs = [st], []
        for x in items:
            nl = []
            for b in live:
                def run(x=x):
                    self.bind(s.target, x)
                for o in self.simple(run, b):
                    if o.kind != "next":
                        outs.append(o)
                        continue
                    for r in self.exec_block(s.body, o.st):
                        if r.kind in ("next", "continue"):
                            nl.append(r.st)
                        elif r.kind == "break":
                            outs.append(Out("next", r.st))
                        else:
                            outs.append(r)
            live = nl
        for b in live:
            outs += self.exec_block(s.orelse, b) if s.orelse else [Out("next", b)]
        return outs

    def st_While(self, s, st):
        return self.cut_loop(s, st, None)

    # one iteration from a head state; returns (outs, exits) where exits = states leaving because the condition is false
    outers = ()     # (counter, iterable, node) of the loops around the statement being executed

    def iterate(self, s, st, it, i):
        sv = self.outers
        self.outers = sv + ((i, it, s),)
        try:
            return self.iterate_(s, st, it, i)
        finally:
            self.outers = sv

    def iterate_(self, s, st, it, i):
        outs, exits = [], []
        if it is not None:
            def run():
                self.assume(z3.And(0 <= i, i < it.n), "l")
                self.bind(s.target, it.elem(i))
            for o in self.simple(run, st):
                outs += self.exec_block(s.body, o.st) if o.kind == "next" else [o]
            return outs, exits
        for o, (k, c) in self.explore(lambda: self.cond(s.test), st):
            if k == "raise":
                outs.append(Out("raise", o, c))
                continue
            b = self.feasible(o, c)
            if b is not None:
                outs += self.exec_block(s.body, b)
            e = self.feasible(o, not_(c))
            if e is not None:
                exits.append(e)
        return outs, exits

    # write set ------------------------------------------------------------------------------------------------
    def same_val(self, a, b):
        if a is b:
            return True
        if isinstance(a, V) and isinstance(b, V):
            return a.t is b.t or (a.t is not None and b.t is not None and a.t.eq(b.t) and res(a.ty) == res(b.ty))
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.bid == b.bid
        if isinstance(a, PTup) and isinstance(b, PTup):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, ObjR) and isinstance(b, ObjR):
            return a.oid == b.oid
        return False

    def diff(self, a, b, W, types):
        """what b (end) changes with respect to a (head)"""
        for k in dict.fromkeys([*a.env, *b.env]):
            if k == "__closure__":
                continue
            if not self.same_val(a.env.get(k), b.env.get(k)):
                W.add(("env", k))
                self.note_type(types, ("env", k), a, a.env.get(k))
                self.note_type(types, ("env", k), b, b.env.get(k))
        for k, x in a.heap.items():
            y = b.heap.get(k)
            if y is None or y is x:
                continue
            if x.t is not y.t and not (x.t is not None and y.t is not None and x.t.eq(y.t)):
                W.add(("box", k))
            if y.frozen != x.frozen or y.isfrozen != x.isfrozen or (y.stored is None) != (x.stored is None):
                W.add(("boxattr", k))
                types[("boxattr", k)] = y
        for o in a.objs:
            for k in set(a.objs[o]) | set(b.objs[o]):
                if not self.same_val(a.objs[o].get(k), b.objs[o].get(k)):
                    W.add(("fld", o, k))
                    self.note_type(types, ("fld", o, k), a, a.objs[o].get(k))
                    self.note_type(types, ("fld", o, k), b, b.objs[o].get(k))
        for k in dict.fromkeys([*a.fmap, *b.fmap]):
            x, y = a.fmap.get(k), b.fmap.get(k)
            if y is not None and (x is None or not x.eq(y)):
                if x is None and y.eq(self.field_map0(k)):
                    continue
                W.add(("fmap", k))
        for k in dict.fromkeys([*a.ghost, *b.ghost]):
            x, y = a.ghost.get(k), b.ghost.get(k)
            if x is y:
                continue
            if z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
                continue
            W.add(("ghost", k))
            types[("ghost", k)] = y if z3.is_expr(y) else types.get(("ghost", k), y)

    def note_type(self, types, key, st, v):
        if v is None:
            types.setdefault(key, []).append(None)
            return
        saved = self.st
        self.st = st
        try:
            if isinstance(v, (V, Ref, View, PTup, Part, It)):
                types.setdefault(key, []).append(self.type_of(v))
            elif isinstance(v, Guarded) and isinstance(v.val, (V, Ref, View, PTup)):
                types.setdefault(key, []).append(self.type_of(v.val))
                types.setdefault(("guarded",) + key, True)
            else:
                types.setdefault(key, []).append("x")
        finally:
            self.st = saved

    def head_value(self, key, pre_v, types, refcount):
        """havoced value of a variable or field at the loop head"""
        tl = types.get(key, [])
        late = pre_v is None
        if isinstance(pre_v, Poison) or late and not self.live_out(key):
            return Poison("a variable assigned in a loop, outside its iteration"), None
        if any(isinstance(t, str) for t in tl):
            if isinstance(pre_v, (Lam, ObjR)) or True:
                return Poison("a variable of unknown shape after a loop"), None
        tl = [t for t in tl if t is not None]
        guarded = isinstance(pre_v, Guarded) or late
        if not tl:
            return Poison("a variable assigned in a loop, outside its iteration"), None
        ty = tl[0]
        for t in tl[1:]:
            try:
                ty = self.join(ty, t)
            except TypeMismatch:
                return Poison("a variable of varying type"), None
        ty = res(ty)
        if unresolved(ty):
            if is_mutable(ty):
                return self.new_box(ty, None), ty
            return Poison("a variable of unknown type"), None
        if ty.kind == "none":
            return NONEV, None
        c = self.fresh("h_" + "_".join(str(x) for x in key[1:]), sort(ty))
        if is_mutable(ty):
            r = self.new_box(ty, c)
            fr = types.get(("frozen",) + key, frozenset())
            self.st.heap[r.bid] = self.st.heap[r.bid].but(frozen=fr, isfrozen=types.get(("alias",) + key, False))
            v = r
        else:
            v = V(ty, c)
        if guarded:
            g = self.fresh("hg_" + "_".join(str(x) for x in key[1:]), z3.BoolSort())
            return Guarded(g, v), (ty, c)
        return v, (ty, c)

    def havoc(self, pre, W, types):
        """head state and its symbols"""
        saved = self.st
        head = pre.copy()
        self.st = head
        syms = []
        try:
            for key in sorted(W, key=str):
                if key[0] == "box":
                    b = head.heap[key[1]]
                    if unresolved(b.ty):
                        continue
                    c = self.fresh("hb", sort(b.ty))
                    head.heap[key[1]] = b.but(t=c, slotver=b.slotver + 1, nestver=b.nestver + 1)
                    syms.append(HeadSym(c, (lambda st, k=key[1]: self.box_term(st, k)), "box", key[1], b.ty))
                elif key[0] == "boxattr":
                    y = types[key]
                    b = head.heap[key[1]]
                    head.heap[key[1]] = b.but(frozen=b.frozen | y.frozen, isfrozen=b.isfrozen or y.isfrozen)
                    if y.stored is not None and b.stored is None:
                        head.heap[key[1]] = head.heap[key[1]].but(isfrozen=True)
                elif key[0] in ("env", "fld"):
                    pv = pre.env.get(key[1]) if key[0] == "env" else pre.objs[key[1]].get(key[2])
                    v, info = self.head_value(key, pv, types, None)
                    if key[0] == "env":
                        head.env[key[1]] = v
                    else:
                        head.objs[key[1]][key[2]] = v
                    if info is not None and isinstance(info, tuple):
                        ty, c = info
                        if key[0] == "env":
                            get = lambda st, k=key[1], ty=ty: self.val_term(st, st.env.get(k), ty)
                        else:
                            get = lambda st, o=key[1], k=key[2], ty=ty: self.val_term(st, st.objs[o].get(k), ty)
                        syms.append(HeadSym(c, get, key[0], key[1:], ty))
                        if isinstance(v, Guarded):
                            def gg(st, key=key):
                                w = st.env.get(key[1]) if key[0] == "env" else st.objs[key[1]].get(key[2])
                                return FALSE if w is None else w.cond if isinstance(w, Guarded) else TRUE
                            syms[-1].late = v.cond if pv is None else None
                            syms.append(HeadSym(v.cond, gg, "guard", key[1:], BOOL))
                elif key[0] == "fmap":
                    arr = self.field_map(*key[1])
                    c = self.fresh("hf_%s_%s" % key[1], arr.sort())
                    head.fmap[key[1]] = c
                    syms.append(HeadSym(c, (lambda st, k=key[1]: st.fmap.get(k, self.field_map0(k))), "fmap", key[1], None))
                elif key[0] == "ghost":
                    y = types[key]
                    if z3.is_expr(y):
                        c = self.fresh("hg", y.sort())
                        head.ghost[key[1]] = c
                        syms.append(HeadSym(c, (lambda st, k=key[1], c=c: st.ghost.get(k)), "ghost", key[1], None))
                    elif isinstance(y, bool) or y is None:
                        head.ghost[key[1]] = bool(pre.ghost.get(key[1])) and bool(y)
                    else:
                        head.ghost[key[1]] = ("mixed",)
        finally:
            self.st = saved
        return head, syms

    def live_out(self, key):
        """may a variable first assigned in the current loop be read outside of it?"""
        if key[0] == "fld":
            return True
        lo = self.cur_loop
        if lo is None or self.fi is None:
            return False
        inside = {id(n) for n in ast.walk(lo)}
        return any(isinstance(n, ast.Name) and n.id == key[1] and isinstance(n.ctx, ast.Load) and id(n) not in inside for n in ast.walk(self.fi.node))

    def box_term(self, st, k):
        b = st.heap[k]
        return b.t if b.t is not None else self.empty_term(b.ty)

    def val_term(self, st, v, ty):
        if v is None or isinstance(v, Poison):
            return None
        saved = self.st
        self.st = st
        try:
            if isinstance(v, Guarded):
                v = v.val
            return self.coerce_t(v, ty)
        except (TypeMismatch, Unsupported, Infeasible):
            return None
        finally:
            self.st = saved

    def subst(self, f, syms, st, i=None, iv=None):
        sub = []
        occ = None
        for h in syms:
            t = h.get(st)
            if t is None:
                if occ is None:
                    occ = {e.get_id() for e in consts_in(f)}
                if h.const.get_id() not in occ or h.late is not None:
                    continue
                return None
            if not h.const.eq(t):
                if h.const.sort() != t.sort():
                    return None
                sub.append((h.const, t))
        if i is not None:
            sub.append((i, iv))
        return z3.substitute(f, *sub) if sub else f

    def find_writes(self, s, pre, it, i):
        W, types = set(), {}
        for _ in range(6):
            self.cur_loop = s
            head, syms = self.havoc(pre, W, types)
            n0 = len(W)
            t0 = {k: len(v) if isinstance(v, list) else 0 for k, v in types.items()}
            saved = (self.dry, self.events)
            self.dry, self.events = 1, None
            try:
                outs, _ = self.iterate(s, head.copy(), it, i)
            finally:
                self.dry, self.events = saved
            W0 = set(W)
            tys0 = {k: [self.tystr(x) for x in v] if isinstance(v, list) else None for k, v in types.items()}
            for o in outs:
                if o.kind in ("next", "continue"):
                    self.diff(head, o.st, W, types)
                    self.note_boxes(types, W, o.st)
            changed = {k for k, v in types.items() if isinstance(v, list) and set([self.tystr(x) for x in v]) != set(tys0.get(k) or [])}
            if W == W0 and not changed:
                return W, types
        return W, types

    def tystr(self, x):
        return str(res(x)) if isinstance(x, (T.Ty, T.TVar)) else str(x)

    def note_boxes(self, types, W, st):
        """ownership of containers that are rebound in the loop"""
        for key in W:
            if key[0] not in ("env", "fld"):
                continue
            v = st.env.get(key[1]) if key[0] == "env" else st.objs[key[1]].get(key[2])
            if isinstance(v, Guarded):
                v = v.val
            if isinstance(v, Ref):
                b = st.heap[v.bid]
                types[("frozen",) + key] = types.get(("frozen",) + key, frozenset()) | b.frozen
                if b.isfrozen or b.stored is not None or self.refs(st, v.bid) > 1:
                    types[("alias",) + key] = True
            elif isinstance(v, (View, V)) and is_mutable(self.type_in(st, v)):
                types[("alias",) + key] = True

    def type_in(self, st, v):
        saved = self.st
        self.st = st
        try:
            return self.type_of(v)
        finally:
            self.st = saved

    def refs(self, st, bid):
        n = 0
        for v in list(st.env.values()) + [x for f in st.objs.values() for x in f.values()]:
            if isinstance(v, Guarded):
                v = v.val
            if isinstance(v, (Ref, View)) and v.bid == bid:
                n += 1
        return n

    # the loop rule ---------------------------------------------------------------------------------------------
    def cut_loop(self, s, st, it):
        pre = st.copy()
        saved_st = self.st
        self.st = pre
        i = self.fresh("i", z3.IntSort())
        self.st = saved_st
        if it is not None:
            pre_assume = it.n >= 0
            pre.pc.append(("a", pre_assume))
        W, types = self.find_writes(s, pre, it, i)
        # aliasing: a container rebound in the loop starts as the entry value
        for key in W:
            if key[0] in ("env", "fld"):
                v = pre.env.get(key[1]) if key[0] == "env" else pre.objs[key[1]].get(key[2])
                if isinstance(v, Ref):
                    b = pre.heap[v.bid]
                    types[("frozen",) + key] = types.get(("frozen",) + key, frozenset()) | b.frozen
                    if b.isfrozen or b.stored is not None or self.refs(pre, v.bid) > 1 or b.origin != "local":
                        types[("alias",) + key] = True
        self.cur_loop = s
        head, syms = self.havoc(pre, W, types)
        base_n = len(head.pc)
        if it is not None:
            head.pc.append(("a", z3.And(0 <= i, i <= it.n)))
        else:
            head.pc.append(("a", 0 <= i))
        self.pre_loop = pre
        if self.dry:
            return self.loop_result(s, head, it, i, syms, [])
        # events of one iteration
        saved = (self.dry, self.events, self.ev_base, self.loop_ctx)
        self.dry, self.events, self.ev_base = 1, [], len(head.pc)
        self.loop_ctx = tuple(self.loop_ctx) + ((i, it, s),)
        try:
            douts, _ = self.iterate(s, head.copy(), it, i)
            events = self.events
        finally:
            self.dry, self.events, self.ev_base, self.loop_ctx = saved
        if self.events is not None:
            self.events += [e for e in events]
        lv = LoopView()
        lv.ex, lv.node, lv.it, lv.i, lv.pre, lv.head, lv.syms, lv.events, lv.outs, lv.fi = self, s, it, i, pre, head, syms, events, douts, self.fi
        lv.base = len(head.pc)
        cands = [] if getattr(self.contract, "partial", False) else self.auto_cands(lv)
        for tpl in self.templates:
            try:
                self.st = head
                for lab, f in tpl(lv) or []:
                    if f is not None:
                        c = Cand("t:" + lab, f)
                        c.far = lab in getattr(self.contract, "far", ())   # needs facts that are not about the values it names
                        cands.append(c)
            finally:
                self.st = saved_st
        late = [h for h in syms if h.late is not None]
        for h in syms:
            if h.kind == "guard":
                cands.append(Cand("assigned", h.const == (i >= 1)))
        if late:
            for c in cands:
                occ = {e.get_id() for e in consts_in(c.f)}
                for h in late:
                    if h.const.get_id() in occ:
                        c.f = z3.Implies(h.late, c.f)
        seen, uniq = set(), []
        for c in cands:
            if c.f.get_id() not in seen and not z3.is_true(c.f):
                seen.add(c.f.get_id())
                uniq.append(c)
        cands = uniq
        names = {}
        for c in cands:
            k = names[c.label] = names.get(c.label, 0) + 1
            if k > 1:
                c.label += f"#{k}"
        ckey = (s.lineno, tuple(self.callstack), tuple(f.get_id() for t, f in pre.pc if t == "c"))
        dead = self.loop_cache.setdefault(ckey, set())
        keep_alive = self.__dict__.setdefault("_alive", [])
        keep_alive.append([f for _, f in pre.pc])
        cands = [c for c in cands if c.label not in dead]
        # initiation
        zero = z3.IntVal(0)
        alive = []
        pf = pre.forms()
        solver.WHERE[0] = s.lineno
        rl = getattr(self.contract, "houdini_rlimit", None) or HOUD_RL
        goals = []
        for c in cands:
            g = self.subst(c.f, syms, pre, i, zero)
            if g is None:
                dead.add(c.label)
            else:
                goals.append((c, g))
        for (c, g), (ok, why) in zip(goals, solver.check_many([(pf, g, 3 * abs(rl) if c.far else rl, self.lemmas, "init " + c.label) for c, g in goals])):
            if ok:
                alive.append(c)
            else:
                dead.add(c.label)
                if DEBUG:
                    print("  init fails:", c.label)
        # preservation (Houdini)
        self.probe += 1
        try:
            rounds = 0
            while True:
                rounds += 1
                h = head.copy()
                for c in alive:
                    h.pc.append(("inv", c.f))
                outs, _ = self.iterate(s, h, it, i)
                ends = [o.st for o in outs if o.kind in ("next", "continue")]
                changed_any = False
                while True:
                    drop = []
                    ids = {c.f.get_id() for c in alive}
                    solver.WHERE[0] = s.lineno
                    for e in ends:
                        forms = [f for t, f in e.pc if t != "inv" or f.get_id() in ids or not any(f.eq(x.f) for x in cands)]
                        fids = {f.get_id() for f in forms}
                        goals = []
                        for c in alive:
                            if c in drop:
                                continue
                            g = self.subst(c.f, syms, e, i, i + 1)
                            if g is None:
                                drop.append(c)
                            elif g.get_id() not in fids:
                                goals.append((c, g))
                        for (c, g), (ok, why) in zip(goals, solver.check_many([(forms, g, 3 * abs(rl) if c.far else rl, self.lemmas, "pres " + c.label) for c, g in goals])):
                            if not ok:
                                drop.append(c)
                                if DEBUG:
                                    print("  not preserved:", c.label, "round", rounds, "line", s.lineno)
                    if not drop:
                        break
                    changed_any = True
                    for c in drop:
                        dead.add(c.label)
                    alive = [c for c in alive if c not in drop]
                if not changed_any:
                    break
                if not self.has_loops(s) and rounds > 1:
                    break
        finally:
            self.probe -= 1
        self.loop_report.append((self.fi.qual if self.fi else "?", s.lineno, [c.label for c in alive]))
        if not self.probe:
            for c in alive:
                for kind, n in (("established", 1), ("preserved", max(1, len(ends)))):
                    o = Obl(self.func, f"loop invariant {c.label} {kind}", self.loc, [], TRUE, ())
                    o.ok = True
                    o.inferred = True
                    self.obls.append(o)
        self.pre_loop = pre
        return self.loop_result(s, head, it, i, syms, alive)

    def has_loops(self, s):
        return any(isinstance(n, (ast.For, ast.While)) for b in s.body for n in ast.walk(b))

    def loop_result(self, s, head, it, i, syms, alive):
        pre = self.pre_loop
        h = head.copy()
        for c in alive:
            h.pc.append(("inv", c.f))
            h.facts.add(c.f.get_id())
        sv = self.loop_ctx
        self.loop_ctx = tuple(self.loop_ctx) + ((i, it, s),)
        try:
            outs, exits = self.iterate(s, h.copy(), it, i)
        finally:
            self.loop_ctx = sv
        result = []
        for o in outs:
            if o.kind in ("next", "continue"):
                if it is not None and it.live is not None:
                    self.check_live(o.st, it)
            elif o.kind == "break":
                result.append(Out("next", o.st))
            else:
                result.append(o)
        if it is not None:
            e = head.copy()
            n = it.n
            for c in alive:
                f = z3.substitute(c.f, (i, n))
                e.pc.append(("inv", f))
                e.facts.add(f.get_id())
            e.pc = [(t, z3.substitute(f, (i, n))) for t, f in e.pc]
            for nm in self.target_names(s.target):
                e.env[nm] = Poison("a loop variable after its loop")
            exits = [e]
        if getattr(self.contract, "functional", False) and pre is not None:
            exits = [self.det_loop(s, e, syms, pre) for e in exits]
        for e in exits:
            result += self.exec_block(s.orelse, e) if s.orelse else [Out("next", e)]
        return result

    pre_loop = None

    def det_loop(self, s, e, syms, pre):
        """in `functional` contracts: what a loop computes is a function of the values it reads (evaluation is deterministic)"""
        import hashlib
        a = self.det_args(s, pre)
        if a is None or any(isinstance(n, (ast.Break, ast.Return)) for n in ast.walk(s)):
            return e
        nm = hashlib.sha1((ast.unparse(s) + ",".join(n for n, _ in a)).encode()).hexdigest()[:10]
        ts = [t for _, t in a]
        sub = []
        for k, h in enumerate(syms):
            if h.kind == "guard" or h.late is not None:
                continue
            f = "loop%d_%s" % (k, nm)
            sub.append((h.const, z3.Function(f, *[t.sort() for t in ts], h.const.sort())(*ts) if ts else z3.Const(f, h.const.sort())))
        if sub:
            e = e.copy()
            e.pc = [(t, z3.substitute(f, *sub)) for t, f in e.pc]
            e.facts = {f.get_id() for _, f in e.pc}
            for k, v in list(e.env.items()):
                if isinstance(v, V) and v.t is not None:
                    e.env[k] = V(v.ty, z3.substitute(v.t, *sub))
            for k, b in list(e.heap.items()):
                if b.t is not None:
                    e.heap[k] = b.but(t=z3.substitute(b.t, *sub))
        return e

    def check_live(self, st, it):
        base, t = it.live
        if isinstance(base, Ref) or isinstance(base, View):
            saved = self.st
            self.st = st.copy()
            try:
                b = self.st.heap.get(base.bid)
                if b is None:
                    return
                ty = res(self.type_of(base))
                try:
                    cur = self.term(base)
                except Unsupported:
                    # nested container: the view went stale; look at the slot itself
                    tt, ty2 = b.t, b.ty
                    for stp in base.path:
                        tt, ty2 = self.step(tt, ty2, stp)
                    cur = tt
                if ty.kind == "dict":
                    d = DT(*ty.args)
                    if not d.keys(cur).eq(t):
                        self.obligation("the iterated dictionary keeps its keys", d.keys(cur) == t)
                elif ty.kind == "set":
                    if not cur.eq(t):
                        self.obligation("the iterated set is not changed", cur == t)
                else:
                    lt = LT(ty.args[0])
                    if not cur.eq(t):
                        self.obligation("the iterated list keeps its length", lt.len(cur) == lt.len(t))
            finally:
                self.st = saved

    def target_names(self, t):
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]
