"""Symbolic executor / verification-condition generator for a Python subset."""
import ast
import os
import z3
from .values import *
from . import theory as T
from . import solver
from .source import FuncInfo, ClassInfo, ModuleInfo

DEBUG = bool(os.environ.get("PYVC_DEBUG"))
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
NONEV = V(NONE, UNIT)


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Obl:
    def __init__(self, func, label, loc, facts, goal, tags=(), lemmas=()):
        self.func, self.label, self.loc, self.facts, self.goal, self.tags, self.lemmas = func, label, loc, facts, goal, tags, lemmas
        self.ok = None
        self.why = ""

    def name(self):
        return f"{self.func}#{self.label}@{self.loc}"


EXC_PARENTS = {
    "KeyError": ["LookupError", "Exception"], "IndexError": ["LookupError", "Exception"], "ValueError": ["Exception"], "TypeError": ["Exception"],
    "OSError": ["Exception"], "IOError": ["OSError", "Exception"], "AttributeError": ["Exception"], "ZeroDivisionError": ["ArithmeticError", "Exception"],
    "FileNotFoundError": ["OSError", "Exception"], "RuntimeError": ["Exception"], "AssertionError": ["Exception"], "NotImplementedError": ["RuntimeError", "Exception"],
    "StopIteration": ["Exception"], "Exception": [], "UnboundLocalError": ["NameError", "Exception"],
}


def and_(fs):
    fs = [f for f in fs if not z3.is_true(f)]
    if not fs:
        return TRUE
    return fs[0] if len(fs) == 1 else z3.And(*fs)


def or_(fs):
    fs = [f for f in fs if not z3.is_false(f)]
    if not fs:
        return FALSE
    return fs[0] if len(fs) == 1 else z3.Or(*fs)


def not_(f):
    if z3.is_true(f):
        return FALSE
    if z3.is_false(f):
        return TRUE
    if z3.is_not(f):
        return f.arg(0)
    return z3.Not(f)


def contains(term, consts):
    ids = {c.get_id() for c in consts}
    seen, stack = set(), [term]
    found = set()
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if k in ids:
            found.add(k)
        if z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())
    return found


def subterms(term):
    seen, stack, out = set(), [term], []
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        out.append(e)
        if z3.is_quantifier(e):
            continue
        stack.extend(e.children())
    return out


ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES, z3.Z3_OP_TO_REAL, z3.Z3_OP_DISTINCT, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_XOR, z3.Z3_OP_IFF}


def pattern_ok(t):
    """no interpreted symbol inside a pattern"""
    for e in subterms(t):
        if z3.is_quantifier(e):
            return False
        if z3.is_app(e) and e.decl().kind() in ARITH:
            return False
    return True


def big(t, limit=150):
    """the term has more than `limit` different subterms"""
    seen, todo = set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if len(seen) > limit:
            return True
        todo.extend(e.children())
    return False


def has_ite(t):
    return any(z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE for e in subterms(t))


def find_patterns(vs, body, prefer=(), limit=4):
    """patterns covering vs: preferred terms, else minimal uninterpreted applications of the body"""
    pats = []
    for p in prefer:
        ps = p if isinstance(p, (list, tuple)) else [p]
        cov = set()
        for q in ps:
            cov |= contains(q, vs)
        if len(cov) == len(vs) and all(pattern_ok(q) for q in ps):
            pats.append(list(ps))
    if pats:
        return pats
    cands = []
    for e in subterms(body):
        if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and pattern_ok(e):
            c = contains(e, vs)
            if c:
                cands.append((c, e))
    full = [e for c, e in cands if len(c) == len(vs)]
    if full:
        full.sort(key=lambda e: len(subterms(e)))
        return [[e] for e in full[:limit]]
    # greedy multi-pattern
    need = {v.get_id() for v in vs}
    cands.sort(key=lambda ce: (-len(ce[0]), len(subterms(ce[1]))))
    chosen = []
    for c, e in cands:
        if c & need:
            chosen.append(e)
            need -= c
        if not need:
            return [chosen]
    return None


def forall(vs, body, prefer=()):
    vs = [v for v in vs]
    used = contains(body, vs)
    vs = [v for v in vs if v.get_id() in used]
    if not vs:
        return body
    pats = find_patterns(vs, body, prefer)
    if pats is None:
        return z3.ForAll(vs, body)
    return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats])


class Exec:
    def __init__(self, prog, reg, func_qual, contract=None):
        self.prog, self.reg, self.func, self.contract = prog, reg, func_qual, contract
        self.st = State()
        self.obls = []
        self.binders = []
        self.dry = 0          # dry run: no obligations, no solver
        self.probe = 0        # houdini probing: no obligations
        self.dec, self.pos, self.alts, self.memo = [], 0, [], {}
        self.loc = "?"
        self.depth = 0
        self.events = None
        self.inlined = set()
        self.used_contracts = set()
        self.externals = set()
        self.loop_cache = {}
        self.cond_names = {}
        self.loop_report = []
        self.callstack = []
        self.fi = None
        self.lemmas = []
        self.raise_ok = None
        self.field_reads = []
        self.templates = []
        self.calls = []
        self.seed_term = None
        self.in_post = False

    # ------------------------------------------------------------------------------------------------ bookkeeping
    def fresh(self, name, s):
        self.st.ctr += 1
        nm = f"{name}!{self.st.ctr}"
        if self.binders:
            return z3.Function(nm, *[b.sort() for b in self.binders], s)(*self.binders)
        return z3.Const(nm, s)

    def fresh_fn(self, name, dom, rng):
        """fresh function symbol; returns a python callable closing over the binders"""
        self.st.ctr += 1
        nm = f"{name}!{self.st.ctr}"
        bs = list(self.binders)
        f = z3.Function(nm, *[b.sort() for b in bs], *dom, rng)
        return lambda *a: f(*bs, *a)

    def assume(self, f, tag="a"):
        if z3.is_true(f):
            return
        self.st.pc.append((tag, f))
        self.st.facts.add(f.get_id())
        if z3.is_and(f):
            for c in f.children():
                self.st.facts.add(c.get_id())
        if z3.is_false(f):
            raise Infeasible()

    def obligation(self, label, goal, tags=()):
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g):
            if self.in_post:
                o = Obl(self.func, label, self.loc, [], goal, tuple(tags), [])
                o.ok, o.why, o.backend = True, "by evaluation", "evaluation"
                self.obls.append(o)
            return
        if not self.dry and not self.probe:
            if goal.get_id() not in self.st.facts:
                self.obls.append(Obl(self.func, label, self.loc, self.st.forms(), goal, tuple(tags), list(self.lemmas)))
        self.assume(goal)

    def prove(self, goal, st=None, rlimit=None, tag=None):
        st = st or self.st
        if goal.get_id() in st.facts:
            return True
        ok, _ = solver.check(st.forms(), goal, rlimit, self.lemmas, tag)
        return ok

    def unsupported(self, msg):
        raise Unsupported(f"{msg} ({self.loc})")

    # ------------------------------------------------------------------------------------------------- decisions
    def choose(self, n):
        if self.pos < len(self.dec):
            k = self.dec[self.pos]
        else:
            k = 0
            for a in range(1, n):
                self.alts.append(self.dec[: self.pos] + [a])
            self.dec.append(0)
        self.pos += 1
        return k

    def known(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.st.facts:
            return True
        if not_(c).get_id() in self.st.facts:
            return False
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return None

    def decide(self, c):
        k = self.known(c)
        if k is not None:
            return k
        if self.choose(2) == 0:
            self.assume(c, "c")
            return True
        self.assume(not_(c), "c")
        return False

    def explore(self, fn, st0):
        """all outcomes of fn from st0: list of (state, ('ok', value) | ('raise', exc))"""
        saved = (self.dec, self.pos, self.alts, self.memo, list(self.binders), self.st)
        outs, work, memo = [], [[]], {}
        try:
            while work:
                prefix = work.pop()
                self.st, self.dec, self.pos, self.alts, self.memo = st0.copy(), list(prefix), 0, [], memo
                self.binders = list(saved[4])
                try:
                    r = ("ok", fn())
                    outs.append((self.st, r))
                except Infeasible:
                    pass
                except PyRaise as e:
                    outs.append((self.st, ("raise", e)))
                # depth-first order
                work.extend(reversed(self.alts))
                if len(outs) > 400:
                    self.unsupported("too many paths")
        finally:
            self.dec, self.pos, self.alts, self.memo, self.binders, self.st = saved
        return outs

    def take_outcome(self, outs):
        """continue the current evaluation with one of several outcomes (forks)"""
        if not outs:
            raise Infeasible()
        k = self.choose(len(outs)) if len(outs) > 1 else 0
        st, (kind, r) = outs[k]
        self.st = st.copy()
        if kind == "raise":
            raise r
        return r

    def merged(self, fn, guard=None, want=None):
        """evaluate fn without forking if possible (ite-merge of its paths)"""
        start = self.st

        def run():
            if guard is not None:
                self.assume(guard, "g")
            return fn()

        outs = self.explore(run, start)
        if guard is None and len(outs) == 1:
            return self.take_outcome(outs)
        if any(k == "raise" for _, (k, _) in outs) or any(o.mut != start.mut for o, _ in outs):
            if guard is not None:
                # exceptional or effectful operand: fork on the guard instead
                if any(True for _ in outs):
                    raise _NeedFork(outs)
            return self.take_outcome(outs)
        try:
            return self.merge_outs(start, outs)
        except TypeMismatch:
            if guard is not None:
                raise _NeedFork(outs)
            return self.take_outcome(outs)

    def merge_outs(self, start, outs):
        n0 = len(start.pc)
        vals, adds, ctr = [], [], start.ctr
        for st, (_, v) in outs:
            conds, gs = [], []
            for tag, f in st.pc[n0:]:
                if tag == "g":
                    gs.append(f)
                elif tag == "c":
                    conds.append(f)
                else:
                    adds.append((tag, f if not (conds or gs) else z3.Implies(and_(gs + conds), f)))
            vals.append((and_(conds), v))
            ctr = max(ctr, st.ctr)
        # temporaries created by the paths
        self.st = start
        for st, _ in outs:
            for b, box in st.heap.items():
                if b not in self.st.heap:
                    self.st.heap[b] = box
        v = self.merge_vals(vals)
        self.st.ctr = ctr
        for tag, f in adds:
            if f.get_id() not in self.st.facts:
                self.assume(f, tag)
        return v

    def merge_vals(self, vals):
        if not vals:
            raise Infeasible()
        v = vals[-1][1]
        for c, w in reversed(vals[:-1]):
            v = self.ite(c, w, v)
        return v

    def ite(self, c, a, b):
        if a is b:
            return a
        if z3.is_expr(a) and z3.is_expr(b):
            return a if a.eq(b) else z3.If(c, a, b)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, PTup) and isinstance(b, PTup) and len(a.items) == len(b.items):
            return PTup([self.ite(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (V, Ref, View, PTup)) and isinstance(b, (V, Ref, View, PTup)):
            if isinstance(a, Ref) and isinstance(b, Ref) and a.bid == b.bid:
                return a
            ty = self.join(self.type_of(a), self.type_of(b))
            ta, tb = self.coerce_t(a, ty), self.coerce_t(b, ty)
            if ta.eq(tb):
                t = ta
            else:
                t = z3.If(c, ta, tb)
            if is_mutable(ty):
                # fresh temporaries may be merged; named boxes would lose identity
                return V(ty, t)
            return V(ty, t)
        if type(a) is type(b) and isinstance(a, tuple):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if a == b:
            return a
        raise TypeMismatch("merge")

    # ------------------------------------------------------------------------------------------------------ types
    def join(self, a, b):
        a, b = res(a), res(b)
        if a == b:
            return a
        if isinstance(a, TVar) or isinstance(b, TVar):
            return unify(a, b)
        if a.kind == "none":
            return Opt(b)
        if b.kind == "none":
            return Opt(a)
        if a.kind == "opt" or b.kind == "opt":
            return Opt(self.join(a.args[0] if a.kind == "opt" else a, b.args[0] if b.kind == "opt" else b))
        if {a.kind, b.kind} == {"int", "real"}:
            return REAL
        if {a.kind, b.kind} == {"int", "bool"}:
            return INT
        if "opq" in (a.kind, b.kind):
            return OPQ
        if a.kind == b.kind and len(a.args) == len(b.args) and a.kind in ("tup",):
            return Ty(a.kind, [self.join(x, y) for x, y in zip(a.args, b.args)])
        return unify(a, b)

    def type_of(self, v):
        if isinstance(v, V):
            return v.ty
        if isinstance(v, Ref):
            return self.st.heap[v.bid].ty
        if isinstance(v, View):
            return v.ty
        if isinstance(v, PTup):
            return Tup(*[self.type_of(x) for x in v.items])
        if isinstance(v, Part):
            ty = self.type_of(v.base)
            ty = res(ty)
            if v.kind == "keys":
                return Lst(ty.args[0])
            if v.kind == "values":
                return Lst(ty.args[1])
            return Lst(Tup(*ty.args))
        if isinstance(v, It):
            if v.lst is not None:
                return Lst(v.lst[0])
            i = z3.Int("tyi")
            return Lst(self.type_of(v.elem(i)))
        if isinstance(v, Guarded):
            return self.type_of(v.val)
        if isinstance(v, (Lam, FnV, BM, ClsV, ModV, TyV, ExcV, ObjR)):
            return OPQ
        if isinstance(v, Poison):
            self.unsupported("use of " + v.why)
        raise Unsupported(f"type of {v}")

    def term(self, v):
        """z3 term of a value"""
        if isinstance(v, V):
            if v.t is None:
                return self.empty_term(v.ty)
            return v.t
        if isinstance(v, Ref):
            b = self.st.heap[v.bid]
            if b.stored is not None:
                d, nv = b.stored
                if d in self.st.heap and self.st.heap[d].nestver != nv:
                    self.unsupported("read of a container through a stale alias")
            if b.t is None:
                return self.empty_term(b.ty)
            return b.t
        if isinstance(v, View):
            b = self.st.heap[v.bid]
            if b.slotver == v.slotver:
                t = b.t
                ty = b.ty
                for step in v.path:
                    t, ty = self.step(t, ty, step)
                return t
            if b.nestver == v.nestver:
                return v.t0
            self.unsupported("stale view of a nested container")
        if isinstance(v, PTup):
            ty = self.type_of(v)
            return tup_mk(ty, [self.term(x) for x in v.items])
        if isinstance(v, (Part, It)):
            r = self.to_list(v)
            return self.term(r)
        if isinstance(v, (Lam, FnV, BM, ClsV, ModV, TyV)):
            return z3.Const("fn_" + str(getattr(v, "name", getattr(v, "dotted", "f"))), OpqS)
        if isinstance(v, ObjR):
            return z3.Const("obj_%s" % v.oid, OpqS)
        raise Unsupported(f"term of {type(v).__name__}")

    def step(self, t, ty, step):
        ty = res(ty)
        k, key = step
        if k == "k":
            return DT(*ty.args).get(t, key), ty.args[1]
        return LT(ty.args[0]).at(t, key), ty.args[0]

    def empty_term(self, ty):
        ty = res(ty)
        if unresolved(ty):
            raise Unsupported("element type of an empty container is unknown")
        if ty.kind == "list":
            return LT(ty.args[0]).nil
        if ty.kind == "set":
            return DT(ty.args[0], NONE).empty
        return DT(*ty.args).empty

    def coerce_t(self, v, ty):
        """term of v as a value of type ty"""
        ty = res(ty)
        vt = res(self.type_of(v))
        if isinstance(ty, TVar):
            unify(ty, vt)
            ty = res(ty)
        if vt == ty:
            return self.term(v)
        if ty.kind == "opt":
            if vt.kind == "none":
                return none_of(ty)
            if vt.kind == "opt":
                x = self.term(v)
                return z3.If(is_none(vt, x), none_of(ty), some_of(ty, self.coerce_t(V(vt.args[0], opt_val(vt, x)), ty.args[0])))
            return some_of(ty, self.coerce_t(v, ty.args[0]))
        if vt.kind == "opt":
            x = self.term(v)
            self.obligation("value is not None", is_some(vt, x))
            return self.coerce_t(V(vt.args[0], opt_val(vt, x)), ty)
        if vt.kind == "int" and ty.kind == "real":
            return z3.ToReal(self.term(v))
        if vt.kind == "bool" and ty.kind == "int":
            return z3.If(self.term(v), z3.IntVal(1), z3.IntVal(0))
        if vt.kind == "bool" and ty.kind == "real":
            return z3.If(self.term(v), z3.RealVal(1), z3.RealVal(0))
        if ty.kind == "opq":
            return box_opq(self.term(v))
        if vt.kind == "opq":
            return unbox_opq(self.term(v), sort(ty))
        if isinstance(v, PTup) and ty.kind == "tup" and len(v.items) == len(ty.args):
            return tup_mk(ty, [self.coerce_t(x, t) for x, t in zip(v.items, ty.args)])
        if isinstance(v, (V, Ref, View)) and vt.kind == "tup" and ty.kind == "tup" and len(vt.args) == len(ty.args):
            x = self.term(v)
            return tup_mk(ty, [self.coerce_t(V(a, tup_get(vt, x, i)), b) for i, (a, b) in enumerate(zip(vt.args, ty.args))])
        if vt.kind == ty.kind and unresolved(vt):
            unify(vt, ty)
            return self.term(v)
        if vt.kind in ("list", "dict") and ty.kind == vt.kind and isinstance(v, (Ref, V)):
            # literal containers whose element type has to be widened (e.g. None -> Optional)
            r = self.widen(v, vt, ty)
            if r is not None:
                return r
        raise TypeMismatch(f"{vt} is not {ty}")

    def widen(self, v, vt, ty):
        t = self.term(v)
        if vt.kind == "list":
            a, b = vt.args[0], ty.args[0]
            la, lb = LT(a), LT(b)
            r = self.fresh("wid", lb.S)
            j = z3.Int("wj")
            e = self.coerce_t(V(a, la.at(t, j)), b)
            self.assume(lb.len(r) == la.len(t), "d")
            self.assume(FA([j], z3.Implies(z3.And(0 <= j, j < la.len(t)), lb.at(r, j) == e), [lb.at(r, j), la.at(t, j)]), "d")
            return r
        (ka, va), (kb, vb) = vt.args, ty.args
        if not ka == kb:
            return None
        da, db = DT(ka, va), DT(kb, vb)
        r = self.fresh("wid", db.S)
        k = z3.Const("wk", da.K)
        e = self.coerce_t(V(va, da.get(t, k)), vb)
        self.assume(db.keys(r) == da.keys(t), "d")
        self.assume(FA([k], db.get(r, k) == e, [db.get(r, k)]), "d")
        return r

    def new_box(self, ty, t, origin="local"):
        self.st.ctr += 1
        b = f"b{self.st.ctr}"
        while b in self.st.heap:
            self.st.ctr += 1
            b = f"b{self.st.ctr}"
        self.st.heap[b] = Box(ty, t, origin)
        return Ref(b)

    def val_of(self, ty, t):
        """value of a term: mutable types become fresh boxes (the caller owns them)"""
        if is_mutable(ty):
            return self.new_box(ty, t)
        if res(ty).kind == "none":
            return NONEV
        return V(ty, t)

    # ---------------------------------------------------------------------------------------------------- mutation
    def event(self, kind, root, path, data):
        if self.events is not None:
            conds = [f for tag, f in self.st.pc[self.ev_base:] if tag in ("c", "g")]
            self.events.append((kind, root, path, data, conds, list(self.loop_ctx)))

    def mutate(self, v, fn, kind, data, slot=False):
        """replace the content of container v: fn(term) -> term"""
        self.st.mut += 1
        if isinstance(v, Guarded):
            v = self.unguard(v)
        if isinstance(v, V):
            self.obligation("frame: a read-only value is modified", FALSE, ("C17",))
            raise Infeasible()
        b = self.st.heap[v.bid]
        path = v.path if isinstance(v, View) else ()
        if isinstance(v, View) and b.slotver != v.slotver:
            self.unsupported("mutation through a stale view")
        if b.isfrozen and not path:
            self.unsupported("mutation of a possibly shared container")
        if len(path) in b.frozen and path:
            self.unsupported("mutation of a possibly shared nested container")
        if not path and b.stored is not None:
            self.unsupported("mutation of a container after it was stored in another one")
        if b.origin.startswith("ro"):
            self.obligation("frame: " + b.origin[3:] + " is modified", FALSE, ("C17",))
            raise Infeasible()
        if b.t is None:
            b.t = None if unresolved(b.ty) else self.empty_term(b.ty)
        terms = [b.t]
        ty = b.ty
        tys = [ty]
        for s in path:
            t, ty = self.step(terms[-1], ty, s)
            terms.append(t)
            tys.append(ty)
        new = fn(terms[-1])
        for s, t, ty in reversed(list(zip(path, terms[:-1], tys[:-1]))):
            ty = res(ty)
            new = DT(*ty.args).set(t, s[1], new) if s[0] == "k" else LT(ty.args[0]).upd(t, s[1], new)
        if has_ite(new):
            k = self.fresh("upd", new.sort())
            self.assume(k == new, "d")
            if kind == "append" and not path:
                self.assume(LT(res(tys[-1]).args[0]).mem(k, data[0]), "d")
            new = k
        self.event(kind, ("box", v.bid), path, data)
        self.st.heap[v.bid] = b.but(t=new, nestver=b.nestver + (1 if path else 0), slotver=b.slotver + (1 if slot else 0))

    def store_elem(self, cont, v, ty):
        """term for storing value v into a slot of type ty of container cont, with the ownership discipline"""
        t = self.coerce_t(v, ty)
        if is_mutable(ty):
            if isinstance(cont, (Ref, View)):
                bid = cont.bid
                lvl = (len(cont.path) if isinstance(cont, View) else 0) + 1
                cb = self.st.heap[bid]
                if isinstance(v, Ref):
                    b = self.st.heap[v.bid]
                    if lvl in cb.frozen:
                        self.st.heap[v.bid] = b.but(isfrozen=True)
                    elif b.stored is not None or b.isfrozen or b.origin != "local":
                        self.st.heap[bid] = cb.but(frozen=cb.frozen | {lvl})
                        self.st.heap[v.bid] = b.but(isfrozen=True)
                        if b.stored is not None and b.stored[0] in self.st.heap:
                            ob = self.st.heap[b.stored[0]]
                            self.st.heap[b.stored[0]] = ob.but(frozen=ob.frozen | {1, 2, 3})
                    else:
                        self.st.heap[v.bid] = b.but(stored=(bid, cb.nestver))
                elif isinstance(v, View):
                    self.st.heap[bid] = cb.but(frozen=cb.frozen | {lvl})
                    ob = self.st.heap[v.bid]
                    self.st.heap[v.bid] = ob.but(frozen=ob.frozen | {len(v.path)})
                elif isinstance(v, V):
                    if lvl not in cb.frozen and not getattr(v, "fresh", False):
                        self.st.heap[bid] = cb.but(frozen=cb.frozen | {lvl})
        return t

    # -------------------------------------------------------------------------------------------------- conversions
    def unguard(self, v):
        if isinstance(v, Guarded):
            self.obligation("variable is assigned before use", v.cond)
            return self.unguard(v.val)
        if isinstance(v, Poison):
            self.unsupported("use of " + v.why)
        if type(v).__name__ == "OpqAttr":
            h = self.reg.opq_attrs.get(v.name)
            r = h(self, v.base) if h is not None else NotImplemented
            return self.ext_app("attr_" + v.name, [v.base]) if r is NotImplemented else r
        return v

    def unopt(self, v):
        """drop Optional with a proof obligation"""
        v = self.unguard(v)
        if isinstance(v, (V,)):
            ty = res(v.ty)
            if ty.kind == "opt":
                self.obligation("value is not None", is_some(ty, v.t))
                return V(res(ty.args[0]), opt_val(ty, v.t))
        return v

    def truth(self, v):
        v = self.unguard(v)
        if z3.is_expr(v):
            return v
        if isinstance(v, PTup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, (Lam, FnV, BM, ClsV, ModV, ObjR, TyV)):
            return TRUE
        if isinstance(v, Part):
            return self.truth(v.base)
        if isinstance(v, It):
            return v.n > 0
        ty = res(self.type_of(v))
        k = ty.kind
        if k == "none":
            return FALSE
        if k in ("list", "dict", "set") and unresolved(ty):
            return FALSE
        t = self.term(v)
        if k == "bool":
            return t
        if k in ("int", "real"):
            return t != 0
        if k == "str":
            return t != lit("")
        if k in ("list", "dict", "set"):
            lt = LT(ty.args[0])
            l = t if k == "list" else DT(*ty.args).keys(t) if k == "dict" else DT(ty.args[0], NONE).keys(t)
            if getattr(self.contract, "deep_triggers", False):
                self.assume(z3.Implies(lt.len(l) > 0, lt.mem(l, lt.at(l, z3.IntVal(0)))), "d")   # names the first element
            return lt.len(l) > 0
        if k == "opt":
            inner = self.truth(V(ty.args[0], opt_val(ty, t)))
            return z3.And(is_some(ty, t), inner)
        if k == "tup":
            return z3.BoolVal(bool(ty.args))
        if k == "opq":
            return opq_bool(t)
        if k.startswith("obj:"):
            return TRUE
        self.unsupported("truth value of " + str(ty))

    def as_int(self, v):
        v = self.unopt(v)
        ty = res(self.type_of(v))
        if ty.kind == "int":
            return self.term(v)
        if ty.kind in ("bool", "opq"):
            return self.coerce_t(v, INT)
        self.unsupported("integer expected, got %s" % ty)

    def eq(self, a, b):
        a, b = self.unguard(a), self.unguard(b)
        if isinstance(a, (Part, It)):
            a = self.to_list(a)
        if isinstance(b, (Part, It)):
            b = self.to_list(b)
        if isinstance(a, PTup) and isinstance(b, PTup):
            if len(a.items) != len(b.items):
                return FALSE
            return and_([self.eq(x, y) for x, y in zip(a.items, b.items)])
        ta, tb = res(self.type_of(a)), res(self.type_of(b))
        if ta.kind == "none" and tb.kind == "none":
            return TRUE
        if ta.kind == "none" or tb.kind == "none":
            o, ot = (b, tb) if ta.kind == "none" else (a, ta)
            if ot.kind == "opt":
                return is_none(ot, self.term(o))
            if ot.kind == "opq":
                f = z3.Function("opq_is_none", OpqS, z3.BoolSort())
                return f(self.term(o))
            return FALSE
        if ta.kind == "opt" and tb.kind == "opt":
            x, y = self.term(a), self.term(b)
            if ta == tb:
                return x == y
            ia, ib = V(ta.args[0], opt_val(ta, x)), V(tb.args[0], opt_val(tb, y))
            return z3.Or(z3.And(is_none(ta, x), is_none(tb, y)), z3.And(is_some(ta, x), is_some(tb, y), self.eq(ia, ib)))
        if ta.kind == "opt":
            x = self.term(a)
            return z3.And(is_some(ta, x), self.eq(V(ta.args[0], opt_val(ta, x)), b))
        if tb.kind == "opt":
            return self.eq(b, a)
        num = ("int", "real", "bool")
        if ta.kind in num and tb.kind in num:
            if ta.kind == tb.kind:
                return self.term(a) == self.term(b)
            if "real" in (ta.kind, tb.kind):
                return self.coerce_t(a, REAL) == self.coerce_t(b, REAL)
            return self.coerce_t(a, INT) == self.coerce_t(b, INT)
        if ta.kind == "opq" or tb.kind == "opq":
            if ta.kind in num or tb.kind in num:
                return self.coerce_t(a, REAL) == self.coerce_t(b, REAL)
            if "str" in (ta.kind, tb.kind):
                return self.coerce_t(a, STR) == self.coerce_t(b, STR)
            f = z3.Function("py_eq", OpqS, OpqS, z3.BoolSort())
            return f(self.coerce_t(a, OPQ), self.coerce_t(b, OPQ))
        if ta.kind != tb.kind:
            return FALSE
        if ta.kind == "list":
            if unresolved(ta) or unresolved(tb):
                o = b if unresolved(ta) else a
                e = a if unresolved(ta) else b
                if unresolved(self.type_of(o)):
                    return TRUE
                return LT(res(self.type_of(o)).args[0]).len(self.term(o)) == 0
            if res(ta.args[0]) == res(tb.args[0]):
                if is_mutable(ta.args[0]):
                    self.unsupported("deep list equality")
                lt = LT(ta.args[0])
                x, y = self.term(a), self.term(b)
                if x.eq(lt.nil):
                    return lt.len(y) == 0
                if y.eq(lt.nil):
                    return lt.len(x) == 0
                return lt.eq(x, y)
            self.unsupported("list equality")
        if ta.kind in ("dict", "set"):
            if unresolved(ta) or unresolved(tb):
                o = b if unresolved(ta) else a
                if unresolved(self.type_of(o)):
                    return TRUE
                ty = res(self.type_of(o))
                return DT(ty.args[0], ty.args[1] if ty.kind == "dict" else NONE).size(self.term(o)) == 0
            if ta == tb:
                if ta.kind == "dict" and is_mutable(ta.args[1]):
                    self.unsupported("deep dict equality")
                return DT(ta.args[0], ta.args[1] if ta.kind == "dict" else NONE).eq(self.term(a), self.term(b))
            self.unsupported("dict equality")
        if ta.kind == "tup":
            if len(ta.args) != len(tb.args):
                return FALSE
            x, y = self.term(a), self.term(b)
            return and_([self.eq(V(p, tup_get(ta, x, i)), V(q, tup_get(tb, y, i))) for i, (p, q) in enumerate(zip(ta.args, tb.args))])
        return self.term(a) == self.term(b)

    def contains_(self, x, c):
        """x in c"""
        c = self.unopt(c)
        x = self.unguard(x)
        if isinstance(c, PTup):
            return or_([self.eq(x, y) for y in c.items])
        if isinstance(c, Part):
            if c.kind == "keys":
                return self.contains_(x, c.base)
            c = self.to_list(c)
        if isinstance(c, It):
            c = self.to_list(c)
        ty = res(self.type_of(c))
        if ty.kind in ("list", "dict", "set") and unresolved(ty):
            return FALSE
        h = self.reg.objops.get((ty.kind, "contains"))
        if h is not None:
            return h(self, c, x)
        t = self.term(c)
        if ty.kind in ("dict", "set", "list"):
            et = res(ty.args[0])
            xt = res(self.type_of(x))
            if xt.kind == "opt" and et.kind != "opt":
                xx = self.term(x)
                return z3.And(is_some(xt, xx), self.contains_(V(xt.args[0], opt_val(xt, xx)), c))
            if xt.kind == "none" and et.kind != "opt":
                return FALSE
            if ty.kind == "list" and is_mutable(et):
                lt = LT(et)
                b = self.fresh("inl", z3.BoolSort())
                w = self.fresh("inw", z3.IntSort())
                j = z3.Int("inj")
                e1 = self.eq(V(et, lt.at(t, w)), x)
                e2 = self.eq(V(et, lt.at(t, j)), x)
                self.assume(z3.Implies(b, z3.And(0 <= w, w < lt.len(t), e1)), "d")
                self.assume(z3.Implies(z3.Not(b), FA([j], z3.Implies(z3.And(0 <= j, j < lt.len(t)), z3.Not(e2)), [lt.at(t, j)])), "d")
                return b
            try:
                xterm = self.coerce_t(x, et)
            except TypeMismatch:
                return FALSE
            if ty.kind == "list":
                return LT(et).mem(t, xterm)
            return DT(et, ty.args[1] if ty.kind == "dict" else NONE).has(t, xterm)
        if ty.kind == "str":
            f = z3.Function("str_contains", StrS, StrS, z3.BoolSort())
            return f(t, self.coerce_t(x, STR))
        if ty.kind == "rec":
            if isinstance(x, V) and is_lit(x.t):
                return z3.BoolVal(any(n == lit_value(x.t) for n, _ in rec_fields(ty)))
        if ty.kind == "opq":
            f = z3.Function("opq_contains", OpqS, OpqS, z3.BoolSort())
            return f(t, self.coerce_t(x, OPQ))
        if ty.kind == "tup":
            return or_([self.eq(x, V(a, tup_get(ty, t, i))) for i, a in enumerate(ty.args)])
        self.unsupported("membership in " + str(ty))

    # ----------------------------------------------------------------------------------------------------- iterables
    def iter_of(self, v):
        v = self.unopt(v)
        if isinstance(v, It):
            return v
        if isinstance(v, PTup):
            items = v.items

            def elem(i, items=items):
                if z3.is_int_value(i):
                    return items[i.as_long()]
                r = items[-1]
                for k in reversed(range(len(items) - 1)):
                    r = self.ite(i == k, items[k], r)
                return r

            it = It(z3.IntVal(len(items)), elem, desc="tuple")
            it.concrete = items
            return it
        if isinstance(v, Part):
            base = self.unopt(v.base)
            ty = res(self.type_of(base))
            if ty.kind == "rec":
                fs = rec_fields(ty)
                t = self.term(base)
                if v.kind == "keys":
                    return self.iter_of(PTup([V(STR, lit(n)) for n, _ in fs]))
                if v.kind == "values":
                    return self.iter_of(PTup([V(ft, sort(ty).accessor(0, i)(t)) for i, (n, ft) in enumerate(fs)]))
                return self.iter_of(PTup([PTup([V(STR, lit(n)), V(ft, sort(ty).accessor(0, i)(t))]) for i, (n, ft) in enumerate(fs)]))
            if unresolved(ty):
                return It(z3.IntVal(0), lambda i: self.unsupported("element of an empty dict"), desc="empty")
            d = DT(*ty.args)
            t = self.term(base)
            ks = d.keys(t)
            kl = d.kl
            live = (base, ks) if isinstance(base, (Ref, View)) else None
            if v.kind == "keys":
                return It(kl.len(ks), lambda i: V(ty.args[0], kl.at(ks, i)), lst=(ty.args[0], ks), live=live, distinct=True, desc="keys")
            if v.kind == "values":
                it = It(kl.len(ks), lambda i: self.slot(base, ("k", kl.at(ks, i)), ty.args[1]), live=live, desc="values")
                it.pat = (ty.args[0], ks)
                return it
            it = It(kl.len(ks), lambda i: PTup([V(ty.args[0], kl.at(ks, i)), self.slot(base, ("k", kl.at(ks, i)), ty.args[1])]), live=live, desc="items")
            it.pat = (ty.args[0], ks)
            return it
        ty = res(self.type_of(v))
        if ty.kind in ("list", "dict", "set") and unresolved(ty):
            return It(z3.IntVal(0), lambda i: self.unsupported("element of an empty container"), desc="empty")
        if ty.kind == "dict":
            return self.iter_of(Part(v, "keys"))
        if ty.kind == "list":
            lt = LT(ty.args[0])
            t = self.term(v)
            live = (v, t) if isinstance(v, (Ref, View)) else None
            return It(lt.len(t), lambda i: self.slot(v, ("i", i), ty.args[0]), lst=(ty.args[0], t), live=live, desc="list")
        if ty.kind == "set":
            l = self.set_order(v)
            lt = LT(ty.args[0])
            return It(lt.len(l), lambda i: V(ty.args[0], lt.at(l, i)), lst=(ty.args[0], l), distinct=True, live=(v, self.term(v)) if isinstance(v, (Ref, View)) else None, desc="set")
        if ty.kind == "opq":
            t = self.term(v)
            f = z3.Function("opq_len", OpqS, z3.IntSort())
            g = z3.Function("opq_at", OpqS, z3.IntSort(), OpqS)
            self.assume(f(t) >= 0)
            t1, k = self.named_array(t), z3.Int("ak")
            self.assume(z3.Implies(arr_dim(t1) >= 1, z3.And(f(t1) == arr_rows(t1), FA([k], g(t1, k) == arr_get(t1, k), [g(t1, k)]))), "d")
            return It(f(t), lambda i: V(OPQ, g(t, i)), desc="opaque")
        if ty.kind == "tup":
            t = self.term(v)
            return self.iter_of(PTup([V(a, tup_get(ty, t, i)) for i, a in enumerate(ty.args)]))
        if ty.kind == "str":
            f = z3.Function("str_len", StrS, z3.IntSort())
            g = z3.Function("str_at", StrS, z3.IntSort(), StrS)
            t = self.term(v)
            self.assume(f(t) >= 0)
            return It(f(t), lambda i: V(STR, g(t, i)), desc="str")
        self.unsupported("iteration over " + str(ty))

    def set_order(self, v):
        """the elements of a set in an unspecified order"""
        ty = res(self.type_of(v))
        t = self.term(v)
        d = DT(ty.args[0], NONE)
        lt = LT(ty.args[0])
        l = self.fresh("setorder", lt.S)
        x = z3.Const("so", lt.E)
        self.assume(lt.distinct(l), "d")
        self.assume(lt.len(l) == d.size(t), "d")
        self.assume(FA([x], lt.mem(l, x) == d.has(t, x), [lt.mem(l, x), d.has(t, x)]), "d")
        if z3.is_app(t) and t.decl().name().startswith("setof_") and t.arg(0).sort() == lt.S:
            # the same, in one step
            self.assume(FA([x], lt.mem(l, x) == self.member(lt, t.arg(0), x), [lt.mem(l, x)]), "d")
        return l

    def member(self, lt, t, x):
        """membership in a list written with +, append and literals"""
        if z3.is_app(t):
            n = t.decl()
            if n.eq(lt.cat):
                return z3.Or(self.member(lt, t.arg(0), x), self.member(lt, t.arg(1), x))
            if n.eq(lt.app):
                return z3.Or(self.member(lt, t.arg(0), x), x == t.arg(1))
            if t.eq(lt.nil):
                return FALSE
        return lt.mem(t, x)

    def slot(self, base, step, ty):
        """value stored in a slot of a container"""
        ty = res(ty)
        if is_mutable(ty) and isinstance(base, (Ref, View)):
            bid = base.bid
            b = self.st.heap[bid]
            path = (base.path if isinstance(base, View) else ()) + (step,)
            t0, _ = self.step(self.term(base), self.type_of(base), step)
            return View(bid, path, ty, b.slotver, b.nestver, t0)
        t, _ = self.step(self.term(base), self.type_of(base), step)
        if ty.kind == "none":
            return NONEV
        return V(ty, t)

    def array(self, t, dim, rows):
        """facts about an array term: dimensions, number of rows, iteration = indexing"""
        t0, t = t, self.named_array(t)
        self.assume(z3.And(arr_dim(t) == dim, arr_rows(t) == rows))
        return V(OPQ, t0)

    def named_array(self, t):
        """the array term, or a constant equal to it where the term cannot be part of a trigger"""
        if pattern_ok(t):
            return t
        c = self.fresh("array", OpqS)
        self.assume(c == t, "d")
        return c

    def to_list(self, v):
        """materialise an iterable as a (fresh) list value"""
        v = self.unopt(v)
        it = self.iter_of(v)
        if getattr(it, "concrete", None) is not None:
            return self.list_lit(it.concrete)
        if it.desc == "empty":
            return self.new_box(Lst(TVar()), None)
        if it.lst is not None:
            return self.new_box(Lst(it.lst[0]), it.lst[1])
        if isinstance(v, Part) and v.kind == "values":
            base = self.unopt(v.base)
            bty = res(self.type_of(base))
            if bty.kind == "dict":
                return self.new_box(Lst(bty.args[1]), DT(*bty.args).vals(self.term(base)))
        j = z3.Int("tl")
        e = it.elem(j)
        ty = self.type_of(e)
        lt = LT(ty)
        r = self.fresh("lst", lt.S)
        t = self.term(e)
        self.assume(lt.len(r) == it.n, "d")
        body = z3.Implies(z3.And(0 <= j, j < it.n), lt.at(r, j) == t)
        pats = [lt.at(r, j)]
        if it.pat is not None and pattern_ok(LT(it.pat[0]).at(it.pat[1], j)):
            pats.append(LT(it.pat[0]).at(it.pat[1], j))
        self.assume(z3.ForAll([j], body, patterns=pats), "d")
        self.assume(z3.substitute(body, (j, z3.IntVal(0))), "d")
        return self.new_box(Lst(ty), r)

    def list_lit(self, items):
        if not items:
            return self.new_box(Lst(TVar()), None)
        ty = self.type_of(items[0])
        for x in items[1:]:
            ty = self.join(ty, self.type_of(x))
        lt = LT(ty)
        t = lt.nil
        ref = self.new_box(Lst(ty), t)
        for x in items:
            t = lt.app(t, self.store_elem(ref, x, ty))
        self.st.heap[ref.bid] = self.st.heap[ref.bid].but(t=t)
        return ref


class _NeedFork(Exception):
    def __init__(self, outs):
        self.outs = outs
