"""Saving a constraints manager to JSON and loading it (ghost file: what was written is what is read)."""
import z3
from pyvc.values import *
from pyvc.execu import *
from pyvc.contract import Contract
from contracts.binary import *
from contracts import binary as bin_

FILE = Obj("File")
ENTRY = Rec([("data_ID1", STR), ("data_ID2", STR), ("constraint_type", STR), ("constraints_value", REAL)])
DOC = Rec([("list_of_managed_data_IDs", Lst(STR)), ("list_of_added_constraints", Lst(ENTRY))])
LE = LT(ENTRY)
p_, q_ = z3.Ints("p q")
LOADQ = "constraints.binary:load_constraints_manager_from_json"
TEXT = z3.Function("json_text", sort(DOC), OpqS)


def fld(e, n):
    return sort(ENTRY).accessor(0, n)(e)


def dfld(e, n):
    return sort(DOC).accessor(0, n)(e)


def doc_valid(doc, D):
    """the document lists the data of D in order and only added constraints of D"""
    L = dfld(doc, 1)
    e = LE.at(L, p_)
    a, b, c = fld(e, 0), fld(e, 1), fld(e, 2)
    return [
        ("the managed IDs in order", LS.eq(dfld(doc, 0), dd.keys(D))),
        ("only added constraints are written", FA([p_], z3.Implies(z3.And(0 <= p_, p_ < LE.len(L)), z3.And(dd.has(D, a), dd.has(D, b), is_some(OCON, added(D, a, b)), tup_get(CON, opt_val(OCON, added(D, a, b)), 0) == c)), [e])),
    ]


def written(D, a, b):
    return z3.And(dd.has(D, a), dd.has(D, b), a != b, le(a, b), is_some(OCON, ent(D, a, b)))


class ToJson(Mgr):
    qual = MOD + "to_json"
    props = ("C09", "C17")
    tys = (STR,)
    assumes = ("json.load(json.dump(document)) gives back the document (strings, numbers, lists and string-keyed objects)",)

    def post(self, ex, out):
        if self.no_raise(ex, out, ("C09",)):
            return
        w = ex.st.ghost.get("written", ())
        ok = len(w) == 1 and ex.st.ghost.get(("file", w[0][0])) is not None
        ex.obligation("one document is written", z3.BoolVal(ok), ("C09",))
        if not ok:
            return
        path, mode = ex.st.ghost[("file", w[0][0])]
        ex.obligation("it is written to the given file, replacing its content", z3.And(path == self.args[0], z3.BoolVal(mode == "w")), ("C09",))
        doc = w[0][1]
        for lab, f in doc_valid(doc, self.D):
            ex.obligation(lab, f, ("C09",))
        L = dfld(doc, 1)
        e = LE.at(L, p_)
        ex.obligation("every added constraint between different data is written", FA([x, y], z3.Implies(written(self.D, x, y), z3.Exists([p_], z3.And(0 <= p_, p_ < LE.len(L), fld(e, 0) == x, fld(e, 1) == y), patterns=[e])), [ent(self.D, x, y)]), ("C09",))
        self.ret_true(ex, out, ("C09",))
        self.unchanged(ex, ("C09", "C17"))


def load_templates(lv):
    out = []
    c = lv.ex.contract
    if not isinstance(c, Load):
        return out
    D = t = None
    for h in lv.syms:
        ty = None if h.ty is None or unresolved(res(h.ty)) else res(h.ty)
        if ty == DTY:
            D, Dp = h.const, h.get(lv.pre)
        elif ty == TTY:
            t = h.const
    if D is None or t is None:
        return out
    out += dict_inv(D) + rel_inv(t) + link_inv(D, t)
    out.append(("same IDs", dd.keys(D) == dd.keys(Dp)))
    out.append(("within the saved constraints", FA([x, y], z3.Implies(z3.And(dd.has(D, x), dd.has(D, y), x != y, is_some(OCON, added(D, x, y))), added(D, x, y) == added(c.D, x, y)), [ent(D, x, y)])))
    out += [("within the saved closure: " + n, f) for n, f in minimal(t)]
    it = lv.it
    if it is not None and it.lst is not None and res(it.lst[0]) == ENTRY:
        e = LE.at(it.lst[1], p_)
        out.append(("replayed", FA([p_], z3.Implies(z3.And(0 <= p_, p_ < lv.i), added(D, fld(e, 0), fld(e, 1)) == added(c.D, fld(e, 0), fld(e, 1))), [e])))
    return out


class Load(Contract):
    """the file holds a document written by to_json for some manager (D, T) that satisfies the representation invariant"""
    qual = LOADQ
    props = ("C09",)
    templates = (load_templates,)
    assumes = ToJson.assumes

    def setup(self, ex, fi):
        self.D, self.T = z3.Const("D0", dd.S), z3.Const("T0", tt.S)
        D, t = self.D, self.T
        self.path = z3.Const("arg_path", StrS)
        self.doc = z3.Const("saved_document", sort(DOC))
        for _, f in dict_inv(D) + rel_inv(t) + link_inv(D, t) + doc_valid(self.doc, D):
            ex.assume(f)
        # (E, F) of the invariant of the loaded manager: the closure of the saved one
        ex.assume(FA([x, y], E(x, y) == z3.Or(x == y, z3.And(tt.has(t, x), ml(t, x, y))), [E(x, y)]))
        ex.assume(FA([x, y], F(x, y) == z3.And(tt.has(t, x), cl(t, x, y)), [F(x, y)]))
        ex.obligation("the saved closure is closed", closedEF(), ("C09",))
        L = dfld(self.doc, 1)
        pos = z3.Function("doc_position", StrS, StrS, N)
        e = LE.at(L, pos(x, y))
        ex.assume(FA([x, y], z3.Implies(written(D, x, y), z3.And(0 <= pos(x, y), pos(x, y) < LE.len(L), fld(e, 0) == x, fld(e, 1) == y)), [ent(D, x, y)]))
        ex.st.ghost["document"] = (self.path, self.doc)
        return {fi.params[0]: V(STR, self.path)}

    def post(self, ex, out):
        if self.no_raise(ex, out, ("C09",)):
            return
        v = out.val
        if not isinstance(v, ObjR):
            ex.unsupported("the result is not a new manager")
        o = ex.st.objs[v.oid]
        d, t = ex.coerce_t(o["_constraints_dictionary"], DTY), ex.coerce_t(o["_constraints_transitivity"], TTY)
        D, T0 = self.D, self.T
        ex.obligation("the same IDs in the same order", LS.eq(dd.keys(d), dd.keys(D)), ("C09",))
        ex.obligation("the same added constraints", FA([x, y], z3.Implies(z3.And(dd.has(D, x), dd.has(D, y), x != y), added(d, x, y) == added(D, x, y)), [ent(d, x, y), ent(D, x, y)]), ("C09",))
        for n, f in dict_inv(d) + rel_inv(t) + link_inv(d, t):
            ex.obligation("invariant: " + n, f, ("C09",))
        # the saved closure is minimal: contained in any closed pair of relations that contains its added constraints, in particular the loaded one
        E2, F2 = z3.Function("loadedE", StrS, StrS, B), z3.Function("loadedF", StrS, StrS, B)
        ex.assume(FA([x, y], E2(x, y) == z3.Or(x == y, z3.And(tt.has(t, x), ml(t, x, y))), [E2(x, y)]))
        ex.assume(FA([x, y], F2(x, y) == z3.And(tt.has(t, x), cl(t, x, y)), [F2(x, y)]))
        sub = lambda f: z3.substitute_funs(f, (E, E2(z3.Var(0, StrS), z3.Var(1, StrS))), (F, F2(z3.Var(0, StrS), z3.Var(1, StrS))))
        ex.obligation("the loaded closure is closed and contains the saved constraints", sub(hypEF(D)), ("C09",))
        for n, f in minimal(T0):
            ex.assume(sub(f))
        ex.obligation("the same inferred constraints", FA([x, y], z3.Implies(z3.And(dd.has(D, x), dd.has(D, y)), z3.And(ml(t, x, y) == ml(T0, x, y), cl(t, x, y) == cl(T0, x, y))), [ml(t, x, y), cl(t, x, y), ml(T0, x, y), cl(T0, x, y)]), ("C09",))


def install(prog, reg):
    def open_(ex, args, kw, e):
        a = list(args) + [kw[k] for k in ("mode",) if k in kw]
        path = ex.coerce_t(a[0] if args else kw["file"], STR)
        mode = "r"
        if len(a) > 1:
            m = ex.term(a[1])
            mode = next((z for z in ("w", "r", "wt", "rt", "a", "x", "r+", "w+") if lit(z).eq(m)), None)
            if mode is None:
                ex.unsupported("file mode")
        f = ex.fresh("file", sort(FILE))
        ex.st.ghost[("file", str(f))] = (path, mode.rstrip("t"))
        ex.st.mut += 1
        return V(FILE, f)
    reg.externals["builtins.open"] = open_

    def doc_term(ex, v):
        return ex.coerce_t(v, DOC)

    def dump(ex, args, kw, e):
        a = list(args) + [kw[k] for k in ("obj", "fp") if k in kw]
        doc, f = doc_term(ex, a[0]), ex.term(a[1])
        if any(k not in ("indent", "obj", "fp", "ensure_ascii") for k in kw):
            ex.unsupported("json.dump option")
        ex.st.ghost["written"] = ex.st.ghost.get("written", ()) + ((str(f), doc),)
        ex.st.mut += 1
        return NONEV

    def dumps(ex, args, kw, e):
        if any(k not in ("indent", "ensure_ascii") for k in kw):
            ex.unsupported("json.dumps option")
        t = TEXT(doc_term(ex, args[0]))
        return V(OPQ, t)

    def write(ex, recv, args, kw):
        t = ex.term(args[0])
        if not (z3.is_app(t) and t.decl().eq(TEXT)):
            ex.unsupported("file content")
        ex.st.ghost["written"] = ex.st.ghost.get("written", ()) + ((str(ex.term(recv)), t.arg(0)),)
        ex.st.mut += 1
        return V(INT, ex.fresh("nb", N))

    def content(ex, f):
        g = ex.st.ghost.get(("file", str(ex.term(f))))
        d = ex.st.ghost.get("document")
        if g is None or d is None:
            ex.unsupported("unknown file")
        ex.obligation("the given file is read", z3.And(g[0] == d[0], z3.BoolVal(g[1] == "r")), ("C09",))
        return d[1]

    def load(ex, args, kw, e):
        return V(DOC, content(ex, (list(args) + list(kw.values()))[0]))

    def loads(ex, args, kw, e):
        t = ex.term(args[0])
        if not (z3.is_app(t) and t.decl().eq(TEXT)):
            ex.unsupported("text")
        return V(DOC, t.arg(0))
    reg.externals["json.dump"] = dump
    reg.externals["json.dumps"] = dumps
    reg.externals["json.load"] = load
    reg.externals["json.loads"] = loads
    reg.objmethods[("File", "write")] = write
    reg.objmethods[("File", "read")] = lambda ex, recv, args, kw: V(OPQ, TEXT(content(ex, recv)))
    reg.objmethods[("File", "close")] = lambda ex, recv, args, kw: NONEV
