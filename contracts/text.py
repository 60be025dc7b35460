"""preprocess and vectorize: same IDs in the same order, each result from its own text; missing language models and unknown vectorizers are rejected.

"Computed from its own text" is a relation between two calls: with the same settings, equal texts give equal results whatever the other texts of
the call are (for TF-IDF: whatever the key; the weights of a row depend on the whole corpus, so there the row is the one of the text's position)."""
import z3
from pyvc.values import *
from pyvc.execu import *
from pyvc.contract import Contract
from .client import LS, B

TX = Dct(STR, STR)
DX = DT(STR, STR)
VX = Dct(STR, OPQ)
DV = DT(STR, OPQ)
x, y = z3.Consts("x y", StrS)
i = z3.Int("i")
INST = z3.Function("language_model_installed", StrS, B)
NLP = z3.Function("language_model", StrS, OpqS, OpqS)
ROW = z3.Function("vectorizer_row", OpqS, StrS, OpqS)
FIT = z3.Function("vectorizer_fitted", OpqS, LS.S, OpqS)


def install(prog, reg):
    def load(ex, args, kw, e):
        a = dict(zip(("name",), args))
        a.update(kw)
        nm = ex.coerce_t(a.pop("name"), STR)
        ex.may_raise("OSError", INST(nm))
        rest = ex.ext_app("language_model_settings" + "".join("_" + k for k in sorted(a)), [a[k] for k in sorted(a)])
        return V(OPQ, NLP(nm, ex.term(rest)))
    reg.externals["spacy.load"] = load

    def texts(ex, a):
        l = ex.to_list(ex.listify(a))
        return None if unresolved(ex.type_of(l)) else ex.coerce_t(l, Lst(STR))

    def fit(ex, base, args, kw, e):
        a = args[0] if args else kw.get("raw_documents")
        if a is None or not ex.term(base).decl().name().startswith("ext_sklearn.feature_extraction.text."):
            return NotImplemented
        L = texts(ex, a)
        new = V(OPQ, FIT(ex.term(base), L))
        ex.opq_replace(e.func.value if e is not None else None, base, new)
        return new

    def rows(ex, model, L):
        r = ex.fresh("rows", OpqS)
        ex.array(r, 2, LS.len(L))
        ex.assume(FA([i], z3.Implies(z3.And(0 <= i, i < LS.len(L)), arr_get(r, i) == ROW(model, LS.at(L, i))), [arr_get(r, i)]))
        return V(OPQ, r)

    def fit_transform(ex, base, args, kw, e):
        r = fit(ex, base, args, kw, e)
        if r is NotImplemented:
            return r
        return rows(ex, r.t, r.t.arg(1))

    def transform(ex, base, args, kw, e):
        a = args[0] if args else kw.get("raw_documents")
        if a is None or ex.term(base).decl().name() != "vectorizer_fitted":
            return NotImplemented
        return rows(ex, ex.term(base), texts(ex, a))
    prev = reg.opq_methods.get("fit")

    def fit2(ex, base, args, kw, e):
        r = fit(ex, base, args, kw, e)
        return prev(ex, base, args, kw, e) if r is NotImplemented and prev is not None else r
    reg.opq_methods["fit"] = fit2
    reg.opq_methods["fit_transform"] = fit_transform
    reg.opq_methods["transform"] = transform


def key_order(lv):
    """a dict built along a list has its keys in the order of the list"""
    out = []
    src = lv.it and (lv.it.lst if lv.it.lst is not None else lv.it.pat)
    if not src or res(src[0]) != STR:
        return out
    for h in lv.syms:
        if h.ty is not None and res(h.ty).kind == "dict" and res(res(h.ty).args[0]) == STR:
            ks = DT(*res(h.ty).args).keys(h.const)
            out.append(("keys in order", z3.And(LS.len(ks) == lv.i, FA([i], z3.Implies(z3.And(0 <= i, i < lv.i), LS.at(ks, i) == LS.at(src[1], i)), [LS.at(ks, i), LS.at(src[1], i)]))))
    return out


class Text(Contract):
    functional = True
    templates = (key_order,)
    tags = ("C21",)

    def setup(self, ex, fi):
        self.fi = fi
        ps = fi.params
        self.D, self.E = z3.Consts("arg_texts arg_texts2", DX.S)
        self.env = {ps[0]: V(TX, self.D)}
        self.lang = z3.Const("arg_language", StrS)
        self.more(ex, ps)
        return dict(self.env)

    def own_text(self, ex, out, dt, ty, cond=None):
        """second call with other texts"""
        r1 = ex.coerce_t(out.val, ty)
        st = ex.st.copy()
        st.env = dict(self.env)
        st.env[self.fi.params[0]] = V(TX, self.E)
        for o in ex.exec_block(self.fi.node.body, st):
            if o.kind != "return":
                continue
            ex.st = o.st
            r2 = ex.coerce_t(o.val, ty)
            same = z3.And(DX.has(self.D, x), DX.has(self.E, y), DX.get(self.D, x) == DX.get(self.E, y))
            c = cond(ex) if cond else TRUE
            if c is None:
                continue
            ex.obligation("equal texts give equal results, whatever the other texts", FA([x, y], z3.Implies(z3.And(c, same), dt.get(r1, x) == dt.get(r2, y)), [[dt.get(r1, x), dt.get(r2, y)]]), self.tags)

    def keys(self, ex, r, dt):
        ex.obligation("the IDs are those given, in the same order", LS.eq(dt.keys(r), DX.keys(self.D)), self.tags)


class Preprocess(Text):
    qual = "utils.preprocessing:preprocess"
    props = ("C17", "C21")
    assumes = ("spacy.load raises OSError exactly for a model that is not installed, and the loaded model is a deterministic function of one text",)

    def more(self, ex, ps):
        for p in ps[1:4]:
            self.env[p] = V(BOOL, z3.Const("arg_" + p, B))
        self.env[ps[4]] = V(STR, self.lang)

    def post(self, ex, out):
        if out.kind == "raise":
            ok = out.val.name == "ValueError"
            ex.obligation("raises only ValueError, for a language model that is not installed", z3.Not(INST(self.lang)) if ok else FALSE, self.tags)
            return
        ex.obligation("a language model that is not installed is rejected", INST(self.lang), self.tags)
        r = ex.coerce_t(out.val, TX)
        self.keys(ex, r, DX)
        self.own_text(ex, out, DX, TX)


class Vectorize(Text):
    qual = "utils.vectorization:vectorize"
    props = ("C17", "C21")
    assumes = ("spacy.load raises OSError exactly for a model that is not installed, and the loaded model is a deterministic function of one text",
               "row i of TfidfVectorizer().fit_transform(L) is a function of the fitted vectorizer and of the text L[i]")

    def more(self, ex, ps):
        self.kind = z3.Const("arg_kind", StrS)
        self.env[ps[1]] = V(STR, self.kind)
        self.env[ps[2]] = V(STR, self.lang)

    def post(self, ex, out):
        tf, sp = self.kind == lit("tfidf"), self.kind == lit("spacy")
        bad = z3.And(z3.Not(tf), z3.Or(z3.Not(sp), z3.Not(INST(self.lang))))
        if out.kind == "raise":
            ex.obligation("raises only ValueError, for an unknown vectorizer or a language model that is not installed", bad if out.val.name == "ValueError" else FALSE, self.tags)
            return
        ex.obligation("unknown vectorizers and language models that are not installed are rejected", z3.Not(bad), self.tags)
        r = ex.coerce_t(out.val, VX)
        self.keys(ex, r, DV)
        save = ex.st
        w = z3.Const("fitted", OpqS)
        st0 = ex.st.copy()
        # TF-IDF: one fitted vectorizer, and the row of each text
        fits = [f for f in subfits(ex.st) if True]
        if fits:
            f = fits[-1]
            L = f.arg(1)
            k = z3.Int("k")
            ex.obligation("TF-IDF: the vector of an ID is the row of its own text", z3.Implies(tf, FA([x], z3.Implies(DX.has(self.D, x), DV.get(r, x) == ROW(f, DX.get(self.D, x))), [DV.get(r, x)])), self.tags)
            ex.obligation("TF-IDF: the vectorizer is fitted on the texts given", z3.Implies(tf, z3.And(LS.len(L) == DX.size(self.D), FA([x], z3.Implies(DX.has(self.D, x), LS.mem(L, DX.get(self.D, x))), [DX.get(self.D, x)]))), self.tags)
        else:
            ex.obligation("TF-IDF: the vector of an ID is the row of its own text", z3.Not(tf), self.tags)
        ex.st = st0
        ex.assume(sp)
        self.own_text(ex, out, DV, VX)


def subfits(st):
    """terms FIT(model, texts) of the path"""
    out, seen = [], set()
    todo = [f for f in st.forms()]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().name() == "vectorizer_fitted" and not any(True for _ in freevars(t)):
                out.append(t)
            todo.extend(t.children())
    return out


def freevars(t):
    todo = [t]
    while todo:
        s = todo.pop()
        if z3.is_var(s):
            yield s
        todo.extend(s.children())
