"""Spectral clustering: the matrix given to the solver, labels by row, all managed data labelled, canonical labels, seeding, vectors by ID, frame."""
import z3
from pyvc.values import *
from pyvc.execu import *
from .client import *
from .basic import CL as CLT, DC
from .kmeans import Cluster

Q = "clustering.spectral:SpectralConstrainedClustering."
rbf = z3.Function("rbf_similarity", OpqS, OpqS, z3.RealSort())
labels_of = z3.Function("solver_labels", OpqS, OpqS)
a_, b_ = z3.Ints("a_ b_")
n_ = LS.len(ids)
cell = lambda M, a, b: unbox_opq(arr_get(M, a, b), z3.RealSort())
inr = lambda a: z3.And(0 <= a, a < n_)
at = lambda a: LS.at(ids, a)


def want(a, b):
    return z3.If(ML(at(a), at(b)), z3.RealVal(1), z3.If(CL(at(a), at(b)), z3.RealVal(0), rbf(vec(at(a)), vec(at(b)))))


def install(prog, reg):
    def kernels(ex, args, kw, e):
        a = dict(zip(("X", "Y", "metric"), args))
        a.update(kw)
        X = ex.unguard(a.pop("X"))
        me = a.pop("metric", None)
        r = ex.ext_call("sklearn.metrics.pairwise_kernels", [ex.listify(v) for v in args], {k: ex.listify(v) for k, v in kw.items()})
        xt = ex.term(X) if isinstance(X, V) else None
        if xt is None or not z3.is_app(xt) or not xt.decl().name().startswith("ext_scipy.sparse.vstack") or xt.num_args() < 1 or xt.arg(0).sort() != LT(OPQ).S:
            return r
        L = xt.arg(0)
        lo = LT(OPQ)
        t = ex.term(r)
        ex.array(t, 2, lo.len(L))
        if a or me is None or not (isinstance(me, V) and res(me.ty).kind == "str" and me.t.eq(lit("rbf"))):
            return r
        p, q = z3.Consts("p q", OpqS)
        ex.assume(FA([p, q], rbf(p, q) == rbf(q, p), [rbf(p, q)]))
        ex.assume(FA([p], rbf(p, p) == 1, [rbf(p, p)]))
        ex.assume(FA([i, j], z3.Implies(z3.And(0 <= i, i < lo.len(L), 0 <= j, j < lo.len(L)), unbox_opq(arr_get(t, i, j), z3.RealSort()) == rbf(lo.at(L, i), lo.at(L, j))), [arr_get(t, i, j)]))
        return r
    reg.externals["sklearn.metrics.pairwise_kernels"] = kernels
    reg.externals["sklearn.metrics.pairwise.pairwise_kernels"] = kernels

    def solver(name):
        def h(ex, args, kw, e):
            if ex.seed_term is not None:
                rs = kw.get("random_state")
                sd = ex.seed_term
                ex.obligation("the solver is given the random seed", ex.eq(rs, sd) if rs is not None else is_none(sd.ty, sd.t), ("C19",))
            return NotImplemented
        return h
    for n in ("SpectralClustering", "KMeans"):
        reg.externals["sklearn.cluster." + n] = solver(n)

    def labels(ex, model):
        """labels_ of a fitted solver"""
        t = ex.term(model)
        if not (z3.is_app(t) and t.decl().name() == "solver_after_fit"):
            return NotImplemented
        l = labels_of(t)
        n = arr_rows(t.arg(1))
        ex.array(l, 1, n)
        ex.assume(FA([i], z3.Implies(z3.And(0 <= i, i < n), unbox_opq(arr_get(l, i), z3.IntSort()) >= 0), [arr_get(l, i)]))
        ex.st.ghost["labels"] = l
        return V(OPQ, l)
    reg.opq_attrs["labels_"] = labels

    after = z3.Function("solver_after_fit", OpqS, OpqS, OpqS)

    def fit(predict):
        def h(ex, base, args, kw, e):
            X = args[0] if args else kw.get("X")
            if X is None or not z3.is_app(ex.term(base)) or not ex.term(base).decl().name().startswith("ext_sklearn.cluster."):
                return NotImplemented
            if hasattr(ex.contract, "fitted"):
                ex.contract.fitted(ex, ex.term(base), ex.term(X))
            new = V(OPQ, after(ex.term(base), ex.term(X)))
            ex.opq_replace(e.func.value if e is not None else None, base, new)
            return labels(ex, new) if predict else new
        return h
    reg.opq_methods["fit_predict"] = fit(True)
    reg.opq_methods["fit"] = fit(False)

    def tolist(ex, base, args, kw, e):
        t = ex.term(base)
        lt = LT(OPQ)
        r = ex.fresh("tolist", lt.S)
        ex.assume(lt.len(r) == arr_rows(t))
        ex.assume(FA([i], z3.Implies(z3.And(0 <= i, i < arr_rows(t)), lt.at(r, i) == arr_get(t, i)), [lt.at(r, i)]))
        return ex.new_box(Lst(OPQ), r)
    reg.opq_methods["tolist"] = tolist


def matrix_templates(lv):
    out = []
    for h in lv.syms:
        if h.ty is None or res(h.ty).kind != "opq":
            continue
        M = h.const
        c = arr_get(M, a_, b_)
        ok = cell(M, a_, b_) == want(a_, b_)
        rng = z3.And(inr(a_), inr(b_))
        out.append(("matrix shape", z3.And(arr_dim(M) == 2, arr_rows(M) == n_)))
        out.append(("cells hold the similarity or the constraint", FA([a_, b_], z3.Implies(rng, z3.Or(ok, cell(M, a_, b_) == rbf(vec(at(a_)), vec(at(b_))))), [c])))
        if lv.i is None:
            continue
        prev = [c[0] for c in lv.ex.outers if c[0] is not None and not c[0].eq(lv.i)]
        if prev:
            o = prev[-1]
            done = [("rows and columns", z3.Or(a_ < o, b_ < o, z3.And(a_ == o, b_ < lv.i), z3.And(b_ == o, a_ < lv.i))), ("rows", z3.Or(a_ < o, z3.And(a_ == o, b_ < lv.i))),
                    ("lower triangle", z3.Or(z3.And(a_ < o, b_ < o), z3.And(a_ == o, b_ < lv.i, b_ <= o), z3.And(b_ == o, a_ < lv.i, a_ <= o)))]
        else:
            done = [("rows and columns", z3.Or(a_ < lv.i, b_ < lv.i)), ("rows", a_ < lv.i), ("lower triangle", z3.And(a_ < lv.i, b_ < lv.i))]
        for lab, d in done:
            out.append(("constrained cells so far: " + lab, FA([a_, b_], z3.Implies(z3.And(rng, d), ok), [c])))
    return out


class Spectral(Cluster):
    qual = Q + "cluster"
    props = ("C14", "C17", "C18", "C19", "C22", "C25")
    fields = {"model": STR, "nb_components": Opt(INT)}
    templates = (matrix_templates,)
    assumes = Cluster.assumes + (
        "pairwise_kernels(vstack(V), metric='rbf')[i, j] is the (symmetric) RBF similarity of V[i] and V[j], 1 for the same vector, each V[i] being one row",
        "assigning one cell of a numpy matrix changes that cell only",
        "the labels_ of a fitted sklearn SpectralClustering have one non-negative integer per row of the matrix, and depend only on its settings (with the random state) and the matrix")

    def config(self, ex):
        ex.assume(self.f["model"] == lit("SPEC"))

    def fitted(self, ex, model, X):
        self.fits = True
        d = cell(X, a_, b_)
        rng = z3.And(inr(a_), inr(b_))
        ids_, jds = at(a_), at(b_)
        pat = [arr_get(X, a_, b_)]
        ex.obligation("the solver's matrix is indexed by the managed data", z3.And(arr_dim(X) == 2, arr_rows(X) == n_), ("C22", "C14"))
        ex.obligation("must-linked data have similarity 1", FA([a_, b_], z3.Implies(z3.And(rng, ML(ids_, jds)), d == 1), pat), ("C22",))
        ex.obligation("cannot-linked data have similarity 0", FA([a_, b_], z3.Implies(z3.And(rng, CL(ids_, jds)), d == 0), pat), ("C22",))
        ex.obligation("other data have the similarity of their vectors", FA([a_, b_], z3.Implies(z3.And(rng, z3.Not(ML(ids_, jds)), z3.Not(CL(ids_, jds))), d == rbf(vec(ids_), vec(jds))), pat), ("C22",))
        ex.obligation("the matrix is symmetric", FA([a_, b_], z3.Implies(rng, d == cell(X, b_, a_)), pat), ("C22",))

    def post(self, ex, out):
        if self.guards(ex, out):
            return
        r = ex.coerce_t(out.val, CLT)
        self.labels(ex, r)
        l = ex.st.ghost.get("labels")
        if l is None:
            ex.obligation("the labels are those of the solver", FALSE, ("C22",))
            return
        lab = lambda a: unbox_opq(arr_get(l, LS.idx(ids, a)), z3.IntSort())
        ex.obligation("the label of each data is the solver's label of its row, renamed", FA([x, y], z3.Implies(z3.And(managed(x), managed(y)), (DC.get(r, x) == DC.get(r, y)) == (lab(x) == lab(y))), [[DC.get(r, x), DC.get(r, y)]]), ("C22",))
