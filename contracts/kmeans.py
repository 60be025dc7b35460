"""COP K-means: no violated constraint, all managed data labelled, canonical labels, seeding, vectors by ID, frame, rejection of bad calls."""
import z3
from pyvc.values import *
from pyvc.execu import *
from pyvc.contract import Contract
from . import client as K
from .client import *
from .basic import Rename, CL as CLT, DC

Q = "clustering.kmeans:KMeansConstrainedClustering."


class Cluster(Contract):
    """common part of the contracts of `cluster`"""
    assumes = ("the vectors given have an entry for every managed data ID", "at least one data is managed")
    fields = {}
    needs_nb = True

    def setup(self, ex, fi):
        ps = fi.params
        self.nb = z3.Const("arg_nb", sort(Opt(INT)))
        self.seed = z3.Const("f_seed", sort(Opt(INT)))
        ex.seed_term = V(Opt(INT), self.seed)
        fs = {"random_seed": ex.seed_term, "kargs": V(OPQ, z3.Const("kargs_", OpqS))}
        self.f = {}
        for n, ty in self.fields.items():
            self.f[n] = z3.Const("f_" + n, sort(ty))
            fs[n] = V(ty, self.f[n])
        ex.st.objs["self"] = fs
        self.cfg = {n: v for n, v in fs.items() if n != "kargs"}
        for f in mgr_facts():
            ex.assume(f)
        ex.assume(LS.len(ids) >= 1)
        self.config(ex)
        env = {ps[0]: ObjR("self", fi.cls), ps[1]: V(MGR, m), ps[2]: V(VEC, vecs), ps[3]: V(Opt(INT), self.nb)}
        for n in ps[4:]:
            env[n] = V(BOOL, z3.Const("arg_" + n, B))
        if fi.node.args.kwarg is not None:
            env[fi.node.args.kwarg.arg] = Kw({}, V(OPQ, z3.Const("kw_rest", OpqS)))
        return env

    def config(self, ex):
        pass

    def bad(self):
        oi = Opt(INT)
        nbad = z3.Or(is_none(oi, self.nb), opt_val(oi, self.nb) < 2) if self.needs_nb else is_some(oi, self.nb)
        return z3.Or(z3.Not(IS_MGR), z3.Not(IS_DICT), nbad)

    def guards(self, ex, out):
        bad = self.bad()
        if out.kind == "raise":
            if out.val.name != "ValueError":
                ex.obligation("raises only ValueError", FALSE)
            else:
                ex.obligation("raises ValueError only for an invalid call", bad, ("C18", "C12", "C13", "C14"))
            return True
        ex.obligation("an invalid call raises ValueError", z3.Not(bad), ("C18",))
        for n, v in self.cfg.items():
            w = ex.st.objs["self"].get(n)
            ex.obligation("settings are kept: " + n, ex.eq(w, v) if w is not None else FALSE, ("C19",))
        return False

    def labels(self, ex, r):
        from .basic import canonical, SORTED
        ex.obligation("all managed data and only them are labelled", FA([x], DC.has(r, x) == managed(x), [DC.has(r, x), managed(x)]), ("C14", "C12", "C13"))
        ex.obligation("labels are non-negative", FA([x], z3.Implies(managed(x), DC.get(r, x) >= 0), [DC.get(r, x)]), ("C14",))
        ex.obligation("labels are numbered by first appearance", canonical(r), ("C14",))

    def respects(self, ex, r, tag):
        ex.obligation("must-linked data have the same label", FA([x, y], z3.Implies(ML(x, y), DC.get(r, x) == DC.get(r, y)), [ML(x, y)]), (tag,))
        ex.obligation("cannot-linked data have different labels", FA([x, y], z3.Implies(CL(x, y), DC.get(r, x) != DC.get(r, y)), [CL(x, y)]), (tag,))


def good(N):
    """a labelling of all managed data that respects the constraints"""
    return [FA([x], z3.Implies(managed(x), DC.get(N, x) >= 0), [DC.get(N, x)]),
            FA([x, y], z3.Implies(ML(x, y), DC.get(N, x) == DC.get(N, y)), [ML(x, y)]),
            FA([x, y], z3.Implies(CL(x, y), DC.get(N, x) != DC.get(N, y)), [CL(x, y)])]


def cop_templates(lv):
    out = []
    ds = [h for h in lv.syms if h.ty is not None and res(h.ty) == CLT]
    ls = [h for h in lv.syms if h.ty is not None and res(h.ty) == Lst(STR)]
    ints = [h for h in lv.syms if h.ty is not None and res(h.ty) == INT]
    for h in ls:
        A = h.const
        out.append(("subset of managed", FA([x], z3.Implies(LS.mem(A, x), managed(x)), [LS.mem(A, x)])))
        out.append(("ml closed", FA([x, y], z3.Implies(ML(x, y), LS.mem(A, x) == LS.mem(A, y)), [ML(x, y)])))
    for d in ds:
        N = d.const
        g, gy = DC.get(N, x), DC.get(N, y)
        out.append(("keys are the managed data", DC.keys(N) == ids))
        out.append(("labels >= -1", FA([x], z3.Implies(managed(x), g >= -1), [g])))
        for h in ls:
            A = h.const
            a, ay = LS.mem(A, x), LS.mem(A, y)
            out.append(("waiting data are not labelled", FA([x], z3.Implies(a, g == -1), [a, g])))
            out.append(("other data are labelled", FA([x], z3.Implies(z3.And(managed(x), z3.Not(a)), g >= 0), [a, g])))
            out.append(("must-links so far", FA([x, y], z3.Implies(z3.And(ML(x, y), z3.Not(a)), g == gy), [ML(x, y)])))
            out.append(("cannot-links so far", FA([x, y], z3.Implies(z3.And(CL(x, y), z3.Not(a), z3.Not(ay)), g != gy), [CL(x, y)])))
        for k in ints:
            out.append(("nothing assigned before the first iteration", z3.Implies(k.const < 1, FA([x], z3.Implies(managed(x), g == -1), [g]))))
            out.append(("respects after an iteration", z3.Implies(k.const >= 1, z3.And(good(N)))))
    for k in ints:
        for b in lv.syms:
            if b.ty is not None and res(b.ty) == BOOL:
                out.append(("flag only after an iteration", z3.Implies(b.const, k.const >= 1)))
    # labels in use are not negative
    for h in lv.syms:
        if h.ty is not None and res(h.ty).kind == "dict" and res(res(h.ty).args[0]) == INT:
            d = DT(*res(h.ty).args)
            k = z3.Int("k")
            for n in ds:
                N = n.const
                inuse = z3.Exists([x], z3.And(managed(x), DC.get(N, x) == k))
                for q in ints:
                    out.append(("clusters are in use", z3.Implies(q.const >= 1, FA([k], z3.Implies(d.has(h.const, k), inuse), [d.has(h.const, k)]))))
            out.append(("cluster IDs are not negative", FA([k], z3.Implies(d.has(h.const, k), k >= 0), [d.has(h.const, k)])))
    return out


class KMeans(Cluster):
    qual = Q + "cluster"
    props = ("C12", "C14", "C17", "C18", "C19", "C25")
    fields = {"model": STR, "max_iteration": INT, "tolerance": REAL}
    templates = (cop_templates,)

    def config(self, ex):
        ex.assume(self.f["max_iteration"] >= 1)
        ex.assume(self.f["tolerance"] >= 0)
        ex.assume(self.f["model"] == lit("COP"))

    def post(self, ex, out):
        if self.guards(ex, out):
            return
        r = ex.coerce_t(out.val, CLT)
        self.labels(ex, r)
        self.respects(ex, r, "C12")
