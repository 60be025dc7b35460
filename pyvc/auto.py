"""Loop-invariant candidates derived from the body of a loop (no names, no annotations)."""
import re
import z3
from .values import *
from .execu import *
from .stmts import Cand
from . import theory as T

_num = re.compile(r"!(\d+)$")


def consts_of(t):
    return {e for e in subterms_q(t) if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED}


def subterms_q(term):
    seen, stack, out = set(), [term], []
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        out.append(e)
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            stack.extend(e.children())
    return out


class AutoMixin:
    def new_syms(self, t, ctr, allowed):
        """symbols created after the loop head"""
        al = {a.get_id() for a in allowed}
        for e in subterms_q(t):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.get_id() not in al:
                m = _num.search(e.decl().name())
                if m and int(m.group(1)) > ctr:
                    return True
        return False

    def ev_ctx(self, lv, ctx):
        for p, (i, it, n) in enumerate(ctx):
            if i.eq(lv.i):
                return list(ctx[p:])
        return None

    def invert(self, lv, ctx, keys, xs, conds=()):
        """solve keys(j..) = xs for the loop indices.  returns (sub, guards) or None"""
        sub, guards = [], []
        eqs = set()
        stack = list(conds)
        while stack:
            f = stack.pop()
            if z3.is_and(f):
                stack.extend(f.children())
            elif z3.is_eq(f):
                eqs.add((f.arg(0).get_id(), f.arg(1).get_id()))
                eqs.add((f.arg(1).get_id(), f.arg(0).get_id()))
        for p, (j, it, n) in enumerate(ctx):
            if it is None:
                return None
            done = False
            for k, x in zip(keys, xs):
                if k.sort() == z3.IntSort() and k.eq(j):
                    guards.append(z3.And(0 <= x, x < (lv.i if p == 0 else z3.substitute(it.n, *sub) if sub else it.n)))
                    sub.append((j, x))
                    done = True
                    break
                src = it.lst if it.lst is not None else it.pat
                if src is not None:
                    lt = LT(src[0])
                    el = lt.at(src[1], j)
                    if k.eq(el) or (k.get_id(), el.get_id()) in eqs:
                        L = z3.substitute(src[1], *sub) if sub else src[1]
                        ix = lt.idx(L, x)
                        guards.append(lt.mem(L, x))
                        if p == 0:
                            guards.append(ix < lv.i)
                        sub.append((j, ix))
                        done = True
                        break
            if not done:
                return None
        for k, x in zip(keys, xs):
            kk = z3.substitute(k, *sub) if sub else k
            g = kk == x
            if not z3.is_true(z3.simplify(g)):
                guards.append(g)
        return sub, guards

    def nest_get(self, t, ty, xs):
        for x in xs:
            d = DT(*res(ty).args)
            t, ty = d.get(t, x), res(ty).args[1]
        return t, ty

    def nest_has(self, t, ty, xs):
        fs = []
        for x in xs:
            ty = res(ty)
            d = DT(ty.args[0], ty.args[1] if ty.kind == "dict" else NONE)
            fs.append(d.has(t, x))
            if ty.kind == "dict":
                t, ty = d.get(t, x), ty.args[1]
        return and_(fs)

    def auto_cands(self, lv):
        cands = []
        pre, head, i = lv.pre, lv.head, lv.i
        presub = []
        for h in lv.syms:
            t = h.get(pre)
            if t is not None and t.sort() == h.const.sort():
                presub.append((h.const, t))
        P = lambda f: z3.substitute(f, *presub) if presub else f
        hconsts = [h.const for h in lv.syms]
        byroot = {}
        for h in lv.syms:
            if h.kind == "box":
                byroot[h.key] = h
            elif h.kind in ("env", "fld"):
                v = head.env.get(h.key[0]) if h.kind == "env" else head.objs[h.key[0]].get(h.key[1])
                if isinstance(v, Guarded):
                    v = v.val
                if isinstance(v, Ref):
                    byroot[v.bid] = h
        evs = {}
        for kind, root, path, data, conds, ctx in lv.events:
            c = self.ev_ctx(lv, ctx)
            if c is None or root[0] != "box":
                continue
            evs.setdefault(root[1], []).append((kind, path, data, conds, c))
        add = lambda lab, f: cands.append(Cand(lab, f))
        n = 0
        for h in lv.syms:
            n += 1
            pt = h.get(pre)
            nm = f"{h.kind}{n}"
            if pt is None:
                continue
            ty = res(h.ty) if h.ty is not None else None
            if ty is None:
                continue
            if ty.kind == "int":
                add(nm + "=pre+i", h.const == pt + i)
                add(nm + "=pre-i", h.const == pt - i)
                add(nm + ">=pre", h.const >= pt)
                add(nm + "<=pre", h.const <= pt)
                for h2 in lv.syms:
                    if h2 is h or h2.ty is None:
                        continue
                    t2 = res(h2.ty)
                    if t2.kind == "list":
                        add(nm + "=len", h.const == LT(t2.args[0]).len(h2.const))
                    if t2.kind in ("dict", "set"):
                        add(nm + "=size", h.const == DT(t2.args[0], t2.args[1] if t2.kind == "dict" else NONE).size(h2.const))
                if lv.it is None:
                    for b in self.bounds_in(lv):
                        add(nm + "<=" + str(len(cands)), h.const <= b)
            elif ty.kind in ("dict", "set"):
                self.dict_cands(lv, h, pt, ty, nm, evs, byroot, P, add)
            elif ty.kind == "list":
                self.list_cands(lv, h, pt, ty, nm, evs, byroot, P, add)
            if ty.kind in ("bool", "opt", "str") or (ty.kind == "int"):
                self.flag_cands(lv, h, pt, ty, nm, P, add)
        # negation of exits
        ctr = head.ctr
        q = z3.Int("q!j")
        for k, o in enumerate(lv.outs):
            if o.kind in ("break", "return", "raise"):
                conds = [f for t, f in o.st.pc[lv.base:] if t in ("c", "g")]
                conds = [P(f) for f in conds]
                if not conds or any(self.new_syms(f, ctr, [i]) for f in conds) or lv.it is None:
                    if lv.it is not None and conds:
                        # nested loop exits: the index of the inner loop is universally quantified
                        self.nested_exit(lv, o, conds, k, add)
                    continue
                body = z3.Implies(z3.And(0 <= q, q < i), z3.Not(z3.substitute(and_(conds), (i, q))))
                pref = [LT(lv.it.lst[0]).at(lv.it.lst[1], q)] if lv.it.lst is not None else []
                add(f"noexit{k}", forall([q], body, pref))
        return cands

    def nested_exit(self, lv, o, conds, k, add):
        allq, pats, rng = [], [], []
        sub = []
        for t, f in o.st.pc[lv.base:]:
            if t == "l":
                # 0 <= j < n range of an inner loop
                j = f.arg(0).arg(1)
                allq.append((j, f))
        if not allq:
            return
        js = [j for j, _ in allq]
        if any(self.new_syms(f, lv.head.ctr, [lv.i] + js) for f in conds):
            return
        ev = z3.Int("q!0")
        body = z3.And(*[f for j, f in allq if not j.eq(lv.i)], *conds)
        vs = [z3.Int(f"q!{p}") for p in range(len(js))]
        sub = [(j, v) for j, v in zip(js, vs)]
        if not any(j.eq(lv.i) for j in js):
            return
        iq = [v for j, v in zip(js, vs) if j.eq(lv.i)][0]
        f = z3.Implies(z3.And(0 <= iq, iq < lv.i), z3.Not(z3.substitute(body, *sub)))
        add(f"noexitn{k}", forall(vs, f))

    def bounds_in(self, lv):
        """terms the loop condition compares with"""
        out = []
        for o in lv.outs:
            for t, f in o.st.pc[lv.base:]:
                if t in ("c", "g"):
                    for e in subterms(f):
                        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) and e.arg(0).sort() == z3.IntSort():
                            for a in e.children():
                                if not self.new_syms(a, lv.head.ctr, []) and a.get_id() not in {x.get_id() for x in out}:
                                    out.append(a)
        return out[:4]

    def dict_cands(self, lv, h, pt, ty, nm, evs, byroot, P, add):
        d = DT(ty.args[0], ty.args[1] if ty.kind == "dict" else NONE)
        c, i = h.const, lv.i
        x = z3.Const("x!c", d.K)
        add(nm + " keys", d.keys(c) == d.keys(pt))
        add(nm + " grows", FA([x], z3.Implies(d.has(pt, x), d.has(c, x)), [d.has(c, x), d.has(pt, x)]))
        add(nm + " shrinks", FA([x], z3.Implies(d.has(c, x), d.has(pt, x)), [d.has(c, x), d.has(pt, x)]))
        add(nm + " size", d.size(c) <= d.size(pt) + i)
        if ty.kind == "dict" and res(ty.args[1]).kind != "none":
            add(nm + " get", FA([x], d.get(c, x) == d.get(pt, x), [d.get(c, x), d.get(pt, x)]))
            add(nm + " getold", FA([x], z3.Implies(d.has(pt, x), d.get(c, x) == d.get(pt, x)), [d.get(c, x), d.get(pt, x)]))
        vt = res(ty.args[1]) if ty.kind == "dict" else NONE
        if vt.kind == "dict":
            e = DT(*vt.args)
            y = z3.Const("y!c", e.K)
            gx, px = d.get(c, x), d.get(pt, x)
            add(nm + " keys2", FA([x], e.keys(gx) == e.keys(px), [gx, px]))
            add(nm + " grows2", FA([x, y], z3.Implies(e.has(px, y), e.has(gx, y)), [e.has(gx, y), e.has(px, y)]))
        if lv.it is not None and lv.it.live is not None:
            pass
        bids = [b for b, hh in byroot.items() if hh is h]
        es = [ev for b in bids for ev in evs.get(b, [])]
        if not es:
            return
        self.pointwise(lv, h, pt, ty, nm, es, P, add)
        # keys that are not invertible
        q = z3.Int("q!j")
        for m, (kind, path, data, conds, ctx) in enumerate(es):
            if kind in ("set", "add") and not path and len(ctx) == 1 and lv.it is not None:
                k = P(data[0])
                cs = [P(f) for f in conds]
                if self.new_syms(k, lv.head.ctr, [i]):
                    continue
                kq = z3.substitute(k, (i, q))
                rng = z3.And(0 <= q, q < i)
                pref = [LT(lv.it.lst[0]).at(lv.it.lst[1], q)] if lv.it.lst is not None else []
                add(f"{nm} seen{m}", forall([q], z3.Implies(rng, d.has(c, kq)), pref))
                if not any(self.new_syms(f, lv.head.ctr, [i]) for f in cs):
                    add(f"{nm} seenc{m}", forall([q], z3.Implies(z3.And(rng, *[z3.substitute(f, (i, q)) for f in cs]), d.has(c, kq)), pref))
        srcs = []
        for kind, path, data, conds, ctx in es:
            if kind in ("set", "add") and not path and len(ctx) == 1 and lv.it is not None and not self.new_syms(P(data[0]), lv.head.ctr, [i]):
                srcs.append(z3.substitute(P(data[0]), (i, q)))
            else:
                srcs = None
                break
        if srcs and lv.it is not None:
            pref = [LT(lv.it.lst[0]).at(lv.it.lst[1], q)] if lv.it.lst is not None else []
            none = forall([q], z3.Implies(z3.And(0 <= q, q < i), and_([s != x for s in srcs])), pref)
            add(nm + " from", FA([x], z3.Implies(d.has(c, x), z3.Or(d.has(pt, x), z3.Not(none))), [d.has(c, x)]))

    def pointwise(self, lv, h, pt, ty, nm, es, P, add):
        i, c = lv.i, h.const
        depths = {len(path) + 1 for kind, path, data, conds, ctx in es}
        if any(s[0] != "k" for kind, path, data, conds, ctx in es for s in path):
            return
        if any(kind not in ("set", "pop", "add", "append", "merge", "remove", "extend") for kind, path, data, conds, ctx in es):
            return
        if any(kind in ("append", "merge", "remove", "extend") for kind, *_ in es):
            self.nested_lists(lv, h, pt, ty, nm, es, P, add)
            return
        for m in sorted(depths):
            # writes at depth m; deeper and shallower ones are only compatible with frames
            xs, t = [], ty
            ok = True
            for p in range(m):
                t = res(t)
                if t.kind not in ("dict", "set"):
                    ok = False
                    break
                xs.append(z3.Const(f"x{p}!c", sort(t.args[0])))
                t = t.args[1] if t.kind == "dict" else NONE
            if not ok:
                return
            vt = res(t)
            hits = []
            good = True
            for kind, path, data, conds, ctx in es:
                if len(path) + 1 != m:
                    good = False
                    break
                keys = [P(s[1]) for s in path] + [P(data[0])]
                if any(self.new_syms(k, lv.head.ctr, [j for j, _, _ in ctx]) for k in keys):
                    good = False
                    break
                inv = self.invert(lv, ctx, keys, xs, [P(f) for f in conds])
                if inv is None:
                    good = False
                    break
                sub, guards = inv
                cs = [P(f) for f in conds]
                if any(self.new_syms(f, lv.head.ctr, [j for j, _, _ in ctx]) for f in cs):
                    good = False
                    break
                g = and_(guards + [z3.substitute(f, *sub) for f in cs])
                val = None
                if kind == "set" and vt.kind != "none":
                    val = P(data[1])
                    if self.new_syms(val, lv.head.ctr, [j for j, _, _ in ctx]):
                        val = False
                    else:
                        val = z3.substitute(val, *sub)
                hits.append((kind, g, val))
            # frame over the outermost keys that are never written
            self.frames(lv, h, pt, ty, nm, es, P, add, m)
            if not good:
                continue
            hc, hp = self.nest_has(c, ty, xs), self.nest_has(pt, ty, xs)
            pats = [self.leaf_has(c, ty, xs)]
            f = hp
            for kind, g, val in hits:
                f = z3.Or(f, g) if kind in ("set", "add") else z3.And(f, z3.Not(g))
            if m == 1:
                add(f"{nm} has@{m}", forall(xs, hc == f, pats))
            else:
                add(f"{nm} has@{m}", forall(xs, z3.Implies(self.nest_has(pt, ty, xs[:-1]), self.leaf_has(c, ty, xs) == z3.Or(self.leaf_has(pt, ty, xs), *[g for kd, g, _ in hits if kd != "pop"]) if all(kd != "pop" for kd, _, _ in hits) else self.leaf_has(c, ty, xs) == self.chain(self.leaf_has(pt, ty, xs), hits)), pats))
            if vt.kind != "none" and all(v is not False for _, _, v in hits):
                gc, _ = self.nest_get(c, ty, xs)
                gp, _ = self.nest_get(pt, ty, xs)
                v = gp
                for kind, g, val in hits:
                    if kind == "set":
                        v = z3.If(g, val, v)
                add(f"{nm} get@{m}", forall(xs, z3.Implies(hc, gc == v), [gc]))
            elif vt.kind != "none":
                gc, _ = self.nest_get(c, ty, xs)
                gp, _ = self.nest_get(pt, ty, xs)
                add(f"{nm} getf@{m}", forall(xs, z3.Implies(z3.And(*[z3.Not(g) for _, g, _ in hits]), gc == gp), [gc]))

    def chain(self, f, hits):
        for kind, g, val in hits:
            f = z3.Or(f, g) if kind in ("set", "add") else z3.And(f, z3.Not(g))
        return f

    def leaf_has(self, t, ty, xs):
        t2, ty2 = self.nest_get(t, ty, xs[:-1])
        ty2 = res(ty2)
        return DT(ty2.args[0], ty2.args[1] if ty2.kind == "dict" else NONE).has(t2, xs[-1])

    def frames(self, lv, h, pt, ty, nm, es, P, add, m):
        """entries whose outer key is never written keep their value"""
        ty = res(ty)
        if ty.kind != "dict" or res(ty.args[1]).kind == "none":
            return
        d = DT(*ty.args)
        x = z3.Const("x!c", d.K)
        miss = []
        for kind, path, data, conds, ctx in es:
            k = P(path[0][1]) if path else P(data[0])
            if self.new_syms(k, lv.head.ctr, [j for j, _, _ in ctx]):
                return
            if not contains(k, [j for j, _, _ in ctx]):
                miss.append(x != k)
                continue
            inv = self.invert(lv, ctx[:1], [k], [x])
            if inv is None:
                return
            miss.append(z3.Not(and_(inv[1])))
        if miss:
            add(f"{nm} frame", FA([x], z3.Implies(and_(miss), d.get(h.const, x) == d.get(pt, x)), [d.get(h.const, x)]))

    def nested_lists(self, lv, h, pt, ty, nm, es, P, add):
        """dict of lists/sets with in-place additions: membership grows"""
        ty = res(ty)
        if ty.kind != "dict":
            return
        vt = res(ty.args[1])
        d = DT(*ty.args)
        x = z3.Const("x!c", d.K)
        if vt.kind == "list":
            lt = LT(vt.args[0])
            y = z3.Const("y!c", lt.E)
            add(nm + " lgrows", FA([x, y], z3.Implies(lt.mem(d.get(pt, x), y), lt.mem(d.get(h.const, x), y)), [lt.mem(d.get(h.const, x), y), lt.mem(d.get(pt, x), y)]))
            add(nm + " lshrinks", FA([x, y], z3.Implies(lt.mem(d.get(h.const, x), y), lt.mem(d.get(pt, x), y)), [lt.mem(d.get(h.const, x), y)]))
            add(nm + " ldistinct", FA([x], z3.Implies(lt.distinct(d.get(pt, x)), lt.distinct(d.get(h.const, x))), [d.get(h.const, x)]))
        self.frames(lv, h, pt, ty, nm, es, P, add, 1)

    def list_cands(self, lv, h, pt, ty, nm, evs, byroot, P, add):
        lt = LT(ty.args[0])
        c, i = h.const, lv.i
        x = z3.Const("x!c", lt.E)
        q, p = z3.Int("q!j"), z3.Int("p!j")
        add(nm + " shrinks", FA([x], z3.Implies(lt.mem(c, x), lt.mem(pt, x)), [lt.mem(c, x)]))
        add(nm + " grows", FA([x], z3.Implies(lt.mem(pt, x), lt.mem(c, x)), [lt.mem(c, x), lt.mem(pt, x)]))
        add(nm + " distinct", lt.distinct(c))
        add(nm + " len<=", lt.len(c) <= lt.len(pt))
        add(nm + " len=", lt.len(c) == lt.len(pt))
        add(nm + " len+i", lt.len(c) == lt.len(pt) + i)
        add(nm + " len<=+i", lt.len(c) <= lt.len(pt) + i)
        add(nm + " len>=", lt.len(c) >= lt.len(pt))
        add(nm + " prefix", FA([q], z3.Implies(z3.And(0 <= q, q < lt.len(pt)), lt.at(c, q) == lt.at(pt, q)), [lt.at(c, q)]))
        if lv.it is None:
            # while loops that consume a list from its end
            add(nm + " isprefix", FA([q], z3.Implies(z3.And(0 <= q, q < lt.len(c)), lt.at(c, q) == lt.at(pt, q)), [lt.at(c, q)]))
        bids = [b for b, hh in byroot.items() if hh is h]
        es = [ev for b in bids for ev in evs.get(b, [])]
        if not es or lv.it is None:
            return
        if all(k == "remove" and not path for k, path, *_ in es) and not is_mutable(ty.args[0]):
            self.list_invert(lv, h, pt, ty, nm, es, P, add, removal=True)
        if all(k == "append" and not path for k, path, *_ in es):
            items = []
            for m, (kind, path, data, conds, ctx) in enumerate(es):
                v = P(data[0])
                cs = [P(f) for f in conds]
                js = [j for j, _, _ in ctx]
                if any(self.new_syms(f, lv.head.ctr, js) for f in [v] + cs) or any(it is None for _, it, _ in ctx):
                    items = None
                    break
                qs = [z3.Int(f"q{r}!j") for r in range(len(js))]
                sub = list(zip(js, qs))
                rng = [z3.And(0 <= qs[0], qs[0] < i)] + [z3.And(0 <= qs[r], qs[r] < z3.substitute(ctx[r][1].n, *sub)) for r in range(1, len(js))]
                pref = []
                for (j, it, _), qq in zip(ctx, qs):
                    if it.lst is not None:
                        pref.append(LT(it.lst[0]).at(z3.substitute(it.lst[1], *sub), qq))
                items.append((qs, and_(rng), and_([z3.substitute(f, *sub) for f in cs]), z3.substitute(v, *sub), [pref] if len(pref) == len(qs) else []))
            if items is not None:
                for m, (qs, rng, cs, v, pref) in enumerate(items):
                    if not is_mutable(ty.args[0]):
                        add(f"{nm} app{m}", forall(qs, z3.Implies(z3.And(rng, cs), lt.mem(c, v)), pref))
                        add(f"{nm} appw{m}", forall(qs, z3.Implies(rng, lt.mem(c, v)), pref))
                if not is_mutable(ty.args[0]):
                    nones = [forall(qs, z3.Implies(z3.And(rng, cs), v != x), pref) for qs, rng, cs, v, pref in items]
                    add(nm + " appfrom", FA([x], z3.Implies(lt.mem(c, x), z3.Or(lt.mem(pt, x), *[z3.Not(f) for f in nones])), [lt.mem(c, x)]))
                # elements that are (tuples of) loop elements can be inverted
                self.list_invert(lv, h, pt, ty, nm, es, P, add)
                if len(es) == 1 and len(items[0][0]) == 1:
                    qs, rng, cs, v, pref = items[0]
                    add(nm + " map", forall(qs, z3.Implies(rng, lt.at(c, lt.len(pt) + qs[0]) == v), pref))
                    add(nm + " map0", FA(qs, z3.Implies(rng, lt.at(c, qs[0]) == v), [lt.at(c, qs[0])]))

    def list_invert(self, lv, h, pt, ty, nm, es, P, add, removal=False):
        lt = LT(ty.args[0])
        et = res(ty.args[0])
        c = h.const
        x = z3.Const("x!c", lt.E)
        comps = [tup_get(et, x, k) for k in range(len(et.args))] if et.kind == "tup" else [x]
        alts = []
        for kind, path, data, conds, ctx in es:
            v = P(data[0])
            if et.kind == "tup":
                ks = [v.arg(k) for k in range(len(et.args))] if z3.is_app(v) and v.num_args() == len(et.args) else None
            else:
                ks = [v]
            if ks is None:
                return
            inv = self.invert(lv, ctx, ks, comps, [P(f) for f in conds])
            if inv is None:
                return
            sub, guards = inv
            alts.append(and_(guards + [z3.substitute(P(f), *sub) for f in conds]))
        if removal:
            add(nm + " len-i", lt.len(c) == lt.len(pt) - lv.i)
            add(nm + " remiff", FA([x], lt.mem(c, x) == z3.And(lt.mem(pt, x), z3.Not(z3.Or(*alts))), [lt.mem(c, x), lt.mem(pt, x)]))
            return
        add(nm + " memiff", FA([x], lt.mem(c, x) == z3.Or(lt.mem(pt, x), *alts), [lt.mem(c, x)]))

    def flag_cands(self, lv, h, pt, ty, nm, P, add):
        """variables set under a condition that does not depend on the loop state"""
        i = lv.i
        if lv.it is None:
            return
        q = z3.Int("q!j")
        pref = [LT(lv.it.lst[0]).at(lv.it.lst[1], q)] if lv.it.lst is not None else []
        ups = []
        for o in lv.outs:
            if o.kind not in ("next", "continue"):
                continue
            t = h.get(o.st)
            if t is None:
                return
            if t.eq(h.const):
                continue
            conds = [P(f) for tg, f in o.st.pc[lv.base:] if tg in ("c", "g")]
            t = P(t)
            if any(self.new_syms(f, lv.head.ctr, [i]) for f in conds + [t]):
                return
            ups.append((and_([z3.substitute(f, (i, q)) for f in conds]), z3.substitute(t, (i, q))))
        if not ups:
            return
        anyup = or_([f for f, _ in ups])
        no = forall([q], z3.Implies(z3.And(0 <= q, q < i), z3.Not(anyup)), pref)
        add(nm + " flag=", z3.Implies(h.const == pt, no))
        add(nm + " flag!", z3.Or(h.const == pt, z3.Not(no)))
        some = z3.Not(forall([q], z3.Implies(z3.And(0 <= q, q < i), z3.Not(or_([z3.And(f, h.const == t) for f, t in ups]))), pref))
        add(nm + " flagv", z3.Or(h.const == pt, some))
