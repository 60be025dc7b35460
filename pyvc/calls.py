"""Calls: builtins, container methods, repository functions (contract or inlining), external functions."""
import ast
import z3
from .values import *
from .execu import *
from .expr import PRec, OpqAttr, NewObj
from . import theory as T
from .source import FuncInfo, ClassInfo, ModuleInfo


class CallMixin:
    # ------------------------------------------------------------------------------------------------- external
    def ext_t(self, name, args, rsort):
        ts = []
        for a in args:
            a = self.unguard(a)
            if isinstance(a, PRec):
                for n, v in a.items:
                    ts.append(self.ext_arg(v))
                continue
            ts.append(self.ext_arg(a))
        f = z3.Function("ext_" + name, *[t.sort() for t in ts], rsort)
        return f(*ts) if ts else z3.Const("ext_" + name, rsort)

    def ext_arg(self, a):
        a = self.unguard(a)
        try:
            if isinstance(a, (Ref, View, V)) and unresolved(self.type_of(a)):
                return z3.Const("empty_arg", OpqS)
            return self.term(a)
        except Unsupported:
            if isinstance(a, (Part, It)):
                return self.term(self.to_list(a))
            raise

    def ext_app(self, name, args):
        t = self.ext_t(name, args, OpqS)
        if not t.decl().name().startswith(self.VIEWS) and big(t):
            # a new value about which nothing but its shape is known (forgetting how it was computed)
            t = self.fresh("value", OpqS)
        h = self.reg.shapes.get(name)
        if h is not None:
            h(self, self.named_array(t), args)
        return V(OPQ, t)

    VIEWS = ("ext_getitem", "ext_getslice", "ext_slice", "ext_unpack", "ext_attr_T", "ext_attr_flat", "ext_attr_A", "ext_m_reshape", "ext_m_ravel", "ext_m_view", "ext_m_transpose", "ext_m_squeeze", "ext_m_diagonal", "ext_m_swapaxes",
             "ext_numpy.asarray", "ext_numpy.ravel", "ext_numpy.reshape", "ext_numpy.transpose", "ext_numpy.squeeze", "ext_numpy.diag", "ext_numpy.atleast", "ext_numpy.asanyarray", "ext_numpy.ascontiguousarray")

    def view_chain(self, t):
        """terms whose memory the array term may share"""
        out = [t]
        while z3.is_app(t) and t.num_args() and t.decl().name().startswith(self.VIEWS) and t.arg(0).sort() == OpqS:
            t = t.arg(0)
            out.append(t)
        return out

    def array_frame(self, bt):
        """obligation: the array is not (part of) an argument"""
        root = self.view_chain(bt)[-1]
        nm = root.decl().name() if z3.is_app(root) else ""
        if nm.startswith(("arg_", "vector_of")):
            self.obligation("frame: an argument (or a vector of it) is modified in place", FALSE, ("C17",))
            raise Infeasible()
        if nm.startswith(("get_", "at_", "opq_at")):
            todo = [root]
            while todo:
                t = todo.pop()
                if z3.is_app(t):
                    if t.decl().name().startswith(("arg_", "vector_of")):
                        self.obligation("frame: an argument (or a vector of it) is modified in place", FALSE, ("C17",))
                        raise Infeasible()
                    todo.extend(t.children())
            self.unsupported("in-place modification of an array held by a container")

    def array_aliases(self, bt, keep):
        """values that may share memory with the modified array are unknown afterwards"""
        mine = self.view_chain(bt)

        def shares(t):
            return any(t.eq(x) for x in mine) or any(x.eq(bt) for x in self.view_chain(t))
        for k, v in list(self.st.env.items()):
            if k != keep and isinstance(v, V) and res(v.ty).kind == "opq" and v.t is not None and shares(v.t):
                self.st.env[k] = V(OPQ, self.fresh("alias", OpqS))
                if self.assigned is not None:
                    self.assigned.add(k)
        for oid, fs in self.st.objs.items():
            for k, v in list(fs.items()):
                if (oid, k) != keep and isinstance(v, V) and res(v.ty).kind == "opq" and shares(v.t):
                    fs[k] = V(OPQ, self.fresh("alias", OpqS))
                    if self.fields_written is not None:
                        self.fields_written.add((oid, k))

    def opq_mutate(self, texpr, base, op, args):
        """in-place modification of an opaque (array) value"""
        bt = self.term(base)
        self.array_frame(bt)
        if isinstance(texpr, ast.Subscript) and not isinstance(texpr.slice, ast.Slice):
            # X[i][j] = v
            b2 = self.unopt(self.ev(texpr.value))
            k2 = self.evr(texpr.slice)
            if res(self.type_of(b2)).kind != "opq":
                self.unsupported("in-place modification of an array held by a container")
            if op == "setitem1" and not isinstance(k2, PTup):
                return self.opq_mutate(texpr.value, b2, "setitem2", [k2] + args)
            return self.opq_mutate(texpr.value, b2, "part_" + op, [k2] + args if not isinstance(k2, PTup) else k2.items + args)
        if isinstance(texpr, ast.Subscript):
            b2 = self.unopt(self.ev(texpr.value))
            if res(self.type_of(b2)).kind != "opq":
                self.unsupported("in-place modification of an array held by a container")
            return self.opq_mutate(texpr.value, b2, "partslice_" + op, args)
        owner = None
        if isinstance(texpr, ast.Attribute):
            owner = self.unopt(self.ev(texpr.value))
            if not isinstance(owner, ObjR):
                if res(self.type_of(owner)).kind != "opq":
                    self.unsupported("in-place modification of an array held by an object")
                return self.opq_mutate(texpr.value, owner, "attr_" + texpr.attr + "_" + op, args)
        elif isinstance(texpr, ast.Call):
            self.st.mut += 1
            self.array_aliases(bt, None)
            return
        elif texpr is not None and not isinstance(texpr, ast.Name):
            self.unsupported("in-place modification of an array given by an expression")
        self.st.mut += 1
        new = None
        if op in ("setitem1", "setitem2") and all(isinstance(a, V) and res(a.ty).kind == "int" for a in args[:-1]) and isinstance(args[-1], V) and res(args[-1].ty).kind in ("int", "real", "bool", "opq"):
            new = V(OPQ, arr_set(bt, [self.term(a) for a in args[:-1]], self.term(args[-1])))
        else:
            new = self.ext_app(op, [base] + args)
        self.opq_write(texpr, owner, bt, new)

    def opq_replace(self, texpr, base, new):
        """the opaque object named by texpr is now `new`"""
        owner = self.unopt(self.ev(texpr.value)) if isinstance(texpr, ast.Attribute) else None
        if owner is not None and not isinstance(owner, ObjR):
            self.unsupported("in-place modification of a part of an object")
        if texpr is not None and not isinstance(texpr, (ast.Name, ast.Attribute, ast.Call)):
            self.unsupported("in-place modification of an object given by an expression")
        self.st.mut += 1
        self.opq_write(texpr, owner, self.term(base), new)

    def opq_write(self, texpr, owner, bt, new):
        keep = texpr.id if isinstance(texpr, ast.Name) else (owner.oid, texpr.attr) if owner is not None else None
        self.array_aliases(bt, keep)
        if isinstance(texpr, ast.Name):
            self.st.env[texpr.id] = new
            if self.assigned is not None:
                self.assigned.add(texpr.id)
        elif owner is not None:
            self.st.objs[owner.oid][texpr.attr] = new
            if self.fields_written is not None:
                self.fields_written.add((owner.oid, texpr.attr))

    # --------------------------------------------------------------------------------------------------------- call
    def ev_Call(self, e):
        f = e.func
        # super().__init__(...) and friends
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            me = self.st.env.get("self")
            ci = self.fi.cls
            for c in self.prog.mro(ci)[1:]:
                if f.attr in c.methods:
                    args, kw = self.ev_args(e)
                    return self.call_fn(c.methods[f.attr], [me] + args, kw)
            self.ev_args(e)
            return NONEV
        fn = self.ev(f)
        if isinstance(fn, Guarded):
            fn = self.unguard(fn)
        args, kw = self.ev_args(e)
        return self.call(fn, args, kw, e)

    def ev_args(self, e):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.unopt(self.ev(a.value))
                if isinstance(v, PTup):
                    args += v.items
                else:
                    it = self.iter_of(v)
                    if getattr(it, "concrete", None) is not None:
                        args += it.concrete
                    else:
                        self.unsupported("starred argument")
            else:
                args.append(self.evr(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.unguard(self.ev(k.value))
                if isinstance(v, Kw):
                    for n, x in v.items.items():
                        kw[n] = x
                    if v.rest is not None:
                        kw["**"] = v.rest
                elif isinstance(v, PRec):
                    for n, x in v.items:
                        kw[n] = x
                elif isinstance(v, V) and res(v.ty).kind == "rec":
                    for i, (n, ft) in enumerate(rec_fields(v.ty)):
                        kw[n] = V(ft, sort(v.ty).accessor(0, i)(v.t))
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = self.evr(k.value)
        return args, kw

    def call(self, fn, args, kw, e=None):
        if isinstance(fn, FnV):
            return self.call_fn(fn.fi, args, kw)
        if isinstance(fn, Lam):
            return self.call_lam(fn, args, kw)
        if isinstance(fn, ClsV):
            return self.construct(fn.ci, args, kw)
        if isinstance(fn, BM):
            return self.call_method(fn.recv, fn.name, args, kw, e)
        if isinstance(fn, TyV):
            return self.builtin(fn.name, args, kw, e)
        if isinstance(fn, ExcV):
            return fn
        if isinstance(fn, ModV):
            if fn.dotted.startswith("builtins."):
                return self.builtin(fn.dotted[9:], args, kw, e)
            return self.external(fn.dotted, args, kw, e)
        if isinstance(fn, OpqAttr):
            return self.opq_method(fn.base, fn.name, args, kw, e)
        if isinstance(fn, V) and res(fn.ty).kind == "opq":
            return self.ext_call("call", [fn] + args, kw)
        self.unsupported("call of %s" % type(fn).__name__)

    def ext_call(self, name, args, kw):
        ks = sorted(k for k in kw)
        return self.ext_app(name + "".join("_" + k for k in ks), list(args) + [kw[k] for k in ks])

    def external(self, dotted, args, kw, e):
        self.externals.add(dotted)
        self.calls.append((dotted, args, kw, self.loc, self.st))
        h = self.reg.externals.get(dotted)
        if h is None:
            for pre, hh in self.reg.ext_prefix:
                if dotted.startswith(pre):
                    h = hh
                    break
        if h is not None:
            r = h(self, args, kw, e)
            if r is not NotImplemented:
                return r
        if dotted.split(".")[-1].endswith(("Error", "Warning")):
            return ExcV(dotted.split(".")[-1])
        # pure, total, deterministic by assumption (listed in the evidence)
        return self.ext_call(dotted, [self.listify(a) for a in args], {k: self.listify(v) for k, v in kw.items()})

    def listify(self, a):
        if isinstance(a, (Part, It)):
            return self.to_list(a)
        if isinstance(a, PTup) and not a.items:
            return V(OPQ, z3.Const("emptytuple", OpqS))
        return a

    def opq_method(self, base, name, args, kw, e):
        h = self.reg.opq_methods.get(name)
        if h is not None:
            r = h(self, base, args, kw, e)
            if r is not NotImplemented:
                return r
        inplace = {"fit", "fit_predict", "fit_transform", "sort", "fill", "clip", "partial_fit", "shuffle"}
        if name in inplace and e is not None and isinstance(e.func, ast.Attribute):
            r = self.ext_call("m_" + name, [base] + [self.listify(a) for a in args], {k: self.listify(v) for k, v in kw.items()})
            self.opq_mutate(e.func.value, base, "after_" + name, [self.listify(a) for a in args] + [self.listify(kw[k]) for k in sorted(kw)])
            return r
        return self.ext_call("m_" + name, [base] + [self.listify(a) for a in args], {k: self.listify(v) for k, v in kw.items()})

    # ---------------------------------------------------------------------------------------------- repo functions
    def bind_params(self, fi, args, kw, node=None):
        node = node or fi.node
        a = node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise("TypeError", "too many arguments")
        for n, v in zip(names, args):
            env[n] = v
        rest = args[len(names):]
        if a.vararg is not None:
            env[a.vararg.arg] = PTup(rest)
        kwnames = names + [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k == "**":
                continue
            if k in kwnames:
                if k in env:
                    raise PyRaise("TypeError", "multiple values")
                env[k] = v
            else:
                extra[k] = v
        if "**" in kw:
            extra["**"] = kw["**"]
        if a.kwarg is not None:
            if "**" in extra:
                env[a.kwarg.arg] = Kw({k: v for k, v in extra.items() if k != "**"}, extra["**"])
            else:
                env[a.kwarg.arg] = Kw(extra)
        elif extra:
            raise PyRaise("TypeError", "unexpected keyword")
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = self.ev_default(fi, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev_default(fi, d)
        for n in kwnames:
            if n not in env:
                raise PyRaise("TypeError", "missing argument " + n)
        return env

    def ev_default(self, fi, d):
        save = self.fi
        self.fi = fi
        try:
            return self.evr(d)
        finally:
            self.fi = save

    def call_lam(self, lam, args, kw):
        if isinstance(lam.node, ast.FunctionDef):
            fi = lam.fi
            env = self.bind_params(fi, args, kw, lam.node)
            env["__closure__"] = dict(lam.env)
            return self.inline(lam.node.body, env, fi, lam.name)
        env = self.bind_params(lam.fi, args, kw, lam.node)
        saved, self_fi = self.st.env, self.fi
        clo = dict(lam.env)
        clo.update(env)
        self.st.env = clo
        self.fi = lam.fi
        try:
            return self.evr(lam.node.body)
        finally:
            self.st.env = saved
            self.fi = self_fi

    def call_fn(self, fi, args, kw):
        c = self.reg.contract_for(fi, self)
        if c is not None and (fi.qual != self.func or len(self.callstack) > 0 or True):
            if c.applies(self, fi, args, kw):
                env = self.bind_params(fi, args, kw)
                self.used_contracts.add(c.qual)
                return c.apply(self, fi, env)
        self.inlined.add(fi.qual)
        if [x for x in self.callstack].count(fi.qual) >= 1:
            self.unsupported("recursive call of " + fi.qual)
        env = self.bind_params(fi, args, kw)
        return self.inline(fi.node.body, env, fi, fi.qual)

    def inline(self, body, env, fi, name):
        if len(self.callstack) > 12:
            self.unsupported("call depth")
        key = ("call", tuple(self.dec[: self.pos]), len(self.callstack), name, id(body), self.st.ctr)
        outs = self.memo.get(key)
        if outs is None:
            start = self.st.copy()
            caller_env = start.env
            start.env = dict(env)
            saved = (self.fi, self.loc, self.callstack)
            self.fi = fi
            self.callstack = self.callstack + [name]
            try:
                res_ = self.exec_block(body, start)
            finally:
                self.fi, self.loc, self.callstack = saved
            outs = []
            for o in res_:
                o.st.env = dict(caller_env)
                if o.kind == "raise":
                    outs.append((o.st, ("raise", o.val)))
                elif o.kind in ("return", "next"):
                    outs.append((o.st, ("ok", o.val if o.kind == "return" else NONEV)))
                else:
                    self.unsupported("control flow leaves the function")
            self.memo[key] = outs
        if not outs:
            raise Infeasible()
        if len(outs) > 1 and (self.binders or len(outs) > 1) and all(k == "ok" for _, (k, _) in outs) and all(o.mut == self.st.mut for o, _ in outs):
            try:
                base = self.st.copy()
                if all(isinstance(r, (V, PTup)) for _, (_, r) in outs) or self.binders:
                    v = self.merge_outs(base, outs)
                    self.st = base
                    return v
            except TypeMismatch:
                pass
        return self.take_outcome(outs)

    def construct(self, ci, args, kw):
        model = self.reg.ctor_for(ci)
        if model is not None:
            r = model(self, ci, args, kw)
            if r is not NotImplemented:
                return r
        sc = self.reg.symclasses.get(ci.name)
        init = self.prog.method(ci, "__init__")
        if sc is not None:
            # object with symbolic identity
            S = sort(Obj(ci.name))
            o = self.fresh("new" + ci.name, S)
            al = self.alloc(ci.name)
            self.assume(z3.Not(z3.Select(al, o)))
            self.st.ghost[("alloc", ci.name)] = z3.Store(al, o, TRUE)
            self.st.mut += 1
            if self.fields_written is not None:
                self.fields_written.add(("ghost", ("alloc", ci.name)))
            v = V(Obj(ci.name), o)
        else:
            self.st.ctr += 1
            oid = f"o{self.st.ctr}"
            self.st.objs[oid] = {}
            self.st.mut += 1
            v = ObjR(oid, ci)
        if init is not None:
            self.call_fn(init, [v] + args, kw)
        return v

    def alloc(self, cls):
        key = ("alloc", cls)
        if key not in self.st.ghost:
            self.st.ghost[key] = z3.Const("alloc_" + cls, z3.ArraySort(sort(Obj(cls)), z3.BoolSort()))
        return self.st.ghost[key]

    # ------------------------------------------------------------------------------------------------------ methods
    def call_method(self, recv, name, args, kw, e=None):
        recv = self.unopt(recv)
        if isinstance(recv, ObjR):
            m = self.prog.method(recv.ci, name)
            if m is None:
                self.unsupported("method " + name)
            if m.static:
                return self.call_fn(m, args, kw)
            return self.call_fn(m, [recv] + args, kw)
        if isinstance(recv, ClsV):
            m = self.prog.method(recv.ci, name)
            return self.call_fn(m, [recv] + args, kw)
        if isinstance(recv, Part):
            recv = self.to_list(recv)
        if isinstance(recv, TyV):
            return self.external("builtins." + recv.name + "." + name, args, kw, e)
        if isinstance(recv, PRec):
            if name == "items":
                return PTup([PTup([V(STR, lit(n)), v]) for n, v in recv.items])
            if name == "keys":
                return PTup([V(STR, lit(n)) for n, v in recv.items])
            if name == "values":
                return PTup([v for n, v in recv.items])
            if name == "get":
                for n, v in recv.items:
                    if args[0].t.eq(lit(n)):
                        return v
        if isinstance(recv, (Kw, Lam, FnV)):
            self.unsupported("method of a keyword dictionary")
        ty = res(self.type_of(recv))
        if ty.kind.startswith("obj:"):
            cls = ty.kind[4:]
            h = self.reg.objmethods.get((cls, name))
            if h is not None:
                return h(self, recv, args, kw)
            sc = self.reg.symclasses.get(cls)
            if sc is not None and sc.ci is not None:
                m = self.prog.method(sc.ci, name)
                if m is not None:
                    return self.call_fn(m, [recv] + args, kw)
            self.unsupported("method %s of %s" % (name, cls))
        if ty.kind == "opq":
            return self.opq_method(recv, name, args, kw, e)
        if ty.kind == "rec" and name in ("keys", "values", "items"):
            return Part(recv, name)
        h = getattr(self, f"m_{ty.kind}_{name}", None)
        if h is None:
            if ty.kind == "str":
                return V(STR, self.ext_t("str_" + name, [recv] + [self.listify(a) for a in args], StrS)) if name not in ("split", "startswith", "endswith", "isdigit") else \
                    (V(BOOL, self.ext_t("str_" + name, [recv] + args, z3.BoolSort())) if name != "split" else self.ext_app("str_split", [recv] + args))
            self.unsupported("method %s of %s" % (name, ty))
        return h(recv, args, kw)

    # dict ---------------------------------------------------------------------------------------------------
    def m_dict_keys(self, r, a, kw):
        return Part(r, "keys")

    def m_dict_values(self, r, a, kw):
        return Part(r, "values")

    def m_dict_items(self, r, a, kw):
        return Part(r, "items")

    def dparts(self, r, kv=None, vv=None):
        ty = res(self.type_of(r))
        if kv is not None and unresolved(ty.args[0]):
            unify(ty.args[0], self.type_of(kv))
        if vv is not None and unresolved(ty.args[1]):
            unify(ty.args[1], self.type_of(vv))
        return ty

    def m_dict_get(self, r, a, kw):
        k = a[0]
        dflt = a[1] if len(a) > 1 else kw.get("default", NONEV)
        ty = res(self.type_of(r))
        if unresolved(ty):
            return dflt
        c = self.contains_(k, r)
        kn = self.known(c)
        if kn is False:
            return dflt
        try:
            kt = self.coerce_t(k, ty.args[0])
        except TypeMismatch:
            return dflt
        v = self.slot(r, ("k", kt), ty.args[1])
        if kn is True:
            return v
        if isinstance(v, View) and not self.binders:
            if self.decide(c):
                return v
            return dflt
        return self.ite(c, v, dflt)

    def m_dict_pop(self, r, a, kw):
        ty = self.dparts(r, a[0])
        if unresolved(ty):
            if len(a) > 1:
                return a[1]
            self.may_raise("KeyError", FALSE)
            raise Infeasible()
        d = DT(*ty.args)
        kt = self.coerce_t(a[0], ty.args[0])
        t = self.term(r)
        has = d.has(t, kt)
        mut = is_mutable(ty.args[1])
        if len(a) > 1:
            dv = a[1]
            if mut:
                if not self.decide(has):
                    return dv
                got = V(ty.args[1], d.get(t, kt))
            else:
                got = self.ite(has, V(ty.args[1], d.get(t, kt)), dv) if res(ty.args[1]).kind != "none" else NONEV
        else:
            self.may_raise("KeyError", has)
            got = V(ty.args[1], d.get(t, kt))
        self.mutate(r, lambda x: d.pop(x, kt), "pop", (kt,), slot=mut)
        return got

    def m_dict_copy(self, r, a, kw):
        ty = res(self.type_of(r))
        if unresolved(ty):
            return self.new_box(ty, None)
        n = self.new_box(ty, self.term(r))
        if is_mutable(ty.args[1]):
            self.st.heap[n.bid] = self.st.heap[n.bid].but(frozen=frozenset({1, 2, 3}))
            if isinstance(r, (Ref, View)):
                b = self.st.heap[r.bid]
                lvl = (len(r.path) if isinstance(r, View) else 0) + 1
                self.st.heap[r.bid] = b.but(frozen=b.frozen | {lvl, lvl + 1})
        return n

    def m_dict_update(self, r, a, kw):
        if kw:
            self.unsupported("dict.update with keywords")
        o = self.unopt(a[0])
        ot = res(self.type_of(o))
        ty = res(self.type_of(r))
        if ot.kind != "dict":
            self.unsupported("dict.update")
        unify(ty, ot)
        if unresolved(ty):
            return NONEV
        d = DT(*ty.args)
        if isinstance(r, Ref) and self.st.heap[r.bid].t is None:
            self.st.heap[r.bid] = self.st.heap[r.bid].but(t=d.empty)
        x = self.term(o)
        if is_mutable(ty.args[1]):
            self.unsupported("dict.update of containers")
        self.mutate(r, lambda t: d.merge(t, x), "merge", (x,))
        return NONEV

    def m_dict_setdefault(self, r, a, kw):
        v = a[1] if len(a) > 1 else NONEV
        if not self.decide(self.contains_(a[0], r)):
            self.set_item(r, a[0], v)
        return self.subscript(r, a[0])

    def m_dict_clear(self, r, a, kw):
        ty = res(self.type_of(r))
        if unresolved(ty):
            return NONEV
        self.mutate(r, lambda t: DT(*ty.args).empty, "clear", (), slot=True)
        return NONEV

    # list ---------------------------------------------------------------------------------------------------
    def lparts(self, r, v=None):
        ty = res(self.type_of(r))
        if v is not None and unresolved(ty.args[0]):
            unify(ty.args[0], self.type_of(v))
        if isinstance(r, Ref) and self.st.heap[r.bid].t is None and not unresolved(ty):
            self.st.heap[r.bid] = self.st.heap[r.bid].but(t=LT(ty.args[0]).nil)
        return ty

    def m_list_append(self, r, a, kw):
        ty = self.lparts(r, a[0])
        if unresolved(ty):
            self.unsupported("element type of an empty container is unknown")
        lt = LT(ty.args[0])
        x = self.store_elem(r, a[0], ty.args[0])
        self.mutate(r, lambda t: lt.app(t, x), "append", (x,))
        return NONEV

    def m_list_extend(self, r, a, kw):
        o = self.to_list(a[0])
        ot = res(self.type_of(o))
        ty = res(self.type_of(r))
        if unresolved(ot):
            return NONEV
        if unresolved(ty):
            unify(ty, ot)
        ty = self.lparts(r)
        if is_mutable(ty.args[0]):
            self.unsupported("extend with containers")
        x = self.coerce_t(o, ty)
        lt = LT(ty.args[0])
        self.mutate(r, lambda t: lt.cat(t, x), "extend", (x,))
        return NONEV

    def m_list_remove(self, r, a, kw):
        ty = self.lparts(r, a[0])
        if unresolved(ty):
            self.may_raise("ValueError", FALSE)
            raise Infeasible()
        lt = LT(ty.args[0])
        if is_mutable(ty.args[0]):
            self.unsupported("remove of a container")
        x = self.coerce_t(a[0], ty.args[0])
        self.may_raise("ValueError", lt.mem(self.term(r), x))
        self.mutate(r, lambda t: lt.rem(t, x), "remove", (x,))
        return NONEV

    def m_list_pop(self, r, a, kw):
        ty = res(self.type_of(r))
        if unresolved(ty):
            self.may_raise("IndexError", FALSE)
            raise Infeasible()
        lt = LT(ty.args[0])
        t = self.term(r)
        n = lt.len(t)
        if not a or (z3.is_int_value(a[0].t) and a[0].t.as_long() == -1):
            self.may_raise("IndexError", n > 0)
            x = lt.at(t, n - 1)
            self.mutate(r, lambda t: lt.take(t, n - 1), "poplast", (), slot=is_mutable(ty.args[0]))
            return self.val_of(ty.args[0], x)
        if z3.is_int_value(a[0].t) and a[0].t.as_long() == 0:
            self.may_raise("IndexError", n > 0)
            x = lt.at(t, z3.IntVal(0))
            self.mutate(r, lambda t: lt.drop(t, z3.IntVal(1)), "popfirst", (), slot=is_mutable(ty.args[0]))
            return self.val_of(ty.args[0], x)
        self.unsupported("list.pop at an index")

    def m_list_copy(self, r, a, kw):
        ty = res(self.type_of(r))
        n = self.new_box(ty, None if unresolved(ty) else self.term(r))
        if not unresolved(ty) and is_mutable(ty.args[0]):
            self.st.heap[n.bid] = self.st.heap[n.bid].but(frozen=frozenset({1, 2, 3}))
        return n

    def m_list_index(self, r, a, kw):
        ty = res(self.type_of(r))
        lt = LT(ty.args[0])
        x = self.coerce_t(a[0], ty.args[0])
        self.may_raise("ValueError", lt.mem(self.term(r), x))
        return V(INT, lt.idx(self.term(r), x))

    def m_list_insert(self, r, a, kw):
        ty = self.lparts(r, a[1])
        i = a[0]
        if z3.is_int_value(i.t) and i.t.as_long() == 0:
            lt = LT(ty.args[0])
            x = self.store_elem(r, a[1], ty.args[0])
            self.mutate(r, lambda t: lt.cat(lt.app(lt.nil, x), t), "insert", (x,), slot=True)
            return NONEV
        self.unsupported("list.insert")

    def m_list_sort(self, r, a, kw):
        s = self.sorted_(r, kw)
        x = self.term(s)
        self.mutate(r, lambda t: x, "sort", (), slot=True)
        return NONEV

    def m_list_reverse(self, r, a, kw):
        x = self.term(self.reversed_(r))
        self.mutate(r, lambda t: x, "sort", (), slot=True)
        return NONEV

    def m_list_count(self, r, a, kw):
        ty = res(self.type_of(r))
        lt = LT(ty.args[0])
        x = self.coerce_t(a[0], ty.args[0])
        f = z3.Function("count_" + lt.k, lt.S, lt.E, z3.IntSort())
        t = self.term(r)
        self.assume(z3.And(f(t, x) >= 0, f(t, x) <= lt.len(t), (f(t, x) > 0) == lt.mem(t, x), z3.Implies(lt.distinct(t), f(t, x) <= 1)))
        return V(INT, f(t, x))

    def m_list_clear(self, r, a, kw):
        ty = res(self.type_of(r))
        if unresolved(ty):
            return NONEV
        self.mutate(r, lambda t: LT(ty.args[0]).nil, "clear", (), slot=True)
        return NONEV

    # set ----------------------------------------------------------------------------------------------------
    def sparts(self, r, v=None):
        ty = res(self.type_of(r))
        if v is not None and unresolved(ty.args[0]):
            unify(ty.args[0], self.type_of(v))
        if isinstance(r, Ref) and self.st.heap[r.bid].t is None and not unresolved(ty):
            self.st.heap[r.bid] = self.st.heap[r.bid].but(t=DT(ty.args[0], NONE).empty)
        return ty

    def m_set_add(self, r, a, kw):
        ty = self.sparts(r, a[0])
        d = DT(ty.args[0], NONE)
        x = self.coerce_t(a[0], ty.args[0])
        self.mutate(r, lambda t: d.set(t, x, UNIT), "add", (x,))
        return NONEV

    def m_set_discard(self, r, a, kw):
        ty = self.sparts(r, a[0])
        d = DT(ty.args[0], NONE)
        x = self.coerce_t(a[0], ty.args[0])
        self.mutate(r, lambda t: d.pop(t, x), "pop", (x,))
        return NONEV

    def m_set_remove(self, r, a, kw):
        ty = self.sparts(r, a[0])
        d = DT(ty.args[0], NONE)
        x = self.coerce_t(a[0], ty.args[0])
        self.may_raise("KeyError", d.has(self.term(r), x))
        self.mutate(r, lambda t: d.pop(t, x), "pop", (x,))
        return NONEV

    def m_set_update(self, r, a, kw):
        ty = res(self.type_of(r))
        o = self.to_set(a[0])
        ot = res(self.type_of(o))
        if unresolved(ot):
            return NONEV
        unify(ty, ot)
        self.sparts(r)
        d = DT(ty.args[0], NONE)
        x = self.term(o)
        self.mutate(r, lambda t: d.merge(t, x), "merge", (x,))
        return NONEV

    def m_set_union(self, r, a, kw):
        return self.set_op("BitOr", r, self.to_set(a[0])) if a else self.m_set_copy(r, a, kw)

    def m_set_intersection(self, r, a, kw):
        return self.set_op("BitAnd", r, self.to_set(a[0]))

    def m_set_difference(self, r, a, kw):
        return self.set_op("Sub", r, self.to_set(a[0]))

    def m_set_copy(self, r, a, kw):
        ty = res(self.type_of(r))
        return self.new_box(ty, None if unresolved(ty) else self.term(r))

    def m_set_issubset(self, r, a, kw):
        return V(BOOL, self.subset(r, self.to_set(a[0]), False))

    def m_set_issuperset(self, r, a, kw):
        return V(BOOL, self.subset(self.to_set(a[0]), r, False))

    def m_set_isdisjoint(self, r, a, kw):
        x = self.set_op("BitAnd", r, self.to_set(a[0]))
        return V(BOOL, not_(self.truth(x)))

    def to_set(self, v):
        v = self.unopt(v)
        if not isinstance(v, (Part, It, PTup)) and res(self.type_of(v)).kind == "set":
            return v
        if isinstance(v, PTup):
            return self.set_lit(v.items)
        l = self.to_list(v)
        ty = res(self.type_of(l))
        if unresolved(ty):
            return self.new_box(St_(ty.args[0]), None)
        if is_mutable(ty.args[0]):
            self.unsupported("set of unhashable elements")
        lt = LT(ty.args[0])
        d = DT(ty.args[0], NONE)
        t = self.term(l)
        s = lt.setof(t)
        return self.new_box(St_(ty.args[0]), s)

    # ------------------------------------------------------------------------------------------------------ builtins
    def builtin(self, name, args, kw, e):
        h = getattr(self, "b_" + name, None)
        if h is None:
            if "builtins." + name in self.reg.externals:
                return self.reg.externals["builtins." + name](self, args, kw, e)
            self.unsupported("builtin " + name)
        return h(args, kw, e)

    def b_len(self, a, kw, e):
        v = self.unopt(a[0])
        if isinstance(v, PTup):
            return V(INT, z3.IntVal(len(v.items)))
        if isinstance(v, PRec):
            return V(INT, z3.IntVal(len(v.items)))
        if isinstance(v, Part):
            v = v.base
        if isinstance(v, It):
            return V(INT, v.n)
        ty = res(self.type_of(v))
        if ty.kind in ("list", "dict", "set") and unresolved(ty):
            return V(INT, z3.IntVal(0))
        if ty.kind == "list":
            return V(INT, LT(ty.args[0]).len(self.term(v)))
        if ty.kind == "dict":
            return V(INT, DT(*ty.args).size(self.term(v)))
        if ty.kind == "set":
            return V(INT, DT(ty.args[0], NONE).size(self.term(v)))
        if ty.kind == "tup":
            return V(INT, z3.IntVal(len(ty.args)))
        if ty.kind in ("opq", "str"):
            f = z3.Function(ty.kind + "_len", sort(ty), z3.IntSort())
            self.assume(f(self.term(v)) >= 0)
            return V(INT, f(self.term(v)))
        self.unsupported("len of %s" % ty)

    def b_list(self, a, kw, e):
        if not a:
            return self.new_box(Lst(TVar()), None)
        v = self.unopt(a[0])
        if isinstance(v, (Ref, View, V)) and res(self.type_of(v)).kind == "list":
            return self.m_list_copy(v, [], {})
        return self.to_list(v)

    def b_tuple(self, a, kw, e):
        if not a:
            return PTup([])
        v = self.unopt(a[0])
        it = self.iter_of(v)
        if getattr(it, "concrete", None) is not None:
            return PTup(it.concrete)
        l = self.to_list(v)
        return V(self.type_of(l), self.term(l))  # immutable sequence

    def b_set(self, a, kw, e):
        if not a:
            return self.new_box(St_(TVar()), None)
        v = self.to_set(a[0])
        return self.new_box(self.type_of(v), None if unresolved(self.type_of(v)) else self.term(v))

    b_frozenset = b_set

    def b_dict(self, a, kw, e):
        if not a and not kw:
            return self.new_box(Dct(TVar(), TVar()), None)
        if not a:
            return self.dict_lit([V(STR, lit(k)) for k in kw], list(kw.values()))
        v = self.unopt(a[0])
        if isinstance(v, (Ref, View, V)) and res(self.type_of(v)).kind == "dict" and not kw:
            return self.m_dict_copy(v, [], {})
        if isinstance(v, It) and not kw:
            # dict(zip(ks, vs)) / dict of pairs
            self.st.ctr += 1
            j = z3.Int(f"j!{self.st.ctr}")
            x = v.elem(j)
            items = self.destructure(x, 2)
            kt, vt = self.type_of(items[0]), self.type_of(items[1])
            k, w = self.term(items[0]), self.term(items[1])
            R = self.dict_comp([j], [It(v.n, v.elem, lst=getattr(v, "keysrc", None))], [z3.And(0 <= j, j < v.n)], [], kt, k, vt, w)
            return self.new_box(Dct(kt, vt), R)
        self.unsupported("dict()")

    def b_range(self, a, kw, e):
        xs = [self.as_int(x) for x in a]
        if len(xs) == 1:
            lo, hi, stp = z3.IntVal(0), xs[0], 1
        else:
            lo, hi = xs[0], xs[1]
            stp = 1
            if len(xs) == 3:
                if not z3.is_int_value(xs[2]) or xs[2].as_long() not in (1, -1):
                    self.unsupported("range step")
                stp = xs[2].as_long()
        d = hi - lo if stp == 1 else lo - hi
        n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
        if z3.is_int_value(n) and n.as_long() <= 8 and z3.is_int_value(lo):
            return self.iter_of(PTup([V(INT, z3.IntVal(lo.as_long() + stp * i)) for i in range(n.as_long())]))
        it = It(n, lambda i: V(INT, z3.simplify(lo + stp * i) if z3.is_int_value(lo) and lo.as_long() == 0 and stp == 1 else lo + stp * i), desc="range", distinct=True)
        return it

    def b_enumerate(self, a, kw, e):
        it = self.iter_of(a[0])
        start = self.as_int(a[1]) if len(a) > 1 else (self.as_int(kw["start"]) if "start" in kw else z3.IntVal(0))
        zero = z3.is_int_value(start) and start.as_long() == 0
        r = It(it.n, lambda i: PTup([V(INT, i if zero else start + i), it.elem(i)]), lst=None, live=it.live, desc="enumerate")
        r.pat = it.pat
        r.inner = it
        if getattr(it, "concrete", None) is not None:
            return self.iter_of(PTup([PTup([V(INT, z3.simplify(start + i)), x]) for i, x in enumerate(it.concrete)]))
        return r

    def b_zip(self, a, kw, e):
        its = [self.iter_of(x) for x in a]
        if all(getattr(i, "concrete", None) is not None for i in its):
            return self.iter_of(PTup([PTup(list(t)) for t in zip(*[i.concrete for i in its])]))
        n = its[0].n
        for i in its[1:]:
            n = z3.If(n <= i.n, n, i.n)
        r = It(n, lambda i: PTup([x.elem(i) for x in its]), desc="zip")
        if its[0].lst is not None:
            r.inner = its[0]
        return r

    def b_reversed(self, a, kw, e):
        return self.reversed_(a[0])

    def b_sorted(self, a, kw, e):
        return self.sorted_(a[0], kw)

    def sorted_(self, v, kw):
        l = self.to_list(v)
        ty = res(self.type_of(l))
        if unresolved(ty):
            return self.new_box(ty, None)
        lt = LT(ty.args[0])
        t = self.term(l)
        rev = kw.get("reverse")
        if rev is not None:
            c = self.truth(rev)
            k = self.known(c)
            if k is None:
                k = self.decide(c)
            rev = k
        if "key" not in kw or res(self.type_of(kw["key"])).kind == "none":
            return self.new_box(ty, lt.sorted_(bool(rev))(t))
        key = kw["key"]
        S = self.fresh("sortk", lt.S)
        N = z3.IntSort()
        perm, inv = self.fresh_fn("perm", [N], N), self.fresh_fn("permi", [N], N)
        i, j = z3.Int("sk_i"), z3.Int("sk_j")
        x = z3.Const("sk_x", lt.E)
        self.assume(lt.len(S) == lt.len(t), "d")
        self.assume(z3.Implies(lt.distinct(t), lt.distinct(S)), "d")
        self.assume(FA([x], lt.mem(S, x) == lt.mem(t, x), [lt.mem(S, x), lt.mem(t, x)]), "d")
        self.assume(FA([i], z3.Implies(z3.And(0 <= i, i < lt.len(S)), z3.And(0 <= perm(i), perm(i) < lt.len(t), lt.at(S, i) == lt.at(t, perm(i)), inv(perm(i)) == i)), [lt.at(S, i)]), "d")
        self.assume(FA([i], z3.Implies(z3.And(0 <= i, i < lt.len(t)), z3.And(0 <= inv(i), inv(i) < lt.len(S), lt.at(S, inv(i)) == lt.at(t, i), perm(inv(i)) == i)), [lt.at(t, i)]), "d")
        kx, kty = self.key_of(key, V(ty.args[0], x), z3.And(lt.mem(t, x)), [x])
        ki = z3.substitute(kx, (x, lt.at(S, i)))
        kj = z3.substitute(kx, (x, lt.at(S, j)))
        o = le_t(kty, kj, ki) if rev else le_t(kty, ki, kj)
        self.assume(FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < lt.len(S)), o), [[lt.at(S, i), lt.at(S, j)]]), "d")
        return self.new_box(ty, S)

    def key_of(self, key, v, guard, vs):
        """term of key(v) for a symbolic element (fresh constants vs), with the assumptions made on the way quantified"""
        n0 = len(self.st.pc)
        nb = len(self.binders)
        oldf = self.forkable
        self.forkable = False
        self.binders = self.binders + list(vs)
        self.assume(guard, "c")
        try:
            r = self.merged(lambda: self.call(key, [v], {}))
            kt, k = self.type_of(r), self.term(r)
        finally:
            self.binders = self.binders[:nb]
            self.forkable = oldf
        delta = self.st.pc[n0:]
        self.st.pc = self.st.pc[:n0]
        self.st.facts = {f.get_id() for _, f in self.st.pc}
        guards = []
        for tag, f in delta:
            if tag in ("c", "g"):
                guards.append(f)
            else:
                self.assume(self.quantify(list(vs), z3.Implies(and_(guards), f)), tag)
        return k, kt

    def b_min(self, a, kw, e):
        return self.minmax(a, kw, True)

    def b_max(self, a, kw, e):
        return self.minmax(a, kw, False)

    def minmax(self, a, kw, ismin):
        if len(a) > 1:
            r = self.unopt(a[0])
            for x in a[1:]:
                x = self.unopt(x)
                if "key" in kw:
                    self.unsupported("min/max of arguments with a key")
                ty = self.join(self.type_of(r), self.type_of(x))
                if res(ty).kind == "opq":
                    return self.ext_app("min2" if ismin else "max2", [r, x])
                p, q = self.coerce_t(r, ty), self.coerce_t(x, ty)
                c = le_t(ty, p, q) if ismin else le_t(ty, q, p)
                # Python keeps the first of equal elements
                r = V(ty, z3.If(c, p, q))
            return r
        v = self.unopt(a[0])
        if not isinstance(v, (Part, It, PTup)) and res(self.type_of(v)).kind == "opq":
            return self.ext_app("min1" if ismin else "max1", [v])
        l = self.to_list(v)
        ty = res(self.type_of(l))
        dflt = kw.get("default")
        if unresolved(ty):
            if dflt is not None:
                return dflt
            self.may_raise("ValueError", FALSE)
            raise Infeasible()
        lt = LT(ty.args[0])
        t = self.term(l)
        if dflt is not None:
            if not self.decide(lt.len(t) > 0):
                return dflt
        else:
            self.may_raise("ValueError", lt.len(t) > 0)
        m = self.fresh("min" if ismin else "max", lt.E)
        wi = self.fresh("mini", z3.IntSort())
        self.assume(z3.And(0 <= wi, wi < lt.len(t), lt.at(t, wi) == m, lt.mem(t, m)))
        i = z3.Int("mm_i")
        x = z3.Const("mm_x", lt.E)
        if "key" in kw and res(self.type_of(kw["key"])).kind != "none" or "key" in kw and isinstance(kw["key"], (Lam, FnV, BM)):
            key = kw["key"]
            if isinstance(key, BM) and key.name == "get":
                kx, kty = self.key_of(Lam(ast.parse("lambda k_: d_[k_]", mode="eval").body, {"d_": key.recv}, self.fi), V(ty.args[0], x), lt.mem(t, x), [x])
            else:
                kx, kty = self.key_of(key, V(ty.args[0], x), lt.mem(t, x), [x])
            km = z3.substitute(kx, (x, m))
            ki = z3.substitute(kx, (x, lt.at(t, i)))
            o = le_t(kty, km, ki) if ismin else le_t(kty, ki, km)
        elif res(ty.args[0]).kind == "opq":
            return V(OPQ, m)
        else:
            o = le_t(ty.args[0], m, lt.at(t, i)) if ismin else le_t(ty.args[0], lt.at(t, i), m)
        self.assume(FA([i], z3.Implies(z3.And(0 <= i, i < lt.len(t)), o), [lt.at(t, i)]))
        r = V(ty.args[0], m)
        return r if not is_mutable(ty.args[0]) else V(ty.args[0], m)

    def b_sum(self, a, kw, e):
        v = self.unopt(a[0])
        if isinstance(v, (Part, It, PTup)):
            v = self.to_list(v)
        ty = res(self.type_of(v))
        if ty.kind == "opq":
            return self.ext_app("sum", [v])
        if unresolved(ty):
            return V(INT, z3.IntVal(0))
        et = res(ty.args[0])
        if et.kind in ("int", "real"):
            f = z3.Function("sum_" + et.kind, sort(ty), sort(et))
            return V(et, f(self.term(v)))
        if et.kind == "bool":
            f = z3.Function("sum_bool", sort(ty), z3.IntSort())
            t = self.term(v)
            self.assume(z3.And(f(t) >= 0, f(t) <= LT(et).len(t)))
            return V(INT, f(t))
        return self.ext_app("sum", [v])

    def b_any(self, a, kw, e):
        return self.anyall(a[0], True)

    def b_all(self, a, kw, e):
        return self.anyall(a[0], False)

    def anyall(self, v, isany):
        l = self.to_list(v)
        ty = res(self.type_of(l))
        if unresolved(ty):
            return V(BOOL, z3.BoolVal(not isany))
        lt = LT(ty.args[0])
        t = self.term(l)
        r = self.fresh("any" if isany else "all", z3.BoolSort())
        w = self.fresh("anyw", z3.IntSort())
        i = z3.Int("any_i")
        tr = lambda x: self.truth(V(ty.args[0], lt.at(t, x)))
        inr = lambda x: z3.And(0 <= x, x < lt.len(t))
        if isany:
            self.assume(z3.Implies(r, z3.And(inr(w), tr(w))), "d")
            self.assume(z3.Implies(z3.Not(r), FA([i], z3.Implies(inr(i), z3.Not(tr(i))), [lt.at(t, i)])), "d")
        else:
            self.assume(z3.Implies(z3.Not(r), z3.And(inr(w), z3.Not(tr(w)))), "d")
            self.assume(z3.Implies(r, FA([i], z3.Implies(inr(i), tr(i)), [lt.at(t, i)])), "d")
        return V(BOOL, r)

    def b_map(self, a, kw, e):
        it = self.iter_of(a[1])
        lam = a[0]
        node = ast.parse("[f_(x_) for x_ in l_]", mode="eval").body
        saved = dict(self.st.env)
        self.st.env["f_"], self.st.env["l_"] = lam, a[1]
        try:
            return self.ev(node)
        finally:
            self.st.env = saved

    def b_filter(self, a, kw, e):
        node = ast.parse("[x_ for x_ in l_ if f_(x_)]", mode="eval").body
        saved = dict(self.st.env)
        self.st.env["f_"], self.st.env["l_"] = a[0], a[1]
        try:
            return self.ev(node)
        finally:
            self.st.env = saved

    def b_next(self, a, kw, e):
        l = a[0]
        l = self.to_list(l)
        ty = res(self.type_of(l))
        if unresolved(ty):
            if len(a) > 1:
                return a[1]
            self.may_raise("StopIteration", FALSE)
            raise Infeasible()
        lt = LT(ty.args[0])
        t = self.term(l)
        if len(a) > 1:
            if self.decide(lt.len(t) > 0):
                return self.val_of(ty.args[0], lt.at(t, z3.IntVal(0)))
            return a[1]
        self.may_raise("StopIteration", lt.len(t) > 0)
        return self.val_of(ty.args[0], lt.at(t, z3.IntVal(0)))

    def b_iter(self, a, kw, e):
        return self.to_list(a[0])

    def b_str(self, a, kw, e):
        if not a:
            return V(STR, lit(""))
        v = self.unguard(a[0])
        if isinstance(v, V) and res(v.ty).kind == "str":
            return v
        try:
            return V(STR, self.ext_t("str", [v], StrS))
        except (Unsupported, TypeMismatch):
            return V(STR, self.fresh("str", StrS))

    b_repr = b_str

    def b_int(self, a, kw, e):
        v = self.unopt(a[0])
        ty = res(self.type_of(v))
        if ty.kind == "int":
            return v
        if ty.kind in ("bool", "opq"):
            return V(INT, self.coerce_t(v, INT))
        if ty.kind == "real":
            t = self.term(v)
            return V(INT, z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        return V(INT, self.fresh("int", z3.IntSort()))

    def b_float(self, a, kw, e):
        v = self.unopt(a[0])
        ty = res(self.type_of(v))
        if ty.kind == "real":
            return v
        if ty.kind in ("int", "bool", "opq"):
            return V(REAL, self.coerce_t(v, REAL))
        if ty.kind == "str" and is_lit(self.term(v)):
            return self.const(float(lit_value(self.term(v))))
        return V(REAL, self.fresh("float", z3.RealSort()))

    def b_bool(self, a, kw, e):
        return V(BOOL, self.truth(a[0]) if a else FALSE)

    def b_abs(self, a, kw, e):
        v = self.unopt(a[0])
        ty = res(self.type_of(v))
        if ty.kind == "opq":
            return self.ext_app("abs", [v])
        t = self.term(v)
        return V(ty, z3.If(t >= 0, t, -t))

    def b_round(self, a, kw, e):
        return self.ext_app("round", a)

    def b_print(self, a, kw, e):
        return NONEV

    def b_id(self, a, kw, e):
        return self.ext_app("id", a)

    def b_open(self, a, kw, e):
        return self.external("builtins.open", a, kw, e)

    def b_type(self, a, kw, e):
        return self.ext_app("type", [a[0]])

    def b_getattr(self, a, kw, e):
        if isinstance(a[1], V) and is_lit(a[1].t):
            return self.unguard(self.attr(a[0], lit_value(a[1].t)))
        self.unsupported("getattr")

    def b_hasattr(self, a, kw, e):
        if isinstance(a[0], ObjR) and isinstance(a[1], V) and is_lit(a[1].t):
            if lit_value(a[1].t) in self.st.objs[a[0].oid]:
                return V(BOOL, TRUE)
            # an earlier call may have left the attribute behind
        self.unsupported("hasattr")

    def b_isinstance(self, a, kw, e):
        v = self.unguard(a[0])
        c = a[1]
        if isinstance(c, PTup):
            return V(BOOL, or_([self.b_isinstance([v, x], {}, e).t for x in c.items]))
        cname = c.name if isinstance(c, TyV) else (c.ci.name if isinstance(c, ClsV) else (c.dotted.split(".")[-1] if isinstance(c, ModV) else None))
        if cname is None:
            self.unsupported("isinstance")
        g = self.reg.isinstance_hook(self, v, cname, c)
        if g is not None:
            return V(BOOL, g)
        if isinstance(v, ObjR):
            return V(BOOL, z3.BoolVal(self.prog.is_subclass(v.ci, cname)))
        if isinstance(v, PTup):
            return V(BOOL, z3.BoolVal(cname == "tuple"))
        ty = res(self.type_of(v))
        if ty.kind == "opt":
            inner = self.b_isinstance([V(ty.args[0], opt_val(ty, v.t)), c], {}, e).t
            return V(BOOL, z3.And(is_some(ty, v.t), inner))
        m = {"int": ("int",), "bool": ("bool", "int"), "str": ("str",), "real": ("float",), "list": ("list",), "dict": ("dict",), "set": ("set",), "tup": ("tuple",), "rec": ("dict",), "none": ()}
        if ty.kind in m:
            return V(BOOL, z3.BoolVal(cname in m[ty.kind]))
        if ty.kind == "opq":
            f = z3.Function("isinstance_" + cname, OpqS, z3.BoolSort())
            return V(BOOL, f(v.t))
        if ty.kind.startswith("obj:"):
            f = z3.Function("isinstance_%s_%s" % (ty.kind[4:], cname), sort(ty), z3.BoolSort())
            return V(BOOL, f(v.t))
        self.unsupported("isinstance of %s" % ty)

    def b_callable(self, a, kw, e):
        return V(BOOL, z3.BoolVal(isinstance(a[0], (Lam, FnV, BM, ClsV))))
