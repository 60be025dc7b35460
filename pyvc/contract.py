"""Contracts, registry and the per-function verification driver."""
import time
import traceback
import z3
from .values import *
from .execu import *
from .engine import Engine
from .expr import NewObj
from . import theory as T
from . import solver


class ClassModel:
    def __init__(self, fields, frozen=None):
        self.fields, self.frozen = fields, frozen or {}


class SymClass:
    def __init__(self, ci, fields):
        self.ci, self.fields = ci, fields


class Contract:
    """Base class.  Sub-classes define:
    qual, props (property ids), setup(ex, fi) -> env, post(ex, out), and for call sites applies/apply."""
    qual = None
    props = ()
    templates = ()
    callable = False     # may be used at call sites instead of the body
    optional = False     # private helper: if the code no longer has it, its callers are verified with what replaced it
    lemmas = ()

    def setup(self, ex, fi):
        raise NotImplementedError

    def post(self, ex, out):
        raise NotImplementedError

    def applies(self, ex, fi, args, kw):
        return self.callable

    def apply(self, ex, fi, env):
        raise NotImplementedError

    # helpers
    def no_raise(self, ex, out, tags=()):
        if out.kind == "raise":
            ex.obligation("raises no " + out.val.name, FALSE, tags)
            return True
        return False


class Registry:
    def __init__(self, prog):
        self.prog = prog
        self.contracts, self.ctors, self.models = {}, {}, {}
        self.symclasses, self.objmethods, self.externals, self.ext_prefix, self.opq_methods, self.opq_attrs = {}, {}, {}, [], {}, {}
        self.objops, self.shapes = {}, {}
        self.isinstance_hook = lambda ex, v, cname, c: None
        self.all = []

    def add(self, c):
        self.all.append(c)
        if c.callable:
            self.contracts[c.qual] = c

    def contract_for(self, fi, ex):
        return self.contracts.get(fi.qual)

    def ctor_for(self, ci):
        return self.ctors.get(ci.name)

    def classmodel(self, ci):
        for c in self.prog.mro(ci):
            if c.name in self.models:
                return self.models[c.name]
        return None


class Result:
    def __init__(self, contract):
        self.contract = contract
        self.qual, self.props = contract.qual, tuple(contract.props)
        self.obls, self.unsupported, self.error = [], None, None
        self.inlined, self.used, self.externals, self.loops = set(), set(), set(), []
        self.paths, self.time, self.lines = 0, 0.0, 0
        self.vacuous = False
        self.absent = False

    def failed(self, pid=None):
        return [o for o in self.obls if not o.ok and (pid is None or not o.tags or pid in o.tags)]


def verify(prog, reg, contract, discharge=True, verbose=False, pid=None):
    r = Result(contract)
    t0 = time.time()
    ex = None
    try:
        fi = prog.find(contract.qual)
        if fi is None:
            if contract.optional:
                r.absent = True
                return r
            raise Unsupported("function not found: " + contract.qual)
        ex = Engine(prog, reg, contract.qual, contract)
        ex.fi = fi
        ex.templates = list(contract.templates)
        ex.lemmas = list(contract.lemmas)
        ex.loc = f"{fi.module.relpath}:{fi.node.lineno}"
        env = contract.setup(ex, fi)
        ex.st.env = dict(env)
        start = ex.st
        if solver.sat_hint(start.forms()) == "unsat":
            r.vacuous = True
        outs = ex.exec_block(fi.node.body, start.copy())
        r.paths = len(outs)
        ex.in_post = True
        for o in outs:
            if o.kind == "next":
                o.kind, o.val = "return", NONEV
            ex.st = o.st
            ex.loc = f"{fi.module.relpath}:{fi.node.lineno} ({o.kind})"
            try:
                contract.post(ex, o)
            except Infeasible:
                pass
        if not outs:
            r.vacuous = True
        r.obls = ex.obls
        if discharge:
            lost, todo = set(), [o for o in r.obls if o.ok is None and (pid is None or not o.tags or pid in o.tags)]
            first, again = [], []
            for o in todo:
                # a cheap first pass over everything; what is left gets the full resources, at most four obligations of a name at a time
                first.append((o.facts, o.goal, 3000000, o.lemmas, o.label))
            for o, (ok, why) in zip(todo, solver.check_many(first)):
                o.ok, o.why = ok, why
                if not ok:
                    again.append(o)
            while again:
                batch = []
                for o in again:
                    if o.label in lost:
                        o.ok, o.why = False, "not tried: an obligation of the same name failed"
                    elif sum(q.label == o.label for q in batch) < 4:
                        batch.append(o)
                again = [o for o in again if o.label not in lost and o not in batch]
                for o, (ok, why) in zip(batch, solver.check_many([(o.facts, o.goal, None, o.lemmas, o.label) for o in batch])):
                    o.ok, o.why = ok, why
                    if not ok:
                        lost.add(o.label)
            if verbose:
                for o in todo:
                    if not o.ok:
                        print("   FAILED", o.name(), o.why)
    except Unsupported as e:
        r.unsupported = str(e)
        if verbose:
            traceback.print_exc()
    except (T.TypeMismatch, Infeasible, RecursionError, AttributeError, TypeError, KeyError, IndexError, z3.Z3Exception, AssertionError, ValueError) as e:
        # the code left the modelled subset in an unforeseen way
        r.unsupported = "%s: %s" % (type(e).__name__, str(e)[:200])
        r.error = traceback.format_exc()
        if verbose:
            print(r.error)
    if ex is not None:
        r.inlined, r.used, r.externals, r.loops = ex.inlined, ex.used_contracts, ex.externals, ex.loop_report
        if not r.obls:
            r.obls = ex.obls if r.unsupported is None else []
    r.time = time.time() - t0
    return r
