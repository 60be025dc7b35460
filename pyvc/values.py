from .theory import *


class Unsupported(Exception):
    """the code leaves the verified subset"""


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, msg=""):
        self.name, self.msg = name, msg


class V:
    """immutable symbolic value"""
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return f"V({self.ty},{self.t})"


class Ref:
    __slots__ = ("bid",)

    def __init__(self, bid):
        self.bid = bid


class View:
    __slots__ = ("bid", "path", "ty", "slotver", "nestver", "t0")

    def __init__(self, bid, path, ty, slotver, nestver, t0):
        self.bid, self.path, self.ty, self.slotver, self.nestver, self.t0 = bid, path, ty, slotver, nestver, t0


class PTup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class Lam:
    def __init__(self, node, env, fi, name="<lambda>"):
        self.node, self.env, self.fi, self.name = node, env, fi, name


class FnV:
    def __init__(self, fi):
        self.fi = fi


class ClsV:
    def __init__(self, ci):
        self.ci = ci


class ModV:
    def __init__(self, dotted):
        self.dotted = dotted


class BM:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class ObjR:
    """object with concrete identity"""

    def __init__(self, oid, ci):
        self.oid, self.ci = oid, ci


class Part:
    """keys()/values()/items() view of a dict"""

    def __init__(self, base, kind):
        self.base, self.kind = base, kind


class It:
    """symbolic iterable: n elements, elem(i) -> value; lst: (elem type, list term) if it is exactly a list term"""

    def __init__(self, n, elem, lst=None, live=None, distinct=False, desc=""):
        self.n, self.elem, self.lst, self.live, self.distinct, self.desc = n, elem, lst, live, distinct, desc
        self.pat = lst      # a list whose element at index i stands for the i-th step (for triggers)


class Guarded:
    """a variable assigned only under a condition"""

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class Poison:
    def __init__(self, why):
        self.why = why


class TyV:
    """a builtin type used as a value (str, int, dict ...)"""

    def __init__(self, name):
        self.name = name


class ExcV:
    def __init__(self, name):
        self.name = name


class Kw:
    """**kargs record: python dict of values, plus opaque rest"""

    def __init__(self, items, rest=None):
        self.items, self.rest = items, rest


class Box:
    __slots__ = ("ty", "t", "origin", "slotver", "nestver", "frozen", "stored", "isfrozen")

    def __init__(self, ty, t, origin="local", slotver=0, nestver=0, frozen=frozenset(), stored=None, isfrozen=False):
        self.ty, self.t, self.origin, self.slotver, self.nestver, self.frozen, self.stored, self.isfrozen = ty, t, origin, slotver, nestver, frozen, stored, isfrozen

    def but(self, **kw):
        b = Box(self.ty, self.t, self.origin, self.slotver, self.nestver, self.frozen, self.stored, self.isfrozen)
        for k, v in kw.items():
            setattr(b, k, v)
        return b


class State:
    def __init__(self):
        self.env, self.heap, self.objs, self.fmap, self.pc, self.ghost = {}, {}, {}, {}, [], {}
        self.ctr, self.mut, self.facts = 0, 0, set()

    def copy(self):
        s = State()
        s.env, s.heap, s.fmap, s.pc, s.ghost = dict(self.env), dict(self.heap), dict(self.fmap), list(self.pc), dict(self.ghost)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.ctr, s.mut, s.facts = self.ctr, self.mut, set(self.facts)
        return s

    def forms(self):
        return [f for _, f in self.pc]


def is_mutable(ty):
    return res(ty).kind in ("list", "dict", "set")
