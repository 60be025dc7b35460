"""Mechanical extraction of the functions under verification: the ASTs of the files of /repo, re-read on every run."""
import ast
import hashlib
import os

SRC = os.environ.get("PYVC_SRC", "/repo/src/cognitivefactory/interactive_clustering")
PKG = "cognitivefactory.interactive_clustering"


class FuncInfo:
    def __init__(self, module, cls, node, outer=None):
        self.module, self.cls, self.node, self.outer = module, cls, node, outer
        self.name = node.name
        self.qual = module.short + ":" + (cls.name + "." if cls else "") + node.name

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    @property
    def static(self):
        return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in self.node.decorator_list)

    @property
    def classm(self):
        return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in self.node.decorator_list)

    @property
    def prop(self):
        return any(isinstance(d, ast.Name) and d.id == "property" for d in self.node.decorator_list)


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}
        self.consts = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.methods[n.name] = FuncInfo(module, self, n)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(tgt, ast.Name) and n.value is not None:
                    self.consts[tgt.id] = n.value

    def bases(self):
        return [b.id for b in self.node.bases if isinstance(b, ast.Name)]


class ModuleInfo:
    def __init__(self, prog, short, path):
        self.prog, self.short, self.path = prog, short, path
        self.relpath = os.path.relpath(path, prog.root) if hasattr(prog, "root") else os.path.basename(path)
        self.text = open(path).read()
        self.sha = hashlib.sha256(self.text.encode()).hexdigest()
        self.tree = ast.parse(self.text)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = FuncInfo(self, None, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = ClassInfo(self, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                if n.level:
                    mod = PKG
                for a in n.names:
                    self.imports[a.asname or a.name] = mod + "." + a.name
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(tgt, ast.Name) and n.value is not None:
                    self.consts[tgt.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)


class Program:
    def __init__(self, src=None):
        self.src = src or SRC
        self.root = os.path.dirname(self.src.rstrip("/"))
        self.modules = {}
        for d, _, fs in os.walk(self.src):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    short = os.path.relpath(p, self.src)[:-3].replace(os.sep, ".")
                    if short.endswith("__init__"):
                        short = short[: -len("__init__")].rstrip(".") or "__pkg__"
                    self.modules[short] = ModuleInfo(self, short, p)

    def find(self, qual):
        short, rest = qual.split(":")
        m = self.modules.get(short)
        if m is None:
            return None
        if "." in rest:
            c, f = rest.split(".")
            ci = m.classes.get(c)
            return self.method(ci, f) if ci else None
        return m.funcs.get(rest)

    def find_class(self, short, name):
        m = self.modules.get(short)
        return m.classes.get(name) if m else None

    def resolve_dotted(self, dotted):
        """repo entity named by a dotted import path, or None"""
        if not dotted.startswith(PKG):
            return None
        rest = dotted[len(PKG):].lstrip(".")
        if rest in self.modules:
            return self.modules[rest]
        if "." in rest:
            short, name = rest.rsplit(".", 1)
            m = self.modules.get(short)
            if m is not None:
                if name in m.classes:
                    return m.classes[name]
                if name in m.funcs:
                    return m.funcs[name]
                if name in m.imports:
                    return self.resolve_dotted(m.imports[name])
                if name in m.consts:
                    return ("const", m, m.consts[name])
        return None

    def mro(self, ci):
        out, todo = [], [ci]
        while todo:
            c = todo.pop(0)
            if c is None or c in out:
                continue
            out.append(c)
            for b in c.bases():
                if b in c.module.classes:
                    todo.append(c.module.classes[b])
                elif b in c.module.imports:
                    r = self.resolve_dotted(c.module.imports[b])
                    if isinstance(r, ClassInfo):
                        todo.append(r)
        return out

    def method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def is_subclass(self, ci, name):
        return any(c.name == name for c in self.mro(ci))
