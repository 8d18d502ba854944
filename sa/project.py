"""Project loader: parses the current source tree and resolves names, classes,
methods and (lightly) types.  Nothing under analysis is imported or executed."""
from __future__ import annotations

import ast
import os
import re
from dataclasses import dataclass, field

REPO = os.environ.get("SA_REPO", "/repo")
SRC = "hypothesis-python/src"

import builtins as _b

from .normal import line, parsed

NORMAL = ("acc", "flag", "ret")
BUILTINS = set(dir(_b))


class AnalysisError(Exception):
    pass


@dataclass(eq=False)
class Func:
    node: ast.AST
    module: "Module"
    qualname: str  # module-relative, e.g. Cls.meth or f.<locals>.g
    cls: "Class | None"
    parent: "Func | None"

    @property
    def name(self):
        return self.node.name if not isinstance(self.node, ast.Lambda) else "<lambda>"

    @property
    def fq(self):
        return f"{self.module.name}.{self.qualname}"

    @property
    def loc(self):
        return f"{self.module.rel}:{line(self.node)}"

    def __repr__(self):
        return f"<Func {self.fq}>"

    @property
    def decorators(self):
        out = []
        for d in getattr(self.node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            out.append(ast.unparse(t))
        return out

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(
            d.split(".")[-1] in ("property", "cached_property")
            or d.endswith(".setter") for d in self.decorators
        )

    @property
    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(self.node))

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args] + (
            [a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + (
            [a.kwarg.arg] if a.kwarg else [])


@dataclass(eq=False)
class Class:
    node: ast.ClassDef
    module: "Module"
    qualname: str
    methods: dict = field(default_factory=dict)  # name -> Func (last def wins)
    bases: list = field(default_factory=list)  # fq strings
    attrs: dict = field(default_factory=dict)  # class-level assigns name -> value node
    ann: dict = field(default_factory=dict)  # name -> annotation node

    @property
    def name(self):
        return self.node.name

    @property
    def fq(self):
        return f"{self.module.name}.{self.qualname}"

    @property
    def loc(self):
        return f"{self.module.rel}:{line(self.node)}"

    def __repr__(self):
        return f"<Class {self.fq}>"


class Module:
    def __init__(self, name, path, rel, src, elsewhere=lambda name: False):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = parsed(src, path, name, NORMAL, elsewhere)
        self.is_pkg = path.endswith("__init__.py")
        self.bind = {}  # name -> ('import', fq) | Func | Class | ('var', node)
        self.funcs = {}
        self.classes = {}


def own_nodes(fn):
    """All AST nodes of fn's body, not descending into nested defs/lambdas/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules: dict[str, Module] = {}
        self.functions: dict[str, Func] = {}
        self.classes: dict[str, Class] = {}
        self.func_of_node = {}
        self._load()
        self._mro = {}
        self._subs = None
        self._mut = None

    # -- loading -------------------------------------------------------
    def _load(self):
        base = os.path.join(self.root, SRC)
        found = []
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "vendor") and not x.endswith(".egg-info"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, base)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    found.append((name, p, rel, fh.read()))
        for name, p, rel, src in found:
            elsewhere = lambda word: any(word in x and re.search(rf"\b{word}\b", x) for n, _, _, x in found if n != name)  # noqa
            try:
                self.modules[name] = Module(name, p, os.path.join(SRC, rel), src, elsewhere)
            except SyntaxError as e:  # does not compile
                raise AnalysisError(f"syntax error in {rel}: {e}")
        if not self.modules:
            raise AnalysisError("no source found")
        for m in self.modules.values():
            self._index(m)

    def _index(self, m):
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                c.parent = n

        def visit(body, prefix, cls, fn):
            for st in body:
                self._visit_stmt(m, st, prefix, cls, fn, visit)

        visit(m.tree.body, "", None, None)

    def _visit_stmt(self, m, st, prefix, cls, fn, visit):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            qn = prefix + st.name
            f = Func(st, m, qn, cls if fn is None or cls is not None else None, fn)
            if any(isinstance(d, (ast.Name, ast.Attribute)) and ast.unparse(d).split(".")[-1] == "overload"
                   for d in st.decorator_list):
                return
            if cls is not None:
                if not any(ast.unparse(d).endswith(".setter") for d in st.decorator_list):
                    cls.methods[st.name] = f
                else:
                    qn = f.qualname = qn + ".setter"
            elif fn is None:
                m.bind[st.name] = f
            elif f.fq in self.functions:
                # defined again on another branch: both are kept
                qn = f.qualname = qn + "#2"
            m.funcs[qn] = f
            self.functions[f.fq] = f
            self.func_of_node[st] = f
            for lam in own_nodes(st):
                if isinstance(lam, ast.Lambda):
                    self.func_of_node[lam] = Func(lam, m, qn + f".<lambda>", None, f)
            visit(st.body, qn + ".<locals>.", None, f)
        elif isinstance(st, ast.ClassDef):
            qn = prefix + st.name
            c = Class(st, m, qn)
            if fn is None and cls is None:
                m.bind[st.name] = c
            m.classes[qn] = c
            self.classes[c.fq] = c
            for s in st.body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.ann[s.target.id] = s.annotation
                    if s.value is not None:
                        c.attrs[s.target.id] = s.value
            visit(st.body, qn + ".", c, fn)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            if fn is None and cls is None:
                self._bind_import(m, m.bind, st)
        elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if fn is None and cls is None:
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in ts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.bind.setdefault(n.id, ("var", st))
        # recurse into compound statements
        for f in ("body", "orelse", "finalbody"):
            if isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While, ast.AsyncFor, ast.AsyncWith)):
                visit(getattr(st, f, []) or [], prefix, cls, fn)
        if isinstance(st, ast.Try):
            for h in st.handlers:
                visit(h.body, prefix, cls, fn)
        if isinstance(st, ast.Match):
            for c in st.cases:
                visit(c.body, prefix, cls, fn)

    def _bind_import(self, m, bind, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    bind[a.asname] = ("import", a.name)
                else:
                    bind[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
        else:
            mod = st.module or ""
            if st.level:
                parts = m.name.split(".")
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (st.level - 1)]
                mod = ".".join(parts + ([st.module] if st.module else []))
            for a in st.names:
                bind[a.asname or a.name] = ("import", f"{mod}.{a.name}")

    # -- resolution ----------------------------------------------------
    def canon(self, fq, depth=0):
        """Follow re-exports so that one object has one dotted name."""
        if depth > 8:
            return fq
        parts = fq.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                m = self.modules[mn]
                rest = parts[i:]
                if not rest:
                    return fq
                b = m.bind.get(rest[0])
                if isinstance(b, tuple) and b[0] == "import":
                    if b[1] == ".".join(parts[: i + 1]):
                        return fq
                    return self.canon(".".join([b[1]] + rest[1:]), depth + 1)
                # simple module-level alias  X = Y
                if isinstance(b, tuple) and b[0] == "var" and isinstance(b[1], ast.Assign) and isinstance(b[1].value, (ast.Name,)):
                    tgt = m.bind.get(b[1].value.id)
                    if isinstance(tgt, (Func, Class)) or (isinstance(tgt, tuple) and tgt[0] == "import"):
                        return self.canon(".".join([mn, b[1].value.id] + rest[1:]), depth + 1)
                return fq
        return fq

    def resolve_global(self, m, name):
        b = m.bind.get(name)
        if b is None:
            if name in BUILTINS:
                return f"builtins.{name}"
            return f"{m.name}.{name}"
        if isinstance(b, tuple) and b[0] == "import":
            return self.canon(b[1])
        return self.canon(f"{m.name}.{name}")

    def lookup(self, fq):
        """Func | Class | None for canonical dotted name (methods via MRO)."""
        fq = self.canon(fq)
        if fq in self.functions:
            return self.functions[fq]
        if fq in self.classes:
            return self.classes[fq]
        head, _, tail = fq.rpartition(".")
        if head in self.classes:
            return self.method(self.classes[head], tail)
        return None

    def resolve_expr_fq(self, m, node, scope=None):
        """Dotted fq of a Name/Attribute expression at module scope (None if not static)."""
        if isinstance(node, ast.Name):
            return self.resolve_global(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr_fq(m, node.value)
            return self.canon(f"{b}.{node.attr}") if b else None
        if isinstance(node, ast.Subscript):
            return self.resolve_expr_fq(m, node.value)
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve_expr_fq(m, ast.parse(node.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    def base_fqs(self, c):
        out = []
        for b in c.node.bases:
            fq = self.resolve_expr_fq(c.module, b)
            if fq:
                out.append(fq)
        return out

    def mro(self, c):
        if c.fq in self._mro:
            return self._mro[c.fq]
        self._mro[c.fq] = [c]
        out = [c]
        for b in self.base_fqs(c):
            bc = self.classes.get(b)
            if bc is not None:
                for x in self.mro(bc):
                    if x not in out:
                        out.append(x)
        self._mro[c.fq] = out
        return out

    def ancestors_fq(self, c):
        out = set()
        for x in self.mro(c):
            out.add(x.fq)
            out.update(self.base_fqs(x))
        return out

    def method(self, c, name):
        for x in self.mro(c):
            if name in x.methods:
                return x.methods[name]
            pre = f"_{x.name.lstrip('_')}__"
            if name.startswith(pre) and name[len(pre) - 2:] in x.methods:
                return x.methods[name[len(pre) - 2:]]
        return None

    def super_method(self, c, name):
        for x in self.mro(c)[1:]:
            if name in x.methods:
                return x.methods[name]
        return None

    def subclasses(self, c, strict=False):
        if self._subs is None:
            self._subs = {}
            for k in self.classes.values():
                for b in self.mro(k):
                    self._subs.setdefault(b.fq, []).append(k)
        r = self._subs.get(c.fq, [])
        return [x for x in r if x is not c] if strict else list(r)

    # -- convenience ---------------------------------------------------
    def func(self, fq):
        f = self.lookup(fq)
        return f if isinstance(f, Func) else None

    def cls(self, fq):
        c = self.lookup(fq)
        return c if isinstance(c, Class) else None

    def find_class(self, name):
        r = [c for c in self.classes.values() if c.name == name]
        return r[0] if len(r) == 1 else None

    def mutable_attrs(self):
        """attribute names assigned anywhere outside an __init__/__new__ body, and
        names with augmented assignment or mutated through subscript store."""
        if self._mut is None:
            s = set()
            for f in list(self.functions.values()):
                init = f.name in ("__init__", "__new__", "__attrs_post_init__", "__post_init__")
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        if init and isinstance(n.value, ast.Name) and n.value.id == "self" and not isinstance(getattr(n, "parent", None), ast.AugAssign):
                            continue
                        s.add(n.attr)
            self._mut = s
        return self._mut


def load(root=None):
    return Project(root)
