"""Loads the current source tree of diwire and indexes it (modules, functions, classes, imports)."""
from __future__ import annotations

import ast
import hashlib
import os
from dataclasses import dataclass, field

SRC_ROOT = os.environ.get("DIWIRE_SA_REPO", "/repo") + "/src"


@dataclass(eq=False)
class Func:
    module: "Module"
    name: str
    qual: str  # "Class.method" or "func" or "func.<locals>.inner"
    node: ast.AST
    cls: "Class | None" = None

    @property
    def is_async(self) -> bool:
        return isinstance(self.node, ast.AsyncFunctionDef)

    @property
    def key(self) -> str:
        return f"{self.module.short}:{self.qual}"

    @property
    def decorators(self) -> list[str]:
        out = []
        for d in getattr(self.node, "decorator_list", []):
            if isinstance(d, ast.Call):
                d = d.func
            out.append(d.attr if isinstance(d, ast.Attribute) else self.imported(getattr(d, "id", "?")))
        return out

    def imported(self, name: str) -> str:
        """The name an imported name has where it is defined."""
        mod = getattr(self.module, "imports", {}).get(name)
        return mod[1] or name if mod else name

    @property
    def is_generator(self) -> bool:
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))

    def loc(self) -> str:
        return f"{self.module.rel}:{self.node.lineno}"


def walk_own(fn):
    """Nodes of a function body, without nested function/class/lambda bodies."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo = list(ast.iter_child_nodes(n)) + todo


@dataclass(eq=False)
class Class:
    module: "Module"
    name: str
    node: ast.ClassDef
    methods: dict[str, Func] = field(default_factory=dict)
    fields: list[tuple[str, ast.expr | None, ast.expr | None]] = field(default_factory=list)
    is_dataclass: bool = False
    frozen: bool = False

    @property
    def key(self) -> str:
        return f"{self.module.short}:{self.name}"

    @property
    def base_names(self) -> list[str]:
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            out.append(b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "?"))
        return out


@dataclass(eq=False)
class Module:
    name: str
    short: str
    path: str
    rel: str
    tree: ast.Module
    source: str
    funcs: dict[str, Func] = field(default_factory=dict)
    classes: dict[str, Class] = field(default_factory=dict)
    imports: dict[str, tuple[str, str | None]] = field(default_factory=dict)
    consts: dict[str, ast.expr] = field(default_factory=dict)


class AnchorError(Exception):
    """An entry the rules need is gone: the analysis is broken, not passing."""


class Program:
    def __init__(self, root: str = SRC_ROOT) -> None:
        self.root = root
        self.modules: dict[str, Module] = {}
        self.by_short: dict[str, Module] = {}
        self.classes_by_name: dict[str, list[Class]] = {}
        for dirpath, dirnames, files in os.walk(os.path.join(root, "diwire")):
            dirnames[:] = sorted(d for d in dirnames if d != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    self._load(os.path.join(dirpath, f))
        if not self.modules:
            raise AnchorError(f"no modules under {root}")

    def digest(self) -> str:
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].source.encode())
        return h.hexdigest()[:16]

    def _load(self, path: str) -> None:
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, ".")
        is_pkg = name.endswith(".__init__")
        if is_pkg:
            name = name[: -len(".__init__")]
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        short = name.replace("diwire._internal.", "").replace("resolvers.assembly.", "")
        m = Module(name, short, path, "src/" + rel, tree, src)
        self.modules[name] = m
        self.by_short[short] = m
        self._index(m, is_pkg)

    def reindex(self) -> None:
        """After the trees were rewritten."""
        self.classes_by_name.clear()
        for m in self.modules.values():
            m.funcs, m.classes, m.imports, m.consts = {}, {}, {}, {}
            self._index(m, m.path.endswith("__init__.py"))

    def _index(self, m: Module, is_pkg: bool) -> None:
        name, tree = m.name, m.tree
        self._index_body(m, tree.body)
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                if n.level:
                    base = name.split(".")
                    base = base[: len(base) - n.level + (1 if is_pkg else 0)]
                    mod = ".".join(base + ([mod] if mod else []))
                for a in n.names:
                    m.imports[a.asname or a.name] = (mod, a.name)

    def _index_body(self, m: Module, body, prefix: str = "") -> None:
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any("overload" in ast.dump(d) for d in n.decorator_list):
                    continue
                m.funcs[n.name] = Func(m, n.name, n.name, n)
            elif isinstance(n, ast.ClassDef):
                c = Class(m, prefix + n.name, n)
                m.classes[prefix + n.name] = c
                self.classes_by_name.setdefault(n.name, []).append(c)
                for d in n.decorator_list:
                    s = ast.dump(d)
                    if "dataclass" in s:
                        c.is_dataclass = True
                        c.frozen = "frozen" in s
                if "NamedTuple" in c.base_names:
                    c.is_dataclass = c.frozen = True
                for b in n.body:
                    if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        if any("overload" in ast.dump(d) for d in b.decorator_list):
                            continue
                        c.methods[b.name] = Func(m, b.name, f"{prefix}{n.name}.{b.name}", b, c)
                    elif isinstance(b, ast.ClassDef):
                        self._index_body(m, [b], f"{prefix}{n.name}.")
                    elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                        c.fields.append((b.target.id, b.annotation, b.value))
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                c.fields.append((t.id, None, b.value))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.consts[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self._index_body(m, n.body)
                self._index_body(m, getattr(n, "orelse", []))
                for h in getattr(n, "handlers", []):
                    self._index_body(m, h.body)

    # -- lookup -------------------------------------------------------
    def module(self, short: str) -> Module:
        m = self.by_short.get(short)
        if m is None:
            raise AnchorError(f"module {short} not found")
        return m

    def func(self, short: str, qual: str) -> Func:
        m = self.module(short)
        if "." in qual:
            c, meth = qual.rsplit(".", 1)
            cl = m.classes.get(c)
            if cl is not None:
                f = self.find_method(cl, meth)
                if f is not None:
                    return f
        elif qual in m.funcs:
            return m.funcs[qual]
        raise AnchorError(f"function {short}:{qual} not found")

    def has_func(self, short: str, qual: str) -> bool:
        try:
            self.func(short, qual)
        except AnchorError:
            return False
        return True

    def find_method(self, cls: Class, name: str) -> Func | None:
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c.key in seen:
                continue
            seen.add(c.key)
            if name in c.methods:
                return c.methods[name]
            for b in c.base_names:
                r = self.resolve_class(c.module, b)
                if r is not None:
                    todo.append(r)
        return None

    def resolve_class(self, m: Module, name: str) -> Class | None:
        if name in m.classes:
            return m.classes[name]
        if name in m.consts:
            v = m.consts[name]
            if isinstance(v, ast.Name):
                return self.resolve_class(m, v.id)
        if name in m.imports:
            mod, attr = m.imports[name]
            tgt = self.modules.get(mod)
            if tgt is not None and attr is not None:
                return self.resolve_class(tgt, attr)
        return None

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                yield from c.methods.values()

    def is_subclass(self, cls: Class, basename: str) -> bool:
        if cls.name == basename:
            return True
        for b in cls.base_names:
            if b == basename:
                return True
            r = self.resolve_class(cls.module, b)
            if r is not None and r is not cls and self.is_subclass(r, basename):
                return True
            if r is None:
                import builtins
                bt = getattr(builtins, b, None)
                tt = getattr(builtins, basename, None)
                if isinstance(bt, type) and isinstance(tt, type) and issubclass(bt, tt):
                    return True
        return False
