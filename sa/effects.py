"""Interprocedural effect inference (attribute read/write sets) over the syntax trees."""
from __future__ import annotations

import ast
import builtins
from dataclasses import dataclass, field

from .engine import MUTATORS, PURE_BUILTINS, PURE_METHODS
from .program import Func, Program, walk_own

PURE_MODULES = {
    "typing", "typing_extensions", "inspect", "types", "functools", "itertools", "dataclasses", "collections", "operator", "ast",
    "keyword", "re", "enum", "abc", "collections.abc", "string", "textwrap", "math", "copy", "uuid", "importlib.util",
}
PURE_EXTERNAL = {"Lock", "RLock", "iscoroutinefunction", "get_ident", "current_thread", "getframe", "nullcontext", "suppress", "uuid4"}
COMPILE_SINKS = {"compiler:_compile_function", "compiler:_compile_function_from_source"}
EXTRA_PURE_METHODS = PURE_METHODS | {
    "replace", "mro", "bind", "bind_partial", "with_traceback", "isalnum", "isalpha", "title", "encode", "decode", "splitlines",
    "partition", "rpartition", "isupper", "islower", "isdigit", "find", "rfind", "get", "__getitem__", "__contains__", "from_callable",
    "__subclasscheck__", "issuperset", "isdisjoint", "symmetric_difference", "casefold", "capitalize", "zfill", "most_common", "elements",
    "__get__", "__len__",
}


@dataclass
class Effect:
    writes: set[str] = field(default_factory=set)
    reads: set[str] = field(default_factory=set)
    top: bool = False
    calls: dict = field(default_factory=dict)  # (key, call node id) -> (node, write recorder)
    why: set[str] = field(default_factory=set)
    raises: bool = False  # an explicit raise in it or in a function it calls

    @property
    def pure(self) -> bool:
        return not self.writes and not self.top


def can_complete(stmts) -> bool:
    """A block may end by falling off its end."""
    for n in stmts:
        if isinstance(n, (ast.Raise, ast.Return)):
            return False
        if isinstance(n, ast.If) and n.orelse and not can_complete(n.body) and not can_complete(n.orelse):
            return False
        if isinstance(n, ast.With) and not can_complete(n.body):
            return False
        if isinstance(n, ast.Match) and any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in n.cases) and all(not can_complete(c.body) for c in n.cases):
            return False
        if isinstance(n, ast.Try) and (n.finalbody and not can_complete(n.finalbody) or not can_complete(n.body + n.orelse) and all(not can_complete(h.body) for h in n.handlers)):
            return False
    return True


class Effects:
    def __init__(self, prog: Program) -> None:
        self.prog = prog
        self._it = None
        self.eff: dict[str, Effect] = {}
        self.by_method: dict[str, list[Func]] = {}
        self.mutable: set[str] = set()
        self.rebound: set[str] = set()  # attributes assigned outside constructors
        for f in prog.all_funcs():
            if f.cls is not None:
                self.by_method.setdefault(f.name, []).append(f)
        self.fields: set[str] = set()
        for m in prog.modules.values():
            for c in m.classes.values():
                for n, _, _ in c.fields:
                    self.fields.add(n)
        self.funcs = {f.key: f for f in prog.all_funcs()}
        for f in prog.all_funcs():
            # the two functions that compile a generated function make a new function object and nothing else
            self.eff[f.key] = Effect() if f.key in COMPILE_SINKS else self.local(f)
        self.always_raise = {f.key for f in prog.all_funcs() if not f.is_generator and not f.is_async and not can_complete(f.node.body) and not any(isinstance(n, ast.Return) for n in walk_own(f.node))}
        changed = True
        while changed:
            changed = False
            for e in self.eff.values():
                for k, (node, target) in list(e.calls.items()):
                    o = self.eff.get(k[0])
                    if o is None:
                        continue
                    w, r, t = len(e.writes), len(e.reads), e.top
                    e.writes |= {x for x in o.writes if not x.startswith("param:")}
                    # mutation of an argument is an effect of the caller, too
                    for x in o.writes:
                        if x.startswith("param:"):
                            a = self.argument(k[0], node, x[6:])
                            if a is None:
                                e.writes.add("arg-mutation")
                            else:
                                target(a, "item")
                    e.reads |= o.reads
                    e.top = e.top or o.top
                    x = e.raises
                    e.raises = e.raises or o.raises
                    changed |= (w, r, t, x) != (len(e.writes), len(e.reads), e.top, e.raises)

    def local(self, f: Func) -> Effect:
        e = Effect()
        e.raises = any(isinstance(n, (ast.Raise, ast.Assert)) for n in ast.walk(f.node))
        if f.cls is not None and "Protocol" in f.cls.base_names:
            self.mark(e, "protocol method")
        fresh: set[str] = set()
        alias: dict[str, str] = {}
        params = {a.arg for a in ast.walk(f.node) if isinstance(a, ast.arg)}
        is_init = f.name in ("__init__", "__post_init__") and f.cls is not None
        # the generated classes' constructor body lives in a module function called with the object under construction
        is_init = is_init or f.cls is None and f.name.endswith("_init") and [a.arg for a in f.node.args.args][:1] == ["self"]
        assigned: dict[str, list[ast.expr]] = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        assigned.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                assigned.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.NamedExpr):
                assigned.setdefault(n.target.id, []).append(n.value)
        for n in walk_own(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not n.decorator_list and n.name not in assigned:
                fresh.add(n.name)  # the function object made here
        for name, vals in assigned.items():
            if name not in params and all(self.is_fresh(v, f, fresh) for v in vals):
                fresh.add(name)
            for v in vals:
                if isinstance(v, ast.Attribute):
                    alias[name] = v.attr

        def target(t, kind):
            """record a write through expression t (the container being written)"""
            if isinstance(t, ast.Attribute):
                if is_init and isinstance(t.value, ast.Name) and t.value.id == "self" and kind == "attr":
                    return
                e.writes.add(t.attr)
                if kind == "item" or not is_init:
                    self.mutable.add(t.attr)
            elif isinstance(t, ast.Subscript):
                target(t.value, "item")
            elif isinstance(t, ast.Name):
                if t.id in fresh:
                    return
                if t.id in alias:
                    e.writes.add(alias[t.id])
                    self.mutable.add(alias[t.id])
                elif t.id in params:
                    e.writes.add(f"param:{t.id}")
                elif t.id in f.module.consts:
                    e.writes.add(f"global:{t.id}")
                else:
                    e.writes.add(f"local:{t.id}")
            elif isinstance(t, ast.Call):
                nm = t.func.attr if isinstance(t.func, ast.Attribute) else getattr(t.func, "id", "?")
                if nm in ("setdefault", "get"):
                    target(t.func.value, "item") if isinstance(t.func, ast.Attribute) else None
                elif self.is_fresh(t, f, fresh):
                    return
                else:
                    e.writes.add(f"result:{nm}")
            elif self.is_fresh(t, f, fresh):
                return
            else:
                e.writes.add("?")

        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        if isinstance(x, ast.Attribute):
                            if not (is_init and isinstance(x.value, ast.Name) and x.value.id == "self"):
                                self.rebound.add(x.attr)
                                if isinstance(x.value, ast.Name) and x.value.id in fresh:
                                    continue
                                e.writes.add(x.attr)
                                self.mutable.add(x.attr)
                        elif isinstance(x, ast.Subscript):
                            target(x.value, "item")
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Subscript):
                        target(t.value, "item")
                    elif isinstance(t, ast.Attribute):
                        e.writes.add(t.attr)
                        self.mutable.add(t.attr)
                        self.rebound.add(t.attr)
            elif isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith)):
                self.mark(e, "await")
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                if any("contextmanager" in d or "fixture" in d or "hook" in d for d in f.decorators):
                    self.mark(e, "yield")
            elif isinstance(n, ast.With):
                e.writes.add("with")
                self.mark(e, "with")
            elif isinstance(n, ast.Global):
                for x in n.names:
                    e.writes.add(f"global:{x}")
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                e.reads.add(n.attr)
            elif isinstance(n, ast.Call):
                self.call(n, f, e, target, fresh, params)
        return e

    def is_fresh(self, v, f, fresh) -> bool:
        if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Tuple, ast.Constant, ast.JoinedStr)):
            return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
            if v.func.id in ("list", "dict", "set", "FunctionType", "frozenset", "tuple", "sorted", "deque", "OrderedDict", "defaultdict", "Counter", "str", "int"):
                return True
            if self.prog.resolve_class(f.module, v.func.id) is not None:
                return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("copy", "FunctionType"):
            return True
        if isinstance(v, ast.BinOp):
            return self.is_fresh(v.left, f, fresh) or self.is_fresh(v.right, f, fresh)
        return False

    def call(self, n, f, e, target, fresh, params):
        fn = n.func
        m = f.module
        if isinstance(fn, ast.Name):
            nm = fn.id
            if nm in params:
                self.mark(e, ast.unparse(fn)[:60])
                return
            c = self.prog.resolve_class(m, nm)
            if c is not None:
                for meth in ("__init__", "__post_init__", "__new__"):
                    i = self.prog.find_method(c, meth)
                    if i is not None:
                        e.calls[(i.key, id(n))] = (n, target)
                return
            g = self.prog_func(m, nm)
            if g is not None:
                e.calls[(g.key, id(n))] = (n, target)
                return
            if nm in m.imports:
                mod, attr = m.imports[nm]
                if mod in PURE_MODULES or (attr or mod) in PURE_EXTERNAL:
                    return
                self.mark(e, ast.unparse(fn)[:60])
                return
            if nm in PURE_BUILTINS or nm in ("repr", "iter", "next", "print", "compile") or self.is_exc(nm):
                return
            if nm == "setattr":
                e.writes.add("setattr")
                return
            if nm == "cast":
                return
            if hasattr(builtins, nm):
                self.mark(e, ast.unparse(fn)[:60])
                return
            # local function or local variable
            for x in ast.walk(f.node):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == nm:
                    return
            self.mark(e, ast.unparse(fn)[:60])
            return
        if isinstance(fn, ast.Attribute):
            nm = fn.attr
            base = fn.value
            if isinstance(base, ast.Name) and base.id in m.imports:
                mod, attr = m.imports[base.id]
                if attr is None:
                    if mod in PURE_MODULES or nm in PURE_EXTERNAL or mod == "logging":
                        return
                    tm = self.prog.modules.get(mod)
                    if tm is not None and nm in tm.funcs:
                        e.calls[(tm.funcs[nm].key, id(n))] = (n, target)
                        return
                    self.mark(e, ast.unparse(fn)[:60])
                    return
            if isinstance(base, ast.Name) and base.id in ("logger", "object", "dict", "type"):
                if base.id == "object" and nm == "__setattr__":
                    e.writes.add("__setattr__")
                return
            if isinstance(base, ast.Name) and base.id in ("self", "cls") and f.cls is not None:
                g = self.prog.find_method(f.cls, nm)
                if g is not None:
                    e.calls[(g.key, id(n))] = (n, target)
                    return
            rc = self.receiver_class(base, f)
            if rc is not None and "Protocol" not in rc.base_names:
                g = self.prog.find_method(rc, nm)
                if g is not None:
                    e.calls[(g.key, id(n))] = (n, target)
                    return
            if nm in MUTATORS:
                target(base, "item")
                return
            if nm[:1].isupper():
                return
            if nm in self.by_method:
                if any("Protocol" in (g.cls.base_names if g.cls else ()) for g in self.by_method[nm]):
                    self.mark(e, ast.unparse(fn)[:60])
                for g in self.by_method[nm]:
                    e.calls[(g.key, id(n))] = (n, target)
                return
            if nm in EXTRA_PURE_METHODS:
                return
            self.mark(e, ast.unparse(fn)[:60])
            return
        if isinstance(fn, ast.Call) or isinstance(fn, ast.Subscript):
            self.mark(e, ast.unparse(fn)[:60])
            return
        self.mark(e, ast.unparse(fn)[:60])

    def argument(self, key, node, pname):
        f = self.funcs[key]
        for kw in node.keywords:
            if kw.arg == pname:
                return kw.value
        pos = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and "staticmethod" not in f.decorators:
            pos = pos[1:]
        if pname in pos and not any(isinstance(a, ast.Starred) for a in node.args):
            i = pos.index(pname)
            if i < len(node.args):
                return node.args[i]
        return None

    def mark(self, e, why):
        e.top = True
        e.why.add(why)

    def receiver_class(self, base, f):
        from .engine import Cfg, Interp

        if self._it is None:
            self._it = Interp(self.prog, Cfg())
        if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.value.id == "self" and f.cls is not None:
            k = self._it.attr_type(f.cls, base.attr)
            return self._it.class_by_key(k) if k else None
        if isinstance(base, ast.Name):
            for a in f.node.args.args + f.node.args.kwonlyargs + f.node.args.posonlyargs:
                if a.arg == base.id:
                    k = self._it.annotation_class(f.module, a.annotation)
                    return self._it.class_by_key(k) if k else None
        return None

    def is_exc(self, nm):
        b = getattr(builtins, nm, None)
        return isinstance(b, type) and issubclass(b, BaseException)

    def prog_func(self, m, nm):
        if nm in m.funcs:
            return m.funcs[nm]
        if nm in m.imports:
            mod, attr = m.imports[nm]
            t = self.prog.modules.get(mod)
            if t is not None and attr in t.funcs:
                return t.funcs[attr]
        return None

    # queries --------------------------------------------------------------
    def of(self, key: str) -> Effect | None:
        return self.eff.get(key)

    def method_effect(self, name: str) -> Effect | None:
        fs = self.by_method.get(name)
        if not fs:
            return None
        e = Effect()
        for f in fs:
            o = self.eff[f.key]
            e.writes |= o.writes
            e.reads |= o.reads
            e.top = e.top or o.top
            e.raises = e.raises or o.raises
        return e
