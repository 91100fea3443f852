"""Path-sensitive abstract interpreter over Python syntax trees.

The abstract domain is provenance terms (value numbering) plus a set of branch facts that
correlates conditions so infeasible paths are pruned.  Loops are unrolled to a bound, helpers
are inlined, exception edges are explicit.  Nothing of the analysed program is executed.
"""
from __future__ import annotations

import ast
import builtins
from dataclasses import dataclass, field
from typing import Any, Callable, Iterator

import string
import sys

from .program import Class, Func, Module, Program, walk_own

sys.setrecursionlimit(200000)

# ----------------------------------------------------------------- terms


def C(v):
    return ("c", type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)
ELLIPSIS = C(Ellipsis)


def is_const(t):
    return isinstance(t, tuple) and t and t[0] == "c"


def cval(t):
    return t[2]


def P(name):
    return ("p", name)


def A(base, name):
    return ("a", base, name)


def show(t, d=0) -> str:
    """Readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if d > 8:
        return "…"
    if not isinstance(k, str):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    s = lambda x: show(x, d + 1)  # noqa: E731
    if k == "c":
        return repr(t[2])
    if k == "p":
        return t[1]
    if k == "g":
        return t[1].split(":")[-1]
    if k in ("x", "b"):
        return t[1]
    if k == "a":
        return f"{s(t[1])}.{t[2] if isinstance(t[2], str) else s(t[2])}" + (f"#{t[3]}" if len(t) > 3 and t[3] else "")
    if k == "i":
        return f"{s(t[1])}[{s(t[2])}]"
    if k in ("call", "coro"):
        a = [s(x) for x in t[2]] + [f"{n}={s(v)}" for n, v in t[3]]
        return f"{s(t[1])}({', '.join(a)})" + (f"#{t[4]}" if len(t) > 4 and t[4] else "")
    if k in ("tup", "lst", "set"):
        o, c = {"tup": "()", "lst": "[]", "set": "{}"}[k]
        return o + ", ".join(s(x) for x in t[1]) + c
    if k == "dct":
        return "{" + ", ".join(f"{s(a)}: {s(b)}" for a, b in t[1]) + "}"
    if k == "new":
        return f"{t[1].split(':')[-1]}({', '.join(f'{n}={s(v)}' for n, v in t[2])})"
    if k == "fn":
        return t[1].rsplit(":", 1)[0] if t[2] == -1 else f"<fn {t[1]}>"
    if k == "bm":
        return f"{s(t[3])}.{t[2]}"
    if k == "f":
        return "f'" + "".join(x if isinstance(x, str) else "{" + s(x) + "}" for x in t[1]) + "'"
    if k in ("op", "cmp"):
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if k == "un":
        return f"{t[1]}{s(t[2])}"
    if k == "not":
        return f"not {s(t[1])}"
    if k == "isinst":
        return f"isinstance({s(t[1])}, {s(t[2])})"
    if k == "el":
        return f"{s(t[1])}<{t[2]}>"
    if k == "exc":
        return f"<exc of {s(t[1])}>"
    return k + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"


def strip(t):
    """Term without attribute versions / call counters (for matching)."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "c":
        return t
    if t[0] == "a":
        return ("a", strip(t[1]), strip(t[2]))
    if t[0] in ("call", "coro"):
        return ("call", strip(t[1]), tuple(strip(x) for x in t[2]), tuple((n, strip(v)) for n, v in t[3]))
    if t[0] == "new":
        return ("new", t[1], tuple((n, strip(v)) for n, v in t[2]))
    return tuple(strip(x) if isinstance(x, tuple) else x for x in t)


def hash_term(t):
    import hashlib

    return hashlib.sha256(repr(t).encode()).hexdigest()[:12]


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
            if t[0] == "c":
                return
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, sub) -> bool:
    if t == sub:
        return True
    if isinstance(t, tuple) and not (t and t[0] == "c"):
        return any(contains(x, sub) for x in t if isinstance(x, tuple))
    return False


def last_name(t) -> str | None:
    """The identifier a callee/attribute term ends with."""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "a":
        return t[2] if isinstance(t[2], str) else None
    if t[0] in ("g",):
        return t[1].split(":")[-1].split(".")[-1]
    if t[0] in ("x", "b"):
        return t[1].split(".")[-1]
    if t[0] == "fn":
        return t[1].split(":")[1].split(".")[-1]
    if t[0] == "bm":
        return t[2]
    if t[0] == "p":
        return t[1]
    return None


# ----------------------------------------------------------------- events & outcomes


@dataclass(frozen=True)
class Ev:
    kind: str  # call, await, store, del, enter, exit, raise, yield, mut, isub
    name: str | None
    term: Any  # callee / target
    args: tuple = ()
    kwargs: tuple = ()
    value: Any = None
    line: int = 0
    mod: str = ""
    fn: str = ""

    def loc(self) -> str:
        return f"{self.mod}:{self.line}"

    def kw(self, n, default=None):
        for k, v in self.kwargs:
            if k == n:
                return v
        return default

    def __str__(self) -> str:
        if self.kind in ("call", "new"):
            a = [show(x) for x in self.args] + [f"{n}={show(v)}" for n, v in self.kwargs]
            return f"{self.kind} {show(self.term)}({', '.join(a)})"
        if self.kind == "store":
            return f"store {show(self.term)} = {show(self.value)}"
        return f"{self.kind} {show(self.term) if self.term is not None else ''} {show(self.value) if self.value is not None else ''}".rstrip()


class Raise:
    __slots__ = ("exc", "line", "mod")

    def __init__(self, exc, line=0, mod=""):
        self.exc, self.line, self.mod = exc, line, mod


NORMAL, BREAK, CONT = ("normal",), ("break",), ("cont",)


class State:
    __slots__ = ("frames", "heap", "attrs", "eq", "ne", "atoms", "order", "trace", "ver", "cnt", "calls", "muts", "hasn", "exck", "pend", "excstack", "over", "aver")

    def __init__(self):
        self.frames: dict[int, dict] = {}
        self.heap: dict[int, tuple] = {}
        self.attrs: dict = {}
        self.eq: dict = {}
        self.ne: dict = {}
        self.atoms: dict = {}
        self.order: dict = {}
        self.trace: tuple | None = None
        self.ver: int = 0
        self.cnt: int = 0
        self.calls: dict = {}
        self.muts: dict = {}
        self.exck: dict = {}
        self.pend: dict = {}
        self.excstack: tuple = ()
        self.over: dict = {}
        self.aver: dict = {}  # attribute name -> stores so far

    def fork(self) -> "State":
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.eq = dict(self.eq)
        s.ne = dict(self.ne)
        s.atoms = dict(self.atoms)
        s.order = dict(self.order)
        s.trace = self.trace
        s.ver = self.ver
        s.cnt = self.cnt
        s.calls = dict(self.calls)
        s.muts = dict(self.muts)
        s.exck = dict(self.exck)
        s.pend = dict(self.pend)
        s.excstack = self.excstack
        s.over = dict(self.over)
        s.aver = dict(self.aver)
        return s

    def emit(self, ev: Ev) -> None:
        self.trace = (self.trace, ev)

    def events(self) -> list[Ev]:
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def new_id(self) -> int:
        self.cnt += 1
        return self.cnt

    def deref(self, t, depth=0):
        if not isinstance(t, tuple) or not t or depth > 120:
            return t
        if t[0] == "c":
            return t
        if t[0] == "node":
            _, (cls, fields) = self.heap[t[1]]
            return ("call", ("x", cls), (), tuple((k, self.deref(v, depth + 1)) for k, v in fields), 0)
        if t[0] == "ref":
            kind, items = self.heap[t[1]]
            if kind == "dct":
                return ("dct", tuple((self.deref(a, depth + 1), self.deref(b, depth + 1)) for a, b in items))
            return (kind, tuple(self.deref(x, depth + 1) for x in items))
        if any(isinstance(x, tuple) for x in t):
            return tuple(self.deref(x, depth + 1) if isinstance(x, tuple) else x for x in t)
        return t


@dataclass
class Path:
    state: State
    outcome: tuple  # ('ret', term) | ('raise', exc)
    events: list[Ev]
    interp: "Interp"

    @property
    def kind(self) -> str:
        return self.outcome[0]

    @property
    def ret(self):
        return self.outcome[1] if self.outcome[0] == "ret" else None

    @property
    def exc(self):
        return self.outcome[1] if self.outcome[0] == "raise" else None

    def exc_name(self) -> str | None:
        return exc_class_name(self.exc) if self.kind == "raise" else None

    def truth(self, t) -> bool | None:
        return self.interp.known_truth(t, self.state)

    def is_(self, a, b) -> bool | None:
        return self.interp.known_cmp("is", a, b, self.state)

    def cmp(self, op, a, b) -> bool | None:
        return self.interp.known_cmp(op, a, b, self.state)

    def facts(self) -> list[str]:
        return describe_facts(self.state)

    def calls(self, *names) -> list[Ev]:
        return [e for e in self.events if e.kind == "call" and e.name in names]

    def describe(self) -> str:
        out = ["  facts: " + ("; ".join(self.facts()) or "-")]
        for e in self.events:
            out.append(f"    {e.loc()}: {e}")
        if self.kind == "raise":
            out.append(f"  outcome: raise {show(self.exc)}")
        else:
            out.append(f"  outcome: return {show(self.ret)}")
        return "\n".join(out)


def exc_class_name(exc) -> str | None:
    if exc is None:
        return None
    if exc[0] == "new":
        return exc[1].split(":")[-1].split(".")[-1]
    if exc[0] == "call":
        return last_name(exc[1])
    return None


def describe_facts(st: State) -> list[str]:
    out = []
    for t, c in st.eq.items():
        out.append(f"{show(t)} == {show(c)}")
    for t, cs in st.ne.items():
        if t not in st.eq:
            out.append(f"{show(t)} not in {{{', '.join(sorted(show(c) for c in cs))}}}")
    for a, v in st.atoms.items():
        if a[0] == "t":
            out.append(("" if v else "not ") + show(a[1]) + (f"[>{a[2]}]" if len(a) > 2 and a[2] else ""))
        else:
            out.append(("" if v else "not ") + show(a))
    for (a, b), v in st.order.items():
        out.append(f"{show(a)} {''.join(sorted(v))} {show(b)}")
    for e, v in st.exck.items():
        out.append(f"{show(e)} : {v}")
    return sorted(out)


class TooManyPaths(Exception):
    pass


PURE_BUILTINS = {
    "len", "isinstance", "issubclass", "getattr", "hasattr", "callable", "type", "id", "bool", "str", "repr",
    "int", "tuple", "list", "set", "frozenset", "dict", "reversed", "sorted", "enumerate", "zip", "range", "max",
    "min", "sum", "any", "all", "iter", "hash", "abs", "map", "filter", "super", "vars", "dir", "object", "format",
    "property", "staticmethod", "classmethod", "slice", "float", "bytes", "ord", "chr", "isidentifier",
}
PURE_METHODS = {
    "startswith", "endswith", "items", "keys", "values", "format", "strip", "lower", "upper", "split", "join",
    "replace", "lstrip", "rstrip", "removeprefix", "removesuffix", "isidentifier", "index", "count", "copy", "union",
    "difference", "intersection", "issubset",
}
MUTATORS = {"append", "extend", "pop", "clear", "add", "update", "insert", "remove", "discard", "setdefault", "popitem", "reverse", "sort", "popleft", "appendleft"}


@dataclass
class Cfg:
    """Per-rule analysis configuration."""

    inline: Callable[[Func], bool] = lambda f: False
    pure: Callable[[str], bool] = lambda n: False
    volatile: Callable[[Any], bool] = lambda a: False
    stable: Callable[[str], bool] = lambda a: False  # attributes whose container changes but is never replaced
    raises: Callable[[str, Any], bool] | None = None  # (name, callee term) -> may raise
    unroll: int = 2
    while_unroll: int = 2
    max_paths: int = 60000
    max_steps: int = 300000
    max_depth: int = 14
    types: dict = field(default_factory=dict)  # term -> class key "module:Class"
    distinct: bool = True
    maybe_missing: bool = False  # fork KeyError on d[k]
    inline_cm: bool = True
    getter: Callable[[Any, Any, State], Any] | None = None  # attribute override
    onattr: Any = None
    no_fork_get: bool = False
    cond_pure: bool = True
    rel: bool = False  # exception edges become correlated atoms, taken only inside try / with
    purity: Callable[[Any, str, "Interp", "State"], str | None] | None = None  # None: impure
    local_opaque: Callable[[Func], bool] | None = None  # local functions kept as uninterpreted pure functions
    bump: bool = False  # every impure call re-versions shared state


ALIASED = ("el", "i", "call")  # objects found in containers or returned: two such terms may be one object


class Interp:
    not_inlined: set = set()  # functions whose body was out of reach at some call
    def __init__(self, prog: Program, cfg: Cfg | None = None, known_funcs: set[str] | None = None) -> None:
        self.prog = prog
        self.cfg = cfg or Cfg()
        self.fns: dict[str, tuple] = {}
        self.paths = 0
        self.known = known_funcs if known_funcs is not None else set()
        self.known_classes: set[str] | None = None
        self.method_hint: Callable | None = None  # the only method of that name, when its receiver's type is unknown
        self.type_source: Interp | None = None  # where attribute types are looked up first
        self.param_names: Callable | None = None  # canonical parameter names of a function
        self.inlined: set[str] = set()
        self.bools: set = set()  # parameters declared bool
        self.anns: dict = {}  # declared types of parameters
        self.try_handlers: list = []
        self.cm_hooks: list = []
        self.sites = 0
        self.checks: Callable | None = None  # a call without an effect that may raise
        self.always_raise: set = set()
        self.cut = False  # a path was dropped because a loop reached its bound
        self.while_cut = False
        self.steps = 0
        self.rng = None  # branches are taken in this random order (sampling of paths)
        self.mutates: Callable | None = None  # names of the parameters a function mutates
        self.last_reads: frozenset = frozenset()  # shared attributes the last call judged "reads" depends on
        self.seeded = False  # branch facts of a reviewed path are given

    # ------------------------------------------------------------ entry
    def run(self, fn: Func | tuple, args: dict | None = None, state: State | None = None, self_term=None,
            fnterm=None, first: int | None = None) -> list[Path]:
        """All paths of a function with symbolic parameters (overridden by `args`)."""
        st = state or State()
        node = fn.node
        vals = {}
        a = node.args
        allp = list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs)
        for i, p in enumerate(allp):
            if args and p.arg in args:
                vals[p.arg] = args[p.arg]
                ck = self.annotation_class(fn.module, p.annotation) if args[p.arg][0] == "p" else None
                if ck:
                    self.cfg.types.setdefault(vals[p.arg], ck)
            elif i == 0 and fn.cls is not None and p.arg in ("self", "cls"):
                vals[p.arg] = self_term or P("self")
                self.cfg.types.setdefault(vals[p.arg], fn.cls.key)
            else:
                vals[p.arg] = P(p.arg)
                ck = self.annotation_class(fn.module, p.annotation)
                if ck:
                    self.cfg.types.setdefault(vals[p.arg], ck)
        if a.vararg:
            vals[a.vararg.arg] = (args or {}).get(a.vararg.arg, P("*" + a.vararg.arg))
        if a.kwarg:
            vals[a.kwarg.arg] = (args or {}).get(a.kwarg.arg, P("**" + a.kwarg.arg))
            if vals[a.kwarg.arg][0] == "p":  # a dictionary of this call's own
                vals[a.kwarg.arg] = self.new_ref("dct", ((("starstar", vals[a.kwarg.arg]), NONE),), st)
        out = []
        for s, oc in self.exec_function(fn, vals, st, parent=None):
            out.append(Path(s, oc, s.events(), self))
            if first is not None and len(out) >= first:
                break
        return out

    def annotation_class(self, m: Module, ann) -> str | None:
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp):
            l, r = self.annotation_class(m, ann.left), self.annotation_class(m, ann.right)
            return l or r
        if isinstance(ann, ast.Name):
            c = self.prog.resolve_class(m, ann.id)
            return c.key if c else None
        return None

    def is_bool(self, t, st) -> bool:
        """Declared bool, so a known truth value is a known value."""
        if t in self.bools or t[0] in ("cmp", "not", "isinst"):
            return True
        if t[0] == "a" and isinstance(t[2], str) and t[2] in (self.type_source or self).bool_attrs():
            return True
        if t[0] == "call" and (t[1][0] == "b" and t[1][1] in ("callable", "isinstance", "issubclass", "hasattr", "bool") or t[1][0] == "x" and t[1][1].startswith(("inspect.is", "inspect.iscoroutine", "asyncio.iscoroutine", "keyword.iskeyword"))):
            return True
        ann = self.annotation_of(t, st) if t[0] in ("a", "call", "i", "el") else None
        return getattr(ann, "id", None) == "bool" or isinstance(ann, ast.Subscript) and getattr(ann.value, "id", None) in ("TypeGuard", "TypeIs")

    def bool_attrs(self) -> set:
        """Attributes of which every store in the program is True, False, a comparison or a negation."""
        cached = self.__dict__.get("_bool_attrs")
        if cached is None:
            yes, no = set(), set()
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                    v = n.value
                                    ok = x is t and not isinstance(n, ast.AugAssign) and (isinstance(v, ast.Constant) and isinstance(v.value, bool) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)
                                         or isinstance(v, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in v.ops))
                                    (yes if ok else no).add(x.attr)
            cached = self.__dict__["_bool_attrs"] = yes - no
        return cached

    def attr_annotation(self, ck: str, name: str):
        """Declared type of an attribute (reviewed tree first)."""
        src = self.type_source or self
        c = src.class_by_key(ck)
        if c is None:
            return None
        for n, ann, _ in c.fields:
            if n == name and ann is not None:
                return ann
        init = c.methods.get("__init__")
        if init is not None:
            for n in ast.walk(init.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                    return n.annotation
            anns = {a.arg: a.annotation for a in init.node.args.args + init.node.args.kwonlyargs}
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == name:
                    v = n.value
                    if isinstance(v, ast.Name):
                        return anns.get(v.id)
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == "self" and v.func.attr in c.methods:
                        return c.methods[v.func.attr].node.returns
        return None

    def annotation_of(self, t, st):
        if t in self.anns:
            return self.anns[t]
        if t[0] == "a" and isinstance(t[2], str):
            ck = self.type_of(t[1], st) or self.declared_class(t[1], st)
            return self.attr_annotation(ck, t[2]) if ck else None
        if t[0] == "g" and ":" in t[1]:
            short, nm = t[1].split(":", 1)
            m = self.prog.by_short.get(short)
            for n in (m.tree.body if m is not None else ()):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == nm:
                    return n.annotation
            return None
        if t[0] in ("i", "el"):
            ann = self.annotation_of(t[1], st)
            if isinstance(ann, ast.Subscript) and isinstance(ann.value, ast.Name):
                args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                if ann.value.id in ("dict", "Mapping", "OrderedDict", "defaultdict") and len(args) == 2:
                    return args[1] if t[0] == "i" else args[0]
                if t[0] == "i" and t[2][0] == "slice":
                    return ann
                if ann.value.id in ("list", "Sequence", "Iterable", "Iterator", "set", "frozenset", "Collection") and len(args) == 1:
                    return args[0]
                if ann.value.id == "tuple" and len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return args[0]
            return None
        if t[0] == "call" and t[1][0] == "a" and t[1][2] == "get" and not t[2] and not t[3]:
            ann = self.annotation_of(t[1][1], st)
            if isinstance(ann, ast.Subscript) and getattr(ann.value, "id", None) == "ContextVar":
                return ann.slice
        if t[0] == "call" and t[1][0] in ("bm", "g", "a"):
            fn, _ = self.resolve_fn(t[1], st)
            if fn is None and t[1][0] == "a" and isinstance(t[1][2], str) and self.method_hint is not None:
                fn = self.method_hint(t[1][2])
            if fn is not None and fn.key in self.known and not fn.is_async:
                rf = None
                if self.type_source is not None:
                    rf = self.ref_func(fn.key)
                return getattr((rf or fn).node, "returns", None)
        return None

    def declared_class(self, t, st):
        """Class of a value known only by a declared element type."""
        ann = self.annotation_of(t, st)
        if not isinstance(ann, ast.Name):
            return None
        found = [m.classes[ann.id].key for m in self.prog.modules.values() if ann.id in m.classes]
        return found[0] if len(found) == 1 else None

    def is_str(self, t, st) -> bool:
        if is_const(t):
            return isinstance(cval(t), str)
        if t[0] == "f" or t[0] == "call" and t[1] in (("b", "str"), ("b", "repr"), ("b", "format")):
            return True
        return t[0] in ("p", "a", "i", "el", "call") and getattr(self.annotation_of(t, st), "id", None) == "str"

    def fstring(self, parts, st):
        r = mk_fstr(parts)
        if r[0] == "f" and len(r[1]) == 1 and isinstance(r[1][0], tuple) and self.is_str(r[1][0], st):
            return r[1][0]
        return r

    def ref_func(self, key: str):
        src = self.type_source
        short, q = key.split(":", 1)
        m = src.prog.by_short.get(short)
        if m is None:
            return None
        if "." in q:
            cn, mn = q.rsplit(".", 1)
            c = m.classes.get(cn)
            return c.methods.get(mn) if c else None
        return m.funcs.get(q)

    def is_tuple(self, t, st) -> bool:
        if t[0] == "tup" or is_const(t) and isinstance(cval(t), tuple):
            return True
        if t[0] == "call" and t[1] in (("b", "tuple"), ("x", "typing.get_args")):
            return True
        if t[0] == "i" and t[2][0] == "slice":
            return self.is_tuple(t[1], st)
        if t[0] == "v" and len(t) > 1 and isinstance(t[1], tuple):
            return self.is_tuple(t[1], st)
        ann = self.annotation_of(t, st)
        return isinstance(ann, ast.Subscript) and getattr(ann.value, "id", None) == "tuple" or isinstance(ann, ast.Name) and ann.id == "tuple"

    def is_final(self, key: str) -> bool:
        """A private class nobody derives from."""
        name = key.split(":")[1]
        return name.startswith("_") and not any(name in c.base_names for m in self.prog.modules.values() for c in m.classes.values())

    def class_by_key(self, key: str) -> Class | None:
        short, name = key.split(":")
        m = self.prog.by_short.get(short)
        return m.classes.get(name) if m else None

    # ------------------------------------------------------------ functions
    def exec_function(self, fn: Func, vals: dict, st: State, parent: int | None, caller: int | None = None) -> Iterator[tuple[State, tuple]]:
        fid = st.new_id()
        stack = (st.frames[caller]["$stack"] if caller is not None and caller in st.frames else ()) + (fn.key,)
        frame = {"$parent": parent, "$mod": fn.module, "$fn": fn, "$nonlocal": set(), "$stack": stack}
        frame.update(vals)
        st.frames[fid] = frame
        for n in walk_own(fn.node):
            if isinstance(n, ast.Nonlocal):
                frame["$nonlocal"] = frame["$nonlocal"] | set(n.names)
        if isinstance(fn.node, ast.Lambda):
            for s, v in self.ev(fn.node.body, st, fid):
                yield s, (("raise", v.exc) if isinstance(v, Raise) else ("ret", v))
            return
        for s, oc in self.block(fn.node.body, st, fid):
            if oc == NORMAL:
                oc = ("ret", NONE)
            self.paths += 1
            if self.paths > self.cfg.max_paths:
                raise TooManyPaths(fn.key)
            yield s, oc

    # ------------------------------------------------------------ statements
    def block(self, stmts, st: State, fid: int) -> Iterator[tuple[State, tuple]]:
        if not stmts:
            yield st, NORMAL
            return
        head, rest = stmts[0], stmts[1:]
        for s, oc in self.stmt(head, st, fid):
            if oc == NORMAL:
                yield from self.block(rest, s, fid)
            else:
                yield s, oc

    def where(self, node, st, fid):
        f = st.frames[fid]
        return dict(line=getattr(node, "lineno", 0), mod=f["$mod"].rel, fn=f["$fn"].key)

    def stmt(self, n, st: State, fid: int) -> Iterator[tuple[State, tuple]]:
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise TooManyPaths("steps")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            yield st, NORMAL
            return
        yield from m(n, st, fid)

    def s_Expr(self, n, st, fid):
        if isinstance(n.value, ast.YieldFrom) and isinstance(n.value.value, ast.GeneratorExp):
            # `yield from (f(x) for x in xs if p(x))` is the loop that yields
            loop = n.__dict__.get("_as_loop")
            if loop is None:
                body = ast.Expr(ast.Yield(n.value.value.elt))
                for g in reversed(n.value.value.generators):
                    for c in reversed(g.ifs):
                        body = ast.If(c, [body], [])
                    body = (ast.AsyncFor if g.is_async else ast.For)(g.target, g.iter, [body], [])
                loop = n.__dict__["_as_loop"] = body
                for x in ast.walk(loop):
                    if "lineno" not in x.__dict__ and not isinstance(x, (ast.expr_context, ast.operator)):
                        ast.copy_location(x, n)
            yield from self.s_For(loop, st, fid)
            return
        for s, v in self.ev(n.value, st, fid):
            if self.checks is not None and not isinstance(v, Raise) and v[0] == "call" and isinstance(n.value, ast.Call) and self.checks(v, self, s):
                s.emit(Ev("check", last_name(v[1]), v, **self.where(n, s, fid)))
            yield s, (("raise", v.exc) if isinstance(v, Raise) else NORMAL)

    def s_Pass(self, n, st, fid):
        yield st, NORMAL

    def s_Return(self, n, st, fid):
        if n.value is None:
            yield st, ("ret", NONE)
            return
        for s, v in self.ev(n.value, st, fid):
            yield s, (("raise", v.exc) if isinstance(v, Raise) else ("ret", v))

    def s_Assign(self, n, st, fid):
        for s, v in self.ev(n.value, st, fid):
            if isinstance(v, Raise):
                yield s, ("raise", v.exc)
                continue
            yield from self.assign_all(n.targets, v, s, fid)

    def s_AnnAssign(self, n, st, fid):
        if n.value is None:
            yield st, NORMAL
            return
        for s, v in self.ev(n.value, st, fid):
            if isinstance(v, Raise):
                yield s, ("raise", v.exc)
                continue
            yield from self.assign_all([n.target], v, s, fid)

    def s_AugAssign(self, n, st, fid):
        load = ast.copy_location(_as_load(n.target), n)
        for s, cur in self.ev(load, st, fid):
            if isinstance(cur, Raise):
                yield s, ("raise", cur.exc)
                continue
            for s2, v in self.ev(n.value, s, fid):
                if isinstance(v, Raise):
                    yield s2, ("raise", v.exc)
                    continue
                if cur[0] == "ref" and isinstance(n.op, (ast.Add, ast.BitOr)):
                    self.extend_ref(cur, v, s2)
                    yield s2, NORMAL
                    continue
                yield from self.assign_all([n.target], self.binop(n.op, cur, v, s2), s2, fid)

    def assign_all(self, targets, v, st, fid):
        if not targets:
            yield st, NORMAL
            return
        for s, oc in self.assign(targets[0], v, st, fid):
            if oc != NORMAL:
                yield s, oc
            else:
                yield from self.assign_all(targets[1:], v, s, fid)

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, fid)
            yield st, NORMAL
        elif isinstance(t, (ast.Tuple, ast.List)):
            yield from self.unpack(t.elts, v, st, fid, 0)
        elif isinstance(t, ast.Attribute):
            for s, b in self.ev(t.value, st, fid):
                if isinstance(b, Raise):
                    yield s, ("raise", b.exc)
                    continue
                self.store_attr(b, t.attr, v, s, t, fid)
                yield s, NORMAL
        elif isinstance(t, ast.Subscript):
            for s, vs in self.ev_seq([t.value, t.slice], st, fid):
                if isinstance(vs, Raise):
                    yield s, ("raise", vs.exc)
                    continue
                b, i = vs
                self.store_item(b, i, v, s, t, fid)
                yield s, NORMAL
        elif isinstance(t, ast.Starred):
            yield from self.assign(t.value, v, st, fid)
        else:
            yield st, NORMAL

    def unpack(self, elts, v, st, fid, k):
        if v[0] in GEN and not any(isinstance(e, ast.Starred) for e in elts):
            for s, xs in self.force_gen(v, st):
                if isinstance(xs, Raise):
                    yield s, ("raise", xs.exc)
                else:
                    yield from self.unpack(elts, ("tup", tuple(xs)), s, fid, k)
            return
        items = None
        if v[0] == "tup":
            items = list(v[1])
        elif v[0] == "ref" and st.heap[v[1]][0] in ("lst", "tup"):
            items = list(st.heap[v[1]][1])
        elif is_const(v) and isinstance(cval(v), (tuple, list)):
            items = [C(x) for x in cval(v)]
        if items is not None and len(items) == len(elts) and not any(isinstance(e, ast.Starred) for e in elts):
            vals = items
        else:
            vals = []
            star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(elts):
                if star is not None and i == star:
                    vals.append(("i", self.vbase(v, st), norm_slice(C(i), C(-(len(elts) - 1 - i) or None), NONE)))
                elif star is not None and i > star:
                    vals.append(self.item(v, C(i - len(elts)), st))
                else:
                    vals.append(self.item(v, C(i), st))

        def go(i, s):
            if i == len(elts):
                yield s, NORMAL
                return
            for s2, oc in self.assign(elts[i], vals[i], s, fid):
                if oc != NORMAL:
                    yield s2, oc
                else:
                    yield from go(i + 1, s2)

        yield from go(0, st)

    def set_name(self, name, v, st, fid):
        f = st.frames[fid]
        if name in f["$nonlocal"]:
            p = f["$parent"]
            while p is not None:
                if name in st.frames[p]:
                    st.frames[p][name] = v
                    return
                p = st.frames[p]["$parent"]
        f[name] = v

    def store_attr(self, b, name, v, st, node, fid):
        if b[0] == "node" and isinstance(name, str):
            kind, (cls, fields) = st.heap[b[1]]
            st.heap[b[1]] = (kind, (cls, tuple(sorted([(k, x) for k, x in fields if k != name] + [(name, v)], key=lambda kv: kv[0]))))
            return
        if b[0] in ALIASED:
            for k in [k for k in st.attrs if len(k) == 2 and k[1] == name and k[0] != b and k[0][0] in ALIASED]:
                del st.attrs[k]
        if v[0] in ("cmp", "not", "isinst") and (kb := self.known_truth(v, st)) is not None:
            v = C(kb)
        held = isinstance(name, str) and b[0] not in ("new", "obj") and (v in (TRUE, FALSE, NONE) or v[0] == "a") and self.attr(b, name, st)
        if held and (held == v or st.eq.get(held) == v or v in (TRUE, FALSE) and self.is_bool(held, st) and self.known_truth(held, st) is cval(v)):
            return
        st.attrs[(b, name)] = v
        if b[0] == "obj":
            return
        if b[0] != "new":
            st.aver[name] = st.aver.get(name, 0) + 1
        st.emit(Ev("store", name if isinstance(name, str) else None, ("a", b, name), value=st.deref(v), **self.where(node, st, fid)))

    def store_item(self, b, i, v, st, node, fid):
        if b[0] == "ref":
            kind, items = st.heap[b[1]]
            if kind == "dct":
                if not is_const(i) and not any(k == i for k, _ in items):
                    i = next((k for k, _ in items if k[0] != "starstar" and self.known_cmp("==", i, k, st)), i)
                items = tuple((k, x) for k, x in items if k != i) if not any(k == i for k, _ in items) else tuple((k, (v if k == i else x)) for k, x in items)
                if not any(k == i for k, _ in items):
                    items = items + ((i, v),)
                st.heap[b[1]] = (kind, items)
                return
            if kind == "lst" and is_const(i) and isinstance(cval(i), int) and -len(items) <= cval(i) < len(items):
                l = list(items)
                l[cval(i)] = v
                st.heap[b[1]] = (kind, tuple(l))
                return
            if kind == "lst" and i[0] == "slice" and i[1] in (NONE, C(0)) and i[3] in (NONE, C(1)) and i[2] in (NONE, C(0)):
                d = st.deref(v)
                if d[0] == "op" and d[1] == "+" and all(x[0] in ("tup", "lst") for x in (d[2], d[3])):
                    d = ("lst", tuple(d[2][1]) + tuple(d[3][1]))
                new = tuple(d[1]) if d[0] in ("tup", "lst") else (("star", d),)
                st.heap[b[1]] = (kind, new + (items if i[2] == C(0) else ()))
                return
        st.attrs[("i", b, i)] = v
        self.bump(b, st)
        st.over[("in", i, self.vbase(b, st))] = True
        st.emit(Ev("store", None, ("i", b, i), value=st.deref(v), **self.where(node, st, fid)))

    @staticmethod
    def bump(b, st):
        """The container in an attribute changed."""
        while b[0] in ("i", "el"):
            b = b[1]
        if b[0] == "a" and isinstance(b[2], str):
            st.aver[b[2]] = st.aver.get(b[2], 0) + 1

    def remove_item(self, b, i, st, w, default=None):
        """`del b[i]` and `b.pop(i[, default])`: a removal where the key is present, nothing where it is not."""
        for s, h in list(self.cmp_branch("in", i, b, st)):
            if not h:
                yield s, (default if default is not None else Raise(("new", "builtins:KeyError", (("key", i),), 0)))
                continue
            v = self.item(b, i, s)
            s.emit(Ev("mut", "pop", b, (s.deref(i),), (), **w))
            self.bump(b, s)
            s.attrs.pop(("i", b, i), None)
            s.over[("in", i, self.vbase(b, s))] = False
            yield s, v

    def s_Delete(self, n, st, fid):
        def go(ts, s):
            if not ts:
                yield s, NORMAL
                return
            t = ts[0]
            if isinstance(t, ast.Subscript):
                for s2, vs in self.ev_seq([t.value, t.slice], s, fid):
                    if isinstance(vs, Raise):
                        yield s2, ("raise", vs.exc)
                        continue
                    b, i = vs
                    if b[0] != "ref" and i[0] != "slice" and not self._ctxvar(b):
                        for s3, v in list(self.remove_item(b, i, s2, self.where(t, s2, fid))):
                            if isinstance(v, Raise):
                                yield s3, ("raise", v.exc)
                            else:
                                yield from go(ts[1:], s3)
                        continue
                    if b[0] == "ref":
                        kind, items = s2.heap[b[1]]
                        if kind == "dct":
                            s2.heap[b[1]] = (kind, without(items, i))
                    s2.over[("in", i, self.vbase(b, s2))] = False
                    s2.attrs.pop(("i", b, i), None)
                    self.bump(b, s2)
                    s2.emit(Ev("del", None, ("i", b, i), **self.where(t, s2, fid)))
                    yield from go(ts[1:], s2)
            elif isinstance(t, ast.Attribute):
                for s2, b in self.ev(t.value, s, fid):
                    if isinstance(b, Raise):
                        yield s2, ("raise", b.exc)
                        continue
                    s2.emit(Ev("del", t.attr, ("a", b, t.attr), **self.where(t, s2, fid)))
                    s2.attrs.pop((b, t.attr), None)
                    yield from go(ts[1:], s2)
            else:
                yield from go(ts[1:], s)

        yield from go(list(n.targets), st)

    def s_If(self, n, st, fid):
        for s, b in self.branch(n.test, st, fid):
            if isinstance(b, Raise):
                yield s, ("raise", b.exc)
            else:
                yield from self.block(n.body if b else n.orelse, s, fid)

    def s_Assert(self, n, st, fid):
        for s, b in self.branch(n.test, st, fid):
            if isinstance(b, Raise):
                yield s, ("raise", b.exc)
            elif b:
                yield s, NORMAL

    def s_Raise(self, n, st, fid):
        if n.exc is None:
            exc = st.excstack[-1] if st.excstack else ("exc", C("reraise"))
            st.emit(Ev("raise", None, exc, **self.where(n, st, fid)))
            yield st, ("raise", exc)
            return
        for s, v in self.ev(n.exc, st, fid):
            if isinstance(v, Raise):
                yield s, ("raise", v.exc)
                continue
            if v[0] in ("g", "b", "x"):
                v = ("new", self.exc_key(v), (), 0)
            s.emit(Ev("raise", exc_class_name(v), v, **self.where(n, s, fid)))
            yield s, ("raise", v)

    def exc_key(self, v):
        return v[1] if v[0] == "g" else f"builtins:{v[1]}"

    def s_FunctionDef(self, n, st, fid):
        f = st.frames[fid]
        parent: Func = f["$fn"]
        fn = Func(parent.module, n.name, f"{parent.qual}.<locals>.{n.name}", n, None)
        key = f"{parent.module.short}:{fn.qual}:{n.lineno}"
        self.fns[key] = (fn,)
        decos = [d for d in n.decorator_list]
        names, exprs = self.default_exprs(n.args)
        if not decos and not exprs:
            f[n.name] = ("fn", key, fid)
            yield st, NORMAL
            return
        for s, vs in self.ev_seq(decos + exprs, st, fid):
            if isinstance(vs, Raise):
                yield s, ("raise", vs.exc)
                continue
            k = len(decos)
            s.frames[fid][n.name] = ("fn", key, fid, tuple(s.deref(v) for v in vs[:k]), tuple(zip(names, vs[k:])))
            yield s, NORMAL

    @staticmethod
    def default_exprs(a):
        """Parameters of a local function whose default is not a literal, evaluated where the function is made."""
        pos = [p.arg for p in a.posonlyargs + a.args]
        ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        ds = [(n, d) for n, d in ds if not isinstance(d, ast.Constant)]
        return [n for n, _ in ds], [d for _, d in ds]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fid):
        st.frames[fid][n.name] = ("localclass", n.name, n.lineno)
        yield st, NORMAL

    def s_While(self, n, st, fid, k=0):
        over = k >= self.cfg.while_unroll
        branches = self.branch(n.test, st, fid)
        if over and self.seeded and k < self.cfg.while_unroll + 8:
            branches = list(branches)
            over = len(branches) > 1 or isinstance(n.test, ast.Constant)
        for s, b in branches:
            if isinstance(b, Raise):
                yield s, ("raise", b.exc)
            elif not b:
                yield from self.block(n.orelse, s, fid)
            else:
                if over:
                    self.cut = self.while_cut = True
                    continue
                for s2, oc in self.block(n.body, s, fid):
                    if oc == BREAK:
                        yield s2, NORMAL
                    elif oc in (NORMAL, CONT):
                        yield from self.s_While(n, s2, fid, k + 1)
                    else:
                        yield s2, oc

    # iteration: yields (state, element list) -------------------------------------------------
    def iter_split1(self, it, st):
        """iter_split for an operand of enumerate, zip, reversed, sorted: items never hold unexpanded iterables."""
        base, mk, items = self.iter_split(it, st)
        if items is not None and any(isinstance(x, tuple) and x and x[0] == "star" for x in items):
            if len(items) == 1:
                return self.iter_split1(items[0][1], st)
            d = st.deref(it)
            return d, (lambda k: ("el", d, k)), None
        return base, mk, items

    def iter_split(self, it, st):
        """(base used for emptiness facts, element constructor, known item list or None)"""
        if it[0] == "ref":
            kind, items = st.heap[it[1]]
            if kind == "dct":
                items = spread(items, "keys")
            return None, None, list(items)
        if it[0] in ("tup", "lst", "set"):
            return None, None, list(it[1])
        if it[0] == "dct":
            return None, None, spread(it[1], "keys")
        if is_const(it) and isinstance(cval(it), (tuple, list, frozenset, set, str)):
            return None, None, [C(x) for x in cval(it)]
        if it[0] == "rev":
            base, mk, items = self.iter_split1(it[1], st)
            if items is not None:
                return None, None, items[::-1]
            return base, (lambda k, mk=mk: ("el", it, k)), None
        if it[0] == "call" and it[1][0] == "b" and it[2]:
            nm = it[1][1]
            if nm in ("list", "tuple", "iter", "set", "frozenset"):
                return self.iter_split(it[2][0], st)
            if nm == "sorted":
                base, mk, items = self.iter_split1(it[2][0], st)
                if items is not None and len(items) <= 1:
                    return None, None, items
                return (base or it), (lambda k: ("el", it, k)), None
            if nm == "enumerate":
                base, mk, items = self.iter_split1(it[2][0], st)
                start = it[2][1] if len(it[2]) > 1 else dict(it[3]).get("start", C(0))
                off = cval(start) if is_const(start) else 0
                if items is not None:
                    return None, None, [("tup", (C(i + off), x)) for i, x in enumerate(items)]
                return base, (lambda k: ("tup", (C(k + off), mk(k)))), None
            if nm == "zip":
                parts = [self.iter_split1(x, st) for x in it[2]]
                if all(p[2] is not None for p in parts):
                    return None, None, [("tup", tuple(z)) for z in zip(*[p[2] for p in parts])]
                base = next(p[0] for p in parts if p[2] is None)

                def mkz(k, parts=parts):
                    out = []
                    for p in parts:
                        if p[2] is not None:
                            out.append(p[2][k] if k < len(p[2]) else NONE)
                        else:
                            out.append(p[1](k))
                    return ("tup", tuple(out))

                return base, mkz, None
            if nm == "range" and all(is_const(a) for a in it[2]):
                return None, None, [C(x) for x in range(*[cval(a) for a in it[2]])]
            if nm == "range" and len(it[2]) == 1:
                return it, (lambda k: C(k)), None
            if nm == "map" and len(it[2]) == 2:
                pass
        if it[0] == "call" and it[1][0] == "a" and it[1][2] in ("items", "keys", "values") and not it[2]:
            base = it[1][1]
            if base[0] == "dct" or base[0] == "ref" and st.heap[base[1]][0] == "dct":
                items = base[1] if base[0] == "dct" else st.heap[base[1]][1]
                return None, None, spread(items, it[1][2])
            w = it[1][2]
            if w == "items":
                return base, (lambda k: ("tup", (("el", base, k), ("el", ("valuesof", base), k)))), None
            return base, (lambda k: ("el", (base if w == "keys" else ("valuesof", base)), k)), None
        if it[0] in GEN:
            return None, None, None
        if (tail := self.tail_of(it, st)) is not None:
            return it, (lambda k: ("el", tail[0], tail[1] + k)), None
        if (head := self.head_of(it, st)) is not None:
            _, mk, _ = self.iter_split(head[0], st)
            if mk is not None:
                return it, mk, None
        return it, (lambda k: ("el", it, k)), None

    def tail_of(self, t, st):
        """(x, n) when t is x[n:] of a tuple: its elements are those of x from n on."""
        if t[0] == "i" and t[2][0] == "slice" and t[2][2:] == (NONE, NONE) and is_const(t[2][1]) and type(cval(t[2][1])) is int and cval(t[2][1]) >= 0 and self.is_tuple(t[1], st):
            x, n = self.tail_of(t[1], st) or (t[1], 0)
            return x, n + cval(t[2][1])
        return None

    def head_of(self, t, st):
        """(x, n) when t is x[:-n] of a sequence: its elements are those of x but the last n."""
        if t[0] == "i" and t[2][0] == "slice" and t[2][1] in (NONE, C(0)) and t[2][3] == NONE and is_const(t[2][2]) and type(cval(t[2][2])) is int and cval(t[2][2]) < 0 and not st.muts.get(t[1]):
            return t[1], -cval(t[2][2])
        return None

    def has_key(self, base, k, st):
        if (head := self.head_of(base, st)) is not None:
            return self.has_key(head[0], k + head[1], st)
        if (tail := self.tail_of(base, st)) is not None:
            base, k = tail[0], tail[1] + k
        m = st.muts.get(base, 0)
        return ("t", self.vbase(base, st), k + m)

    def for_items(self, it, st, fid, node):
        """Generator protocol: yields (state, k, element or None when exhausted)."""
        raise NotImplementedError

    def s_For(self, n, st, fid):
        for s, it in self.ev(n.iter, st, fid):
            if isinstance(it, Raise):
                yield s, ("raise", it.exc)
                continue
            if isinstance(n, ast.AsyncFor):
                s.emit(Ev("await", "async_for", it, **self.where(n, s, fid)))
            if it[0] in GEN:
                for s2, items in self.force_gen(it, s):
                    if isinstance(items, Raise):
                        yield s2, ("raise", items.exc)
                    else:
                        yield from self.for_known(n, items, s2, fid)
                continue
            base, mk, items = self.iter_split(it, s)
            if items is not None:
                if any(isinstance(x, tuple) and x and x[0] == "star" for x in items):
                    yield from self.for_mixed(n, items, s, fid)
                else:
                    yield from self.for_known(n, items, s, fid)
            else:
                yield from self.for_unknown(n, base, mk, 0, s, fid)

    s_AsyncFor = s_For

    def for_mixed(self, n, items, st, fid):
        if not items:
            yield from self.block(n.orelse, st, fid)
            return
        x = items[0]
        if x[0] == "star":
            base, mk, sub = self.iter_split(x[1], st)
            if sub is not None:
                yield from self.for_mixed(n, list(sub) + items[1:], st, fid)
                return
            for s, cnt in self.count_items(base, st):
                yield from self.for_mixed(n, [mk(k) for k in range(cnt)] + items[1:], s, fid)
            return
        for s, oc in self.for_one(n, x, st, fid):
            if oc == BREAK:
                yield s, NORMAL
            elif oc in (NORMAL, CONT):
                yield from self.for_mixed(n, items[1:], s, fid)
            else:
                yield s, oc

    def for_one(self, n, elem, st, fid):
        for s, oc in self.assign(n.target, elem, st, fid):
            if oc != NORMAL:
                yield s, oc
            else:
                yield from self.block(n.body, s, fid)

    def for_known(self, n, items, st, fid):
        if not items:
            yield from self.block(n.orelse, st, fid)
            return
        for s, oc in self.for_one(n, items[0], st, fid):
            if oc == BREAK:
                yield s, NORMAL
            elif oc in (NORMAL, CONT):
                yield from self.for_known(n, items[1:], s, fid)
            else:
                yield s, oc

    def for_unknown(self, n, base, mk, k, st, fid):
        if k > self.cfg.unroll + 8:
            self.cut = True
            return
        for s, b in self.atom_branch(self.has_key(base, k, st), st, limit=k >= self.cfg.unroll):
            if not b:
                yield from self.block(n.orelse, s, fid)
                continue
            for s2, oc in self.for_one(n, mk(k), s, fid):
                if oc == BREAK:
                    yield s2, NORMAL
                elif oc in (NORMAL, CONT):
                    yield from self.for_unknown(n, base, mk, k + 1, s2, fid)
                else:
                    yield s2, oc

    def count_items(self, base, st, k=0):
        for s, b in self.atom_branch(self.has_key(base, k, st), st, limit=k >= self.cfg.unroll):
            if not b:
                yield s, k
            else:
                yield from self.count_items(base, s, k + 1)

    def elements(self, it, st):
        """All (state, known element list) expansions of an iterable."""
        if it[0] in GEN:
            yield from self.force_gen(it, st)
            return
        base, mk, items = self.iter_split(it, st)
        if items is not None:
            yield from self.flatten_stars(items, st)
            return
        for s, n in self.count_items(base, st):
            yield s, [mk(k) for k in range(n)]

    def flatten_stars(self, items, st):
        for i, x in enumerate(items):
            if isinstance(x, tuple) and x and x[0] == "star":
                for s, sub in self.elements(x[1], st):
                    yield from self.flatten_stars(items[:i] + list(sub) + items[i + 1:], s)
                return
        yield st, items

    def s_Break(self, n, st, fid):
        yield st, BREAK

    def s_Continue(self, n, st, fid):
        yield st, CONT

    # try -------------------------------------------------------------
    def s_Try(self, n, st, fid):
        def with_finally(gen):
            for s, oc in gen:
                if not n.finalbody:
                    yield s, oc
                    continue
                for s2, oc2 in self.block(n.finalbody, s, fid):
                    yield s2, (oc if oc2 == NORMAL else oc2)

        def inner():
            self.try_handlers.append(n)
            try:
                body = list(self.block(n.body, st, fid))
            finally:
                self.try_handlers.pop()
            for s, oc in body:
                if oc[0] == "raise":
                    self.try_handlers.append(None if not n.finalbody else _FINALLY)
                    try:
                        hres = list(self.handle(n.handlers, 0, oc[1], s, fid))
                    finally:
                        self.try_handlers.pop()
                    yield from hres
                elif oc == NORMAL and n.orelse:
                    yield from self.block(n.orelse, s, fid)
                else:
                    yield s, oc

        yield from with_finally(inner())

    def handle(self, handlers, i, exc, st, fid):
        if i >= len(handlers):
            yield st, ("raise", exc)
            return
        h = handlers[i]
        for s, m in self.exc_matches(exc, h.type, st, fid):
            if not m:
                yield from self.handle(handlers, i + 1, exc, s, fid)
                continue
            if h.name:
                self.set_name(h.name, exc, s, fid)
            s.excstack = s.excstack + (exc,)
            s.emit(Ev("caught", None, exc, line=h.lineno, mod=s.frames[fid]["$mod"].rel, fn=s.frames[fid]["$fn"].key))
            for s2, oc in self.block(h.body, s, fid):
                s2.excstack = s2.excstack[:-1]
                yield s2, oc

    def handler_names(self, t, st, fid):
        if t is None:
            return ["BaseException"]
        if isinstance(t, ast.Tuple):
            out = []
            for e in t.elts:
                out += self.handler_names(e, st, fid)
            return out
        if isinstance(t, ast.Attribute):
            return [t.attr]
        if isinstance(t, ast.Name):
            v = st.frames[fid]["$mod"].consts.get(t.id)
            if isinstance(v, ast.Tuple):
                return self.handler_names(v, st, fid)
            return [t.id]
        return ["?"]

    def exc_matches(self, exc, htype, st, fid):
        names = self.handler_names(htype, st, fid)
        known = exc_class_name(exc) if exc[0] in ("new", "call") else None
        if known is not None and exc[0] == "call" and not self.looks_exc(known):
            known = None
        if known is not None:
            yield st, any(self.exc_subclass(known, nm) for nm in names)
            return
        # unknown exception: kind facts
        cur = st.exck.get(exc, frozenset())
        pos = {x for x in cur if not x.startswith("!")}
        neg = {x[1:] for x in cur if x.startswith("!")}
        for nm in names:
            if nm == "BaseException" or any(self.exc_subclass(p, nm) for p in pos):
                yield st, True
                return
        cands = [nm for nm in names if not any(self.exc_subclass(nm, q) for q in neg)]
        if not cands:
            yield st, False
            return
        for nm in cands:
            s = st.fork()
            s.exck[exc] = cur | {nm}
            yield s, True
        s = st.fork()
        s.exck[exc] = cur | {"!" + nm for nm in cands}
        yield s, False

    def looks_exc(self, name):
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return True
        return name.endswith("Error") or name.endswith("Exception")

    def exc_subclass(self, a: str, b: str) -> bool:
        if a == b or b == "BaseException":
            return True
        ta, tb = getattr(builtins, a, None), getattr(builtins, b, None)
        if isinstance(ta, type) and isinstance(tb, type):
            return issubclass(ta, tb)
        if a == "CancelledError":
            return False
        for c in self.prog.classes_by_name.get(a, []):
            if self.prog.is_subclass(c, b):
                return True
        return False

    # with ------------------------------------------------------------
    def s_With(self, n, st, fid):
        yield from self.with_items(n, list(n.items), st, fid)

    s_AsyncWith = s_With

    def with_items(self, n, items, st, fid):
        if not items:
            yield from self.block(n.body, st, fid)
            return
        it = items[0]
        is_async = isinstance(n, ast.AsyncWith)

        def body(s, val):
            """run optional_vars assignment + rest"""
            if it.optional_vars is not None:
                for s2, oc in self.assign(it.optional_vars, val, s, fid):
                    if oc != NORMAL:
                        yield s2, oc
                    else:
                        yield from self.with_items(n, items[1:], s2, fid)
            else:
                yield from self.with_items(n, items[1:], s, fid)

        # repo @contextmanager inlining
        call = it.context_expr
        if isinstance(call, ast.IfExp):
            for s, b in self.branch(call.test, st, fid):
                if isinstance(b, Raise):
                    yield s, ("raise", b.exc)
                    continue
                one = ast.copy_location(type(n)(items=[ast.withitem(context_expr=call.body if b else call.orelse, optional_vars=it.optional_vars)] + list(items[1:]), body=n.body), n)
                yield from self.with_items(one, one.items, s, fid)
            return
        if isinstance(call, ast.Call) and self.cfg.inline_cm:
            handled = False
            for s, f in self.ev(call.func, st.fork(), fid):
                if isinstance(f, Raise):
                    continue
                fn, bound = self.resolve_fn(f, s)
                if fn is not None and "contextmanager" in fn.decorators and fn.key not in s.frames[fid]["$stack"]:
                    handled = True
            if handled:
                for s, (f, args, kws) in self.ev_call_parts(call, st, fid):
                    if isinstance(args, Raise):
                        yield s, ("raise", args.exc)
                        continue
                    fn, bound = self.resolve_fn(f, s)
                    vals = self.bind(fn, bound, args, kws, s, f)
                    parent = self.fn_parent(f, s)
                    yield from self.inline_cm(fn, vals, parent, body, s, fid)
                return
        for s, cm in self.ev(call, st, fid):
            if isinstance(cm, Raise):
                yield s, ("raise", cm.exc)
                continue
            w = self.where(n, s, fid)
            if cm[0] == "call" and cm[1] == ("x", "contextlib.nullcontext"):
                yield from body(s, cm[2][0] if cm[2] else dict(cm[3]).get("enter_result", NONE))
                continue
            if cm[0] == "call" and last_name(cm[1]) == "suppress":
                names = [last_name(a) for a in cm[2]]
                hs = [ast.ExceptHandler(type=ast.Tuple(elts=[ast.Name(id=nm) for nm in names]), name=None, body=[ast.Pass()])]
                for h in hs:
                    h.lineno = n.lineno
                fake = ast.Try(body=n.body, handlers=hs, orelse=[], finalbody=[])
                self.try_handlers.append(fake)
                try:
                    outs = list(body(s, NONE))
                finally:
                    self.try_handlers.pop()
                for s2, oc in outs:
                    if oc[0] == "raise":
                        yield from self.handle(hs, 0, oc[1], s2, fid)
                    else:
                        yield s2, oc
                continue
            for s1, r in self.maybe_raise("enter", cm, s, n, fid, Ev("enter", last_name(cm), s.deref(cm), value=C(is_async), **w)):
                if r is not None:
                    yield s1, ("raise", r)
                    continue
                s1.ver += 1
                val = ("entered", cm)
                self.try_handlers.append(_FINALLY)
                try:
                    outs = list(body(s1, val))
                finally:
                    self.try_handlers.pop()
                for s2, oc in outs:
                    s2.ver += 1
                    for s3, r3 in self.maybe_raise("exit", cm, s2, n, fid, Ev("exit", last_name(cm), s2.deref(cm), args=(C(is_async),), value=NONE if not is_async and self.is_lock(cm) else (C(oc[0]) if oc[0] != "raise" else oc[1]), **w)):
                        yield s3, (("raise", r3) if r3 is not None else oc)

    def maybe_raise(self, name, term, st, node, fid, ev):
        """Emit ev; optionally fork an exceptional continuation."""
        if self.cfg.rel:
            key = (name, strip(st.deref(term)))
            cnt = st.calls.get(("n",) + key, 0)
            st.calls[("n",) + key] = cnt + 1
            st.emit(ev)
            st.ver += 1
            if not self.try_handlers:
                yield st, None
                return
            for s, b in self.atom_branch(("raises", key, cnt), st):
                yield s, (("exc", (name, key[1], cnt)) if b else None)
            return
        can = self.cfg.raises is not None and self.cfg.raises(name, term)
        if can:
            s = st.fork()
            s.emit(ev)
            exc = ("exc", (name, strip(term), s.calls.get(("n", name, term), 0)))
            yield s, exc
        st.emit(ev)
        yield st, None

    def inline_cm(self, fn, vals, parent, body, st, fid):
        self.inlined.add(fn.key)
        token = ("cm", st.new_id())

        def hook(s, val):
            for s2, oc in body(s, val):
                if oc == NORMAL:
                    yield s2, NONE
                elif oc[0] == "raise":
                    yield s2, Raise(oc[1])
                else:
                    s2.pend = dict(s2.pend)
                    s2.pend[token] = oc
                    yield s2, NONE

        self.cm_hooks.append((fn.key, hook))
        try:
            outs = list(self.exec_function(fn, vals, st, parent, fid))
        finally:
            self.cm_hooks.pop()
        for s, oc in outs:
            if oc[0] == "raise":
                yield s, oc
            else:
                yield s, s.pend.get(token, NORMAL)

    def e_Yield(self, n, st, fid):
        key = st.frames[fid]["$fn"].key
        val_iter = [(st, NONE)] if n.value is None else self.ev(n.value, st, fid)
        for s, v in val_iter:
            if isinstance(v, Raise):
                yield s, v
                continue
            hook = next((h for k, h in reversed(self.cm_hooks) if k == key), None)
            if hook is None:
                s.emit(Ev("yield", None, s.deref(v), **self.where(n, s, fid)))
                s.ver += 1
                k = s.calls.get(("yield",), 0)
                s.calls[("yield",)] = k + 1
                if self.cfg.rel and self.try_handlers:
                    for s2, b in self.atom_branch(("raises", ("yield",), k), s):
                        yield s2, (Raise(("exc", ("yield", k, 0))) if b else ("sent", k))
                    continue
                yield s, ("sent", k)
            else:
                saved_hooks = self.cm_hooks[:]
                # inside the body the hook of this cm is no longer the innermost generator
                self.cm_hooks = [h for h in self.cm_hooks if h[0] != key]
                try:
                    outs = list(hook(s, v))
                finally:
                    self.cm_hooks = saved_hooks
                yield from outs

    # match -----------------------------------------------------------
    def s_Match(self, n, st, fid):
        for s, v in self.ev(n.subject, st, fid):
            if isinstance(v, Raise):
                yield s, ("raise", v.exc)
            else:
                yield from self.match_cases(n.cases, v, s, fid)

    def match_cases(self, cases, v, st, fid):
        if not cases:
            yield st, NORMAL
            return
        c = cases[0]
        for s, b in self.pattern(c.pattern, v, st, fid):
            if not b:
                yield from self.match_cases(cases[1:], v, s, fid)
                continue
            if c.guard is not None:
                for s2, g in self.branch(c.guard, s, fid):
                    if isinstance(g, Raise):
                        yield s2, ("raise", g.exc)
                    elif g:
                        yield from self.block(c.body, s2, fid)
                    else:
                        yield from self.match_cases(cases[1:], v, s2, fid)
            else:
                yield from self.block(c.body, s, fid)

    def pattern(self, p, v, st, fid):
        if isinstance(p, ast.MatchValue):
            for s, c in self.ev(p.value, st, fid):
                yield from self.cmp_branch("==", v, c, s)
        elif isinstance(p, ast.MatchSingleton):
            yield from self.cmp_branch("is", v, C(p.value), st)
        elif isinstance(p, ast.MatchOr):
            def go(ps, s):
                if not ps:
                    yield s, False
                    return
                for s2, b in self.pattern(ps[0], v, s, fid):
                    if b:
                        yield s2, True
                    else:
                        yield from go(ps[1:], s2)
            yield from go(list(p.patterns), st)
        elif isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.set_name(p.name, v, st, fid)
                yield st, True
            else:
                for s, b in self.pattern(p.pattern, v, st, fid):
                    if b and p.name:
                        self.set_name(p.name, v, s, fid)
                    yield s, b
        elif isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            for s, c in self.ev(p.cls, st, fid):
                yield from self.truth(("isinst", v, c), s)
        elif isinstance(p, ast.MatchClass) and len(p.patterns) <= 1:
            for s, c in self.ev(p.cls, st, fid):
                if p.patterns and not (c[0] == "b" and c[1] in ("str", "int", "float", "bool", "bytes", "dict", "list", "tuple", "set", "frozenset")):
                    yield from self.atom_branch(("match", ast.dump(p), v), s)
                    continue
                for s2, b in self.truth(("isinst", v, c), s):
                    if not b:
                        yield s2, False
                        continue
                    subs = [(x, lambda ss: v) for x in p.patterns]
                    subs += [(x, lambda ss, nm=nm: self.attr(v, nm, ss)) for nm, x in zip(p.kwd_attrs, p.kwd_patterns)]
                    yield from self.pattern_all(subs, s2, fid)
        elif isinstance(p, ast.MatchSequence):
            yield from self.seq_pattern(p, v, st, fid)
        else:
            yield from self.atom_branch(("match", ast.dump(p), v), st)

    def pattern_all(self, subs, st, fid):
        if not subs:
            yield st, True
            return
        p, val = subs[0]
        for s, b in self.pattern(p, val(st), st, fid):
            if b:
                yield from self.pattern_all(subs[1:], s, fid)
            else:
                yield s, False

    def seq_pattern(self, p, v, st, fid):
        n = len(p.patterns)
        star = next((i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)), None)
        if v[0] == "tup":
            items = list(v[1])
        elif v[0] == "ref" and st.heap[v[1]][0] in ("lst", "tup"):
            items = list(st.heap[v[1]][1])
            if any(isinstance(x, tuple) and x and x[0] == "star" for x in items):
                for s, its in self.flatten_stars(items, st):
                    yield from self.seq_pattern(p, ("tup", tuple(its)), s, fid)
                return
        elif v[0] in ("ref", "c", "new", "fn", "dict", "set"):
            yield st, False
            return
        else:
            items = None
        need = n - (star is not None)
        if items is not None:
            if len(items) < need or star is None and len(items) != n:
                yield st, False
                return
            subs = []
            for i, x in enumerate(p.patterns):
                if star is None or i < star:
                    subs.append((x, lambda s, i=i: items[i]))
                elif i == star:
                    def mid(s, i=i):
                        return self.new_ref("lst", items[i:len(items) - (n - 1 - i)], s)
                    subs.append((ast.MatchAs(name=x.name), mid))
                else:
                    subs.append((x, lambda s, i=i: items[i - n]))
            yield from self.pattern_all(subs, st, fid)
            return
        seq = [(st, True)] if self.is_sequence(v, st) else self.atom_branch(("isseq", v), st)
        for s, b in seq:
            if not b:
                yield s, False
                continue
            if star is None:
                cond = self.cmp_branch("==", ("call", ("b", "len"), (s.deref(v),), (), 0), C(n), s)
            elif need:
                cond = self.cmp_branch(">=", ("call", ("b", "len"), (s.deref(v),), (), 0), C(need), s)
            else:
                cond = [(s, True)]
            for s2, b2 in cond:
                if not b2:
                    yield s2, False
                    continue
                subs = []
                for i, x in enumerate(p.patterns):
                    if star is None or i < star:
                        subs.append((x, lambda ss, i=i: self.item(v, C(i), ss)))
                    elif i == star:
                        subs.append((ast.MatchAs(name=x.name), lambda ss, i=i: ("i", self.vbase(v, ss), norm_slice(C(i), C(-(n - 1 - i) or None), NONE))))
                    else:
                        subs.append((x, lambda ss, i=i: self.item(v, C(i - n), ss)))
                yield from self.pattern_all(subs, s2, fid)

    def never_none(self, d, st) -> bool:
        """d is declared dict[K, V] with V a class of the repository."""
        ann = self.annotation_of(d, st)
        if not (isinstance(ann, ast.Subscript) and getattr(ann.value, "id", None) == "dict" and isinstance(ann.slice, ast.Tuple) and len(ann.slice.elts) == 2):
            return False
        v = ann.slice.elts[1]
        if isinstance(v, ast.Constant) and isinstance(v.value, str):
            return v.value.isidentifier() and v.value not in ("Any", "object", "None")
        if isinstance(v, ast.Subscript):
            v = v.value
            return isinstance(v, ast.Name) and v.id in ("list", "dict", "set", "tuple", "type")
        return isinstance(v, ast.Name) and (v.id in ("bool", "int", "str", "float", "bytes") or any(v.id in m.classes for m in self.prog.modules.values()))

    def only_none_is_false(self, t, st) -> bool | None:
        """Declared an instance of a repository class without __bool__ and __len__ (True: or None)."""
        ann = self.annotation_of(t, st)
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str) and ann.value.isidentifier():
            ann = ast.Name(ann.value)
        optional = False
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            sides = [ann.left, ann.right]
            rest = [x for x in sides if not (isinstance(x, ast.Constant) and x.value is None)]
            if len(rest) != 1 or len(sides) == len(rest):
                return None
            ann, optional = rest[0], True
        if not isinstance(ann, ast.Name) or not self.always_true(ann.id):
            return None
        return optional

    def always_true(self, name: str) -> bool:
        cached = self.__dict__.setdefault("_always_true", {})
        if name not in cached:
            cached[name] = False
            found = [c for m in (self.type_source or self).prog.modules.values() for c in m.classes.values() if c.name == name]
            cached[name] = len(found) == 1 and not {"__bool__", "__len__"} & set(found[0].methods) and all(b in ("object", "Generic", "Protocol") or self.always_true(b) for b in found[0].base_names)
        return cached[name]

    def is_sequence(self, t, st):
        if self.is_tuple(t, st):
            return True
        if t[0] == "call" and t[1] in (("b", "list"), ("b", "sorted")):
            return True
        ann = self.annotation_of(t, st)
        if isinstance(ann, ast.Subscript):
            ann = ann.value
        return getattr(ann, "id", None) in ("list", "tuple", "Sequence")

    # ------------------------------------------------------------ conditions
    def branch(self, e, st, fid):
        if self.rng is None:
            return self._branch(e, st, fid)
        out = list(self._branch(e, st, fid))
        self.rng.shuffle(out)
        return iter(out)

    def _branch(self, e, st, fid):
        """yields (state, bool | Raise)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            for s, b in self.branch(e.operand, st, fid):
                yield s, (b if isinstance(b, Raise) else (not b))
            return
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)

            def go(vs, s):
                for s2, b in self.branch(vs[0], s, fid):
                    if isinstance(b, Raise) or len(vs) == 1 or b != is_and:
                        yield s2, b
                    else:
                        yield from go(vs[1:], s2)

            yield from go(e.values, st)
            return
        for s, v in self.ev(e, st, fid):
            if isinstance(v, Raise):
                yield s, v
            else:
                yield from self.truth(v, s)

    def vbase(self, b, st):
        """A shared container is re-read after every suspension / lock event."""
        if b[0] == "a" and isinstance(b[2], str) and self.cfg.volatile(b[2]):
            return ("a", b[1], b[2], st.ver) if st.ver else ("a", b[1], b[2])
        return b

    def atom_branch(self, atom, st, limit=False):
        if self.rng is None:
            return self._atom_branch(atom, st, limit)
        out = list(self._atom_branch(atom, st, limit))
        self.rng.shuffle(out)
        return iter(out)

    def _atom_branch(self, atom, st, limit=False):
        v = st.over.get(atom)
        if v is None:
            v = st.atoms.get(atom)
        if v is not None:
            yield st, v
            return
        if atom[0] == "t" and len(atom) == 3:
            base, k = atom[1], atom[2]
            if (n := self.range_stop(base)) is not None:
                known = self.known_cmp(">", n, C(k), st)
                if known is not None:
                    yield st, known
                elif limit:
                    self.cut = True
                    for s, b in self.cmp_branch(">", n, C(k), st):
                        if not b:
                            yield s, b
                else:
                    yield from self.cmp_branch(">", n, C(k), st)
                return
            # monotone: element k exists => all before exist
            if any(st.atoms.get(("t", base, j)) is False for j in range(k)):
                yield st, False
                return
            if any(a[0] == "t" and len(a) == 3 and a[1] == base and a[2] > k and v for a, v in st.atoms.items()):
                yield st, True
                return
            if k <= 1 and self.annotated_args(base, st):
                yield st, True
                return
            if k == 0:
                kt = self.known_truth(base, st)
                if kt is not None:
                    yield st, kt
                    return
        if not limit:
            s = st.fork()
            s.atoms[atom] = True
            yield s, True
        else:
            self.cut = True
        s = st.fork()
        s.atoms[atom] = False
        yield s, False

    @staticmethod
    def range_stop(base):
        return base[2][0] if base[0] == "call" and base[1] == ("b", "range") and len(base[2]) == 1 else None

    def known_truth(self, v, st) -> bool | None:
        outs = set()
        for s, b in self.truth(v, st.fork()):
            outs.add(b)
            if len(outs) > 1:
                return None
        return outs.pop() if outs else None

    def known_cmp(self, op, a, b, st) -> bool | None:
        outs = set()
        for s, r in self.cmp_branch(op, a, b, st.fork()):
            outs.add(r)
            if len(outs) > 1:
                return None
        return outs.pop() if outs else None

    def truth(self, v, st):
        k = v[0]
        if k == "c":
            yield st, bool(cval(v))
            return
        if k == "not":
            for s, b in self.truth(v[1], st):
                yield s, not b
            return
        if k == "cmp":
            yield from self.cmp_branch(v[1], v[2], v[3], st)
            return
        if k in ("and", "or"):
            def go(vs, s):
                for s2, b in self.truth(vs[0], s):
                    if len(vs) == 1 or b != (k == "and"):
                        yield s2, b
                    else:
                        yield from go(vs[1:], s2)
            yield from go(list(v[1]), st)
            return
        if k == "ref":
            items = st.heap[v[1]][1]
            if st.heap[v[1]][0] == "dct" and items and all(x[0] == "starstar" for x, _ in items):
                def some(rest, s):
                    if not rest:
                        yield s, False
                        return
                    for s2, b in self.truth(rest[0][0][1], s):
                        if b:
                            yield s2, True
                        else:
                            yield from some(rest[1:], s2)
                yield from some(items, st)
                return
            if any(isinstance(x, tuple) and x and x[0] == "star" for x in items):
                if any(not (isinstance(x, tuple) and x and x[0] == "star") for x in items):
                    yield st, True
                    return
                for s, its in self.flatten_stars(list(items), st):
                    yield s, bool(its)
                return
            yield st, bool(items)
            return
        if k in ("tup", "lst", "set"):
            yield st, bool(v[1])
            return
        if k in ("new", "fn", "g", "bm", "localclass", "coro", "gen", "exc", "node"):
            if k == "g" and self.global_is_valueish(v):
                pass
            else:
                yield st, True
                return
        if k == "isinst":
            yield from self.isinst(v, st)
            return
        if k == "call" and v[1] == ("b", "bool") and len(v[2]) == 1:
            yield from self.truth(v[2][0], st)
            return
        if k == "call" and v[1] == ("b", "len") and len(v[2]) == 1:
            yield from self.truth(v[2][0], st)
            return
        if k == "call" and v[1][0] == "b" and v[1][1] in ("list", "tuple", "set", "dict", "frozenset") and len(v[2]) == 1:
            yield from self.truth(v[2][0], st)
            return
        if k == "call" and v[1][0] == "b" and v[1][1] in ("list", "tuple", "set", "dict") and not v[2]:
            yield st, False
            return
        if v in st.eq:
            c = st.eq[v]
            if is_const(c):
                yield st, bool(cval(c))
                return
            yield st, True
            return
        if k == "f" and any(isinstance(x, str) and x for x in v[1]):
            yield st, True
            return
        if self.range_stop(v) is not None:
            yield from self.atom_branch(("t", v, 0), st)
            return
        if k in ("a", "i", "el", "call", "p") and (opt := self.only_none_is_false(v, st)) is not None:
            if not opt:
                yield st, True
                return
            for s, b in self.cmp_branch("is", v, NONE, st):
                yield s, not b
            return
        if k == "i" and self.tail_of(v, st) is not None:
            yield from self.atom_branch(self.has_key(v, 0, st), st)
            return
        if k == "call" and self.annotated_args(v, st):
            yield st, True
            return
        atom = ("t", v, st.muts.get(v, 0))
        if atom not in st.atoms and NONE in (st.eq.get(v),):
            yield st, False
            return
        for s, b in self.atom_branch(atom, st) if atom in st.atoms else self._fork_truth(atom, v, st):
            yield s, b

    def _fork_truth(self, atom, v, st):
        base, kk = atom[1], atom[2]
        if kk and any(st.atoms.get(("t", base, j)) is False for j in range(kk)):
            yield st, False
            return
        if any(a[0] == "t" and len(a) == 3 and a[1] == base and a[2] > kk and v for a, v in st.atoms.items()):
            yield st, True
            return
        if kk <= self.cfg.unroll or not kk:
            s = st.fork()
            s.atoms[atom] = True
            ne = s.ne.get(v, frozenset())
            s.ne[v] = ne | {NONE, FALSE}
            yield s, True
        s = st.fork()
        s.atoms[atom] = False
        s.ne[v] = s.ne.get(v, frozenset()) | {TRUE}
        yield s, False

    def global_is_valueish(self, v):
        return False

    def isinst(self, v, st):
        x, cls = v[1], v[2]
        if cls[0] == "tup" or (cls[0] == "ref"):
            items = cls[1] if cls[0] == "tup" else st.heap[cls[1]][1]

            def go(i, s):
                if i == len(items):
                    yield s, False
                    return
                for s2, b in self.isinst(("isinst", x, items[i]), s):
                    if b:
                        yield s2, True
                    else:
                        yield from go(i + 1, s2)

            yield from go(0, st)
            return
        if cls[0] == "op" and cls[1] == "|":
            yield from self.isinst(("isinst", x, ("tup", (cls[2], cls[3]))), st)
            return
        nm = last_name(cls)
        if x[0] == "node" and nm:
            a, b = getattr(ast, st.heap[x[1]][1][0][4:]), getattr(ast, nm, None)
            yield st, isinstance(b, type) and issubclass(a, b)
            return
        if x[0] == "new" and nm:
            xn = x[1].split(":")[-1]
            yield st, self.exc_subclass(xn, nm) or xn == nm
            return
        if x[0] == "c":
            t = getattr(builtins, nm or "", None)
            if isinstance(t, type):
                yield st, isinstance(cval(x), t)
                return
            if cval(x) is None:
                yield st, False
                return
        if x[0] in ("tup", "f") and nm in ("tuple", "str", "list", "dict", "set"):
            yield st, (x[0], nm) in (("tup", "tuple"), ("f", "str"))
            return
        if st.eq.get(x) == NONE:
            yield st, False
            return
        if x[0] == "exc":
            cur = st.exck.get(x, frozenset())
            pos = {p for p in cur if not p.startswith("!")}
            neg = {p[1:] for p in cur if p.startswith("!")}
            if any(self.exc_subclass(p, nm) for p in pos):
                yield st, True
                return
            if any(self.exc_subclass(nm, q) for q in neg):
                yield st, False
                return
            s = st.fork()
            s.exck[x] = cur | {nm}
            yield s, True
            s = st.fork()
            s.exck[x] = cur | {"!" + nm}
            yield s, False
            return
        d = self.isinst_known(x, cls, nm, st)
        if d is not None:
            yield st, d
            return
        for s, b in self.atom_branch(("isinst", x, cls), st):
            if b:
                s.ne[x] = s.ne.get(x, frozenset()) | {NONE}
            yield s, b

    def isinst_known(self, x, cls, nm, st):
        """Consequences of earlier isinstance facts (subclass / disjoint classes)."""
        if nm is None:
            return None
        for a, v in st.atoms.items():
            if a[0] == "isinst" and a[1] == x:
                o = last_name(a[2])
                if o is None or a[2] == cls:
                    continue
                if v and self.exc_subclass(o, nm):
                    return True
                if v and self.disjoint(o, nm):
                    return False
                if not v and self.exc_subclass(nm, o):
                    return False
        return None

    BASIC = ("int", "str", "list", "tuple", "dict", "set", "frozenset", "type", "bytes", "float")

    def disjoint(self, a, b):
        if a in self.BASIC and b in self.BASIC:
            return True
        ca, cb = self.prog.classes_by_name.get(a, []), self.prog.classes_by_name.get(b, [])
        if len(ca) == 1 and len(cb) == 1 and not (self.prog.is_subclass(ca[0], b) or self.prog.is_subclass(cb[0], a)):
            if "Protocol" in ca[0].base_names or "Protocol" in cb[0].base_names:
                return False
            return True
        return False

    def annotated_args(self, t, st):
        """The arguments of an Annotated form: there are two at least."""
        return t[0] == "call" and t[1] == ("x", "typing.get_args") and len(t[2]) == 1 and self.known_cmp("is", ("call", ("x", "typing.get_origin"), t[2], (), 0), ANNOTATED, st) is True

    def const_like(self, t):
        """Terms denoting a value that is known to differ from every other const-like value."""
        if t[0] == "c":
            return True
        if t[0] == "g":
            return True
        if t[0] == "b":
            return True
        if t[0] == "x":
            return True
        if t[0] == "a" and t[1][0] in ("g", "x") and isinstance(t[2], str) and (t[2].isupper() or t[2][:1].isupper() or t[2] == "empty"):
            return True
        return False

    def cmp_branch(self, op, a, b, st):
        neg = {"is not": "is", "!=": "==", "not in": "in", ">=": "<", "<=": ">"}
        if op in neg:
            for s, r in self.cmp_branch(neg[op], a, b, st):
                yield s, not r
            return
        if op in ("==", "<", ">") and (a[0] == "op" or b[0] == "op"):
            # t + n < m is t < m - n
            for x, y, flip in ((a, b, False), (b, a, True)):
                if x[0] == "op" and is_const(y) and type(cval(y)) is int and (o := self.offset(x))[1]:
                    x, y = o[0], C(cval(y) - o[1])
                    yield from self.cmp_branch(op, *((y, x) if flip else (x, y)), st)
                    return
        if op in ("is", "=="):
            if a == b:
                yield st, True
                return
            if is_const(a) and is_const(b):
                yield st, (cval(a) == cval(b) and (op == "==" or type(cval(a)) is type(cval(b))))
                return
            if all(x[0] == "call" and x[1] == ("b", "id") and len(x[2]) == 1 for x in (a, b)):
                yield from self.cmp_branch("is", a[2][0], b[2][0], st)
                return
            # len(x) == n
            for x, y in ((a, b), (b, a)):
                if self.is_len(x) and is_const(y) and type(cval(y)) is int:
                    yield from self.len_eq(x[2][0], cval(y), st)
                    return
            # identity of type(x)
            ca, cb = self.const_like(a), self.const_like(b)
            if ca and cb:
                yield st, False
                return
            if ca or cb:
                t, c = (b, a) if ca else (a, b)
                if c == ANNOTATED and t[0] == "call" and t[1] == ("x", "typing.get_origin") and len(t[2]) == 1:
                    x = t[2][0]
                    if x == ("x", "inspect.Signature.empty") or is_const(x) or st.eq.get(x) in (NONE, ("a", ("x", "inspect.Signature"), "empty"), ("x", "inspect.Signature.empty")) or st.atoms.get(("isinst", x, ("b", "str"))) is True:
                        yield st, False
                        return
                if t == P("self") and c == NONE:
                    yield st, False
                    return
                if t[0] in ("new", "fn", "ref", "tup", "f", "lst", "bm", "coro", "entered", "gen", "localclass"):
                    if c == NONE or c[0] in ("g", "b", "x", "a") or op == "is":
                        yield st, False
                        return
                if c in (TRUE, FALSE) and t[0] in ("cmp", "not", "isinst", "and", "or"):
                    for s, r in self.truth(t, st):
                        yield s, r == cval(c)
                    return
                if t in st.eq:
                    yield st, st.eq[t] == c
                    return
                if c in st.ne.get(t, ()):
                    yield st, False
                    return
                if c == NONE and st.atoms.get(("t", t, 0)) is True:
                    yield st, False
                    return
                if c == NONE and t[0] == "i" and self.never_none(t[1], st):
                    yield st, False
                    return
                if is_const(c) and (t, c) in st.order:
                    o = st.order[(t, c)]
                    if o == frozenset("="):
                        yield st, True
                        return
                    if "=" not in o:
                        yield st, False
                        return
                if t[0] == "exc" or (t[0] == "isinst"):
                    if c == NONE:
                        yield st, False
                        return
                # int constants: keep consistent with order facts on other ints
                s = st.fork()
                s.eq[t] = c
                at = s.atoms.get(("t", t, 0))
                if at is None or not is_const(c) or bool(cval(c)) == at:
                    if self.order_ok_eq(s, t, c):
                        yield s, True
                s = st.fork()
                s.ne[t] = s.ne.get(t, frozenset()) | {c}
                yield s, False
                return
            # equal through known constants
            if a in st.eq and b in st.eq:
                yield st, st.eq[a] == st.eq[b]
                return
            if a in st.eq and st.eq[a] in st.ne.get(b, ()):
                yield st, False
                return
            if b in st.eq and st.eq[b] in st.ne.get(a, ()):
                yield st, False
                return
            fresh = ("new", "fn")
            if (a[0] == "new" and b[0] in ("p", "a", "new", "fn", "call", "el", "i", "ref")) or (b[0] == "new" and a[0] in ("p", "a", "fn", "call", "el", "i", "ref")):
                if op == "is":
                    yield st, False
                    return
            pa, pb = sorted((a, b), key=repr)
            if op == "is":
                atom = ("is", pa, pb)
                v = st.atoms.get(atom)
                if v is not None:
                    yield st, v
                    return
                o = st.order.get((pa, pb))
                if o is not None and "=" not in o:
                    yield st, False
                    return
                s = st.fork()
                s.atoms[atom] = True
                s.order[(pa, pb)] = frozenset("=")
                yield s, True
                s = st.fork()
                s.atoms[atom] = False
                yield s, False
                return
            yield from self.order_branch(pa, pb, frozenset("="), st)
            return
        if op in ("<", ">"):
            if is_const(a) and is_const(b):
                try:
                    yield st, (cval(a) < cval(b) if op == "<" else cval(a) > cval(b))
                    return
                except TypeError:
                    pass
            if a == b:
                yield st, False
                return
            # len(x) > n, len(x) < n
            for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<"}[op])):
                if self.is_len(x) and is_const(y) and type(cval(y)) is int:
                    for s, r in self.len_ge(x[2][0], cval(y) + 1 if o == ">" else cval(y), st):
                        yield s, (r if o == ">" else not r)
                    return
            for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<"}[op])):
                if x in st.eq and is_const(st.eq[x]) and is_const(y):
                    try:
                        l, r = cval(st.eq[x]), cval(y)
                        yield st, (l < r if o == "<" else l > r)
                        return
                    except TypeError:
                        pass
            # a + n vs a
            d = self.int_diff(a, b)
            if d is not None:
                yield st, (d < 0 if op == "<" else d > 0)
                return
            if repr(a) <= repr(b) and not is_const(a):
                yield from self.order_branch(a, b, frozenset(op), st)
            elif is_const(b):
                yield from self.order_branch(a, b, frozenset(op), st)
            else:
                yield from self.order_branch(b, a, frozenset({"<": ">", ">": "<"}[op]), st)
            return
        if op == "in":
            items = None
            if b[0] == "ref":
                kind, its = st.heap[b[1]]
                items = [k for k, _ in its][::-1] if kind == "dct" else list(its)
            elif b[0] in ("tup", "set", "lst"):
                items = list(b[1])
            elif b[0] == "dct":
                items = [k for k, _ in b[1]][::-1]
            elif b[0] == "call" and b[1][0] == "b" and b[1][1] in ("set", "frozenset", "tuple", "list") and len(b[2]) == 1:
                yield from self.cmp_branch("in", a, b[2][0], st)
                return
            elif is_const(b) and isinstance(cval(b), (tuple, frozenset, set, list)):
                items = [C(x) for x in cval(b)]
            elif is_const(b) and isinstance(cval(b), str) and is_const(a):
                yield st, cval(a) in cval(b)
                return
            elif b[0] == "call" and b[1][0] == "a" and b[1][2] == "keys":
                yield from self.cmp_branch("in", a, b[1][1], st)
                return
            elif b[0] == "without":
                for s, same in self.cmp_branch("==", a, b[2], st):
                    if same:
                        yield s, False
                    else:
                        yield from self.cmp_branch("in", a, b[1], s)
                return
            if items is not None and any(isinstance(x, tuple) and x and x[0] in ("star", "starstar") for x in items):
                rest = [x[1] for x in items if x[0] in ("star", "starstar")]
                plain = [x for x in items if x[0] not in ("star", "starstar")]
            elif items is not None:
                rest, plain = [], items
            else:
                rest, plain = [b], []

            def go(i, s):
                if i < len(plain):
                    for s2, r in self.cmp_branch("==", a, plain[i], s):
                        if r:
                            yield s2, True
                        else:
                            yield from go(i + 1, s2)
                    return
                j = i - len(plain)
                if j >= len(rest):
                    yield s, False
                    return
                if rest[j][0] == "without":
                    for s2, r in self.cmp_branch("in", a, rest[j], s):
                        if r:
                            yield s2, True
                        else:
                            yield from go(i + 1, s2)
                    return
                vb = self.vbase(rest[j], s)
                for s2, r in self.atom_branch(("in", a, vb), s):
                    if r:
                        if ("in", a, vb) not in s2.over:
                            s2.atoms.setdefault(("t", vb, 0), True)
                        yield s2, True
                    else:
                        yield from go(i + 1, s2)

            yield from go(0, st)
            return
        yield from self.atom_branch(("cmp", op, a, b), st)

    def is_len(self, x):
        return x[0] == "call" and x[1] == ("b", "len") and len(x[2]) == 1

    def len_ge(self, x, n, st):
        """len(x) >= n"""
        if n <= 0:
            yield st, True
            return
        if n == 1:
            yield from self.truth(x, st)
            return
        for s, b in self.truth(x, st):
            if not b:
                yield s, False
            else:
                at, below = self.has_key(x, n - 1, s), self.has_key(x, n - 2, s)
                # an iteration that asks "is this the last one?" must not go on for ever
                yield from self.atom_branch(at, s, limit=n - 1 > self.cfg.unroll and s.atoms.get(below) is True)

    def len_eq(self, x, n, st):
        if n < 0:
            yield st, False
            return
        for s, b in self.len_ge(x, n, st):
            if not b:
                yield s, False
                continue
            for s2, b2 in self.len_ge(x, n + 1, s):
                yield s2, not b2

    def int_diff(self, a, b):
        def norm(t):
            off = 0
            while t[0] == "op" and t[1] in ("+", "-") and is_const(t[3]) and isinstance(cval(t[3]), int):
                off += cval(t[3]) if t[1] == "+" else -cval(t[3])
                t = t[2]
            return t, off
        (ta, oa), (tb, ob) = norm(a), norm(b)
        if ta == tb and (oa or ob):
            return oa - ob
        return None

    def order_ok_eq(self, st, t, c):
        if not (is_const(c) and isinstance(cval(c), (int, float))):
            return True
        for (x, y), o in st.order.items():
            if x == t and is_const(y) and isinstance(cval(y), (int, float)):
                v = cval(c)
                rel = "<" if v < cval(y) else ">" if v > cval(y) else "="
                if rel not in o:
                    return False
        return True

    def order_branch(self, a, b, rel, st):
        full = frozenset("<=>")
        if (a, b) not in st.order and (b, a) in st.order:
            a, b = b, a
            rel = frozenset({"<": ">", ">": "<", "=": "="}[r] for r in rel)
        if not is_const(b) and (a, b) not in st.order and repr(a) > repr(b):
            a, b = b, a
            rel = frozenset({"<": ">", ">": "<", "=": "="}[r] for r in rel)
        cur = st.order.get((a, b), full)
        if st.atoms.get(("is", *sorted((a, b), key=repr))) is True:
            cur = cur & frozenset("=")
        if is_const(b) and b in st.ne.get(a, ()):
            cur = cur - {"="}
        if is_const(b) and type(cval(b)) is int:
            for (x, y), o in st.order.items():
                if x == a and y != b and is_const(y) and type(cval(y)) is int:
                    if cval(y) > cval(b) and "<" not in o:
                        cur = cur & frozenset(">")
                    elif cval(y) < cval(b) and ">" not in o:
                        cur = cur & frozenset("<")
        t, f = cur & rel, cur - rel
        if t:
            s = st.fork() if f else st
            s.order[(a, b)] = t
            yield s, True
        if f:
            s = st.fork() if t else st
            s.order[(a, b)] = f
            yield s, False

    # ------------------------------------------------------------ expressions
    def ev(self, e, st: State, fid: int) -> Iterator[tuple[State, Any]]:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            yield st, ("expr", type(e).__name__, ast.dump(e))
            return
        yield from m(e, st, fid)

    def ev_seq(self, es, st, fid):
        """yields (state, [values] | Raise)"""
        def go(i, s, acc):
            if i == len(es):
                yield s, acc
                return
            for s2, v in self.ev(es[i], s, fid):
                if isinstance(v, Raise):
                    yield s2, v
                else:
                    yield from go(i + 1, s2, acc + [v])

        yield from go(0, st, [])

    def e_Constant(self, n, st, fid):
        yield st, C(n.value)

    def e_Name(self, n, st, fid):
        v = self.lookup(n.id, st, fid)
        if self.cfg.rel and v == ("x", n.id) and n.id[:2] != "__" and isinstance(n.ctx, ast.Load):
            m = st.frames[fid]["$mod"]
            if n.id not in m.imports and m.short != "generated":
                yield st, Raise(("new", "builtins:NameError", (), 0))
                return
        yield st, self.fresh_alias(v, st)

    def fresh_alias(self, v, st):
        """A local name of a container that lives in an attribute sees the container's current contents."""
        if v[0] == "a" and isinstance(v[2], str) and self.cfg.stable(v[2]):
            return self.attr(self.fresh_alias(v[1], st), v[2], st)
        return v

    def lookup(self, name, st, fid):
        p = fid
        while p is not None:
            f = st.frames[p]
            if name in f:
                return f[name]
            p = f["$parent"]
        return self.module_name(st.frames[fid]["$mod"], name)

    def module_name(self, m: Module, name: str, seen=()):
        if name in m.funcs or name in m.classes:
            return ("g", f"{m.short}:{name}")
        if name in m.consts:
            v = m.consts[name]
            if isinstance(v, ast.Name) and v.id != name and (name, m.name) not in seen:
                r = self.module_name(m, v.id, seen + ((name, m.name),))
                return r
            lit = self.literal(v, m, seen)
            return lit if lit is not None else ("g", f"{m.short}:{name}")
        if name in m.imports:
            mod, attr = m.imports[name]
            tgt = self.prog.modules.get(mod)
            if tgt is not None and attr is not None and (mod, attr) not in seen:
                if attr in tgt.funcs or attr in tgt.classes or attr in tgt.consts or attr in tgt.imports:
                    return self.module_name(tgt, attr, seen + ((mod, attr),))
            return ("x", f"{mod}.{attr}" if attr else mod)
        if hasattr(builtins, name):
            return ("b", name)
        return ("x", name)

    def literal(self, v, m, seen=()):
        if isinstance(v, ast.Constant):
            return C(v.value)
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
            return C(-v.operand.value)
        if isinstance(v, (ast.Tuple, ast.Set, ast.List)):
            items = []
            for e in v.elts:
                if isinstance(e, ast.Name):
                    items.append(self.module_name(m, e.id, seen))
                    continue
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                    items.append(("a", self.module_name(m, e.value.id, seen), e.attr))
                    continue
                x = self.literal(e, m, seen)
                if x is None:
                    return None
                items.append(x)
            if isinstance(v, ast.List):
                return None
            return ("tup" if isinstance(v, ast.Tuple) else "set", tuple(items))
        if isinstance(v, ast.Dict):
            out = []
            for a, b in zip(v.keys, v.values):
                if a is None:
                    return None
                x, y = self.const_term(a, m, seen), self.const_term(b, m, seen)
                if x is None or y is None:
                    return None
                out.append((x, y))
            return ("dct", tuple(out))
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("frozenset", "tuple", "set") and len(v.args) == 1:
            return self.literal(v.args[0], m, seen)
        return None

    def const_term(self, e, m, seen=()):
        if isinstance(e, ast.Name):
            return self.module_name(m, e.id, seen)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = self.module_name(m, e.value.id, seen)
            return ("x", f"{b[1]}.{e.attr}") if b[0] == "x" else ("a", b, e.attr)
        return self.literal(e, m, seen)

    def e_NamedExpr(self, n, st, fid):
        for s, v in self.ev(n.value, st, fid):
            if not isinstance(v, Raise):
                self.set_name(n.target.id, v, s, fid)
            yield s, v

    def e_Attribute(self, n, st, fid):
        for s, b in self.ev(n.value, st, fid):
            if isinstance(b, Raise):
                yield s, b
                continue
            if self.cfg.rel and (b == NONE or s.eq.get(b) == NONE) and not hasattr(None, n.attr):
                yield s, Raise(("new", "builtins:AttributeError", (), 0))
                continue
            if self.cfg.rel and b[0] in ("el", "i", "call") and b not in s.eq and not hasattr(None, n.attr):
                s.ne[b] = s.ne.get(b, frozenset()) | {NONE}
            if self._handler_active("AttributeError") and b[0] not in ("g", "x", "b") and not self._has_method(b, n.attr, s):
                for s2, h in self.atom_branch(("hasattr", b, n.attr), s):
                    if h:
                        yield s2, self.attr(b, n.attr, s2)
                    else:
                        yield s2, Raise(("new", "builtins:AttributeError", (), 0))
                continue
            pf = self.inline_property(b, n.attr, s, fid)
            if pf is not None:
                yield from self.inline_call(("bm", pf.cls.key, pf.name, b), (), (), s, n, fid)
                continue
            yield s, self.attr(b, n.attr, s)

    def _has_method(self, b, name, st):
        ck = self.type_of(b, st)
        c = self.class_by_key(ck) if ck else None
        return c is not None and self.prog.find_method(c, name) is not None

    def _handler_active(self, name):
        h = self.try_handlers[-1] if self.try_handlers else None
        if h is None or h is _FINALLY:
            return False
        for x in h.handlers:
            if x.type is not None:
                names = [y.id if isinstance(y, ast.Name) else getattr(y, "attr", "") for y in (x.type.elts if isinstance(x.type, ast.Tuple) else [x.type])]
                if name in names:
                    return True
        return False

    def attr(self, b, name, st):
        if isinstance(name, tuple) and is_const(name) and isinstance(cval(name), str):
            name = cval(name)
        if self.cfg.onattr is not None:
            r = self.cfg.onattr(self, b, name, st)
            if r is not None:
                return r
        if (b, name) in st.attrs:
            return st.attrs[(b, name)]
        if name == "name" and b[0] == "el" and b[1][0] == "valuesof" and b[1][1][0] == "a" and b[1][1][2] == "parameters":
            return ("el", b[1][1], b[2])  # inspect.Signature.parameters maps names to parameters
        if b[0] == "node" and isinstance(name, str):
            for k, v in st.heap[b[1]][1][1]:
                if k == name:
                    return v
        if b[0] == "new" and isinstance(name, str):
            for k, v in b[2]:
                if k == name:
                    return v
            c = self.class_by_key(b[1]) if ":" in b[1] else None
            if c is not None:
                for fn_, ann, default in c.fields:
                    if fn_ == name and default is not None:
                        lit = self.literal(default, c.module)
                        if lit is not None:
                            return lit
            if c is not None and not c.is_dataclass and (pn := self.init_param(c, name)) is not None:
                for k, v in b[2]:
                    if k == pn:
                        return v
        ck = self.type_of(b, st)
        if ck is not None and isinstance(name, str):
            c = self.class_by_key(ck)
            if c is not None:
                f = self.prog.find_method(c, name)
                if f is not None:
                    if "property" in f.decorators or "cached_property" in f.decorators:
                        r = self.simple_property(f, b, st)
                        if r is not None:
                            return r
                    elif "staticmethod" in f.decorators:
                        return ("bm", f.cls.key, name, None)
                    else:
                        return ("bm", f.cls.key, name, b)
                elif f"{c.name}.{name}" in c.module.classes:
                    return ("g", f"{c.key}.{name}")
        if b[0] == "g":
            short, nm = b[1].split(":")
            m = self.prog.by_short.get(short)
            c = m.classes.get(nm) if m else None
            if c is not None and isinstance(name, str):
                f = self.prog.find_method(c, name)
                if f is not None and "staticmethod" in f.decorators:
                    return ("bm", f.cls.key, name, None)
                if f is None and f"{c.name}.{name}" in m.classes:
                    return ("g", f"{c.key}.{name}")
        if b[0] == "x" and isinstance(name, str):
            mod = self.prog.modules.get(b[1])
            if mod is not None:
                return self.module_name(mod, name)
            if b[1] in ("builtins",):
                return ("b", name)
            return ("x", f"{b[1]}.{name}")
        if self.cfg.volatile(name):
            v = st.ver + (1000 * st.aver.get(name, 0) if b[0] in ALIASED else 0)
            if v:
                return ("a", b, name, v)
        return ("a", b, name)

    def init_param(self, c, name):
        """The constructor parameter that __init__ stores, unchanged, in an attribute nothing else assigns."""
        if self.cfg.volatile(name) or "property" in getattr(self.prog.find_method(c, name), "decorators", ()):
            return None
        init = self.prog.find_method(c, "__init__")
        if init is None:
            return None
        params = {a.arg for a in init.node.args.posonlyargs + init.node.args.args + init.node.args.kwonlyargs}
        found = [n.value for n in ast.walk(init.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Attribute) and t.attr == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        if len(found) == 1 and isinstance(found[0], ast.Name) and found[0].id in params and not any(isinstance(n, ast.Name) and n.id == found[0].id and isinstance(n.ctx, ast.Store) for n in ast.walk(init.node)):
            return found[0].id
        return None

    def inline_property(self, b, name, st, fid):
        """A property that is not part of the baseline (or is inlined by policy)."""
        ck = self.type_of(b, st)
        c = self.class_by_key(ck) if ck else None
        f = self.prog.find_method(c, name) if c is not None else None
        if f is None or not ("property" in f.decorators or "cached_property" in f.decorators):
            return None
        if self.simple_property(f, b, st) is not None or (b, name) in st.attrs:
            return None
        return f if self.should_inline(f, st.frames[fid]["$stack"]) else None

    def simple_property(self, f, b, st):
        body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and isinstance(body[0].value.value, ast.Name) and body[0].value.value.id == "self":
            return self.attr(b, body[0].value.attr, st)
        return None

    def type_of(self, t, st):
        if t in self.cfg.types:
            return self.cfg.types[t]
        if t[0] in ("new", "obj") and ":" in t[1] and not t[1].startswith("builtins:"):
            return t[1]
        if t[0] == "a" and isinstance(t[2], str):
            bt = self.type_of(t[1], st)
            if bt:
                c = self.class_by_key(bt)
                if c:
                    return self.attr_type(c, t[2])
        if t[0] in ("entered",):
            return self.type_of(t[1], st)
        return None

    def attr_type(self, c: Class, name: str):
        cache = self.__dict__.setdefault("_attr_types", {})
        k = (c.key, name)
        if k in cache:
            return cache[k]
        cache[k] = None
        r = None
        if self.type_source is not None:
            rc = self.type_source.class_by_key(c.key)
            r = self.type_source.attr_type(rc, name) if rc is not None else None
            if r is not None:
                cache[k] = r
                return r
        for fn_, ann, _ in c.fields:
            if fn_ == name:
                r = self.annotation_class(c.module, ann)
        if r is None:
            init = c.methods.get("__init__")
            if init is not None:
                anns = {a.arg: a.annotation for a in init.node.args.args + init.node.args.kwonlyargs}
                for n in ast.walk(init.node):
                    tgt = val = ann = None
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    elif isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    if isinstance(tgt, ast.Attribute) and tgt.attr == name and isinstance(tgt.value, ast.Name) and tgt.value.id == "self":
                        if ann is not None:
                            r = self.annotation_class(c.module, ann)
                        if r is None and isinstance(val, ast.Call) and isinstance(val.func, ast.Name):
                            cl = self.prog.resolve_class(c.module, val.func.id)
                            r = cl.key if cl else None
                        if r is None and isinstance(val, ast.Name) and val.id in anns:
                            r = self.annotation_class(c.module, anns[val.id])
        cache[k] = r
        return r

    def e_Subscript(self, n, st, fid):
        for s, vs in self.ev_seq([n.value, n.slice], st, fid):
            if isinstance(vs, Raise):
                yield s, vs
                continue
            b, i = vs
            if self.cfg.rel and (b == NONE or s.eq.get(b) == NONE):
                yield s, Raise(("new", "builtins:TypeError", (), 0))
                continue
            known = b[1] if b[0] == "tup" else s.heap[b[1]][1] if b[0] == "ref" and s.heap[b[1]][0] == "lst" else None
            if known is not None and is_const(i) and type(cval(i)) is int and not any(x[0] == "star" for x in known) and not -len(known) <= cval(i) < len(known):
                yield s, Raise(("new", "builtins:IndexError", (), 0))
                continue
            pairs = b[1] if b[0] == "dct" else s.heap[b[1]][1] if b[0] == "ref" and s.heap[b[1]][0] == "dct" else None
            if pairs is not None and pairs and not any(k == i for k, _ in pairs) and not any(k[0] == "starstar" for k, _ in pairs) and len(pairs) <= 12:
                yield from self.dict_pick(pairs, i, s)
                continue
            if (self._handler_active("KeyError") or self.cfg.maybe_missing) and b[0] not in ("tup", "g", "x", "b") and not (i[0] == "slice"):
                if not (is_const(i) and isinstance(cval(i), int)):
                    for s2, h in self.cmp_branch("in", i, b, s):
                        if h:
                            yield s2, self.item(b, i, s2)
                        else:
                            yield s2, Raise(("new", "builtins:KeyError", (("key", i),), 0))
                    continue
            yield s, self.item(b, i, s)

    def dict_pick(self, pairs, i, st):
        if not pairs:
            yield st, Raise(("new", "builtins:KeyError", (("key", i),), 0))
            return
        (k, v), rest = pairs[-1], pairs[:-1]  # the last store of an equal key wins
        for s, r in self.cmp_branch("==", i, k, st):
            if r:
                yield s, v
            else:
                yield from self.dict_pick(rest, i, s)

    def item(self, b, i, st):
        if ("i", b, i) in st.attrs:
            return st.attrs[("i", b, i)]
        if b[0] == "call" and b[1] in (("b", "list"), ("b", "tuple")) and len(b[2]) == 1 and is_const(i):
            return self.item(b[2][0], i, st)
        seq = None
        if b[0] == "tup":
            seq = list(b[1])
        elif b[0] == "ref" and st.heap[b[1]][0] in ("lst", "tup"):
            seq = list(st.heap[b[1]][1])
        elif is_const(b) and isinstance(cval(b), (tuple, str)):
            seq = [C(x) for x in cval(b)]
        if seq is not None and len(seq) == 1 and isinstance(seq[0], tuple) and seq[0] and seq[0][0] == "star":
            x = st.deref(seq[0][1])
            base, mk, items = self.iter_split1(x, st)
            if is_const(i) and type(cval(i)) is int and cval(i) >= 0 and base is not None:
                return mk(cval(i))
            if items is None and base is not None:
                return self.item(x, i, st)
        if seq is not None and not any(isinstance(x, tuple) and x and x[0] == "star" for x in seq):
            if is_const(i) and isinstance(cval(i), int) and -len(seq) <= cval(i) < len(seq):
                return seq[cval(i)]
            if i[0] == "slice" and all(is_const(x) for x in i[1:]):
                sl = seq[slice(*[cval(x) for x in i[1:]])]
                return ("tup", tuple(sl))
        if b[0] == "dct" or b[0] == "ref" and st.heap[b[1]][0] == "dct":
            for k, v in reversed(b[1] if b[0] == "dct" else st.heap[b[1]][1]):
                if k == i:
                    return v
                r = self.known_cmp("==", i, k, st.fork()) if k[0] != "starstar" else None
                if r is True:
                    return v
                if r is None:
                    break
        if i[0] == "slice" and i[1:] == (NONE, NONE, C(-1)):
            return b[1] if b[0] == "rev" else ("rev", b)
        if i[0] == "slice" and i[1:] == (NONE, NONE, NONE):
            return ("call", ("b", "list"), (b,), (), 0)
        if b[0] == "dct" or (b[0] == "ref" and st.heap[b[1]][0] == "dct"):
            c = st.eq.get(i)
            ps = b[1] if b[0] == "dct" else st.heap[b[1]][1]
            for k, v in ps:
                if k == i or (c is not None and c == k):
                    return v
            if sum(k[0] == "starstar" for k, _ in ps) == 1 and all(k[0] == "starstar" or is_const(k) and is_const(i) for k, _ in ps):
                x = next(k[1] for k, _ in ps if k[0] == "starstar")
                while x[0] == "without" and is_const(i) and is_const(x[2]) and i != x[2]:
                    x = x[1]
                return self.item(x, i, st)
            return ("i", st.deref(b), i)
        if is_const(i) and type(cval(i)) is int and b[0] not in ("ref",):
            k = cval(i)
            if b[0] == "rev":
                return ("el", b, k) if k >= 0 else ("el", b[1], -k - 1)
            if k >= 0 and (tail := self.tail_of(b, st)) is not None:
                return ("el", tail[0], tail[1] + k)
            return ("el", b, k) if k >= 0 else ("el", ("rev", b), -k - 1)
        if i[0] == "el" and i[1] == b and b[0] in ("p", "a", "call", "i"):
            return ("el", ("valuesof", b), i[2])  # a mapping indexed by one of its own keys
        return ("i", self.vbase(b, st), i)

    def e_Slice(self, n, st, fid):
        parts = [n.lower, n.upper, n.step]
        es = [p if p is not None else ast.Constant(value=None) for p in parts]
        for s, vs in self.ev_seq(es, st, fid):
            yield s, (vs if isinstance(vs, Raise) else norm_slice(*vs))

    def e_Tuple(self, n, st, fid):
        yield from self._display(n, st, fid, "tup")

    def e_List(self, n, st, fid):
        yield from self._display(n, st, fid, "lst")

    def e_Set(self, n, st, fid):
        yield from self._display(n, st, fid, "set")

    def _display(self, n, st, fid, kind):
        es = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        for s, vs in self.ev_seq(es, st, fid):
            if isinstance(vs, Raise):
                yield s, vs
                continue
            items = []
            for e, v in zip(n.elts, vs):
                if isinstance(e, ast.Starred):
                    items += self.splice(v, s)
                else:
                    items.append(v)
            if kind == "tup":
                yield s, ("tup", tuple(items))
            else:
                yield s, self.new_ref(kind, tuple(items), s)

    def splice(self, v, st):
        if v[0] == "ref" and st.heap[v[1]][0] != "dct":
            return list(st.heap[v[1]][1])
        if v[0] in ("tup", "lst"):
            return list(v[1])
        if v[0] == "call" and v[1][0] == "b" and v[1][1] in ("list", "tuple") and v[2]:
            return self.splice(v[2][0], st)
        return [("star", v)]

    def new_ref(self, kind, items, st):
        i = st.new_id()
        st.heap[i] = (kind, items)
        return ("ref", i)

    def e_Dict(self, n, st, fid):
        es = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                es.append(k)
            es.append(v)
        for s, vs in self.ev_seq(es, st, fid):
            if isinstance(vs, Raise):
                yield s, vs
                continue
            items, it = [], iter(vs)
            for k, v in zip(n.keys, n.values):
                if k is None:
                    d = next(it)
                    if d[0] == "ref" and s.heap[d[1]][0] == "dct":
                        items += list(s.heap[d[1]][1])
                    else:
                        items.append((("starstar", d), NONE))
                else:
                    kk = next(it)
                    vv = next(it)
                    items = [(a, b) for a, b in items if a != kk] + [(kk, vv)]
            yield s, self.new_ref("dct", tuple(items), s)

    def e_JoinedStr(self, n, st, fid):
        es = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        for s, vs in self.ev_seq(es, st, fid):
            if isinstance(vs, Raise):
                yield s, vs
                continue
            parts, it = [], iter(vs)
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    t = next(it)
                    if v.conversion == 114 and is_const(t):
                        parts.append(repr(cval(t)))
                    elif v.format_spec is not None:
                        parts.append(("call", ("b", "format"), (s.deref(t), C(ast.unparse(v.format_spec))), (), 0))
                    elif v.conversion == 114:
                        parts.append(("call", ("b", "repr"), (s.deref(t),), (), 0))
                    else:
                        parts.append(s.deref(t))
                else:
                    parts.append(v.value)
            yield s, self.fstring(parts, s)

    def e_FormattedValue(self, n, st, fid):
        yield from self.ev(n.value, st, fid)

    def e_BinOp(self, n, st, fid):
        for s, vs in self.ev_seq([n.left, n.right], st, fid):
            if isinstance(vs, Raise):
                yield s, vs
            else:
                yield s, self.binop(n.op, vs[0], vs[1], s)

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.BitOr: "|", ast.BitAnd: "&", ast.Mod: "%", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}

    def binop(self, op, a, b, st):
        o = self.OPS.get(type(op), "?")
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                if o == "+":
                    return C(x + y)
                if o == "-":
                    return C(x - y)
                if o == "*" and isinstance(x, int) and isinstance(y, int):
                    return C(x * y)
            except TypeError:
                pass
        if o == "+":
            strs = lambda t: t[0] == "f" or (is_const(t) and isinstance(cval(t), str))  # noqa: E731
            if a == C("") or b == C(""):
                return b if a == C("") else a
            if strs(a) or strs(b):
                return mk_fstr([a, b])
            if a[0] in ("ref", "tup") or b[0] in ("ref", "tup"):
                items = self.splice(a, st) + self.splice(b, st)
                if a[0] == "tup" or b[0] == "tup":
                    return ("tup", tuple(items))
                return self.new_ref("lst", tuple(items), st)
            if is_const(a) and not is_const(b):
                a, b = b, a
        if o == "+" and any(t[0] == "sum" or self.offset(t)[1] for t in (a, b)):
            return self.total([a, b])
        if o in "+-" and is_const(b) and type(cval(b)) is int:
            # one offset: t + n - m
            base, off = self.offset(a)
            off += cval(b) if o == "+" else -cval(b)
            return base if not off else ("op", "+" if off > 0 else "-", base, C(abs(off)))
        if o == "|" and a[0] == "ref" and b[0] == "ref" and st.heap[a[1]][0] == st.heap[b[1]][0]:
            return self.new_ref(st.heap[a[1]][0], st.heap[a[1]][1] + st.heap[b[1]][1], st)
        return ("op", o, a, b)

    @staticmethod
    def addends(t):
        """Operands of a sum of numbers (a term of the form n + c with an integer c, or of sum())."""
        if t[0] == "sum":
            return list(t[1]), t[2]
        if is_const(t) and type(cval(t)) is int:
            return [], cval(t)
        return None

    @staticmethod
    def total(items, n=0):
        """The sum of numbers, operands in a fixed order."""
        flat = []
        for x in items:
            a = Interp.addends(x)
            if a is not None:
                flat += a[0]
                n += a[1]
            else:
                base, off = Interp.offset(x)
                flat.append(base)
                n += off
        if not flat:
            return C(n)
        if len(flat) == 1:
            return flat[0] if not n else ("op", "+" if n > 0 else "-", flat[0], C(abs(n)))
        return ("sum", tuple(sorted(flat, key=repr)), n)

    @staticmethod
    def offset(t):
        """t as (base, integer offset)"""
        if t[0] == "op" and t[1] in ("+", "-") and is_const(t[3]) and type(cval(t[3])) is int:
            return t[2], cval(t[3]) if t[1] == "+" else -cval(t[3])
        return t, 0

    def e_UnaryOp(self, n, st, fid):
        if isinstance(n.op, ast.Not):
            for s, b in self.branch(n.operand, st, fid):
                yield s, (b if isinstance(b, Raise) else C(not b))
            return
        for s, v in self.ev(n.operand, st, fid):
            if isinstance(v, Raise):
                yield s, v
            elif isinstance(n.op, ast.USub) and is_const(v):
                yield s, C(-cval(v))
            else:
                yield s, ("un", type(n.op).__name__, v)

    def e_Compare(self, n, st, fid):
        for s, vs in self.ev_seq([n.left] + n.comparators, st, fid):
            if isinstance(vs, Raise):
                yield s, vs
                continue
            ops = [_OPN[type(o)] for o in n.ops]
            if len(ops) == 1:
                yield s, self.mk_cmp(ops[0], vs[0], vs[1], s)
                continue
            terms = tuple(self.mk_cmp(ops[i], vs[i], vs[i + 1], s) for i in range(len(ops)))
            yield s, ("and", terms)

    def mk_cmp(self, op, a, b, st):
        # `d.get(k) is not None` handled through get forks; keep raw
        if op in ("==", "is") and is_const(a) and not is_const(b):
            a, b = b, a
        return ("cmp", op, a, b)

    def e_BoolOp(self, n, st, fid):
        is_and = isinstance(n.op, ast.And)

        def go(vs, s):
            for s2, v in self.ev(vs[0], s, fid):
                if isinstance(v, Raise) or len(vs) == 1:
                    yield s2, v
                    continue
                for s3, b in self.truth(v, s2):
                    if b != is_and:
                        yield s3, (C(b) if v[0] in ("cmp", "isinst", "not", "and", "or") else v)
                    else:
                        yield from go(vs[1:], s3)

        yield from go(n.values, st)

    def e_IfExp(self, n, st, fid):
        for s, b in self.branch(n.test, st, fid):
            if isinstance(b, Raise):
                yield s, b
            else:
                yield from self.ev(n.body if b else n.orelse, s, fid)

    def e_Lambda(self, n, st, fid):
        f = st.frames[fid]
        parent: Func = f["$fn"]
        fn = Func(parent.module, "<lambda>", f"{parent.qual}.<locals>.<lambda>", n, None)
        key = f"{parent.module.short}:{fn.qual}:{n.lineno}:{n.col_offset}"
        self.fns[key] = (fn,)
        ck = self.canonical_lambda(fn, st, fid)
        if ck is not None:
            self.fns[ck] = (fn,)
            st.pend = {**st.pend, ("lam", ck): fid}
            yield st, ("fn", ck, -1)
            return
        names, exprs = self.default_exprs(n.args)
        if not exprs:
            yield st, ("fn", key, fid)
            return
        for s, vs in self.ev_seq(exprs, st, fid):
            if isinstance(vs, Raise):
                yield s, vs
                continue
            yield s, ("fn", key, fid, (), tuple(zip(names, vs)))

    def canonical_lambda(self, fn, st, fid):
        """A key that depends only on what an effect-free one-path lambda computes."""
        a = fn.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults:
            return None
        s0 = st.fork()
        s0.trace = None
        nf = s0.new_id()
        s0.frames[nf] = {"$parent": fid, "$mod": fn.module, "$fn": fn, "$nonlocal": set(), "$stack": s0.frames[fid]["$stack"]}
        for i, p in enumerate(a.posonlyargs + a.args):
            s0.frames[nf][p.arg] = ("p", f"λ{i}")
        outs = []
        for s, v in self.ev(fn.node.body, s0, nf):
            outs.append((s, v))
            if len(outs) > 1:
                return None
        if not outs or isinstance(outs[0][1], Raise) or outs[0][0].trace is not None:
            return None
        t = sym_cmp(strip(outs[0][0].deref(outs[0][1])))
        if any(x[0] in ("ref", "node", "fn", "gen", "gencall", "localclass", "obj") for x in subterms(t)):
            return None
        return f"lam{len(a.posonlyargs + a.args)}:{show(t)}:{hash_term(t)}"

    def canonical_function(self, f, st, fid):
        """A function passed as a key or mapper, as the lambda it amounts to (if it amounts to one)."""
        if f[0] == "call" and f[1][0] == "x" and f[1][1] in ("operator.attrgetter", "operator.itemgetter") and len(f[2]) == 1 and is_const(f[2][0]):
            x = P("λ0")
            if f[1][1].endswith("attrgetter") and "." not in cval(f[2][0]):
                t = ("a", x, cval(f[2][0]))
            elif f[1][1].endswith("itemgetter"):
                t = ("i", x, f[2][0])
            else:
                return f
            return ("fn", f"lam1:{show(t)}:{hash_term(t)}", -1)
        fn, bound = self.resolve_fn(f, st)
        if fn is None or bound is not None or isinstance(fn.node, ast.Lambda) or fn.is_async or fn.is_generator or fn.decorators or not self.should_inline(fn, st.frames[fid]["$stack"]) or len(f) > 3:
            return f
        a = fn.node.args
        ps = a.posonlyargs + a.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults:
            return f
        s0 = st.fork()
        s0.trace = None
        outs = list(self.exec_function(fn, {p.arg: ("p", f"λ{i}") for i, p in enumerate(ps)}, s0, self.fn_parent(f, st), fid))
        if len(outs) != 1 or outs[0][1][0] != "ret" or outs[0][0].trace is not None:
            return f
        t = sym_cmp(strip(outs[0][0].deref(outs[0][1][1])))
        if any(x[0] in ("ref", "node", "fn", "gen", "gencall", "localclass", "obj") for x in subterms(t)):
            return f
        if f[0] == "g":
            self.inlined.add(fn.key)
        ck = f"lam{len(ps)}:{show(t)}:{hash_term(t)}"
        if ck not in self.fns:
            self.fns[ck] = (fn,)
        st.pend = {**st.pend, ("lam", ck): self.fn_parent(f, st)}
        return ("fn", ck, -1)

    def e_Starred(self, n, st, fid):
        for s, v in self.ev(n.value, st, fid):
            yield s, (v if isinstance(v, Raise) else ("star", v))

    def e_Await(self, n, st, fid):
        for s, v in self.ev(n.value, st, fid):
            if isinstance(v, Raise):
                yield s, v
                continue
            if v[0] == "coro":
                yield from self.inline_call(v[1], v[2], v[3], s, n, fid, awaited=True)
                continue
            s.ver += 1
            s.emit(Ev("await", None, s.deref(v), **self.where(n, s, fid)))
            if self.cfg.rel:
                if self.try_handlers:
                    key = strip(s.deref(v))
                    cnt = s.calls.get(("aw", key), 0)
                    s.calls[("aw", key)] = cnt + 1
                    for s2, b in self.atom_branch(("raises", ("await", key), cnt), s):
                        yield s2, (Raise(("exc", ("await", key, cnt))) if b else ("await", v))
                else:
                    yield s, ("await", v)
                continue
            can = self.cfg.raises is not None and self.cfg.raises("await", v)
            if can:
                s2 = s.fork()
                yield s2, Raise(("exc", ("await", strip(v), 0)))
            yield s, ("await", v)

    def e_YieldFrom(self, n, st, fid):
        key = st.frames[fid]["$fn"].key
        hook = next((h for k, h in reversed(self.cm_hooks) if k == key), None)
        for s, v in self.ev(n.value, st, fid):
            if isinstance(v, Raise):
                yield s, v
                continue
            if hook is not None and getattr(hook, "multi", False):
                for s2, items in self.elements(v, s):
                    if isinstance(items, Raise):
                        yield s2, items
                        continue
                    for x in items:
                        for s2, _ in hook(s2, x):
                            pass
                    yield s2, NONE
                continue
            s.emit(Ev("yield", "from", s.deref(v), **self.where(n, s, fid)))
            yield s, ("yf", v)

    def force_gencall(self, g, st):
        """Run a helper generator to completion, collecting what it yields."""
        _, f, args, kws, fid = g
        fn, bound = self.resolve_fn(f, st)
        vals = self.bind(fn, bound, args, kws, st, f)
        if vals is None:
            yield st, [("star", ("call", f, args, kws, 0))]
            return
        self.inlined.add(fn.key)
        token = ("gen", st.new_id())
        st.pend = {**st.pend, token: ()}

        def hook(s, val):
            s.pend = {**s.pend, token: s.pend[token] + (val,)}
            yield s, NONE

        hook.multi = True
        self.cm_hooks.append((fn.key, hook))
        try:
            outs = list(self.exec_function(fn, vals, st, self.fn_parent(f, st), fid))
        finally:
            self.cm_hooks.pop()
        for s, oc in outs:
            yield s, (Raise(oc[1]) if oc[0] == "raise" else list(s.pend[token]))

    # comprehensions -----------------------------------------------------
    def e_GeneratorExp(self, n, st, fid):
        yield st, ("gen", _reg(self, n), fid)

    def force_gen(self, g, st):
        if g[0] == "gencall":
            yield from self.force_gencall(g, st)
            return
        n = self._gens[g[1]]
        yield from self.comp_items(n.elt, n.generators, st, g[2])

    def comp_items(self, elt, gens, st, fid):
        """yields (state, [items] | Raise)"""
        nf = st.new_id()
        st.frames[nf] = {"$parent": fid, "$mod": st.frames[fid]["$mod"], "$fn": st.frames[fid]["$fn"], "$nonlocal": set(), "$stack": st.frames[fid]["$stack"]}

        def level(gi, s):
            if gi == len(gens):
                if isinstance(elt, tuple):
                    for s2, vs in self.ev_seq(list(elt), s, nf):
                        yield s2, (vs if isinstance(vs, Raise) else [("tup", tuple(vs))])
                else:
                    for s2, v in self.ev(elt, s, nf):
                        yield s2, (v if isinstance(v, Raise) else [v])
                return
            g = gens[gi]
            for s2, it in self.ev(g.iter, s, nf):
                if isinstance(it, Raise):
                    yield s2, it
                    continue
                for s3, items in self.elements(it, s2):
                    if isinstance(items, Raise):
                        yield s3, items
                        continue
                    yield from each(g, gi, items, 0, s3, [])

        def each(g, gi, items, k, s, acc):
            if k == len(items):
                yield s, acc
                return
            for s2, oc in self.assign(g.target, items[k], s, nf):
                for s3, ok in self.conds(g.ifs, s2, nf):
                    if isinstance(ok, Raise):
                        yield s3, ok
                    elif not ok:
                        yield from each(g, gi, items, k + 1, s3, acc)
                    else:
                        for s4, sub in level(gi + 1, s3):
                            if isinstance(sub, Raise):
                                yield s4, sub
                            else:
                                yield from each(g, gi, items, k + 1, s4, acc + sub)

        yield from level(0, st)

    def conds(self, ifs, st, fid):
        if not ifs:
            yield st, True
            return
        for s, b in self.branch(ifs[0], st, fid):
            if isinstance(b, Raise) or not b:
                yield s, b
            else:
                yield from self.conds(ifs[1:], s, fid)

    def e_ListComp(self, n, st, fid):
        for s, items in self.comp_items(n.elt, n.generators, st, fid):
            yield s, (items if isinstance(items, Raise) else self.new_ref("lst", tuple(items), s))

    def e_SetComp(self, n, st, fid):
        for s, items in self.comp_items(n.elt, n.generators, st, fid):
            yield s, (items if isinstance(items, Raise) else self.new_ref("set", tuple(items), s))

    def e_DictComp(self, n, st, fid):
        for s, items in self.comp_items((n.key, n.value), n.generators, st, fid):
            if isinstance(items, Raise):
                yield s, items
                continue
            d = {}
            for it in items:
                d[it[1][0]] = it[1][1]
            yield s, self.new_ref("dct", tuple(d.items()), s)

    def any_all(self, g, st, is_any):
        """Short-circuit semantics of any()/all() over a generator expression."""
        n = self._gens[g[1]]
        fid = g[2]
        nf = st.new_id()
        st.frames[nf] = {"$parent": fid, "$mod": st.frames[fid]["$mod"], "$fn": st.frames[fid]["$fn"], "$nonlocal": set(), "$stack": st.frames[fid]["$stack"]}
        gens = n.generators

        def level(gi, s):  # yields (state, True found | False | Raise)
            if gi == len(gens):
                for s2, b in self.branch(n.elt, s, nf):
                    yield s2, (b if isinstance(b, Raise) else (b if is_any else not b))
                return
            gg = gens[gi]
            for s2, it in self.ev(gg.iter, s, nf):
                if isinstance(it, Raise):
                    yield s2, it
                    continue
                if it[0] in GEN:
                    for s3, items in self.force_gen(it, s2):
                        yield from known(gg, gi, items, 0, s3)
                    continue
                base, mk, items = self.iter_split(it, s2)
                if items is not None:
                    for s3, its in self.flatten_stars(items, s2):
                        yield from known(gg, gi, its, 0, s3)
                else:
                    yield from unknown(gg, gi, base, mk, 0, s2)

        def one(gg, gi, el, s):
            for s2, oc in self.assign(gg.target, el, s, nf):
                for s3, ok in self.conds(gg.ifs, s2, nf):
                    if isinstance(ok, Raise):
                        yield s3, ok
                    elif not ok:
                        yield s3, False
                    else:
                        yield from level(gi + 1, s3)

        def known(gg, gi, items, k, s):
            if k == len(items):
                yield s, False
                return
            for s2, r in one(gg, gi, items[k], s):
                if isinstance(r, Raise) or r:
                    yield s2, r
                else:
                    yield from known(gg, gi, items, k + 1, s2)

        def unknown(gg, gi, base, mk, k, s):
            for s2, h in self.atom_branch(self.has_key(base, k, s), s, limit=k >= self.cfg.unroll):
                if not h:
                    yield s2, False
                    continue
                for s3, r in one(gg, gi, mk(k), s2):
                    if isinstance(r, Raise) or r:
                        yield s3, r
                    else:
                        yield from unknown(gg, gi, base, mk, k + 1, s3)

        for s, r in level(0, st):
            yield s, (r if isinstance(r, Raise) else C(r if is_any else not r))

    def next_gen(self, g, st, default):
        n = self._gens[g[1]]
        marker = ast.Constant(value=True)
        holder = {}
        # next(elt for ... if c) == first element satisfying conditions
        fid = g[2]
        nf = st.new_id()
        st.frames[nf] = {"$parent": fid, "$mod": st.frames[fid]["$mod"], "$fn": st.frames[fid]["$fn"], "$nonlocal": set(), "$stack": st.frames[fid]["$stack"]}
        gens = n.generators

        def level(gi, s):
            if gi == len(gens):
                for s2, v in self.ev(n.elt, s, nf):
                    yield s2, v
                return
            gg = gens[gi]
            for s2, it in self.ev(gg.iter, s, nf):
                if isinstance(it, Raise):
                    yield s2, it
                    continue
                for_items = self.iter_split(it, s2) if it[0] not in GEN else (None, None, None)
                if it[0] in GEN:
                    for s3, items in self.force_gen(it, s2):
                        yield from known(gg, gi, items, 0, s3)
                elif for_items[2] is not None:
                    for s3, its in self.flatten_stars(for_items[2], s2):
                        yield from known(gg, gi, its, 0, s3)
                else:
                    yield from unknown(gg, gi, for_items[0], for_items[1], 0, s2)

        def one(gg, gi, el, s):
            for s2, oc in self.assign(gg.target, el, s, nf):
                for s3, ok in self.conds(gg.ifs, s2, nf):
                    if isinstance(ok, Raise):
                        yield s3, ok
                    elif not ok:
                        yield s3, None
                    else:
                        yield from level(gi + 1, s3)

        def known(gg, gi, items, k, s):
            if k == len(items):
                yield s, None
                return
            for s2, r in one(gg, gi, items[k], s):
                if r is not None:
                    yield s2, r
                else:
                    yield from known(gg, gi, items, k + 1, s2)

        def unknown(gg, gi, base, mk, k, s):
            for s2, h in self.atom_branch(self.has_key(base, k, s), s, limit=k >= self.cfg.unroll):
                if not h:
                    yield s2, None
                    continue
                for s3, r in one(gg, gi, mk(k), s2):
                    if r is not None:
                        yield s3, r
                    else:
                        yield from unknown(gg, gi, base, mk, k + 1, s3)

        for s, r in level(0, st):
            if r is not None:
                yield s, r
            elif default is not None:
                yield s, default
            else:
                yield s, Raise(("new", "builtins:StopIteration", (), 0))

    # calls --------------------------------------------------------------
    def ev_call_parts(self, n, st, fid):
        """yields (state, (callee, args, kwargs)) ; args may be Raise"""
        for s, f in self.ev(n.func, st, fid):
            if isinstance(f, Raise):
                yield s, (None, f, None)
                continue
            es = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
            for s2, vs in self.ev_seq(es, s, fid):
                if isinstance(vs, Raise):
                    yield s2, (None, vs, None)
                    continue
                args = []
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        args += self.splice(v, s2)
                    else:
                        args.append(v)
                kws = []
                for k, v in zip(n.keywords, vs[len(n.args):]):
                    if k.arg is None:
                        if v[0] == "ref" and s2.heap[v[1]][0] == "dct":
                            for kk, vv in s2.heap[v[1]][1]:
                                if is_const(kk) and isinstance(cval(kk), str):
                                    kws.append((cval(kk), vv))
                                elif kk[0] == "starstar":
                                    kws.append(("**", kk[1]))
                                else:
                                    kws.append(("**", ("dct", ((kk, vv),))))
                        else:
                            kws.append(("**", v))
                    else:
                        kws.append((k.arg, v))
                yield s2, (f, tuple(args), tuple(kws))

    def as_generator(self, n, st, fid):
        """map(f, xs), filter(f, xs) and itertools.chain.from_iterable(xs) as generator expressions."""
        cached = n.__dict__.get("_as_gen")
        if cached is not None:
            return cached
        if n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
            return None
        x, y = ast.Name(id="$x", ctx=ast.Load()), ast.Name(id="$y", ctx=ast.Load())
        sx, sy = ast.Name(id="$x", ctx=ast.Store()), ast.Name(id="$y", ctx=ast.Store())
        g = None
        if isinstance(n.func, ast.Name) and n.func.id in ("map", "filter") and len(n.args) == 2 and self.lookup(n.func.id, st, fid) == ("b", n.func.id):
            f, xs = n.args
            none = isinstance(f, ast.Constant) and f.value is None
            if n.func.id == "filter":
                g = ast.GeneratorExp(elt=x, generators=[ast.comprehension(target=sx, iter=xs, ifs=[x if none else ast.Call(func=f, args=[x], keywords=[])], is_async=0)])
            elif not none:
                g = ast.GeneratorExp(elt=ast.Call(func=f, args=[x], keywords=[]), generators=[ast.comprehension(target=sx, iter=xs, ifs=[], is_async=0)])
        elif last_attr(n.func) == "from_iterable" and len(n.args) == 1:
            g = ast.GeneratorExp(elt=y, generators=[ast.comprehension(target=sx, iter=n.args[0], ifs=[], is_async=0), ast.comprehension(target=sy, iter=x, ifs=[], is_async=0)])
        if g is not None:
            for z in ast.walk(g):
                if not hasattr(z, "lineno"):
                    ast.copy_location(z, n)
            n.__dict__["_as_gen"] = g
        return g

    def e_Call(self, n, st, fid):
        if (g := self.as_generator(n, st, fid)) is not None:
            yield from self.e_GeneratorExp(g, st, fid)
            return
        for s, (f, args, kws) in self.ev_call_parts(n, st, fid):
            if isinstance(args, Raise):
                yield s, args
                continue
            yield from self.apply(f, args, kws, s, n, fid)

    def fn_parent(self, f, st):
        if f[0] != "fn":
            return None
        return st.pend[("lam", f[1])] if f[2] == -1 else f[2]

    def resolve_fn(self, f, st) -> tuple[Func | None, Any]:
        if f[0] == "fn":
            return self.fns[f[1]][0], None
        if f[0] == "bm":
            c = self.class_by_key(f[1])
            return (c.methods.get(f[2]) if c else None), f[3]
        if f[0] == "g":
            short, nm = f[1].split(":")
            m = self.prog.by_short.get(short)
            if m is not None and nm in m.funcs:
                return m.funcs[nm], None
        return None, None

    def should_inline(self, fn: Func, stack=()) -> bool:
        if fn.key in stack or len(stack) >= self.cfg.max_depth:
            self.not_inlined.add(fn.key)
            return False
        if "<locals>" in fn.qual:
            return True
        if self.cfg.inline(fn) or fn.key in self.always_raise:
            return True
        return fn.key not in self.known and bool(self.known)

    def bind(self, fn: Func, bound, args, kws, st, f=None) -> dict | None:
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals: dict[str, Any] = {}
        args = list(args)
        if bound is not None:
            args = [bound] + args
        if any(isinstance(x, tuple) and x and x[0] == "star" for x in args):
            if not a.vararg and len([x for x in args]) > 0:
                return None
        rest = []
        for i, v in enumerate(args):
            if i < len(pos) and not (isinstance(v, tuple) and v and v[0] == "star"):
                vals[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            return None
        if a.vararg:
            vals[a.vararg.arg] = rest[0][1] if len(rest) == 1 and rest[0][0] == "star" else ("tup", tuple(rest))
        kwnames = set(pos) | {p.arg for p in a.kwonlyargs}
        extra = []
        for k, v in kws:
            if k in kwnames:
                vals[k] = v
            else:
                extra.append((k, v))
        if extra and not a.kwarg:
            return None
        if a.kwarg:
            vals[a.kwarg.arg] = self.new_ref("dct", tuple((C(k), v) if k != "**" else (("starstar", v), NONE) for k, v in extra), st)
        defaults = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None
        ]
        made = dict(f[4]) if f is not None and f[0] == "fn" and len(f) > 4 else {}
        for name, d in defaults:
            if name not in vals and name in made:
                vals[name] = made[name]
            if name not in vals:
                lit = self.literal(d, fn.module)
                if lit is None:
                    lit = self.default_term(d, fn.module)
                vals[name] = lit
        for name in kwnames:
            if name not in vals:
                return None
        return vals

    def default_term(self, d, m):
        if isinstance(d, ast.Name):
            return self.module_name(m, d.id)
        if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name):
            return ("a", self.module_name(m, d.value.id), d.attr)
        return ("default", ast.dump(d))

    def apply(self, f, args, kws, st, n, fid):
        name = last_name(f)
        if self.cfg.rel and (f == NONE or st.eq.get(f) == NONE):
            yield st, Raise(("new", "builtins:TypeError", (), 0))
            return
        # -- transparent helpers
        if name == "cast" and len(args) == 2:
            yield st, args[1]
            return
        if f == ("b", "str") and len(args) == 1 and not kws:
            yield st, mk_fstr([st.deref(args[0])])
            return
        if self.cfg.rel and f[0] == "x" and f[1].startswith("ast.") and isinstance(getattr(ast, f[1][4:], None), type) and issubclass(getattr(ast, f[1][4:]), ast.AST):
            names = getattr(ast, f[1][4:])._fields
            if len(args) <= len(names) and not any(isinstance(a, tuple) and a and a[0] == "star" for a in args) and all(k != "**" for k, _ in kws):
                i = st.new_id()
                st.heap[i] = ("node", (f[1], tuple(sorted(list(zip(names, args)) + list(kws), key=lambda kv: kv[0]))))
                yield st, ("node", i)
                return
        if f == ("x", "inspect.isclass") and len(args) == 1 and not kws:
            yield st, ("isinst", args[0], ("b", "type"))
            return
        if f == ("b", "issubclass") and len(args) == 2 and not kws and self.is_tuple(args[1], st):
            # issubclass(x, (a, b)) is issubclass(x, a) or issubclass(x, b)
            def each(items, s):
                if not items:
                    yield s, FALSE
                    return
                for s1, v in self.apply(f, (args[0], items[0]), (), s, n, fid):
                    if isinstance(v, Raise):
                        yield s1, v
                        continue
                    for s2, b in self.truth(v, s1):
                        if b:
                            yield s2, TRUE
                        else:
                            yield from each(items[1:], s2)
            for s, items in self.elements(args[1], st):
                if isinstance(items, Raise):
                    yield s, items
                else:
                    yield from each(list(items), s)
            return
        if f[0] == "call" and f[1] == ("x", "functools.wraps") and len(args) == 1 and args[0][0] == "fn" and not kws:
            g = args[0]
            yield st, ("fn", g[1], g[2], (f,) + (g[3] if len(g) > 3 else ()), g[4] if len(g) > 4 else ())
            return
        if f in (("b", "sorted"), ("b", "max"), ("b", "min")) and self.cfg.rel:
            kws = tuple((k, self.canonical_function(v, st, fid) if k == "key" else v) for k, v in kws)
        if f[0] == "b":
            r = self.builtin(f[1], args, kws, st, n, fid)
            if r is not None:
                yield from r
                return
        if f[0] == "a" or (f[0] == "bm" and self.class_by_key(f[1]) is None):
            r = self.method(f, args, kws, st, n, fid)
            if r is not None:
                yield from r
                return
        if f[0] == "g":
            c = self.class_by_key(f[1])
            if c is not None:
                yield from self.construct(c, args, kws, st, n, fid)
                return
        fn, bound = self.resolve_fn(f, st)
        if fn is not None and self.cfg.local_opaque is not None and f[0] == "fn" and f[2] != -1 and self.cfg.local_opaque(fn):
            vals = self.bind(fn, None, args, kws, st, f)
            if vals is not None:
                yield st, ("call", ("lf", fn.name), (), tuple(sorted((k, st.deref(v)) for k, v in list(vals.items()) + self.captured(fn, st, f[2]))), 0)
                return
        if fn is not None and self.should_inline(fn, st.frames[fid]["$stack"]):
            if fn.is_generator:
                if fn.is_async or fn.decorators:
                    yield from self.opaque(f, name, args, kws, st, n, fid)
                else:
                    yield st, ("gencall", f, args, kws, fid)
                return
            if fn.is_async:
                yield st, ("coro", f, args, kws)
                return
            yield from self.inline_call(f, args, kws, st, n, fid)
            return
        yield from self.opaque(f, name, args, kws, st, n, fid)

    def captured(self, fn: Func, st, fid):
        """Values of the enclosing function's variables a local function reads."""
        own = {a.arg for a in ast.walk(fn.node) if isinstance(a, ast.arg)} | {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        out = []
        for nm in sorted({n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name)} - own):
            p = fid
            while p is not None:
                if nm in st.frames[p]:
                    out.append(("^" + nm, st.frames[p][nm]))
                    break
                p = st.frames[p]["$parent"]
        return out

    def inline_call(self, f, args, kws, st, n, fid, awaited=False):
        fn, bound = self.resolve_fn(f, st)
        vals = self.bind(fn, bound, args, kws, st, f)
        if vals is None:
            if self.cfg.rel and not any(x[0] == "star" for x in args) and all(k != "**" for k, _ in kws):
                yield st, Raise(("new", "builtins:TypeError", (), 0))
                return
            yield from self.opaque(f, last_name(f), args, kws, st, n, fid)
            return
        self.inlined.add(fn.key)
        parent = self.fn_parent(f, st)
        for pname, v in vals.items():
            if pname == "self" and fn.cls is not None:
                self.cfg.types.setdefault(v, fn.cls.key)
        for a in fn.node.args.args + fn.node.args.kwonlyargs:
            if a.arg in vals and vals[a.arg] not in self.cfg.types and vals[a.arg][0] in ("p", "a", "el", "i"):
                ck = self.annotation_class(fn.module, getattr(a, "annotation", None))
                if ck:
                    self.cfg.types[vals[a.arg]] = ck
        for s, oc in self.exec_function(fn, vals, st, parent, fid):
            if oc[0] == "raise":
                yield s, Raise(oc[1])
            else:
                yield s, oc[1]

    def construct(self, c: Class, args, kws, st, n, fid):
        if self.known_classes is not None and c.key not in self.known_classes and not c.is_dataclass:
            init = self.prog.find_method(c, "__init__")
            if init is not None and not any(b not in ("object", "Generic") for b in c.base_names):
                obj = ("obj", c.key, st.new_id())
                for s, v in self.inline_call(("bm", init.cls.key, "__init__", obj), args, kws, st, n, fid):
                    yield s, (v if isinstance(v, Raise) else obj)
                return
        fields = []
        if c.is_dataclass:
            names = [f[0] for f in c.fields]
        else:
            init = self.prog.find_method(c, "__init__")
            names = []
            if init is not None:
                names = [a.arg for a in init.node.args.posonlyargs + init.node.args.args][1:]
        for i, a in enumerate(args):
            fields.append((names[i] if i < len(names) else f"#{i}", a))
        fields += list(kws)
        if c.is_dataclass:  # an argument that equals the default says nothing
            dflt = {n: self.literal(d, c.module) for n, _, d in c.fields if d is not None}
            fields = [(n, v) for n, v in fields if not (is_const(v) and dflt.get(n) == v)]
        fields.sort(key=lambda kv: kv[0])
        key = (c.key, tuple(fields))
        k = st.calls.get(key, 0)
        st.calls[key] = k + 1
        t = ("new", c.key, tuple(fields), k)
        st.emit(Ev("new", c.name, ("g", c.key), (), tuple((x, st.deref(y)) for x, y in fields), value=t, **self.where(n, st, fid)))
        yield st, t

    def opaque(self, f, name, args, kws, st, n, fid):
        kws = tuple(sorted(kws, key=lambda kv: kv[0]))
        pure = self.is_pure(f, name)
        dargs = tuple(st.deref(a) for a in args)
        dkws = tuple((k, st.deref(v)) for k, v in kws)
        if self.cfg.rel:
            f, dargs, dkws = self.norm_call(f, dargs, dkws, st)
        if name and self.looks_exc(name) and f[0] in ("g", "b", "x"):
            yield st, ("new", (f[1] if f[0] == "g" else f"builtins:{name}"), tuple([(f"#{i}", a) for i, a in enumerate(dargs)]) + dkws, 0)
            return
        if self.cfg.purity is not None:
            pure = self.cfg.purity(f, name, self, st)
            gi = next((i for i, a in enumerate(dargs) if a[0] in GEN), None) if pure else None
            if gi is not None :
                for s2, items in self.force_gen(dargs[gi], st):
                    if not isinstance(items, list):
                        yield s2, items
                        continue
                    yield from self.opaque(f, name, list(args[:gi]) + [("lst", tuple(items))] + list(args[gi + 1:]), kws, s2, n, fid)
                return
            if pure:
                t = ("call", f, dargs, dkws, st.ver + 1000 * sum(st.aver.get(x, 0) for x in self.last_reads) if pure == "reads" else 0)
                h = self.try_handlers[-1] if self.try_handlers else None
                if h is not None and h is not _FINALLY and pure != "total" and self._catches(h):
                    key = strip(t)
                    for s2, b in self.atom_branch(("raises", ("pure", key), 0), st):
                        yield s2, (Raise(("exc", ("pure", key, 0))) if b else t)
                    return
                yield st, t
                return
        elif pure:
            t = ("call", f, dargs, dkws, 0)
            if pure != "silent":
                can = self.cfg.raises is not None and self.cfg.raises(name or "", f) and pure == "mayraise"
                if can:
                    s2 = st.fork()
                    yield s2, Raise(("exc", ("xcall", strip(t), 0)))
            yield st, t
            return
        key = self.call_key(f, dargs, dkws, st)
        cnt = st.calls.get(key, 0)
        st.calls[key] = cnt + 1
        t = ("call", f, dargs, dkws, cnt)
        ev = Ev("call", name, f, dargs, dkws, value=t, **self.where(n, st, fid))
        if self.cfg.rel:
            st.emit(ev)
            st.ver += 1
            self.invalidate(f, args, kws, st)
            self.havoc(f, args, kws, t, st)
            if self.try_handlers and not self.is_coroutine_fn(f, st):
                for s2, b in self.atom_branch(("raises", ("call",) + key, cnt), st):
                    yield s2, (Raise(("exc", ("xcall", strip(t), cnt))) if b else t)
                return
            yield st, t
            return
        can = self.cfg.raises is not None and self.cfg.raises(name or "", f)
        if can:
            s2 = st.fork()
            s2.emit(ev)
            s2.ver += 1
            yield s2, Raise(("exc", ("xcall", strip(t), cnt)))
        st.emit(ev)
        if self.cfg.volatile("$call"):
            st.ver += 1
        self.invalidate(f, args, kws, st)
        yield st, t

    def call_key(self, f, dargs, dkws, st):
        return (strip(f), tuple(strip(a) for a in dargs), tuple((k, strip(v)) for k, v in dkws))

    def norm_call(self, f, dargs, dkws, st):
        """A call of a known function with every argument by (canonical) name, so spelling does not matter."""
        fn, bound = self.resolve_fn(f, st)
        if fn is None and f[0] == "a" and isinstance(f[2], str) and self.method_hint is not None:
            fn, bound = self.method_hint(f[2]), f[1]
        if fn is None or isinstance(fn.node, ast.Lambda) or "<locals>" in fn.qual:
            return f, dargs, dkws
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        canon = self.param_names(fn) if self.param_names is not None else {}
        if (bound is not None or f[0] == "bm") and pos and "staticmethod" not in fn.decorators:
            pos = pos[1:]
        if len(dargs) > len(pos) or any(isinstance(x, tuple) and x and x[0] == "star" for x in dargs):
            return f, dargs, dkws
        out = {pos[i]: v for i, v in enumerate(dargs)}
        for k, v in dkws:
            if k not in pos and not any(k == p.arg for p in a.kwonlyargs):
                return f, dargs, dkws
            out[k] = v
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p not in out:
                lit = self.literal(d, fn.module)
                v = lit if lit is not None else self.default_term(d, fn.module)
                if canon and p not in canon:
                    continue  # an optional parameter the reviewed function does not have, at its default
                out[p] = v
        return f, (), tuple(sorted(((canon.get(k, k), v) for k, v in out.items()), key=lambda kv: kv[0]))

    def _catches(self, h):
        return bool(h.handlers)

    def is_coroutine_fn(self, f, st):
        fn, _ = self.resolve_fn(f, st)
        return fn is not None and fn.is_async

    def invalidate(self, f, args, kws, st):
        """An opaque call may change attributes of its receiver and arguments."""
        recv = [a for a in args] + [v for _, v in kws]
        if f[0] == "a":
            recv.append(f[1])
        if f[0] == "bm" and f[3] is not None:
            recv.append(f[3])
        for k in [k for k in st.attrs if k[0] in recv and self.cfg.volatile(k[1])]:
            del st.attrs[k]

    def havoc(self, f, args, kws, t, st):
        """A callee that fills a container it was given leaves unknown contents in it."""
        if self.mutates is None:
            return
        fn, bound = self.resolve_fn(f, st)
        if fn is None or isinstance(fn.node, ast.Lambda):
            return
        ps = self.mutates(fn)
        if not ps:
            return
        pos = [p.arg for p in fn.node.args.posonlyargs + fn.node.args.args]
        if bound is not None and pos:
            pos = pos[1:]
        for n, v in list(zip(pos, args)) + list(kws):
            if n in ps and isinstance(v, tuple) and v[0] == "ref":
                kind, _ = st.heap[v[1]]
                out = ("out", strip(t), n)
                st.heap[v[1]] = (kind, ((("starstar", out), NONE),) if kind == "dct" else (("star", out),))

    def is_pure(self, f, name):
        if name is None:
            return False
        if f[0] == "b":
            return name in PURE_BUILTINS
        if self.cfg.pure(name):
            return True
        if f[0] == "a" and name in PURE_METHODS:
            return True
        return False

    def builtin(self, nm, args, kws, st, n, fid):
        if nm == "isinstance" and len(args) == 2:
            return iter([(st, ("isinst", args[0], args[1]))])
        if nm == "getattr" and args:
            return self.bi_getattr(args, st)
        if nm == "setattr" and len(args) == 3:
            def g():
                name = args[1]
                if is_const(name):
                    name = cval(name)
                self.store_attr(args[0], name, args[2], st, n, fid)
                yield st, NONE
            return g()
        if nm == "hasattr" and len(args) == 2:
            name = cval(args[1]) if is_const(args[1]) else args[1]

            def g():
                if (args[0], name) in st.attrs:
                    yield st, TRUE
                    return
                for s, b in self.atom_branch(("hasattr", args[0], name), st):
                    yield s, C(b)
            return g()
        if nm in ("list", "tuple", "set", "frozenset") and len(args) <= 1 and not kws:
            kind = {"list": "lst", "tuple": "tup", "set": "set", "frozenset": "set"}[nm]

            def g():
                if not args:
                    yield st, (("tup", ()) if kind == "tup" else self.new_ref(kind, (), st))
                    return
                a = args[0]
                if a[0] in GEN:
                    for s, items in self.force_gen(a, st):
                        if isinstance(items, Raise):
                            yield s, items
                        else:
                            yield s, (("tup", tuple(items)) if kind == "tup" else self.new_ref(kind, tuple(items), s))
                    return
                if kind == "tup" and a[0] != "tup" and not is_const(a) and self.is_tuple(a, st):
                    yield st, a
                    return
                base, mk, items = self.iter_split(a, st)
                if items is not None:
                    yield st, (("tup", tuple(items)) if kind == "tup" else self.new_ref(kind, tuple(items), st))
                    return
                if kind == "lst":
                    # a fresh list with symbolic content
                    yield st, self.new_ref("lst", (("star", a),), st)
                    return
                yield st, ("call", ("b", nm), (st.deref(a),), (), 0)
            return g()
        if nm == "dict" and not args:
            def g():
                yield st, self.new_ref("dct", tuple((C(k), v) if k != "**" else (("starstar", v), NONE) for k, v in kws), st)
            return g()
        if nm == "dict" and len(args) == 1:
            def g():
                a = args[0]
                if a[0] == "ref" and st.heap[a[1]][0] == "dct":
                    yield st, self.new_ref("dct", st.heap[a[1]][1] + tuple((C(k), v) for k, v in kws), st)
                elif a[0] in GEN:
                    for s, items in self.force_gen(a, st):
                        if isinstance(items, Raise):
                            yield s, items
                        else:
                            yield s, self.new_ref("dct", tuple((self.item(x, C(0), s), self.item(x, C(1), s)) for x in items), s)
                else:
                    yield st, self.new_ref("dct", ((("starstar", a), NONE),) + tuple((C(k), v) for k, v in kws), st)
            return g()
        if nm == "reversed" and len(args) == 1:
            a = args[0]
            return iter([(st, a[1] if a[0] == "rev" else ("rev", a))])
        if nm in ("any", "all") and len(args) == 1:
            if args[0][0] == "gen":
                return self.any_all(args[0], st, nm == "any")

            def g():
                a = args[0]
                for s, items in self.elements(a, st):
                    def go(i, ss):
                        if i == len(items):
                            yield ss, C(nm == "all")
                            return
                        for s2, b in self.truth(items[i], ss):
                            if b == (nm == "any"):
                                yield s2, C(nm == "any")
                            else:
                                yield from go(i + 1, s2)
                    yield from go(0, s)
            return g()
        if nm == "next" and args and args[0][0] == "gencall":
            def g():
                for s, items in self.force_gen(args[0], st):
                    if isinstance(items, Raise):
                        yield s, items
                    elif items:
                        yield s, items[0]
                    else:
                        yield s, (args[1] if len(args) > 1 else Raise(("new", "builtins:StopIteration", (), 0)))
            return g()
        if nm == "next" and args and args[0][0] == "gen":
            return self.next_gen(args[0], st, args[1] if len(args) > 1 else None)
        if nm in ("max", "min"):
            def g():
                if len(args) == 1:
                    dflt = dict(kws).get("default")
                    for s, items in self.elements(args[0], st):
                        if isinstance(items, Raise):
                            yield s, items
                        elif not items and dflt is not None:
                            yield s, dflt
                        elif not items:
                            yield s, Raise(("new", "builtins:ValueError", (), 0))
                        else:
                            yield s, self.mk_max(nm, items, dict(kws).get("key"), s)
                else:
                    yield st, self.mk_max(nm, list(args), dict(kws).get("key"), st)
            return g()
        if nm == "sum" and len(args) == 1 and not kws and args[0][0] in GEN:
            def g():
                for s, items in self.force_gen(args[0], st):
                    if isinstance(items, Raise):
                        yield s, items
                    elif any(isinstance(x, tuple) and x and x[0] == "star" for x in items):
                        yield s, ("call", ("b", nm), (("tup", tuple(s.deref(i) for i in items)),), (), 0)
                    else:
                        yield s, self.total([s.deref(x) for x in items])
            return g()
        if nm == "sorted" and len(args) == 1 and args[0][0] in ("ref", "tup") and (args[0][0] == "tup" or st.heap[args[0][1]][0] in ("lst", "tup")):
            items = args[0][1] if args[0][0] == "tup" else st.heap[args[0][1]][1]
            if not any(isinstance(x, tuple) and x and x[0] == "star" for x in items):
                if len(items) <= 1:
                    return iter([(st, self.new_ref("lst", tuple(items), st))])
                return iter([(st, ("call", ("b", nm), (("tup", tuple(st.deref(i) for i in items)),), tuple(kws), 0))])
        if nm in ("sum", "sorted") and args and args[0][0] in GEN:
            def g():
                for s, items in self.force_gen(args[0], st):
                    if isinstance(items, Raise):
                        yield s, items
                    elif nm == "sorted" and len(items) <= 1:
                        yield s, self.new_ref("lst", tuple(items), s)
                    else:
                        yield s, ("call", ("b", nm), (("tup", tuple(s.deref(i) for i in items)),), tuple((k, v) for k, v in kws), 0)
            return g()
        if nm == "len" and len(args) == 1:
            a = args[0]
            items = None
            if a[0] == "ref":
                items = st.heap[a[1]][1]
            elif a[0] == "tup":
                items = a[1]
            elif is_const(a) and isinstance(cval(a), (tuple, str)):
                items = cval(a)
            if items is not None and not any(isinstance(x, tuple) and x and x[0] == "star" for x in items):
                return iter([(st, C(len(items)))])
            if items is not None and len(items) == 1 and (a[0] == "tup" or st.heap[a[1]][0] == "lst"):
                a = items[0][1]
            if a[0] == "rev":
                a = a[1]
            return iter([(st, ("call", ("b", "len"), (st.deref(a),), (), 0))])
        if nm == "bool" and len(args) == 1:
            def g():
                for s, b in self.truth(args[0], st):
                    yield s, C(b)
            return g()
        if nm == "str" and len(args) == 1 and (args[0][0] == "f" or is_const(args[0])):
            return iter([(st, mk_fstr([args[0]]))])
        if nm == "repr" and len(args) == 1 and is_const(args[0]):
            return iter([(st, C(repr(cval(args[0]))))])
        if nm == "type" and len(args) == 3 and not kws:
            # the order in which a class's namespace was filled does not matter
            d = st.deref(args[2])
            if d[0] == "dct" and not any(k[0] == "starstar" for k, _ in d[1]):
                d = ("dct", tuple(sorted(d[1], key=repr)))
            return iter([(st, ("call", ("b", "type"), (st.deref(args[0]), st.deref(args[1]), d), (), 0))])
        if nm == "type" and len(args) == 1 and args[0] == P("self") and (ck := self.type_of(args[0], st)) is not None and self.is_final(ck):
            return iter([(st, ("g", ck))])
        if nm == "type" and len(args) == 1 and args[0][0] == "new":
            return iter([(st, ("g", args[0][1]))])
        if nm == "super" and not args:
            f = st.frames[fid]["$fn"]
            return iter([(st, ("super", f.cls.key if f.cls else "?"))])
        return None

    def undominated(self, nm, items, st):
        """Operands of max/min that the known orderings do not exclude."""
        out = list(items)
        gt = ">" if nm == "max" else "<"
        for x in items:
            for y in items:
                if y == x or self.known_cmp(gt, x, y, st) is not False:
                    continue
                if self.known_cmp(gt, y, x, st) is False and repr(x) < repr(y):
                    continue  # equal: keep one
                out = [z for z in out if z != x]
                break
        return out

    def mk_max(self, nm, items, key, st=None):
        flat = []
        for x in items:
            if x[0] == "max" and x[1] == nm and x[3] == key:
                flat += list(x[2])
            else:
                flat.append(x)
        if key is None and all(is_const(x) for x in flat):
            return C(max(cval(x) for x in flat) if nm == "max" else min(cval(x) for x in flat))
        uniq = sorted(set(flat), key=repr) if key is None else flat
        if key is None and len(uniq) > 1 and st is not None:
            uniq = self.undominated(nm, uniq, st)
        if len(uniq) == 1:
            return uniq[0]
        return ("max", nm, tuple(uniq), key)

    def bi_getattr(self, args, st):
        name = args[1]
        if is_const(name):
            name = cval(name)
        if len(args) == 2:
            if self._handler_active("AttributeError"):
                for s, h in self.atom_branch(("hasattr", args[0], name), st):
                    if h:
                        yield s, self.attr(args[0], name, s)
                    else:
                        yield s, Raise(("new", "builtins:AttributeError", (), 0))
                return
            yield st, self.attr(args[0], name, st)
            return
        if (args[0], name) in st.attrs:
            yield st, st.attrs[(args[0], name)]
            return
        for s, h in self.atom_branch(("hasattr", args[0], name), st):
            yield s, (self.attr(args[0], name, s) if h else args[2])

    def method(self, f, args, kws, st, n, fid):
        b, nm = f[1], f[2]
        if not isinstance(nm, str):
            return None
        if b[0] == "dct":
            b = self.new_ref("dct", b[1], st)
        if b[0] == "ref":
            return self.ref_method(b, nm, args, kws, st, n, fid)
        if nm == "join" and is_const(b) and len(args) == 1:
            def g():
                for s, items in self.elements(args[0], st):
                    if isinstance(items, Raise):
                        yield s, items
                        continue
                    parts = []
                    for i, it in enumerate(items):
                        if i:
                            parts.append(cval(b))
                        parts.append(s.deref(it))
                    # what is joined are strings
                    yield s, parts[0] if len(parts) == 1 and isinstance(parts[0], tuple) else mk_fstr(parts)
            return g()
        if nm == "format" and is_const(b) and isinstance(cval(b), str) and not any(a[0] == "star" for a in args) and all(k != "**" for k, _ in kws):
            parts, auto = [], 0
            for text, field, spec, conv in string.Formatter().parse(cval(b)):
                parts.append(text)
                if field is None:
                    continue
                if field == "":
                    field, auto = str(auto), auto + 1
                v = args[int(field)] if field.isdigit() and int(field) < len(args) else dict(kws).get(field)
                if v is None or spec or conv:
                    return None
                parts.append(st.deref(v))
            return iter([(st, mk_fstr([C(x) if isinstance(x, str) else x for x in parts]))])
        if b == ("b", "dict") and nm == "fromkeys" and 1 <= len(args) <= 2 and not kws:
            def g():
                v = args[1] if len(args) > 1 else NONE
                for s0, items in self.elements(args[0], st):
                    if isinstance(items, Raise):
                        yield s0, items
                        continue
                    # equal elements make one key: decide each pair (what a helper of the program collected is taken as distinct)
                    todo = [(s0, (), tuple(items))]
                    while todo:
                        s, kept, rest = todo.pop()
                        if not rest:
                            yield s, self.new_ref("dct", tuple((k, v) for k in kept), s)
                            continue
                        if rest[0] in kept or rest[0][0] == "star":
                            todo.append((s, kept if rest[0] in kept else kept + rest[:1], rest[1:]))
                            continue
                        open_ = [s]
                        for k in kept:
                            nxt = []
                            for s1 in open_:
                                for s2, eq in ([(s1, False)] if k[0] == "star" or (k[0] == rest[0][0] == "el" and k[1] == rest[0][1] and k[1][0] == "out") else self.cmp_branch("==", rest[0], k, s1)):
                                    if eq:
                                        todo.append((s2, kept, rest[1:]))
                                    else:
                                        nxt.append(s2)
                            open_ = nxt
                        todo += [(s1, kept + rest[:1], rest[1:]) for s1 in open_]
            return g()
        if nm == "copy" and not args and not kws:
            ann = self.annotation_of(b, st)
            an = getattr(ann.value if isinstance(ann, ast.Subscript) else ann, "id", None)
            if an == "dict":
                return iter([(st, self.new_ref("dct", ((("starstar", b), NONE),), st))])
            if an == "list":
                return iter([(st, self.new_ref("lst", (("star", b),), st))])
        if self.cfg.rel and nm in ("acquire", "release") and not args and not kws and self.is_lock(b):
            def g():
                w = self.where(n, st, fid)
                if nm == "acquire":
                    ev = Ev("enter", last_name(b), st.deref(b), value=FALSE, **w)
                else:
                    ev = Ev("exit", last_name(b), st.deref(b), args=(FALSE,), value=NONE, **w)
                for s, r in self.maybe_raise("enter" if nm == "acquire" else "exit", b, st, n, fid, ev):
                    s.ver += nm == "acquire"
                    yield s, (TRUE if r is None else Raise(r))
            return g()
        if nm == "get" and args and len(args) <= 2 and not kws and not self.cfg.no_fork_get and not self._ctxvar(b):
            def g():
                for s, h in self.cmp_branch("in", args[0], b, st):
                    yield s, (self.item(b, args[0], s) if h else (args[1] if len(args) > 1 else NONE))
            return g()
        if nm in MUTATORS:
            def g():
                w = self.where(n, st, fid)
                if nm == "pop" and not kws and (len(args) == 2 or len(args) == 1 and not (is_const(args[0]) and cval(args[0]) in (-1, 0))):
                    yield from self.remove_item(b, args[0], st, w, *args[1:])
                    return
                if nm == "extend" and len(args) == 1 and not kws and args[0][0] in GEN:
                    for s, items in self.force_gen(args[0], st):
                        if isinstance(items, Raise):
                            yield s, items
                            continue
                        if items:
                            s.emit(Ev("mut", nm, b, (("tup", tuple(s.deref(x) for x in items)),), (), **w))
                            self.bump(b, s)
                            s.over[("t", b, s.muts.get(b, 0))] = True
                        yield s, NONE
                    return
                if nm == "update" and (pairs := self.update_pairs(b, args, kws, st)) is not None:
                    for k, v in pairs:
                        self.store_item(b, k, v, st, n, fid)
                    yield st, NONE
                    return
                st.emit(Ev("mut", "remove" if nm == "discard" else nm, b, tuple(st.deref(a) for a in args), tuple((k, st.deref(v)) for k, v in kws), **w))
                self.bump(b, st)
                if nm == "setdefault" and len(args) == 2:
                    for s, h in self.cmp_branch("in", args[0], b, st):
                        if h:
                            yield s, self.item(b, args[0], s)
                        else:
                            s.attrs[("i", b, args[0])] = args[1]
                            s.over[("in", args[0], self.vbase(b, s))] = True
                            yield s, args[1]
                    return
                if nm == "pop" and len(args) <= 1 and (not args or (is_const(args[0]) and cval(args[0]) in (-1, 0))):
                    m = st.muts.get(b, 0)
                    last = not args or cval(args[0]) == -1
                    el = ("el", ("rev", b) if last else b, m)
                    st.muts[b] = m + 1
                    yield st, el
                    return
                if nm == "popleft":
                    m = st.muts.get(b, 0)
                    st.muts[b] = m + 1
                    yield st, ("el", b, m)
                    return
                if nm in ("append", "add", "extend", "update", "insert", "appendleft"):
                    st.over[("t", b, st.muts.get(b, 0))] = True
                if nm == "clear":
                    st.muts[b] = st.muts.get(b, 0)
                    st.over[("t", b, st.muts[b])] = False
                if nm == "add" and args:
                    st.over[("in", args[0], self.vbase(b, st))] = True
                if nm in ("remove", "discard") and args:
                    st.over[("in", args[0], self.vbase(b, st))] = False
                yield st, NONE
            # a class method of the repo named like a mutator?
            if self.type_of(b, st) is not None:
                c = self.class_by_key(self.type_of(b, st))
                if c is not None and self.prog.find_method(c, nm) is not None:
                    return None
            return g()
        return None

    @staticmethod
    def is_lock(t):
        """A thread lock by name: what happens in its body does not matter to its release."""
        nm = (last_name(t[1] if t[0] == "call" else t) or "").lower()
        return nm.endswith("lock") and "async" not in nm

    def _ctxvar(self, b):
        nm = last_name(b) or ""
        return nm.lower().endswith("_var") or nm.lower() in ("var", "contextvar") or "stack" in nm.lower() and "context" in nm.lower()

    def update_pairs(self, b, args, kws, st):
        """The items that an update of a mapping assigns, when they are known one by one."""
        ann = self.annotation_of(b, st)
        ann = getattr(ann, "value", ann)
        if isinstance(ann, ast.Name) and ann.id.lower() not in ("dict", "ordereddict", "defaultdict", "mutablemapping"):
            return None
        if len(args) > 1 or any(k == "**" for k, _ in kws):
            return None
        pairs = []
        if args:
            if args[0][0] != "ref" or st.heap[args[0][1]][0] != "dct":
                return None
            pairs = list(st.heap[args[0][1]][1])
            if any(k[0] == "starstar" for k, _ in pairs):
                return None
        return pairs + [(C(k), v) for k, v in kws]

    def extend_ref(self, r, v, st):
        kind, items = st.heap[r[1]]
        if kind == "dct":
            if v[0] == "ref" and st.heap[v[1]][0] == "dct":
                d = dict(items)
                d.update(dict(st.heap[v[1]][1]))
                st.heap[r[1]] = (kind, tuple(d.items()))
            else:
                st.heap[r[1]] = (kind, items + ((("starstar", v), NONE),))
        else:
            st.heap[r[1]] = (kind, items + tuple(self.splice(v, st)))

    def ref_method(self, b, nm, args, kws, st, n, fid):
        kind, items = st.heap[b[1]]

        def done(v=NONE):
            return iter([(st, v)])

        if nm in ("append", "add") and len(args) == 1:
            if kind == "set" and args[0] in items:
                return done()
            st.heap[b[1]] = (kind, items + (args[0],))
            return done()
        if nm in ("extend", "update") and len(args) == 1:
            if args[0][0] in GEN:
                def g():
                    for s, its in self.force_gen(args[0], st):
                        if isinstance(its, Raise):
                            yield s, its
                            continue
                        k2, cur = s.heap[b[1]]
                        s.heap[b[1]] = (k2, cur + tuple(its))
                        yield s, NONE
                return g()
            self.extend_ref(b, args[0], st)
            return done()
        if nm == "update" and not args:
            d = dict(items)
            for k, v in kws:
                d[C(k)] = v
            st.heap[b[1]] = (kind, tuple(d.items()))
            return done()
        if nm == "insert" and len(args) == 2 and is_const(args[0]):
            l = list(items)
            l.insert(cval(args[0]), args[1])
            st.heap[b[1]] = (kind, tuple(l))
            return done()
        if nm == "clear":
            st.heap[b[1]] = (kind, ())
            return done()
        if nm == "copy":
            return done(self.new_ref(kind, items, st))
        if nm == "reverse" and kind == "lst":
            st.heap[b[1]] = (kind, tuple(reversed(items)))
            return done()
        if nm == "pop" and kind == "lst" and items and not any(x[0] == "star" for x in items) and (not args or is_const(args[0])):
            l = list(items)
            v = l.pop(*[cval(a) for a in args])
            st.heap[b[1]] = (kind, tuple(l))
            return done(v)
        if nm == "pop" and kind == "dct" and args:
            def g():
                for s, h in self.cmp_branch("in", args[0], b, st):
                    if h:
                        v = self.item(b, args[0], s)
                        k2, cur = s.heap[b[1]]
                        s.heap[b[1]] = (k2, without(cur, args[0]))
                        yield s, v
                    elif len(args) > 1:
                        yield s, args[1]
                    else:
                        yield s, Raise(("new", "builtins:KeyError", (("key", args[0]),), 0))
            return g()
        if nm == "get" and args and kind == "dct":
            def g():
                for s, h in self.cmp_branch("in", args[0], b, st):
                    yield s, (self.item(b, args[0], s) if h else (args[1] if len(args) > 1 else NONE))
            return g()
        if nm == "setdefault" and kind == "dct" and len(args) == 2:
            def g():
                for s, h in self.cmp_branch("in", args[0], b, st):
                    if h:
                        yield s, self.item(b, args[0], s)
                    else:
                        k2, cur = s.heap[b[1]]
                        s.heap[b[1]] = (k2, cur + ((args[0], args[1]),))
                        yield s, args[1]
            return g()
        if nm in ("remove", "discard"):
            def g():
                k2, cur = st.heap[b[1]]
                l = list(cur)
                if args[0] in l:
                    l.remove(args[0])
                st.heap[b[1]] = (k2, tuple(l))
                yield st, NONE
            return g()
        if nm in ("items", "keys", "values", "index", "count"):
            return iter([(st, ("call", ("a", b, nm), args, (), 0))])
        if nm == "sort":
            if len(items) <= 1:
                return done()
            st.heap[b[1]] = (kind, (("star", ("call", ("b", "sorted"), (st.deref(("tup", items)),), tuple(kws), 0)),))
            return done()
        return None


GEN = ("gen", "gencall")
ANNOTATED = ("x", "typing.Annotated")
_FINALLY = ast.Try(body=[], handlers=[], orelse=[], finalbody=[])


def without(pairs, key):
    """Entries of a dictionary after the removal of a key it had."""
    return tuple(((("starstar", ("without", k[1], key)) if k[0] == "starstar" else k), x) for k, x in pairs if k != key)


def spread(pairs, what):
    """Elements of a dictionary display; a `**d` part becomes a starred element."""
    out = []
    for k, v in pairs:
        if k[0] == "starstar":
            out.append(("star", k[1] if what == "keys" else ("call", ("a", k[1], what), (), (), 0)))
        else:
            out.append(("tup", (k, v)) if what == "items" else k if what == "keys" else v)
    return out


def norm_slice(lo, hi, step):
    if step == C(1):
        step = NONE
    if step == NONE and lo == C(0):
        lo = NONE
    return ("slice", lo, hi, step)


def last_attr(n):
    return n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", None)


def _reg(interp, n):
    d = interp.__dict__.setdefault("_gens", {})
    k = f"{n.lineno}:{n.col_offset}:{id(n)}"
    d[k] = n
    return k


def sym_cmp(t):
    """Comparisons with a fixed operand order."""
    if not isinstance(t, tuple) or not t or t[0] == "c":
        return t
    t = tuple(sym_cmp(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == "cmp" and len(t) == 4:
        _, op, a, b = t
        if op in ("is", "==", "is not", "!="):
            a, b = sorted((a, b), key=repr)
        elif op in (">", ">="):
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        return ("cmp", op, a, b)
    return t


def mk_fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, tuple) and p and p[0] == "f":
            sub = list(p[1])
        elif isinstance(p, tuple) and is_const(p):
            sub = [str(cval(p))]
        elif isinstance(p, tuple) and p and p[0] == "call" and p[1] == ("b", "str") and len(p[2]) == 1 and not p[3]:
            out0 = mk_fstr([p[2][0]])
            sub = [cval(out0)] if is_const(out0) else list(out0[1])
        else:
            sub = [p]
        for x in sub:
            if isinstance(x, str):
                if out and isinstance(out[-1], str):
                    out[-1] += x
                elif x:
                    out.append(x)
            else:
                out.append(x)
    if not out:
        return C("")
    if len(out) == 1 and isinstance(out[0], str):
        return C(out[0])
    return ("f", tuple(out))


_OPN = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return t
