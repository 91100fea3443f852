"""Generated code: what the compiler's templates produce, as syntax trees with named holes.

The assembly compiler renders resolver methods as source text or as `ast` nodes. Two templates that are
spelled differently are compared by parsing both and comparing the paths of the two generated functions;
every run-time quantity inside a template becomes an identifier derived from the term it stands for.
"""
from __future__ import annotations

import ast

from .engine import FALSE, TRUE, Cfg, Interp, hash_term, is_const
from .program import Func, Module

SOURCE_FN = "compiler:_compile_function_from_source"
AST_FN = "compiler:_compile_function"


class NotTemplate(Exception):
    pass


class _Statements(ast.NodeTransformer):
    """A hole in statement position stands for unknown statements, which may return."""

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Name) and n.value.id.startswith("H_"):
            call = lambda x: ast.Call(ast.Name(n.value.id + x, ast.Load()), [], [])  # noqa: E731
            return ast.If(call("_returns"), [ast.Return(call("_value"))], [])
        return n


def _hole(t) -> str:
    return "H_" + hash_term(t)


def text(t, holes: dict | None = None) -> str:
    def hole(x):
        if holes is not None:
            holes[_hole(x)] = x
        return _hole(x)

    if is_const(t):
        if not isinstance(t[2], str):
            raise NotTemplate
        return t[2]
    if t[0] == "f":
        return "".join(x if isinstance(x, str) else (x[2] if is_const(x) and isinstance(x[2], str) else str(x[2]) if is_const(x) else hole(x)) for x in t[1])
    return hole(t)


# quantities whose text cannot end a string literal or a line
PLAIN = {"slot", "scope_level", "cache_owner_scope_level", "dependency_slot", "provider_inner_slot", "provider_slot", "root_scope_level",
         "max_required_scope_level", "level"}


def quoted(tree, holes: dict) -> tuple:
    """Terms spliced into the string literals of a template that could break out of them."""
    inside = " ".join(n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str))
    return tuple(sorted((t for h, t in holes.items() if h in inside and not (t[0] == "a" and t[2] in PLAIN)), key=repr))


def seq(t):
    if t[0] in ("lst", "tup"):
        return t[1]
    raise NotTemplate


def node(t):
    """ast node described by a term of `ast.X(...)` constructor calls."""
    if t[0] == "call" and t[1][0] == "x" and t[1][1].startswith("ast."):
        cls = getattr(ast, t[1][1][4:], None)
        if cls is None or not isinstance(cls, type):
            raise NotTemplate
        vals = dict(zip(cls._fields, t[2]))
        vals.update(dict(t[3]))
        out = {}
        for k, v in vals.items():
            if k in ("id", "attr", "arg", "name", "module") and not (is_const(v) and v[2] is None):
                out[k] = text(v)
            elif k == "value" and cls is ast.Constant:
                if not is_const(v):
                    return ast.Name(_hole(v), ast.Load())
                out[k] = v[2]
            elif is_const(v):
                out[k] = v[2]
            elif v[0] in ("lst", "tup"):
                out[k] = [_item(x, k) for x in v[1]]
            else:
                out[k] = _item(v, k)
        return cls(**out)
    raise NotTemplate


def _item(t, field):
    try:
        return node(t)
    except NotTemplate:
        if t[0] == "star":
            h = ast.Name(_hole(t[1]), ast.Load())
            return ast.Expr(h) if field in ("body", "orelse", "finalbody") else ast.Starred(h, ast.Load())
        h = ast.Name(_hole(t), ast.Load())
        return ast.Expr(h) if field in ("body", "orelse", "finalbody") else h


def _params(names, kwonly):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[ast.arg(arg=n) for n in kwonly],
                         kw_defaults=[None] * len(kwonly), kwarg=None, defaults=[])


def generated(call):
    """(meta, FunctionDef) of a canonical call term of one of the two compile helpers."""
    head, named = call[1], dict(call[2])
    key = head[1] if head[0] == "g" else None
    if key == SOURCE_FN:
        names = [text(x) for x in seq(named["arg_names"])]
        kwonly = [text(x) for x in seq(named["kwonly_arg_names"])]
        lines = []
        holes: dict = {}
        for x in seq(named["body_lines"]):
            lines.append(_hole(x[1]) if x[0] == "star" else text(x, holes))
        src = "def f():\n" + "".join("\n".join("    " + y for y in ln.split("\n")) + "\n" for ln in lines or ["pass"])
        try:
            tree = ast.parse(_async_ok(src, named))
        except SyntaxError as e:
            raise NotTemplate from e
        fn = tree.body[0]
        spliced = quoted(tree, holes)
    elif key == AST_FN:
        a = node(named["arguments"])
        if a.vararg or a.kwarg or a.posonlyargs:
            raise NotTemplate
        names, kwonly = [x.arg for x in a.args], [x.arg for x in a.kwonlyargs]
        body = [_item(x, "body") for x in seq(named["body"])]
        fn = ast.FunctionDef(name="f", args=a, body=body or [ast.Pass()], decorator_list=[], returns=None, type_comment=None)
        spliced = ()
    else:
        raise NotTemplate
    is_async = named["is_async"]
    fn = (ast.AsyncFunctionDef if is_async == TRUE else ast.FunctionDef)(name="generated", args=_params(names, kwonly), body=fn.body, decorator_list=[], returns=None, type_comment=None)
    fn = _Statements().visit(fn)
    fn = ast.parse(ast.unparse(ast.fix_missing_locations(ast.Module([fn], [])))).body[0]  # one spelling for both front ends
    meta = (named["name"], tuple(names), tuple(kwonly), is_async, named.get("defaults"), named.get("kwonly_defaults"), named.get("generated_globals"), *(("spliced", spliced) if spliced else ()))
    return meta, fn


def _async_ok(src, named):
    return ("async " + src) if named["is_async"] != FALSE else src


def abstract(t, out: list):
    """The term with every generated function replaced by its meta data; the functions are appended to `out`."""
    if not isinstance(t, tuple) or not t or t[0] == "c":
        return t
    if t[0] == "call" and len(t) == 3 and t[1][0] == "g" and t[1][1] in (SOURCE_FN, AST_FN):
        try:
            meta, fn = generated(t)
        except (NotTemplate, KeyError, TypeError, ValueError, AttributeError):
            pass
        else:
            out.append(fn)
            return ("generated",) + meta
    return tuple(abstract(x, out) if isinstance(x, tuple) else x for x in t)


def as_func(fn, label: str) -> Func:
    m = Module("generated", "generated", "", label, ast.Module([fn], []), "")
    return Func(m, "generated", "generated", fn)


def interp(prog, purity, unroll, max_paths) -> Interp:
    return Interp(prog, Cfg(inline=lambda f: False, volatile=lambda a: isinstance(a, str), unroll=unroll, max_paths=max_paths, rel=True, purity=purity, types={}))
