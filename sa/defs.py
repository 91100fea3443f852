"""Structural comparison of definitions that are not functions: classes, fields, constants, exports."""
from __future__ import annotations

import ast
from dataclasses import dataclass

from .engine import Cfg, Interp
from .program import Class, Module, Program


@dataclass
class DefDiff:
    key: str
    file: str
    line: int
    what: str
    detail: str

    def as_dict(self):
        return {"function": self.key, "file": self.file, "line": self.line, "what": self.what, "detail": self.detail}


class Resolver:
    """Turns an expression into a tuple in which every global name is replaced by what it denotes."""

    def __init__(self, prog: Program) -> None:
        self.prog = prog
        self.it = Interp(prog, Cfg())

    def term(self, e, m: Module, bound=()):
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            return ("c", type(e.value).__name__, repr(e.value))
        if isinstance(e, ast.Name):
            if e.id in bound:
                return ("λ", bound.index(e.id))
            return self.name(m, e.id)
        if isinstance(e, ast.Lambda):
            ps = [p.arg for p in e.args.posonlyargs + e.args.args + e.args.kwonlyargs]
            return ("lambda", len(ps), self.term(e.body, m, tuple(ps) + tuple(bound)))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "tuple", "list", "set") and len(e.args) == 1 and not e.keywords:
            a = self.term(e.args[0], m, bound)
            if isinstance(a, tuple) and a and a[0] in ("Tuple", "List", "Set"):
                items = a[1]
                return (e.func.id, tuple(sorted(items, key=repr)) if e.func.id in ("frozenset", "set") else items)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            items = tuple(self.term(x, m, bound) for x in e.elts)
            if isinstance(e, ast.Set):
                items = tuple(sorted(items, key=repr))
            return (type(e).__name__, items)
        if isinstance(e, ast.Call):
            return ("Call", self.term(e.func, m, bound), tuple(self.term(a, m, bound) for a in e.args), tuple(sorted((k.arg or "**", repr(self.term(k.value, m, bound))) for k in e.keywords)))
        if isinstance(e, ast.Attribute):
            b = self.term(e.value, m, bound)
            if isinstance(b, tuple) and b[0] == "x":
                return ("x", f"{b[1]}.{e.attr}")
            return ("a", b, e.attr)
        if isinstance(e, ast.AST):
            return (type(e).__name__,) + tuple(self._f(v, m, bound) for n, v in ast.iter_fields(e) if n not in ("ctx", "type_comment", "lineno"))
        return repr(e)

    def _f(self, v, m, bound):
        if isinstance(v, list):
            return tuple(self._f(x, m, bound) for x in v)
        if isinstance(v, ast.AST):
            return self.term(v, m, bound)
        return repr(v)

    def name(self, m, n):
        try:
            return self.it.module_name(m, n)
        except Exception:  # noqa: BLE001
            return ("x", n)


ENUM_BASES = {"Enum", "IntEnum", "StrEnum", "Flag"}
NEUTRAL_DUNDER = {"__repr__", "__str__", "__doc__", "__module__", "__slots__", "__annotations__"}


def compare_definitions(ref: Program, cur: Program, alias: dict) -> tuple[list[DefDiff], int]:
    rr, cr = Resolver(ref), Resolver(cur)
    out: list[DefDiff] = []
    n = 0

    def al(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "g" and t[1] in alias:
                return ("g", alias[t[1]])
            return tuple(al(x) for x in t)
        return t

    for short, rm in ref.by_short.items():
        cm = cur.by_short.get(short)
        if cm is None:
            if rm.funcs or rm.classes or rm.consts:
                out.append(DefDiff(f"{short}:", rm.rel, 1, "module removed", rm.name))
            continue
        for cname, rc in rm.classes.items():
            n += 1
            cc = cm.classes.get(cname)
            if cc is None:
                t = cr.name(cm, cname)
                if t[0] == "g":
                    ms, nm = t[1].split(":", 1)
                    cc = cur.by_short[ms].classes.get(nm) if ms in cur.by_short else None
                if cc is None:
                    if not cname.startswith("_"):
                        out.append(DefDiff(rc.key, cm.rel, 1, "class removed", cname))
                    continue
            compare_class(rc, cc, ref, cur, rr, cr, al, out)
        for name, e in rm.consts.items():
            n += 1
            a = rr.term(e, rm)
            if name not in cm.consts:
                if name in cm.imports or name in cm.funcs or name in cm.classes:
                    b = cr.name(cm, name)
                    if al(b) != a and al(b) != ("g", f"{short}:{name}") and not isinstance(e, ast.Name) and rr.name(rm, name)[0] != "g":
                        out.append(DefDiff(f"{short}:{name}", cm.rel, 1, "definition changed", name))
                elif not name.startswith("_"):
                    out.append(DefDiff(f"{short}:{name}", cm.rel, 1, "public name removed", name))
                continue
            b = al(cr.term(cm.consts[name], cm))
            if name == "__all__":
                a, b = sort_items(a), sort_items(b)
            if a != b and not same_literal(rr, rm, name, cr, cm, al):
                out.append(DefDiff(f"{short}:{name}", cm.rel, getattr(cm.consts[name], "lineno", 1), "definition changed",
                                   f"{name} = {ast.unparse(e)} became {ast.unparse(cm.consts[name])}"))
        ri, ci = import_effects(rm, rr), import_effects(cm, cr)
        n += len(ri)
        if ri != [al(x) for x in ci]:
            out.append(DefDiff(f"{short}:<module>", cm.rel, 1, "statements executed at import changed", f"{len(ri)} statements required, {len(ci)} found"))
        if rm.name in ("diwire", "diwire.exceptions") or short == "diwire":
            for name in exported(rm):
                n += 1
                a, b = rr.name(rm, name), al(cr.name(cm, name))
                if a != b:
                    out.append(DefDiff(f"{short}:{name}", cm.rel, 1, "exported name denotes something else", f"{name}: {a} became {b}"))
    return out, n


def exported(m: Module):
    e = m.consts.get("__all__")
    return [x.value for x in e.elts if isinstance(x, ast.Constant)] if isinstance(e, (ast.List, ast.Tuple)) else []


def same_literal(rr, rm, name, cr, cm, al):
    a, b = rr.name(rm, name), al(cr.name(cm, name))
    return a == b and a[0] in ("c", "tup", "set", "dct")


def sort_items(t):
    return (t[0], tuple(sorted(t[1], key=repr))) if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], tuple) else t


def import_effects(m: Module, r: Resolver):
    out = []
    for s in m.tree.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
            continue
        if isinstance(s, ast.AnnAssign):
            continue
        if isinstance(s, ast.If) and isinstance(s.test, ast.Name) and s.test.id == "TYPE_CHECKING":
            continue
        if isinstance(s, ast.If) and isinstance(s.test, ast.Attribute) and s.test.attr == "TYPE_CHECKING":
            continue
        out.append(r.term(s, m))
    return out


def compare_class(rc: Class, cc: Class, ref, cur, rr, cr, al, out):
    k, line, rel = rc.key, cc.node.lineno, cc.module.rel
    rb = [rr.term(b, rc.module) for b in rc.node.bases]
    cb = [al(cr.term(b, cc.module)) for b in cc.node.bases]
    if rb != cb:
        out.append(DefDiff(k, rel, line, "base classes changed", f"{[ast.unparse(b) for b in rc.node.bases]} became {[ast.unparse(b) for b in cc.node.bases]}"))
    rk = sorted((x.arg or "", repr(rr.term(x.value, rc.module))) for x in rc.node.keywords)
    ck = sorted((x.arg or "", repr(al(cr.term(x.value, cc.module)))) for x in cc.node.keywords)
    if rk != ck:
        out.append(DefDiff(k, rel, line, "class keywords changed", ""))
    rd = [rr.term(b, rc.module) for b in rc.node.decorator_list]
    cd = [al(cr.term(b, cc.module)) for b in cc.node.decorator_list]
    if rd != cd:
        out.append(DefDiff(k, rel, line, "class decorators changed", f"{[ast.unparse(b) for b in rc.node.decorator_list]} became {[ast.unparse(b) for b in cc.node.decorator_list]}"))
    special = "Protocol" not in rc.base_names
    rf = [(n, rr.term(d, rc.module), a is not None) for n, a, d in rc.fields]
    cf = [(n, al(cr.term(d, cc.module)), a is not None) for n, a, d in cc.fields]
    ordered = rc.is_dataclass or any(b in ENUM_BASES for b in rc.base_names)
    cmap = {n: (d, a) for n, d, a in cf}
    for n, d, a in rf:
        if n in ("__slots__", "__doc__", "__match_args__"):
            continue
        if n not in cmap:
            if d is None and not ordered:
                continue
            if not (n.startswith("_") and not ordered):
                out.append(DefDiff(k, rel, line, "field removed", n))
        elif cmap[n][0] != d:
            out.append(DefDiff(k, rel, line, "field default or value changed", f"{n}"))
    if ordered:
        rn = [n for n, _, _ in rf if not n.startswith("__")]
        cn = [n for n, _, _ in cf if n in set(rn)]
        if rn != cn and set(rn) == set(cn) and not rc_kw_only(rc):
            out.append(DefDiff(k, rel, line, "field order changed", f"{rn} became {cn}"))
        for n, d, a in cf:
            if n not in set(x for x, _, _ in rf) and d is None:
                out.append(DefDiff(k, rel, line, "required field added", n))
    # methods
    for n, f in rc.methods.items():
        if n not in cc.methods and not n.startswith("_") and cur.find_method(cc, n) is None and special:
            out.append(DefDiff(f"{k}.{n}", rel, line, "public method removed", n))
        if n not in cc.methods and n.startswith("__") and n.endswith("__") and n not in NEUTRAL_DUNDER and (cur.find_method(cc, n) is None):
            out.append(DefDiff(f"{k}.{n}", rel, line, "special method removed", n))
    for n, f in cc.methods.items():
        if n in rc.methods:
            continue
        if n.startswith("__") and n.endswith("__") and n not in NEUTRAL_DUNDER:
            out.append(DefDiff(f"{k}.{n}", rel, f.node.lineno, "special method added", n))
        elif ref.find_method(rc, n) is not None:
            out.append(DefDiff(f"{k}.{n}", rel, f.node.lineno, "method overrides an inherited one", n))


def rc_kw_only(c: Class) -> bool:
    return any("kw_only" in ast.dump(d) for d in c.node.decorator_list)
