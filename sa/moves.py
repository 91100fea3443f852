"""Definitions that only changed their home: a method that became a function of its object (or the reverse), a method that
became static (or the reverse), a definition that went to another module.

Where every use follows the definition, this is not a change of behaviour. The current tree is read with the definition back
where the reviewed tree has it, uses included; a move of which one use cannot be put back is left as it is found.
"""
from __future__ import annotations

import ast

from .program import Program

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def _params(n):
    return [a.arg for a in n.args.posonlyargs + n.args.args]


def _decs(n):
    return [ast.dump(d) for d in n.decorator_list]


def _is_static(n):
    return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in n.decorator_list)


def _names(nodes):
    return {x.id for s in nodes for x in ast.walk(s) if isinstance(x, ast.Name)}


class Parents:
    """Innermost method (its class and its first parameter) around each node of a module."""

    def __init__(self, tree) -> None:
        self.owner: dict[int, tuple[str, str] | None] = {}
        self._go(tree, None, None)

    def _go(self, n, cls, owner):
        for c in ast.iter_child_nodes(n):
            o, k = owner, cls
            if isinstance(c, ast.ClassDef):
                k, o = c.name, None
            elif isinstance(c, FN):
                if isinstance(n, ast.ClassDef) and cls is not None:
                    ps = _params(c)
                    o = (cls, ps[0]) if ps and not _is_static(c) else None
                elif owner is not None and owner[1] in {a.arg for a in ast.walk(c.args) if isinstance(a, ast.arg)}:
                    o = None
            self.owner[id(c)] = o
            self._go(c, k, o)


class _Replace(ast.NodeTransformer):
    def __init__(self, by_id):
        self.by_id = by_id

    def visit(self, n):
        self.generic_visit(n)
        return self.by_id.get(id(n), n)


def undo_moves(ref: Program, cur: Program) -> list[str]:
    done: list[str] = []
    for step in (_modules, _static, _to_method, _to_function):
        for _ in range(40):
            what = step(ref, cur)
            if what is None:
                break
            done.append(what)
            for m in cur.modules.values():
                ast.fix_missing_locations(m.tree)
            cur.reindex()
    return done


def _methods(prog):
    for m in prog.modules.values():
        for c in m.classes.values():
            for f in c.methods.values():
                yield m, c, f


def _mentions(prog: Program, name: str):
    """(module, node) of everything that names it: names, attributes, imports, words of strings that are exactly it."""
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name or isinstance(n, ast.Constant) and n.value == name:
                yield m, n
            elif isinstance(n, ast.ImportFrom) and any(a.name == name or a.asname == name for a in n.names):
                yield m, n
            elif isinstance(n, FN) and any(a.arg == name for a in ast.walk(n.args) if isinstance(a, ast.arg)):
                yield m, n


# -- static <-> instance ------------------------------------------------------------------------------------------------
def _static(ref, cur):
    rm = {f.key: f for _, _, f in _methods(ref)}
    for m, c, f in _methods(cur):
        r = rm.get(f.key)
        if r is None or r.is_async != f.is_async:
            continue
        rn, cn = r.node, f.node
        if _is_static(cn) and not rn.decorator_list and len(cn.decorator_list) == 1 and _params(rn)[1:] == _params(cn) and _params(rn):
            if _params(rn)[0] in _names(cn.body) or not _through_objects(cur, f, c):
                continue
            cn.decorator_list = []
            cn.args.args.insert(0, ast.arg(_params(rn)[0], None))
            return f"{f.key} made static"
        if _is_static(rn) and not cn.decorator_list and len(rn.decorator_list) == 1 and _params(cn)[1:] == _params(rn) and _params(cn):
            if _params(cn)[0] in _names(cn.body) or not _through_objects(cur, f, c):
                continue
            cn.args.args.pop(0)
            cn.decorator_list = [ast.Name("staticmethod", ast.Load())]
            return f"{f.key} made an instance method"
    return None


def _through_objects(cur, f, c) -> bool:
    """Every mention is a call on an object, not on the class."""
    for m, n in _mentions(cur, f.name):
        if not isinstance(n, ast.Attribute):
            return False
        if isinstance(n.value, ast.Name) and (n.value.id in cur.classes_by_name or n.value.id == "cls"):
            return False
    return True


# -- method -> module function ------------------------------------------------------------------------------------------
def _to_method(ref, cur):
    ref_keys = {f.key for f in ref.all_funcs()}
    for rm, rc, r in _methods(ref):
        m = cur.modules.get(rm.name)
        c = m.classes.get(rc.name) if m is not None else None
        if c is None or r.name in c.methods or r.name.startswith("__"):
            continue
        f = m.funcs.get(r.name)
        if f is None or f.key in ref_keys or f.is_async != r.is_async or f.node.decorator_list or f.node not in m.tree.body:
            continue
        static = _is_static(r.node)
        if r.node.decorator_list and not static:
            continue
        rp, cp = _params(r.node), _params(f.node)
        if static:
            takes = None
            ok = rp == cp
        elif len(rp) == len(cp) and rp[1:] == cp[1:]:
            takes, ok = cp[0], True
        else:
            takes, ok = None, rp[1:] == cp and rp[:1] and rp[0] not in _names(f.node.body)
        if not ok:
            continue
        calls = {id(n.func): n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == r.name}
        owners = Parents(m.tree)
        for mm, n in _mentions(cur, r.name):
            if mm is not m or not (isinstance(n, ast.Name) and id(n) in calls):
                ok = False
            elif takes is not None:
                k = calls[id(n)]
                ok = ok and bool(k.args) and not isinstance(k.args[0], ast.Starred)
            else:
                o = owners.owner.get(id(n))
                inside = any(x is n for x in ast.walk(f.node))
                ok = ok and (inside or o is not None and o[0] == c.name)
            if not ok:
                break
        if not ok:
            continue
        for k in calls.values():
            if takes is not None:
                recv = k.args.pop(0)
            else:
                o = owners.owner.get(id(k.func))
                recv = ast.Name(o[1] if o is not None else rp[0] if rp else "self", ast.Load())
            k.func = ast.copy_location(ast.Attribute(recv, r.name, ast.Load()), k)
        m.tree.body.remove(f.node)
        if static:
            f.node.decorator_list = [ast.Name("staticmethod", ast.Load())]
        elif takes is None:
            f.node.args.args.insert(0, ast.arg(rp[0], None))
        c.node.body.append(f.node)
        return f"{f.key} back in {c.name}"
    return None


# -- module function -> method ------------------------------------------------------------------------------------------
def _to_function(ref, cur):
    ref_methods = {f.name for _, _, f in _methods(ref)}
    for rm in ref.modules.values():
        m = cur.modules.get(rm.name)
        if m is None:
            continue
        for r in rm.funcs.values():
            if r.name in m.funcs or r.name in ref_methods or r.node.decorator_list:
                continue
            homes = [c.methods[r.name] for c in m.classes.values() if r.name in c.methods]
            if len(homes) != 1 or sum(r.name in c.methods for mm in cur.modules.values() for c in mm.classes.values()) != 1:
                continue
            f = homes[0]
            if f.is_async != r.is_async:
                continue
            static = _is_static(f.node)
            if f.node.decorator_list and not static:
                continue
            rp, cp = _params(r.node), _params(f.node)
            if static:
                takes, ok = False, rp == cp
            elif len(rp) == len(cp) and rp[1:] == cp[1:]:
                takes, ok = True, True
            else:
                takes, ok = False, cp[1:] == rp and cp[:1] and cp[0] not in _names(x for x in f.node.body)
                if not ok and cp[1:] == rp and cp[:1]:
                    # its own object only to call itself
                    own = [n for s in f.node.body for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == cp[0]]
                    used = [n.value for s in f.node.body for n in ast.walk(s) if isinstance(n, ast.Attribute) and n.attr == r.name]
                    ok = all(any(n is u for u in used) for n in own)
            if not ok:
                continue
            calls = {id(n.func): n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == r.name}
            if any(mm is not m or id(n) not in calls for mm, n in _mentions(cur, r.name)):
                continue
            if not takes and any(not isinstance(k.func.value, ast.Name) for k in calls.values()):
                continue
            for k in calls.values():
                if takes:
                    k.args.insert(0, k.func.value)
                k.func = ast.copy_location(ast.Name(r.name, ast.Load()), k)
            f.cls.node.body.remove(f.node)
            if not f.cls.node.body:
                f.cls.node.body.append(ast.Pass())
            if static:
                f.node.decorator_list = []
            elif not takes:
                f.node.args.args.pop(0)
            m.tree.body.append(f.node)
            return f"{f.key} back in {m.short}"
    return None


# -- module -> module ---------------------------------------------------------------------------------------------------
def _top(m):
    out = {}
    for n in m.tree.body:
        if isinstance(n, FN + (ast.ClassDef,)):
            out.setdefault(n.name, []).append(n)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            out.setdefault(n.targets[0].id, []).append(n)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            out.setdefault(n.target.id, []).append(n)
    return out


def _denotes(prog, m, name, top):
    seen = set()
    while True:
        if name in top[m.name]:
            return (m.name, name)
        if name not in m.imports or (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        mod, attr = m.imports[name]
        t = prog.modules.get(mod)
        if t is None or attr is None:
            return (mod, attr)
        m, name = t, attr


def _modules(ref, cur):
    top_r = {k: _top(m) for k, m in ref.modules.items()}
    top_c = {k: _top(m) for k, m in cur.modules.items()}
    for mn, names in top_r.items():
        a = cur.modules.get(mn)
        if a is None:
            continue
        for name in names:
            if name in top_c[mn] or name == "__all__":
                continue
            homes = [k for k, t in top_c.items() if name in t and name not in top_r.get(k, {})]
            if len(homes) != 1 or type(top_c[homes[0]][name][0]) is not type(names[name][0]):
                continue
            b = cur.modules[homes[0]]
            nodes = top_c[homes[0]][name]
            used = {x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name)} | {
                w for n in nodes for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier() for w in [x.value]}
            ok, extra = True, []
            for u in sorted(used - {name}):
                d = _denotes(cur, b, u, top_c)
                if d is None:
                    if u in top_c[mn] or u in a.imports:
                        # a local of the definition, or a builtin that is shadowed there
                        if u in dir(__import__("builtins")):
                            ok = False
                    continue
                e = _denotes(cur, a, u, top_c)
                if e == d:
                    continue
                if e is not None:
                    ok = False
                    break
                extra.append((u, d))
            if not ok:
                continue
            for n in nodes:
                b.tree.body.remove(n)
            imp = [ast.Import([ast.alias(d[0], u if u != d[0] else None)]) if d[1] is None else ast.ImportFrom(d[0], [ast.alias(d[1], u if u != d[1] else None)], 0) for u, d in extra]
            for m in cur.modules.values():
                for n in list(ast.walk(m.tree)):
                    if isinstance(n, ast.ImportFrom) and any(al.name == name for al in n.names) and _source(m, n) == b.name:
                        al = next(al for al in n.names if al.name == name)
                        n.names.remove(al)
                        if m is not a:
                            m.tree.body.insert(_after_future(m), ast.ImportFrom(a.name, [al], 0))
            _drop_empty(cur)
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(b.tree)):
                b.tree.body.insert(_after_future(b), ast.ImportFrom(a.name, [ast.alias(name, None)], 0))
            at = _after_future(a)
            a.tree.body[at:at] = imp
            if isinstance(nodes[0], FN + (ast.ClassDef,)):
                a.tree.body += nodes
            else:
                at = max([i for i, n in enumerate(a.tree.body) if isinstance(n, (ast.Import, ast.ImportFrom))] + [-1]) + 1
                a.tree.body[at:at] = nodes
            return f"{b.short}:{name} back in {a.short}"
    return None


def _source(m, n):
    mod = n.module or ""
    if n.level:
        base = m.name.split(".")
        base = base[: len(base) - n.level + (1 if m.path.endswith("__init__.py") else 0)]
        mod = ".".join(base + ([mod] if mod else []))
    return mod


def _after_future(m):
    k = 0
    for i, n in enumerate(m.tree.body):
        if isinstance(n, ast.ImportFrom) and n.module == "__future__" or i == 0 and isinstance(n, ast.Expr):
            k = i + 1
    return k


class _Drop(ast.NodeTransformer):
    def visit_ImportFrom(self, n):
        return n if n.names else None


def _drop_empty(cur):
    for m in cur.modules.values():
        _Drop().visit(m.tree)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.If) and not n.body:
                n.body.append(ast.Pass())
