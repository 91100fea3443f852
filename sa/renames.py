"""Consistent renames: an identifier that vanished from the tree and one that is new and stands at all its places.

A rename that is applied everywhere is not a change of behaviour. The current tree is read with the reviewed names when
the old name no longer occurs anywhere (as identifier, keyword, or word of a string) and the new name did not occur in the reviewed
tree, so that reading it under the old name is an injective substitution. Both must be names the tree itself introduces: an
attribute of a library object, a builtin or a keyword of a foreign call denotes something else under another name. Names users can see (exports, public members and
parameters of exported classes and functions) are never treated this way.
"""
from __future__ import annotations

import ast
import difflib
import re
from collections import Counter, defaultdict

from .program import Program

WORD = re.compile(r"[A-Za-z_]\w*")


def _docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            out.add(id(n.body[0].value))
    return out


def words(prog: Program) -> set[str]:
    out: set[str] = set()
    for m in prog.modules.values():
        docs = _docstrings(m.tree)
        for n in ast.walk(m.tree):
            for f in ("id", "attr", "arg", "name", "asname"):
                v = getattr(n, f, None)
                if isinstance(v, str):
                    out.update(WORD.findall(v))
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                out.update(n.names)
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs:
                out.update(WORD.findall(n.value))
    return out


BOUND_IN_TEXT = re.compile(r"(?:def|class|as|for|self\.)\s*([A-Za-z_]\w*)|([A-Za-z_]\w*)\s*(?::[^=\n]*)?=(?!=)|[(,]\s*([A-Za-z_]\w*)\s*(?=[,):])")


def bound_names(prog: Program) -> set[str]:
    """Names the tree itself introduces; a name it only uses denotes something outside and cannot be renamed here."""
    out: set[str] = set()
    for m in prog.modules.values():
        docs = _docstrings(m.tree)
        generates = ".assembly." in m.name
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                out.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, ast.alias) and n.asname:
                out.add(n.asname)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.Call) and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str) and (getattr(n.func, "id", None) == "setattr" or getattr(n.func, "attr", None) == "__setattr__"):
                out.add(n.args[1].value)
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__slots__" for t in n.targets):
                out.update(x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, str))
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and generates and id(n) not in docs:
                for g in BOUND_IN_TEXT.findall(n.value):
                    out.update(x for x in g if x)
    return {x for x in out if not (x.startswith("__") and x.endswith("__"))}


def public_names(prog: Program) -> set[str]:
    """Names a user of the package may rely on."""
    out: set[str] = set()
    for m in prog.modules.values():
        e = m.consts.get("__all__")
        if isinstance(e, (ast.List, ast.Tuple)):
            for x in e.elts:
                if isinstance(x, ast.Constant):
                    out.add(x.value)
    for m in prog.modules.values():
        nodes = [c.node for c in m.classes.values() if c.name in out or m.name.endswith("exceptions")]
        nodes += [f.node for f in m.funcs.values() if f.name in out]
        for node in nodes:
            for n in ast.walk(node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not n.name.startswith("_"):
                    out.add(n.name)
                    a = n.args
                    out.update(p.arg for p in a.posonlyargs + a.args + a.kwonlyargs)
            if isinstance(node, ast.ClassDef):
                for n in node.body:
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                        out.add(n.target.id)
                    elif isinstance(n, ast.Assign):
                        out.update(t.id for t in n.targets if isinstance(t, ast.Name))
                    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == "__init__":
                        out.update(p.arg for p in n.args.posonlyargs + n.args.args + n.args.kwonlyargs)
        if m.name.endswith("pytest_plugin"):
            for f in m.funcs.values():
                out.add(f.name)
                if f.name.startswith("pytest_"):
                    out.update(p.arg for p in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs)
    return out


class Votes:
    def __init__(self, gone: set[str], new: set[str]) -> None:
        self.gone, self.new = gone, new
        self.v: dict[str, Counter] = defaultdict(Counter)

    def word(self, a, b, weight=1):
        if a != b and a in self.gone and b in self.new:
            self.v[a][b] += weight

    def key(self, n) -> str:
        d = ast.dump(n) if isinstance(n, ast.AST) else repr(n)
        return WORD.sub(lambda w: "?" if w.group() in self.gone or w.group() in self.new else w.group(), d)

    def align(self, a, b):
        if isinstance(a, ast.AST):
            if type(a) is not type(b):
                return
            for f in a._fields:
                self.align(getattr(a, f, None), getattr(b, f, None))
        elif isinstance(a, list):
            if not isinstance(b, list):
                return
            if len(a) == len(b):
                for x, y in zip(a, b):
                    self.align(x, y)
            else:
                ka, kb = [self.key(x) for x in a], [self.key(x) for x in b]
                for op, i, j, k, l in difflib.SequenceMatcher(None, ka, kb, autojunk=False).get_opcodes():
                    if op == "equal":
                        for x, y in zip(a[i:j], b[k:l]):
                            self.align(x, y)
        elif isinstance(a, str) and isinstance(b, str) and a != b:
            wa, wb = WORD.findall(a), WORD.findall(b)
            if len(wa) == len(wb):
                for x, y in zip(wa, wb):
                    self.word(x, y)


def find_renames(ref: Program, cur: Program) -> dict[str, str]:
    """new name -> reviewed name"""
    wr, wc = words(ref), words(cur)
    gone, new = (wr - wc - public_names(ref)) & bound_names(ref), (wc - wr) & bound_names(cur)
    if not gone or not new:
        return {}
    votes = Votes(gone, new)
    rf, cf = {f.key: f for f in ref.all_funcs()}, {f.key: f for f in cur.all_funcs()}
    for k, f in rf.items():
        if k in cf:
            votes.align(f.node, cf[k].node)
    for name, m in ref.modules.items():
        c = cur.modules.get(name)
        if c is None:
            continue
        strip = lambda body: [s for s in body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))]
        votes.align(strip(m.tree.body), strip(c.tree.body))
        for cn, cl in m.classes.items():
            if cn in c.classes:
                votes.align(strip(cl.node.body), strip(c.classes[cn].node.body))
        # definitions that have no counterpart of the same name: by position and by shape
        for ra, ca in [(m.tree.body, c.tree.body)] + [(cl.node.body, c.classes[cn].node.body) for cn, cl in m.classes.items() if cn in c.classes]:
            defs = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)
            old = [n for n in ra if isinstance(n, defs) and n.name in gone]
            fresh = [n for n in ca if isinstance(n, defs) and n.name in new]
            for n in old:
                same = [x for x in fresh if votes.key(x) == votes.key(n)]
                if len(same) == 1:
                    votes.word(n.name, same[0].name, 5)
                    votes.align(n, same[0])
    out: dict[str, str] = {}
    for a, c in votes.v.items():
        (b, k), *rest = c.most_common(2)
        if rest and rest[0][1] * 3 >= k:
            continue
        if b in out:  # two names became one
            return {x: y for x, y in out.items() if x != b}
        out[b] = a
    return out


class Renamer(ast.NodeTransformer):
    def __init__(self, mapping: dict[str, str], skip_docs) -> None:
        self.map, self.docs = mapping, skip_docs

    def visit(self, n):
        for f in ("id", "attr", "arg", "name", "asname"):
            v = getattr(n, f, None)
            if isinstance(v, str) and v in self.map:
                setattr(n, f, self.map[v])
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            n.names = [self.map.get(x, x) for x in n.names]
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in self.docs:
            n.value = WORD.sub(lambda w: self.map.get(w.group(), w.group()), n.value)
        return self.generic_visit(n)


def apply_renames(prog: Program, mapping: dict[str, str]) -> None:
    for m in prog.modules.values():
        Renamer(mapping, _docstrings(m.tree)).visit(m.tree)
    prog.reindex()
