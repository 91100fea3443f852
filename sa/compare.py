"""Relational comparison of a function of the current tree with its reviewed counterpart.

For every path of the reviewed function the current function is explored under the same branch
facts; every resulting path must have the same observable summary: the ordered effects
(calls with an effect, stores, container mutations, lock/context enter and exit, awaits, yields)
and the outcome (returned term or class of the raised exception).
"""
from __future__ import annotations

import ast
import builtins
import random
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import time
from dataclasses import dataclass, field

from . import gencode
from .effects import PURE_EXTERNAL, PURE_MODULES, EXTRA_PURE_METHODS, Effects
from .engine import (C, Cfg, FALSE, Interp, NONE, P, Path, State, TRUE, TooManyPaths, cval, exc_class_name, is_const,
                     last_name, mk_fstr, show, strip)
from .program import Class, Func, Program, walk_own
from .moves import undo_moves
from .renames import apply_renames, find_renames

TOTAL_BUILTINS = {"isinstance", "len", "id", "callable", "type", "bool", "repr", "str", "hasattr", "getattr", "tuple", "list",
                  "dict", "set", "frozenset", "reversed", "enumerate", "zip", "range", "any", "all", "object"}


def norm_dump(node) -> str:
    """Structure of a definition without docstrings and positions."""
    node = _strip_docs(ast.parse(ast.unparse(node)))
    return ast.dump(node)


class _Docs(ast.NodeTransformer):
    def _v(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = _v


def _strip_docs(t):
    return _Docs().visit(t)


@dataclass
class Mismatch:
    func: str
    file: str
    line: int
    what: str
    detail: str

    def as_dict(self):
        return {"function": self.func, "file": self.file, "line": self.line, "what": self.what, "detail": self.detail}


@dataclass
class Result:
    func: str
    status: str  # identical | equivalent | differs | skipped
    ref_paths: int = 0
    cur_paths: int = 0
    obligations: int = 0
    level: str = ""
    note: str = ""
    mismatch: Mismatch | None = None
    depth: int = 0  # loop iterations the difference was found with


class Pair:
    """A reference program and a current program with what they have in common."""

    def __init__(self, ref: Program, cur: Program) -> None:
        self.ref, self.cur = ref, cur
        self.renamed = find_renames(ref, cur)
        if self.renamed:
            apply_renames(cur, self.renamed)
        self.moved_home = undo_moves(ref, cur)
        self.rf = {f.key: f for f in ref.all_funcs()}
        self.cf = {f.key: f for f in cur.all_funcs()}
        self.eff_r, self.eff_c = Effects(ref), Effects(cur)
        self.mutable = self.eff_r.mutable | self.eff_c.mutable
        self.stable = self.mutable - self.eff_r.rebound - self.eff_c.rebound
        self.dump_r = {k: norm_dump(f.node) for k, f in self.rf.items()}
        self.dump_c = {k: norm_dump(f.node) for k, f in self.cf.items()}
        self.common = {k for k in self.rf if k in self.cf and self.sig_compatible(self.rf[k], self.cf[k])}
        self.classes = {c.key for m in ref.modules.values() for c in m.classes.values()} & {c.key for m in cur.modules.values() for c in m.classes.values()}
        self.ref_types = Interp(ref, Cfg())

        from .defs import Resolver

        self.alias: dict[str, str] = {}
        self._rr, self._cr = Resolver(ref), Resolver(cur)
        odd = {k for k in self.rf if k not in self.common} | {k for k in self.cf if k not in self.common and k in self.rf}
        self.odd_names = {k.split(":")[1].split(".")[-1] for k in odd}
        self._moved: dict[str, bool] = {}
        self.not_inlined: set = set()

    def rebinds(self, key: str) -> bool:
        """An unchanged body whose global names denote something else, or that uses a function whose signature changed."""
        if key in self._moved:
            return self._moved[key]
        f, g = self.rf[key], self.cf[key]
        out = False
        seen = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in self.odd_names:
                out = True
            elif isinstance(n, ast.Name) and n.id not in seen:
                seen.add(n.id)
                a, b = self._rr.name(f.module, n.id), self._cr.name(g.module, n.id)
                if b[0] == "g":
                    b = ("g", self.alias.get(b[1], b[1]))
                if a != b or n.id in self.odd_names:
                    out = True
            if out:
                break
        self._moved[key] = out
        return out

    def same(self, key: str) -> bool:
        return self.dump_r[key] == self.dump_c.get(key) and not self.rebinds(key)

    def changed(self) -> list[str]:
        return [k for k in self.rf if k not in self.cf or not self.same(k)]

    @staticmethod
    def params(f: Func):
        a = f.node.args
        return [p.arg for p in a.posonlyargs + a.args], [p.arg for p in a.kwonlyargs], bool(a.vararg), bool(a.kwarg)

    def sig_compatible(self, r: Func, c: Func) -> bool:
        rp, rk, rv, rw = self.params(r)
        cp, ck, cv, cw = self.params(c)
        if (rv, rw) != (cv, cw) or r.is_async != c.is_async:
            return False
        if sorted(d for d in r.decorators) != sorted(d for d in c.decorators):
            return False
        if len(rp) == len(cp) and (sorted(rk) == sorted(ck) or len(rk) == len(ck)):
            if rp == cp or set(rp).isdisjoint(set(cp) - {"self", "cls"}) or sum(x != y for x, y in zip(rp, cp)) <= 1 or set(rp) != set(cp):
                return True
            return False
        # extra parameters with defaults
        nd = len(c.node.args.defaults)
        if len(cp) >= len(rp) and cp[: len(rp)] == rp and set(rk) <= set(ck):
            extra_pos = len(cp) - len(rp)
            if extra_pos <= nd:
                kd = {p.arg for p, d in zip(c.node.args.kwonlyargs, c.node.args.kw_defaults) if d is not None}
                return set(ck) - set(rk) <= kd
        return False


class Side:
    def __init__(self, pair: Pair, prog: Program, eff: Effects, is_ref: bool, level: str, unroll: int, max_paths: int) -> None:
        self.pair, self.prog, self.eff, self.is_ref, self.level = pair, prog, eff, is_ref, level
        self.unroll, self.max_paths = unroll, max_paths
        self.while_unroll = 0
        self.moved: frozenset = frozenset()  # names of functions only one of the two versions calls
        self.inline_modules: set[str] = set()
        self.locals: frozenset = frozenset()

    def cfg(self, root: Func) -> Cfg:
        def inline(f: Func) -> bool:
            if f.key == root.key:
                return False
            if f.cls is not None and "Protocol" in f.cls.base_names:
                return False
            if f.key not in self.pair.common:
                return True
            if self.level == "module":
                return not f.is_generator and (f.name in self.moved or self.pair.dump_r.get(f.key) != self.pair.dump_c.get(f.key))
            if self.level == "changed":
                return self.pair.dump_r.get(f.key) != self.pair.dump_c.get(f.key)
            return False

        return Cfg(inline=inline, volatile=lambda a: not isinstance(a, str) or a in self.pair.mutable, stable=lambda a: a in self.pair.stable, unroll=self.unroll,
                   max_paths=self.max_paths, rel=True, purity=self.purity, types={}, max_depth=8, while_unroll=self.while_unroll or self.unroll,
                   local_opaque=(lambda f: f.name in self.locals) if self.locals else None)

    def interp(self, root: Func) -> Interp:
        it = Interp(self.prog, self.cfg(root), known_funcs=self.pair.common)
        it.known_classes = self.pair.classes
        it.not_inlined = self.pair.not_inlined
        it.always_raise = self.pair.eff_r.always_raise & self.pair.eff_c.always_raise
        it.checks = self.is_check
        it.mutates = self.mutated_params
        it.seeded = not self.is_ref
        if not self.is_ref:
            it.type_source = self.pair.ref_types
        it.param_names = self.canon_names
        it.method_hint = self.only_method
        for p in (a := root.node.args).posonlyargs + a.args + a.kwonlyargs:
            ck = self.pair.ref_types.annotation_class(root.module, p.annotation) if self.is_ref else None
            if ck:
                it.cfg.types.setdefault(P(p.arg), ck)
        if not self.is_ref and root.key in self.pair.rf:
            rf = self.pair.rf[root.key]
            for p in (a := rf.node.args).posonlyargs + a.args + a.kwonlyargs:
                ck = self.pair.ref_types.annotation_class(rf.module, p.annotation)
                if ck:
                    it.cfg.types.setdefault(P(p.arg), ck)
        if root.key in self.pair.rf:
            for p in (a := self.pair.rf[root.key].node.args).posonlyargs + a.args + a.kwonlyargs:
                if p.annotation is not None:
                    it.anns[P(p.arg)] = p.annotation
                if isinstance(p.annotation, ast.Name) and p.annotation.id == "bool":
                    it.bools.add(P(p.arg))
        return it

    def mutated_params(self, fn: Func):
        e = self.pair.eff_r.of(fn.key) if fn.key in self.pair.rf else self.eff.of(fn.key)
        return {w[6:] for w in e.writes if w.startswith("param:")} if e is not None else set()

    def is_check(self, t, it: Interp, st) -> bool:
        """A call made only because it may raise."""
        if self.purity(t[1], last_name(t[1]), it, st) in (None, "total"):
            return False
        fn, _ = it.resolve_fn(t[1], st)
        if fn is None and t[1][0] == "a" and isinstance(t[1][2], str):
            e = self.pair.eff_r.method_effect(t[1][2])
            return e is not None and e.raises and t[1][2] not in EXTRA_PURE_METHODS
        e = self.pair.eff_r.of(fn.key) if fn is not None else None
        return e is not None and e.raises

    def canon_names(self, fn: Func) -> dict:
        ref = self.pair.rf.get(fn.key)
        a = fn.node.args
        pos, kwo = [p.arg for p in a.posonlyargs + a.args], [p.arg for p in a.kwonlyargs]
        if ref is None or self.is_ref:
            return {n: n for n in pos + kwo}
        r = ref.node.args
        rpos, rkw = [p.arg for p in r.posonlyargs + r.args], [p.arg for p in r.kwonlyargs]
        out = dict(zip(pos, rpos))
        if sorted(rkw) == sorted(kwo):
            out.update({k: k for k in kwo})
        else:
            left = [k for k in rkw if k not in kwo]
            for k in kwo:
                if k in rkw:
                    out[k] = k
                elif left:
                    out[k] = left.pop(0)
        return out

    def only_method(self, name: str) -> Func | None:
        if name in EXTRA_PURE_METHODS:
            return None
        cands = [c for c in self.eff.by_method.get(name, []) if c.key in self.pair.common]
        if len(cands) == 1 or (len(cands) > 1 and len({tuple(map(str, Pair.params(c))) for c in cands}) == 1):
            return cands[0]
        return None

    def purity(self, f, name, it: Interp, st: State) -> str | None:
        """'total' | 'pure' | 'reads' or None when the call has an effect of its own."""
        if f[0] == "b":
            if name in TOTAL_BUILTINS:
                return "total"
            b = getattr(builtins, name or "", None)
            if name in ("next", "setattr", "delattr", "exec", "eval", "compile", "__import__", "open", "input", "print", "anext", "aiter"):
                return None
            return "pure" if b is not None else None
        fn, _ = it.resolve_fn(f, st)
        if fn is not None:
            if fn.is_async:
                return None
            # the weaker of both trees: a call whose callee gained an effect is compared at the callee
            e = self.pair.eff_r.of(fn.key) or self.eff.of(fn.key)
            if e is None or not e.pure:
                return None
            it.last_reads = e.reads & self.pair.mutable
            return "reads" if it.last_reads else "pure"
        if f[0] == "x":
            mod, _, nm = f[1].rpartition(".")
            if nm[:1].isupper() and mod in PURE_MODULES:
                return "pure"
            if mod in PURE_MODULES or nm in PURE_EXTERNAL or mod.split(".")[0] in ("ast", "inspect", "typing", "logging"):
                return "pure"
            return None
        if f[0] == "g":
            return None
        if f[0] == "a":
            root = f[1]
            if root[0] == "g" and (last_name(root) or "").lower() in ("logger", "log", "_logger"):
                return "total"
            if name in ("acquire", "release"):
                return None
            ck = it.type_of(root, st)
            if ck is None:
                e = self.pair.eff_r.method_effect(name) if name else None
                if e is not None and name not in EXTRA_PURE_METHODS:
                    fs = self.pair.eff_r.by_method[name]
                    if any(x.is_async for x in fs) or any("Protocol" in (x.cls.base_names if x.cls else ()) for x in fs):
                        return None
                    if not e.pure:
                        return None
                    it.last_reads = e.reads & self.pair.mutable
                    return "reads" if it.last_reads else "pure"
            if name in EXTRA_PURE_METHODS and not it._ctxvar(root):
                return "total" if name in ("startswith", "endswith", "join", "strip", "items", "keys", "values", "copy", "format") else "pure"
            return None
        if f[0] == "super":
            return None
        return None


class Canon:
    """Rewrites terms of one side into a form comparable across both trees, under the facts of the current path."""

    def __init__(self, pair: Pair, side: Side, it: Interp, st: State, facts: State, fit: Interp) -> None:
        self.pair, self.side, self.it, self.st, self.facts, self.fit = pair, side, it, st, facts, fit
        self.closures: list[tuple] = []
        self.depth = 0

    def term(self, t):
        self.depth += 1
        try:
            if self.depth > 240:
                return ("deep",)
            return self._term(t)
        finally:
            self.depth -= 1

    def _known(self, t):
        st = self.facts
        if t in st.eq and (is_const(st.eq[t]) or st.eq[t][0] in ("g", "a", "x", "b")):
            return st.eq[t]
        k = t[0]
        if k in ("cmp", "isinst", "not", "and", "or") or (k in ("p", "a", "call") and self.fit.is_bool(t, st)):
            try:
                b = self.fit.known_truth(t, st.fork())
            except Exception:  # noqa: BLE001
                b = None
            if b is not None:
                return TRUE if b else FALSE
        if st.atoms.get(("t", t, 0)) is False and k in ("call", "a", "i") and self.it.is_tuple(t, st):
            return ("tup", ())
        return None

    def _repacked(self, items):
        """The tuple whose every element, in order, is repeated."""
        x = items[0]
        if not (isinstance(x, tuple) and x and x[0] in ("el", "i")):
            return None
        src = x[1]
        if any(it[0] not in ("el", "i") or it[1] != src or it[2] not in (n, C(n)) or is_const(it[2]) and type(cval(it[2])) is not int for n, it in enumerate(items)):
            return None
        try:
            ann = self.it.annotation_of(src, self.st)
        except Exception:  # noqa: BLE001
            return None
        if not (isinstance(ann, ast.Subscript) and getattr(ann.value, "id", None) == "tuple" and isinstance(ann.slice, ast.Tuple)):
            return None
        n = len(ann.slice.elts)
        return src if n == len(items) and not (isinstance(ann.slice.elts[-1], ast.Constant) and ann.slice.elts[-1].value is Ellipsis) else None

    def _same_key(self, a, b) -> bool:
        try:
            return self.fit.known_cmp("==", a, b, self.facts) is True
        except Exception:  # noqa: BLE001
            return False

    def _count(self, base):
        """Exact number of elements of an unknown iterable, when the facts determine it."""
        st = self.facts
        if (n := self.fit.range_stop(base)) is not None:
            for k in range(0, 6):
                b = self.fit.known_cmp(">", n, C(k), st)
                if not b:
                    return k if b is False else None
            return None
        for k in range(0, 6):
            at = ("t", base, k)
            v = st.atoms.get(at)
            if v is None and k == 0:
                v = self.fit.known_truth(base, st.fork()) if base[0] not in ("ref",) else None
                if v is True:
                    continue
            if v is False:
                return k
            if v is None and not any(st.atoms.get(("t", base, j)) for j in range(k + 1, k + 4)):
                return None
        return None

    def _spliced(self, items):
        out = []
        for x in items:
            if isinstance(x, tuple) and x and x[0] == "star":
                els = self._expand(x[1])
                if els is not None:
                    out += els
                    continue
            out.append(x)
        return out

    def _expand(self, it):
        """Element terms of an iterable with a known count."""
        if it[0] in ("tup", "lst"):
            return list(it[1])
        if it[0] == "call" and it[1] == ("b", "zip"):
            parts = [self._expand(x) for x in it[2]]
            if any(p is None for p in parts):
                return None
            return [("tup", z) for z in zip(*parts)]
        try:
            base, mk, items = self.it.iter_split(it, self.st)
        except Exception:  # noqa: BLE001
            return None
        if items is not None:
            return list(items)
        if base is None:
            return None
        n = self._count(base)
        if n is None:
            return None
        return [mk(k) for k in range(n)]

    def _term(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "c":
            return t
        if t[0] in ("ref", "node"):
            t = self.st.deref(t)
        kv = self._known(t)
        if kv is not None and kv != t:
            return self._term(kv) if kv[0] != "c" else kv
        k = t[0]
        if k == "el" and t[1][0] == "rev" and type(t[2]) is int and not self.st.muts.get(t[1][1]):
            # the last element of a sequence of known length
            n = self._count(t[1][1])
            if n is not None and n > t[2]:
                return self.term(("el", t[1][1], n - 1 - t[2]))
        if k == "a":
            return ("a", self.term(t[1]), t[2] if isinstance(t[2], str) else self.term(t[2]))
        if k in ("call", "coro"):
            return self.call_term(t[1], t[2], t[3])
        if k == "new":
            return ("new", t[1], self.fields(t[1], t[2]))
        if k in ("lst", "tup"):
            items = self._spliced(t[1])
            if k == "tup" and items and (whole := self._repacked(items)) is not None:
                return self.term(whole)
            if len(items) == 1 and isinstance(items[0], tuple) and items[0] and items[0][0] == "star":
                # a sequence made of one whole iterable is that iterable, converted
                x = self.term(items[0][1])
                while x[0] == "call" and x[1] in (("b", "list"), ("b", "tuple")) and len(x[2]) == 1 and not (len(x) > 3 and x[3]):
                    x = x[2][0]
                if k == "lst" and x[0] == "call" and x[1] == ("b", "sorted"):
                    return x
                return ("call", ("b", "list" if k == "lst" else "tuple"), (x,), ())
            return (k, tuple(self.term(x) for x in items))
        if k == "set":
            return ("set", tuple(sorted({self.term(x) for x in self._spliced(t[1])}, key=repr)))
        if k == "dct":
            pairs = []
            for a, b in t[1]:
                els = self._expand(a[1]) if a[0] == "starstar" and a[1][0] == "call" and a[1][1][0] == "b" and a[1][1][1] in ("zip", "enumerate") else None
                if els is not None and all(e[0] == "tup" and len(e[1]) == 2 for e in els):
                    pairs += [e[1] for e in els]
                else:
                    pairs.append((a, b))
            out = []
            for a, b in pairs:
                # a key equal to an earlier one replaces that one's value
                at = None
                if a[0] != "starstar":
                    at = next((n for n, (o, _) in enumerate(out) if o[0] != "starstar" and (o == a or not is_const(o) and not is_const(a) and self._same_key(o, a))), None)
                if at is None:
                    out.append((a, b))
                else:
                    out[at] = (out[at][0], b)
            return ("dct", tuple((self.term(a), self.term(b)) for a, b in out))
        if k == "fn":
            self.closures.append((self.it, self.st, t))
            return ("closure",) + ((tuple(self.term(d) for d in t[3]),) if len(t) > 3 and t[3] else ())
        if k == "gen":
            self.closures.append((self.it, self.st, t))
            return ("genclosure",)
        if k == "gencall":
            self.closures.append((self.it, self.st, t))
            return ("genclosure",)
        if k == "bm":
            self_t = self.term(t[3]) if t[3] is not None else None
            key = f"{t[1]}.{t[2]}"
            if key not in self.pair.common:
                self.closures.append((self.it, self.st, t))
                return ("closure",)
            if self_t is None:
                return ("g", key)
            return ("a", self_t, t[2])
        if k == "g":
            short, nm = t[1].split(":", 1)
            m = self.side.prog.by_short.get(short)
            if not self.side.is_ref and t[1] in self.pair.alias:
                return ("g", self.pair.alias[t[1]])
            if m is not None and nm in m.funcs and t[1] not in self.pair.common:
                self.closures.append((self.it, self.st, t))
                return ("closure",)
            return t
        if k == "localclass":
            return ("localclass", t[1])
        if k == "f":
            parts = []
            for x in t[1]:
                parts.append(x if isinstance(x, str) else self.term(x))
            return mk_fstr(parts)
        if k == "exc":
            return ("exc", self.term(t[1]))
        if k == "cmp":
            a, b = self.term(t[2]), self.term(t[3])
            op = t[1]
            if op in ("is", "==", "is not", "!="):
                a, b = sorted((a, b), key=repr)
            elif op in (">", ">="):
                op, a, b = {">": "<", ">=": "<="}[op], b, a
            return ("cmp", op, a, b)
        if k == "max" and t[3] is None:
            m = self.fit.mk_max(t[1], list(t[2]), None, self.facts.fork())
            if m != t:
                return self.term(m)
        if k == "match":
            return ("match", t[1], self.term(t[2]))
        return tuple(self.term(x) if isinstance(x, tuple) else x for x in t)

    def fields(self, ckey, fields):
        out = {n: v for n, v in fields}
        c = self.it.class_by_key(ckey) if ":" in ckey and not ckey.startswith("builtins") else None
        if c is not None:
            if self.it.exc_subclass(c.name, "Exception"):
                return ()
            if c.is_dataclass:
                for n, ann, d in c.fields:
                    if n not in out and d is not None:
                        lit = self.it.literal(d, c.module)
                        out[n] = lit if lit is not None else ("default", ast.dump(d))
            else:
                init = self.side.prog.find_method(c, "__init__")
                if init is not None:
                    self.fill_defaults(init, out)
        elif ckey.startswith("builtins"):
            return ()
        return tuple(sorted(((n, self.term(v)) for n, v in out.items()), key=lambda kv: kv[0]))

    def fill_defaults(self, fn: Func, out: dict):
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        for n, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in out:
                lit = self.it.literal(d, fn.module)
                out[n] = lit if lit is not None else self.it.default_term(d, fn.module)

    def callee(self, f):
        """(function or None, bound self term or None)"""
        fn, bound = self.it.resolve_fn(f, self.st)
        if fn is None and f[0] == "a" and isinstance(f[2], str):
            cands = self.side.eff.by_method.get(f[2], [])
            if len(cands) == 1 and f[2] not in EXTRA_PURE_METHODS:
                return cands[0], f[1]
            if len(cands) > 1:
                sigs = {tuple(map(str, Pair.params(c))) for c in cands}
                if len(sigs) == 1:
                    return cands[0], f[1]
        return fn, bound

    def call_term(self, f, args, kws):
        fn, bound = self.callee(f)
        if fn is not None and fn.is_async and not fn.is_generator and ("<locals>" in fn.qual or fn.key not in self.pair.common):
            vals = self.it.bind(fn, bound, args, kws, self.st, f)
            if vals is not None:
                # a coroutine that has not started: the function and its arguments
                self.closures.append((self.it, self.st, ("thunk", f, tuple(vals.items()))))
                return ("call", ("closure",), (), ())
        if fn is not None and "<locals>" not in fn.qual:
            named = self.bound_args(fn, bound is not None or (fn.cls is not None and f[0] == "bm" and f[3] is not None), args, kws)
            if named is not None:
                if f[0] in ("bm", "a") and bound is not None:
                    head = ("a", self.term(bound), fn.name)
                else:
                    head = ("g", fn.key)
                return ("call", head, named)
        head = self.term(f)
        pos = [self.term(a) for a in self._spliced(list(args))]
        if head in (("b", "list"), ("b", "tuple")) and len(pos) == 1 and not kws:
            while pos[0][0] == "call" and pos[0][1] in (("b", "list"), ("b", "tuple")) and len(pos[0][2]) == 1 and not pos[0][3]:
                pos = [pos[0][2][0]]
            if head == ("b", "list") and pos[0][0] == "call" and pos[0][1] == ("b", "sorted"):
                return pos[0]
        return ("call", head, tuple(pos), tuple(sorted(((n, self.term(v)) for n, v in kws), key=lambda kv: kv[0])))

    def bound_args(self, fn: Func, skip_self: bool, args, kws):
        ref = self.pair.rf.get(fn.key)
        cur = fn
        pos = [p.arg for p in cur.node.args.posonlyargs + cur.node.args.args]
        kwo = [p.arg for p in cur.node.args.kwonlyargs]
        names = self.side.canon_names(cur)
        names = {n: names.get(n, n) for n in pos + kwo}
        if not args and set(dict(kws)) <= set(names.values()) and not set(dict(kws)) <= set(names):
            return tuple(sorted(((n, self.term(v)) for n, v in kws), key=lambda kv: kv[0]))  # already canonical
        if skip_self and pos and "staticmethod" not in fn.decorators:
            pos = pos[1:]
        out = {}
        args = self._spliced(list(args))
        if any(isinstance(a, tuple) and a and a[0] == "star" for a in args) or len(args) > len(pos):
            return None
        for n, v in zip(pos, args):
            out[n] = v
        for n, v in kws:
            if n == "**" or n not in names:
                return None
            out[n] = v
        self.fill_defaults(fn, out)
        res = {}
        extra = set(out) - set(names)
        if extra:
            return None
        rnames = None
        if ref is not None:
            a = ref.node.args
            rnames = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        for n, v in out.items():
            rn = names[n]
            if rnames is not None and rn not in rnames:
                continue  # new optional parameter at its default: compared where it is read
            res[rn] = v
        res.pop("self", None) if skip_self else None
        return tuple(sorted(((n, self.term(v)) for n, v in res.items()), key=lambda kv: kv[0]))


# ---------------------------------------------------------------- summaries


def summarize(path: Path, cn: Canon, ignore_stores) -> tuple:
    evs = []
    for e in path.events:
        if e.kind in ("raise", "caught"):
            continue
        if e.kind == "new":
            ck = e.term[1]
            c = cn.it.class_by_key(ck)
            init = cn.side.prog.find_method(c, "__init__") if c is not None else None
            eff = cn.pair.eff_r.of(init.key) if init is not None else None
            if eff is not None and not eff.pure:
                evs.append(("new", ck, cn.fields(ck, e.kwargs)))
            continue
        if e.kind == "call":
            evs.append(("call", cn.call_term(e.term, e.args, e.kwargs)))
        elif e.kind == "check":
            evs.append(("check", cn.call_term(e.term[1], e.term[2], e.term[3]) if e.term[0] == "call" else cn.term(e.term)))
        elif e.kind == "store":
            tgt = cn.term(e.term)
            if ignore_stores(e):
                continue
            evs.append(("store", tgt, cn.term(e.value)))
        elif e.kind == "mut" and e.name == "extend" and len(e.args) == 1 and (xs := cn._expand(cn.st.deref(e.args[0]))) is not None and not any(isinstance(x, tuple) and x and x[0] == "star" for x in xs):
            for x in xs:
                evs.append(("mut", "append", cn.term(e.term), (cn.term(x),), ()))
        elif e.kind == "mut":
            evs.append(("mut", e.name, cn.term(e.term), tuple(cn.term(a) for a in cn._spliced(list(e.args))), tuple((n, cn.term(v)) for n, v in e.kwargs)))
        elif e.kind == "del":
            evs.append(("del", cn.term(e.term)))
        elif e.kind == "exit":
            evs.append(("exit", cn.term(e.term), cn.term(e.args[0]) if e.args else None))
        elif e.kind == "enter":
            evs.append(("enter", cn.term(e.term), cn.term(e.value)))
        elif e.kind == "await":
            evs.append(("await", cn.term(e.term) if e.term is not None else None))
        elif e.kind == "yield":
            evs.append(("yield", e.name, cn.term(e.term if e.term is not None else e.value)))
        else:
            evs.append((e.kind, cn.term(e.term) if isinstance(e.term, tuple) else None))
    evs = normal_order(evs)
    if path.kind == "raise":
        nm = exc_class_name(path.exc)
        out = ("raise", nm, *fallible_reads(cn, path.exc)) if nm is not None and path.exc[0] == "new" else ("raise", cn.term(path.exc))
    else:
        out = ("ret", cn.term(path.ret))
    return tuple(evs), out


def fallible_reads(cn, exc) -> list:
    """The text of a message is free, but reading `x.__name__` for it fails for objects without a name."""
    out = set()

    def walk(t):
        if not isinstance(t, tuple) or not t or t[0] == "c":
            return
        if t[0] == "a" and len(t) > 2 and isinstance(t[2], str) and t[2].startswith("__") and not (t[1][0] == "call" and show(t[1]).startswith("type(")):
            out.add(cn.term(t))
        for x in t:
            walk(x)

    walk(exc[2:])
    return sorted(out, key=repr)


def _loc(ev):
    if ev[0] == "store":
        return ev[1]
    if ev[0] == "del":
        return ev[1]
    if ev[0] == "mut":
        return ev[2]
    return None


def _shape(t):
    """Location without its object (may alias)."""
    if t[0] == "a":
        return ("a", t[2])
    if t[0] in ("i", "el"):
        return _shape(t[1]) + ("[]",) if isinstance(t[1], tuple) and t[1][0] in ("a", "i") else ("[]", repr(t[1]))
    return ("o", repr(t))


def normal_order(evs):
    """Sort maximal runs of plain writes to different locations; drop dead writes inside a run."""
    out, run = [], []

    def flush():
        if not run:
            return
        groups: dict = {}
        for i, e in enumerate(run):
            groups.setdefault(repr(_shape(_loc(e))), []).append(e)
        for k in sorted(groups):
            g = groups[k]
            keep = []
            for i, e in enumerate(g):
                if e[0] == "store" and any(x[0] == "store" and x[1] == e[1] for x in g[i + 1:]):
                    continue
                keep.append(e)
            out.extend(keep)
        run.clear()

    for e in evs:
        if _loc(e) is not None:
            run.append(e)
        else:
            flush()
            out.append(e)
    flush()
    return sort_checks(out)


def sort_checks(evs):
    """The order and repetition of consecutive checks without effects in between is immaterial."""
    out, run = [], []
    for e in evs + [None]:
        if e is not None and e[0] == "check":
            run.append(e)
            continue
        out += sorted(set(run), key=repr)
        run = []
        if e is not None:
            out.append(e)
    return out


# ---------------------------------------------------------------- comparison


class Diff(Exception):
    def __init__(self, what, detail, line=0, file=""):
        self.what, self.detail, self.line, self.file = what, detail, line, file


class OutOfTime(BaseException):
    pass


READ_DECORATORS = {"staticmethod", "classmethod", "property", "contextmanager", "asynccontextmanager", "overload", "cached_property", "wraps"}


def _worker(comp, key, out, seconds) -> None:
    def alarm(*_):
        raise OutOfTime

    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(seconds)
    try:
        r = comp.compare(key)
    except OutOfTime:
        r = Result(key, "skipped", note="time budget exceeded")
    except Exception as e:  # noqa: BLE001
        r = Result(key, "skipped", note=f"internal error: {e!r}"[:300])
    signal.alarm(0)
    out.send(r)
    out.close()
    os._exit(0)


class Comparator:
    def __init__(self, pair: Pair, unroll: int = 2, max_paths: int = 6000, deep_unroll: int = 4, deep_paths: int = 4000) -> None:
        self.depth = (0, 0)
        self.samples, self.seed, self.sampled_paths = 40, 1, 0
        self.deep_unroll, self.deep_paths = deep_unroll, deep_paths
        self.pair = pair
        self.unroll = unroll
        self.max_paths = max_paths
        self.cache: dict[str, Result] = {}
        self.absorbed: dict[frozenset, dict[str, Result]] = {}
        self.force = False
        self.generated_ok: set = set()
        self.memo_attrs: set[str] = set()
        self.absorbing = 0  # iterations to compare with while helpers are read inside their callers

    def sides(self, level):
        p = self.pair
        return (Side(p, p.ref, p.eff_r, True, level, self.unroll, self.max_paths), Side(p, p.cur, p.eff_c, False, level, self.unroll, self.max_paths))

    # -- functions -------------------------------------------------------
    def compare_all(self, keys, jobs: int = 0, limit: float = 800.0) -> None:
        """Fills the cache for the functions that are not textually identical, each in a process of its own with a time and memory limit."""
        todo = [k for k in keys if k not in self.cache and (k not in self.pair.cf or self.force or not self.pair.same(k))]
        if not todo:
            return
        todo.sort(key=lambda k: -len(self.pair.dump_r.get(k, "")))
        jobs = min(jobs or os.cpu_count() or 1, len(todo), 8)
        end = time.time() + limit
        running: dict = {}
        ctx = multiprocessing.get_context("fork")
        while todo or running:
            while todo and len(running) < jobs:
                k = todo.pop(0)
                rd, wr = ctx.Pipe(False)
                pr = ctx.Process(target=_worker, args=(self, k, wr, max(1, min(300, int(end - time.time())))), daemon=True)
                pr.start()
                wr.close()
                running[k] = (pr, rd)
            multiprocessing.connection.wait([rd for _, rd in running.values()], timeout=1)
            for k, (pr, rd) in list(running.items()):
                r = None
                if rd.poll():
                    try:
                        r = rd.recv()
                    except EOFError:
                        r = Result(k, "skipped", note="no result")
                elif time.time() > end + 20:
                    r = Result(k, "skipped", note="time budget")
                    pr.kill()
                if r is not None:
                    self.cache[k] = r
                    rd.close()
                    pr.join()
                    del running[k]

    def compare(self, key: str) -> Result:
        if key in self.cache:
            return self.cache[key]
        r = self._compare(key)
        self.cache[key] = r
        return r

    def _compare(self, key: str) -> Result:
        p = self.pair
        rf, cf = p.rf.get(key), p.cf.get(key)
        if rf is None:
            return Result(key, "skipped", note="not in the reviewed tree")
        if cf is None:
            return Result(key, "skipped", note="removed; its body is compared at its callers")
        if not self.force and p.same(key):
            return Result(key, "identical")
        if key not in p.common:
            if sorted(set(rf.decorators) - READ_DECORATORS) != sorted(set(cf.decorators) - READ_DECORATORS):
                return Result(key, "differs", mismatch=Mismatch(key, cf.module.rel, cf.node.lineno, "decorators changed", f"required {rf.decorators}, found {cf.decorators}"))
            if not rf.name.startswith("_") or (rf.name.startswith("__") and rf.name.endswith("__")):
                return Result(key, "differs", mismatch=Mismatch(key, cf.module.rel, cf.node.lineno, "public signature changed", f"{ast.unparse(rf.node.args)} became {ast.unparse(cf.node.args)}"))
            return Result(key, "skipped", note="signature changed; its body is compared at its callers")
        last = None
        if self.absorbing:
            return self.compare_absorbing(rf, cf)
        steps = ((self.unroll, self.unroll), (1, self.unroll), (1, 1))
        levels = [(lv, *st) for lv in ("known", "changed", "module") for st in steps]
        locs = self.local_functions(rf, cf)
        strict = False
        if locs:
            levels = [("local", self.unroll, self.unroll), ("local-changed", self.unroll, self.unroll)] + levels
            a, b = self.locals_of(rf), self.locals_of(cf)
            strict = all(ast.dump(a[n]) == ast.dump(b[n]) for n in locs)
        differed: dict = {}
        for level, unroll, wu in levels:
            if level in differed:
                continue
            try:
                r = self.compare_at(rf, cf, level, unroll, locs, wu)
                if level == "module" and last is not None and last.status == "differs":
                    self.confirm(rf, cf, unroll, wu, differed)
                if level != "module":
                    self.deepen(rf, cf, level, r, locs, unroll)
                return r
            except TooManyPaths:
                if wu == 1 and last is None:
                    last = Result(key, "skipped", note="path budget exceeded")
            except RecursionError:
                last = last or Result(key, "skipped", note="recursion")
            except OutOfTime:
                return last or Result(key, "skipped", note="time or memory budget exceeded")
            except MemoryError:
                last = last or Result(key, "skipped", note="memory budget exceeded")
            except Diff as d:
                differed.setdefault(level, self.depth)
                if not level.startswith("local") and (last is None or last.status == "skipped" or level == "changed") or level.startswith("local") and strict:
                    last = Result(key, "differs", level=level, mismatch=Mismatch(key, cf.module.rel, d.line or cf.node.lineno, d.what, d.detail), depth=max(self.depth))
            if level == "local-changed" and strict and last is not None and last.status == "differs":
                return last
        return last

    def confirm(self, rf, cf, unroll, wu, differed) -> None:
        """Inlining everything may not overturn a difference that needs more iterations than were compared."""
        need = max(differed.values(), default=(0, 0))
        if need[0] <= unroll and need[1] <= wu:
            return
        try:
            self.compare_at(rf, cf, "module", max(need[0], unroll), frozenset(), max(need[1], wu))
        except (TooManyPaths, RecursionError):
            return

    # -- helpers whose contract with their callers changed ----------------------------------------------------------------
    def absorb(self, differing, limit: float = 150.0) -> dict[str, Result]:
        key = frozenset(differing)
        if key not in self.absorbed:
            self.absorbed[key] = self.absorb_now(differing, limit)
        return self.absorbed[key]

    def absorb_now(self, differing, limit: float) -> dict[str, Result]:
        """Differing functions that do not differ once private helpers are read inside their callers.

        A private function all of whose uses are direct calls has no behaviour of its own: what it does is what its callers
        do with it in place. Callers (and the helpers themselves) are cleared only together, all callers being equal.
        """
        from copy import copy

        helpers = {k: u for k in differing if (u := self.uses_of_helper(k)) is not None}
        cleared: dict[str, Result] = {}
        end = time.time() + limit
        while helpers:
            # a group: helpers connected through the functions that use them
            k0 = next(iter(helpers))
            group, users = {k0}, set(helpers[k0])
            grew = True
            while grew:
                grew = False
                for k, u in helpers.items():
                    if k not in group and (u & (users | group) or k in users):
                        group.add(k)
                        users |= u
                        grew = True
            need = max([self.result_depth(differing[k]) for k in (group | users) & differing.keys()], default=0)
            for k in group:
                helpers.pop(k)
            roots = {u for u in users if u not in group}
            if not roots or len(roots) > 12 or time.time() > end:
                continue
            pair = copy(self.pair)
            pair.common = self.pair.common - group
            pair.odd_names = self.pair.odd_names | {k.split(":")[1].split(".")[-1] for k in group}
            pair._moved = {}
            pair.not_inlined = set()
            sub = Comparator(pair, self.unroll, self.max_paths, self.deep_unroll, self.deep_paths)
            sub.absorbing = max(need, self.unroll)
            sub.generated_ok, sub.memo_attrs = self.generated_ok, self.memo_attrs
            sub.compare_all(sorted(roots), limit=max(1.0, end - time.time()))
            rs = {k: sub.cache[k] if k in sub.cache else sub.compare(k) for k in roots}
            if all(r.status == "equivalent" for r in rs.values()):
                for k in group:
                    cleared[k] = Result(k, "skipped", note="read inside its callers: " + ", ".join(sorted(rs)))
                for k in roots & differing.keys():
                    cleared[k] = rs[k]
        return cleared

    def compare_absorbing(self, rf, cf) -> Result:
        p = self.pair
        r = Result(rf.key, "skipped", note="not compared")
        for level in ("known", "changed", "module"):
            p.not_inlined.clear()
            try:
                r = self.compare_at(rf, cf, level, self.absorbing)
            except Diff as d:
                r = Result(rf.key, "differs", level=level, mismatch=Mismatch(rf.key, cf.module.rel, d.line or cf.node.lineno, d.what, d.detail))
                continue
            except (TooManyPaths, RecursionError, MemoryError):
                r = Result(rf.key, "skipped", note="path budget exceeded")
                continue
            if p.not_inlined & {k for k in p.rf if k not in p.common and k in p.cf}:
                return Result(rf.key, "skipped", note="a helper could not be read in place")
            return r
        return r

    @staticmethod
    def result_depth(r: Result) -> int:
        return r.depth

    def uses_of_helper(self, key: str):
        """The functions that use a private function, if direct calls are all there is."""
        p = self.pair
        rf, cf = p.rf.get(key), p.cf.get(key)
        if rf is None or cf is None or not rf.name.startswith("_") or rf.name.startswith("__") or key not in p.common:
            return None
        users = set()
        for prog, f, funcs in ((p.ref, rf, p.rf), (p.cur, cf, p.cf)):
            if f.is_generator or f.decorators and f.decorators != ["staticmethod"]:
                return None
            if sum(g.name == f.name for g in funcs.values()) != 1:
                return None
            for m in prog.modules.values():
                calls, awaited, owner = set(), set(), {}
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call):
                        calls.add(id(n.func))
                    elif isinstance(n, ast.Await) and isinstance(n.value, ast.Call):
                        awaited.add(id(n.value.func))
                for g in funcs.values():
                    if g.module is m:
                        for n in ast.walk(g.node):
                            owner[id(n)] = g
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and f.name in n.value:
                        return None
                    if isinstance(n, ast.ImportFrom) and any(a.name == f.name for a in n.names):
                        continue
                    if not (isinstance(n, ast.Name) and n.id == f.name or isinstance(n, ast.Attribute) and n.attr == f.name):
                        continue
                    g = owner.get(id(n))
                    if id(n) not in calls or g is None or g.key == key or f.is_async and id(n) not in awaited:
                        return None
                    if f.cls is not None:
                        if not isinstance(n, ast.Attribute) or not isinstance(n.value, ast.Name) or n.value.id not in ("self", "cls", f.cls.name) or g.cls is not f.cls:
                            return None
                    elif not isinstance(n, ast.Name):
                        return None
                    if g.key in (p.cf if funcs is p.rf else p.rf):
                        users.add(g.key)
                    else:
                        return None
        return users

    def moved_calls(self, rf, cf) -> frozenset:
        """Functions called (once more) in one version only, looking through functions that exist on one side only."""
        def calls(f, prog, funcs, other):
            from collections import Counter

            out, todo, seen = Counter(), [f], {f.key}
            by_name: dict = {}
            for k, g in funcs.items():
                if k not in other:
                    by_name.setdefault(g.name, []).append(g)
            while todo:
                g = todo.pop()
                for x in ast.walk(g.node):
                    n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                    if n is None:
                        continue
                    out[n, isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"] += 1
                    for h in by_name.get(n, ()):
                        if h.key not in seen:
                            seen.add(h.key)
                            todo.append(h)
            return out

        a, b = calls(rf, self.pair.ref, self.pair.rf, self.pair.common), calls(cf, self.pair.cur, self.pair.cf, self.pair.common)
        known = {self.pair.rf[k].name for k in self.pair.common}
        return frozenset(n for n, own in a.keys() | b.keys() if n in known and a[n, own] != b[n, own])

    def deepen(self, rf, cf, level, r: Result, locs, unroll) -> None:
        """More loop iterations, as far as the budget goes."""
        loops = [n for f in (rf, cf) for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While, ast.comprehension, ast.AsyncFor))]
        if not loops:
            return
        steps = []
        if unroll == self.unroll and r.ref_paths <= 400:
            steps = [(u, u) for u in range(self.unroll + 1, self.deep_unroll + 1)]
        if any(isinstance(n, ast.While) for n in loops):
            steps += [(1, w) for w in range(self.unroll + 1, self.deep_unroll + 1)]
        saved = self.max_paths
        self.max_paths = self.deep_paths
        failed = set()
        u_done = 0
        try:
            for u, w in steps:
                if u in failed:
                    continue
                try:
                    d = self.compare_at(rf, cf, level, u, locs, w)
                except (TooManyPaths, RecursionError):
                    failed.add(1 if u == 1 else u)
                    continue
                if u > 1:
                    r.ref_paths, r.cur_paths, r.obligations = d.ref_paths, d.cur_paths, d.obligations
                if d.ref_paths > 400:
                    failed |= {x for x in range(u, 99)} if u > 1 else {1}
                if u > 1:
                    u_done = u
            if u_done < self.deep_unroll:
                self.sampled(rf, cf, level, locs, self.unroll + 1)
        finally:
            self.max_paths = saved

    def sampled(self, rf, cf, level, locs, unroll) -> None:
        """Paths of the reviewed function taken in random (seeded) branch order, where all of them are too many."""
        rs, cs = self.sides({"local": "known", "local-changed": "changed"}.get(level, level))
        rs.unroll = cs.unroll = rs.while_unroll = cs.while_unroll = unroll
        self.depth = (unroll, unroll)
        if level.startswith("local"):
            rs.locals = cs.locals = locs
        args_c = self.map_params(rf, cf)
        seen = set()
        for k in range(self.samples):
            rit = rs.interp(rf)
            rit.rng = random.Random(f"{self.seed}:{rf.key}:{k}")
            try:
                for rp in rit.run(rf, first=2):
                    h = (tuple(sorted(map(repr, rp.state.atoms.items()))), tuple(sorted(map(repr, rp.state.eq.items()))))
                    if h in seen:
                        continue
                    seen.add(h)
                    cit, cpaths = self.current_paths(cs, cf, args_c, rp)
                    for cp in cpaths:
                        self.equal(rs, rit, rp, cs, cit, cp, rf.key, 0)
            except (TooManyPaths, RecursionError):
                continue
        self.sampled_paths += len(seen)

    def local_functions(self, rf: Func, cf: Func) -> frozenset:
        """Pure local functions both versions have: they stay uninterpreted when they are alike."""
        a, b = self.locals_of(rf), self.locals_of(cf)
        out = set()
        for n in a.keys() & b.keys():
            if ast.dump(a[n].args) == ast.dump(b[n].args) and self.pure_local(rf, a[n]) and self.pure_local(cf, b[n]):
                out.add(n)
        return frozenset(out)

    @staticmethod
    def locals_of(f: Func) -> dict:
        out: dict = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.FunctionDef):
                out[n.name] = n if n.name not in out else None
        return {k: v for k, v in out.items() if v is not None}

    @staticmethod
    def pure_local(f: Func, node) -> bool:
        own = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(node) if isinstance(x, ast.arg)}
        outer = [x.id for x in walk_own(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
        free = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} - own
        if any(outer.count(v) > 1 for v in free) or any(isinstance(x, (ast.For, ast.While)) and {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} & free for x in walk_own(f.node)):
            return False
        if node.decorator_list or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.Global, ast.Raise, ast.Try, ast.With, ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for y in node.body for x in ast.walk(y)):
            return False
        for x in ast.walk(node):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(x, ast.Call):
                mod = x.func.value if isinstance(x.func, ast.Attribute) else None
                if isinstance(mod, ast.Name) and f.module.imports.get(mod.id, ("", ""))[0] in PURE_MODULES:
                    continue
                if isinstance(x.func, ast.Name) and x.func.id in TOTAL_BUILTINS | {"cast"}:
                    continue
                return False
        return True

    def compare_locals(self, rf, cf, rs, cs, locs) -> None:
        a, b = self.locals_of(rf), self.locals_of(cf)
        for n in locs:
            if ast.dump(a[n]) == ast.dump(b[n]):
                continue
            fr, fc = (Func(f.module, n, f"{f.qual}.<locals>.{n}", x, None) for f, x in ((rf, a[n]), (cf, b[n])))

            def run(side, f, outer, base):
                it = side.interp(outer)
                st = base or State()
                fid = st.new_id()
                st.frames[fid] = {"$parent": None, "$mod": f.module, "$fn": f, "$nonlocal": set(), "$stack": ()}
                names = {x.id for x in ast.walk(outer.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(outer.node.args) if isinstance(x, ast.arg)}
                for nm in names:
                    st.frames[fid][nm] = P("^" + nm)
                vals = {x.arg: P(x.arg) for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
                for x in f.node.args.kwonlyargs + f.node.args.args:
                    ck = it.annotation_class(f.module, x.annotation)
                    if ck:
                        it.cfg.types.setdefault(P(x.arg), ck)
                return it, [Path(s, oc, s.events(), it) for s, oc in it.exec_function(f, vals, st, fid)]

            rit, rps = run(rs, fr, rf, None)
            for rp in rps:
                cit, cps = run(cs, fc, cf, seed(rp.state))
                for cp in cps:
                    self.equal(rs, rit, rp, cs, cit, cp, f"{rf.key} → {n}", 0)

    def compare_at(self, rf: Func, cf: Func, level: str, unroll: int, locs=frozenset(), while_unroll: int = 0) -> Result:
        rs, cs = self.sides({"local": "known", "local-changed": "changed"}.get(level, level))
        rs.unroll = cs.unroll = unroll
        rs.while_unroll = cs.while_unroll = while_unroll or unroll
        self.depth = (unroll, rs.while_unroll)
        if level == "module":
            rs.moved = cs.moved = self.moved_calls(rf, cf)
            if not rs.moved:
                raise TooManyPaths
        if level.startswith("local"):
            self.compare_locals(rf, cf, rs, cs, locs)
            rs.locals = cs.locals = locs
        args_c = self.map_params(rf, cf)
        self.compare_defaults(rf, cf)
        self.compare_decorators(rf, cf)
        rit = rs.interp(rf)
        cm = "contextmanager" in rf.decorators or "asynccontextmanager" in rf.decorators
        if cm:
            pass
        rpaths = rit.run(rf)
        if rit.while_cut and rs.while_unroll == 1:
            raise TooManyPaths  # one iteration shows too little of a loop that ends by itself
        n_cur = 0
        for rp in rpaths:
            cit, cpaths = self.current_paths(cs, cf, args_c, rp)
            n_cur += len(cpaths)
            for cp in cpaths:
                self.equal(rs, rit, rp, cs, cit, cp, rf.key, 0)
        return Result(rf.key, "equivalent", len(rpaths), n_cur, n_cur, level)

    def current_paths(self, cs, cf, args_c, rp: Path):
        """Paths of the current function under the facts of a reviewed path; loops get more iterations when they need them."""
        base, wbase = cs.unroll, cs.while_unroll or cs.unroll
        try:
            for extra in (0, 2, 4):
                cs.unroll, cs.while_unroll = base + extra, wbase + extra
                cit = cs.interp(cf)
                cpaths = cit.run(cf, args=args_c, state=seed(rp.state))
                if cpaths or not cit.cut:
                    return cit, cpaths
        finally:
            cs.unroll, cs.while_unroll = base, wbase
        raise Diff(f"{cf.key}: the loop does not end where the reviewed one does", f"no path ends under: {'; '.join(rp.facts()) or 'no condition'}", cf.node.lineno, cf.module.rel)

    def map_params(self, rf, cf):
        rp, rk, _, _ = Pair.params(rf)
        cp, ck, _, _ = Pair.params(cf)
        out = {}
        it = Interp(self.pair.cur, Cfg())
        rself = rf.cls is not None and rp and rp[0] in ("self", "cls")
        for i, c in enumerate(cp):
            if i < len(rp):
                if i == 0 and rself:
                    continue
                out[c] = P(rp[i])
        if sorted(rk) == sorted(ck):
            for c in ck:
                out[c] = P(c)
        else:
            left = [k for k in rk if k not in ck]
            for c in ck:
                if c in rk:
                    out[c] = P(c)
                elif left:
                    out[c] = P(left.pop(0))
        a = cf.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        for n, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(q.arg, d) for q, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in out and not (rself and n == pos[0]):
                lit = it.literal(d, cf.module)
                out[n] = lit if lit is not None else it.default_term(d, cf.module)
        ra, ca = rf.node.args, cf.node.args
        if ra.vararg and ca.vararg:
            out[ca.vararg.arg] = P("*" + ra.vararg.arg)
        if ra.kwarg and ca.kwarg:
            out[ca.kwarg.arg] = P("**" + ra.kwarg.arg)
        return out

    def compare_decorators(self, rf, cf):
        def decs(f):
            out = []
            for d in f.node.decorator_list:
                c = d if isinstance(d, ast.Call) else ast.Call(d, [], [])
                nm = c.func.attr if isinstance(c.func, ast.Attribute) else f.imported(getattr(c.func, "id", ast.dump(c.func)))
                out.append((nm, isinstance(d, ast.Call) and bool(c.args or c.keywords), tuple(ast.dump(x) for x in c.args), tuple(sorted((k.arg or "", ast.dump(k.value)) for k in c.keywords))))
            return out

        a, b = decs(rf), decs(cf)
        if a != b:
            raise Diff("decorators changed", f"required {[x[0] for x in a]}, found {[x[0] for x in b]} (or their arguments)", cf.node.lineno)

    def compare_defaults(self, rf, cf):
        def dd(it, f):
            a = f.node.args
            pos = [p.arg for p in a.posonlyargs + a.args]
            out = {}
            for i, d in zip(range(len(pos) - len(a.defaults), len(pos)), a.defaults):
                lit = it.literal(d, f.module)
                out[i] = lit if lit is not None else it.default_term(d, f.module)
            kw = {}
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    lit = it.literal(d, f.module)
                    kw[p.arg] = lit if lit is not None else it.default_term(d, f.module)
            return out, kw

        ro, rk = dd(Interp(self.pair.ref, Cfg()), rf)
        co, ck = dd(Interp(self.pair.cur, Cfg()), cf)
        for i, v in ro.items():
            if co.get(i) != v:
                raise Diff("default of a parameter changed", f"position {i}: {show(v)} became {show(co[i]) if i in co else 'required'}", cf.node.lineno)
        for n, v in rk.items():
            if n in {p.arg for p in cf.node.args.kwonlyargs} and ck.get(n) != v:
                raise Diff("default of a parameter changed", f"{n}: {show(v)} became {show(ck[n]) if n in ck else 'required'}", cf.node.lineno)

    # -- paths -----------------------------------------------------------
    def equal(self, rs, rit, rp: Path, cs, cit, cp: Path, where: str, depth: int):
        rc = Canon(self.pair, rs, rit, rp.state, cp.state, cit)
        cc = Canon(self.pair, cs, cit, cp.state, cp.state, cit)
        rsum = summarize(rp, rc, self.ignored(rs))
        csum = summarize(cp, cc, self.ignored(cs))
        if rsum != csum:
            rg, cg = [], []
            r2, c2 = gencode.abstract(rsum, rg), gencode.abstract(csum, cg)
            if r2 != c2 or len(rg) != len(cg):
                self.report(rp, cp, rsum, csum, where)
            for a, b in zip(rg, cg):
                self.equal_generated(rs, cs, a, b, f"{where} → generated code", cp)
        self.compare_closures(rc, cc, rs, cs, where, depth)

    def equal_generated(self, rs, cs, a, b, where, at: Path):
        """Two generated functions with the same name, parameters and globals behave alike."""
        key = (ast.dump(a), ast.dump(b))
        if key[0] == key[1] or key in self.generated_ok:
            return
        rf, cf = gencode.as_func(a, "generated code (reviewed)"), gencode.as_func(b, at.events[-1].mod if at.events else "generated code")
        rit = gencode.interp(self.pair.ref, rs.purity, self.unroll, self.max_paths)
        for rp in rit.run(rf):
            cit = gencode.interp(self.pair.cur, cs.purity, self.unroll, self.max_paths)
            for cp in cit.run(cf, state=seed(rp.state)):
                try:
                    self.equal(rs, rit, rp, cs, cit, cp, where, 0)
                except Diff as d:
                    raise Diff(d.what, d.detail, at.events[-1].line if at.events else 0, at.events[-1].mod if at.events else "") from None
        self.generated_ok.add(key)

    def ignored(self, side):
        mem = self.memo_attrs

        def ign(e):
            return e.name is not None and e.name in mem

        return ign

    def report(self, rp, cp, rsum, csum, where):
        re_, ce = rsum[0], csum[0]
        i = 0
        while i < len(re_) and i < len(ce) and re_[i] == ce[i]:
            i += 1
        exp = show_ev(re_[i]) if i < len(re_) else "-"
        got = show_ev(ce[i]) if i < len(ce) else "-"
        if i >= len(re_) and i >= len(ce):
            exp, got = show_out(rsum[1]), show_out(csum[1])
            what = "outcome differs"
        else:
            what = "effects differ"
            got += f" (ends: {show_out(csum[1])[:120]})"
        line = 0
        file = ""
        vis = [e for e in cp.events if e.kind not in ("raise", "caught", "new")]
        if i < len(ce) and vis:
            line = vis[min(i, len(vis) - 1)].line
            file = vis[min(i, len(vis) - 1)].mod
        elif cp.events:
            line, file = cp.events[-1].line, cp.events[-1].mod
        raise Diff(f"{where}: {what}", f"required: {exp}; found: {got}; under: {'; '.join(cp.facts()) or 'no condition'}", line, file)

    def compare_closures(self, rc: Canon, cc: Canon, rs, cs, where, depth):
        if depth > 3:
            return
        if len(rc.closures) != len(cc.closures):
            raise Diff(f"{where}: callables differ", f"{len(rc.closures)} closures required, {len(cc.closures)} found")
        for (rit, rst, rt), (cit, cst, ct) in zip(rc.closures, cc.closures):
            self.compare_callable(rs, rit, rst, rt, cs, cit, cst, ct, where, depth + 1)

    def run_callable(self, it: Interp, st: State, t, params=None, seed_from=None, again=False):
        """Paths of a closure value with symbolic arguments λ0, λ1, …; `again`: a later call, when anything else may have changed."""
        s0 = st.fork()
        s0.trace = None
        s0.over = {}
        s0.excstack = ()
        if again:
            s0.ver += 1
            s0.attrs = {}
        else:
            s0.calls = {}
        if seed_from is not None:
            for n in ("eq", "ne", "atoms", "order", "exck"):
                getattr(s0, n).update(getattr(seed_from, n))
        if t[0] in ("gen", "gencall"):
            out = []
            for s, items in it.force_gen(t, s0):
                oc = ("raise", items.exc) if not isinstance(items, list) else ("ret", ("lst", tuple(items)))
                out.append(Path(s, oc, s.events(), it))
            return out
        given = {}
        if t[0] == "thunk":
            given, t = dict(t[2]), t[1]
        fn, bound = it.resolve_fn(t, s0)
        a = fn.node.args
        vals = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        if bound is not None:
            vals[pos[0]] = bound
            pos = pos[1:]
        elif t[0] == "bm" and fn.cls is not None and "staticmethod" not in fn.decorators and pos:
            vals[pos[0]] = P("λself")
            pos = pos[1:]
        made = {**(dict(t[4]) if t[0] == "fn" and len(t) > 4 else {}), **given}
        pos = [n for n in pos if n not in made]
        vals.update(made)
        for i, n in enumerate(pos):
            vals[n] = P(f"λ{i}")
        for p in a.kwonlyargs:
            if p.arg not in made:
                vals[p.arg] = P(f"λ.{p.arg}")
        if a.vararg and a.vararg.arg not in made:
            vals[a.vararg.arg] = P("λ*")
        if a.kwarg and a.kwarg.arg not in made:
            vals[a.kwarg.arg] = it.new_ref("dct", ((("starstar", P("λ**")), NONE),), s0)
        out = []
        saved = it.try_handlers, it.cm_hooks
        it.try_handlers, it.cm_hooks = [], []
        try:
            for s, oc in it.exec_function(fn, vals, s0, it.fn_parent(t, s0)):
                out.append(Path(s, oc, s.events(), it))
        finally:
            it.try_handlers, it.cm_hooks = saved
        return out

    def shape(self, it, st, t):
        if t[0] in ("gen", "gencall"):
            return ("gen",)
        if t[0] == "thunk":
            return ("coroutine",)
        fn, bound = it.resolve_fn(t, st)
        if fn is None:
            return None
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        if bound is not None or (t[0] == "bm" and "staticmethod" not in fn.decorators):
            pos = pos[1:]
        made = dict(t[4]) if t[0] == "fn" and len(t) > 4 else {}
        nd = sum(1 for n in pos[len(pos) - len(a.defaults):] if n not in made) if a.defaults else 0
        pos = [n for n in pos if n not in made]
        return (fn.is_async, fn.is_generator, len(pos), nd, tuple(sorted(p.arg for p in a.kwonlyargs if p.arg not in made)), bool(a.vararg), bool(a.kwarg))

    def compare_callable(self, rs, rit, rst, rt, cs, cit, cst, ct, where, depth):
        a, b = self.shape(rit, rst, rt), self.shape(cit, cst, ct)
        if a != b:
            raise Diff(f"{where}: callable signature differs", f"required {a}, found {b}")
        name = show(rt)
        stateful = self.keeps_state(rit, rst, rt) or self.keeps_state(cit, cst, ct)
        for rp in self.run_callable(rit, rst, rt):
            for cp in self.run_callable(cit, cst, ct, seed_from=rp.state):
                self.equal(rs, rit, rp, cs, cit, cp, f"{where} → {name}", depth)
                if stateful and rp.kind == cp.kind == "ret":
                    for rp2 in self.run_callable(rit, rp.state, rt, again=True):
                        for cp2 in self.run_callable(cit, cp.state, ct, seed_from=rp2.state, again=True):
                            self.equal(rs, rit, rp2, cs, cit, cp2, f"{where} → {name}, called again", depth)

    def keeps_state(self, it, st, t) -> bool:
        if t[0] in ("gen", "gencall"):
            return False
        t = t[1] if t[0] == "thunk" else t
        fn, _ = it.resolve_fn(t, st)
        return fn is not None and any(isinstance(n, ast.Nonlocal) for n in ast.walk(fn.node))


def seed(st: State) -> State:
    s = State()
    bad = lambda t: has_ref(t)  # noqa: E731
    s.eq = {k: v for k, v in st.eq.items() if not bad(k)}
    s.ne = {k: v for k, v in st.ne.items() if not bad(k)}
    s.atoms = {k: v for k, v in st.atoms.items() if not bad(k)}
    s.order = {k: v for k, v in st.order.items() if not bad(k)}
    s.exck = dict(st.exck)
    return s


def has_ref(t) -> bool:
    if isinstance(t, tuple):
        if t and t[0] == "fn" and t[2] == -1:
            return False
        if t and t[0] in ("ref", "node", "fn", "gen", "gencall", "localclass", "obj"):
            return True
        if t and t[0] == "c":
            return False
        return any(has_ref(x) for x in t if isinstance(x, tuple))
    return False


def show_ev(e) -> str:
    if e[0] == "call":
        return "call " + show_call(e[1])
    if e[0] == "store":
        return f"store {show_call(e[1])} = {show_call(e[2])}"
    if e[0] == "mut":
        return f"{show_call(e[2])}.{e[1]}({', '.join(show_call(a) for a in e[3])})"
    return e[0] + " " + " ".join(show_call(x) if isinstance(x, tuple) else str(x) for x in e[1:])


def show_call(t) -> str:
    try:
        if t and t[0] == "call" and len(t) == 3:
            return f"{show(t[1])}({', '.join(f'{n}={show_call(v)}' for n, v in t[2])})"
        return show(t)
    except Exception:  # noqa: BLE001
        return repr(t)[: int(os.environ.get("SHOW", "300"))]


def show_out(o) -> str:
    return f"{o[0]} {show_call(o[1]) if isinstance(o[1], tuple) else o[1]}"
