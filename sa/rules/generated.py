"""Rules about generated code: what may be spliced into it, and what it may refer to."""
from __future__ import annotations

import ast
import builtins
import re

from .. import gencode
from ..compare import Canon, summarize
from ..engine import P, TooManyPaths, is_const, show
from ..program import AnchorError, walk_own
from .paths import Subject, subject_rule
from .whole import view

COMPILER = "compiler:ResolversAssemblyCompiler."
PLANNER = "planner:ResolverGenerationPlanner."
SINKS = {gencode.SOURCE_FN, gencode.AST_FN}
# the only places that may turn text or trees into code, and what they may call
CODE_SITES = {gencode.SOURCE_FN: {"compile", "exec"}, gencode.AST_FN: {"compile", "exec"},
              "integrations.pydantic_settings:_load_base_settings": {"importlib.import_module"}}
CODE_CALLS = {"compile", "exec", "eval", "__import__", "importlib.import_module"}
# quantities the planner computes: slot numbers, scope levels, names made of them, and declared scope names
SAFE_FIELDS = {"slot", "scope_level", "cache_owner_scope_level", "dependency_slot", "provider_inner_slot", "provider_slot",
               "root_scope_level", "resolver_attr_name", "ctx_key_global_name", "max_required_scope_level", "level"}
INT_SEQUENCES = {"all_slots", "cache_slots_by_owner_level"}
# functions that return rendered code; each is a subject of the rule itself
RENDERERS = {
    COMPILER + "_optimized_sync_arguments", COMPILER + "_optimized_sync_dependency_expression",
    "compiler:_scope_mismatch_lines_for_source", "compiler:_delegate_scope_lines_for_source",
    PLANNER + "_missing_optional_literal_expression", PLANNER + "_format_dependency_argument",
    PLANNER + "_format_dependency_argument_for_expression", PLANNER + "_dependency_expression", PLANNER + "_format_all_dependency_expression",
}
RENDERED_FIELDS = {"literal_expression", "sync_arguments", "async_arguments"}
RENDERED_PARAMS = {"expression", "resolver_expression", "dependency_slot"}  # callers pass rendered text or slot numbers


def field(t):
    return t[2] if isinstance(t, tuple) and len(t) >= 3 and t[0] == "a" and isinstance(t[2], str) else None


def identifier_checked(p, t) -> bool:
    yes = no = False
    for a, v in p.state.atoms.items():
        if a[0] != "t" or not isinstance(a[1], tuple) or a[1][0] not in ("call", "m", "mcall"):
            continue
        s = show(a[1])
        if v and s == f"{show(t)}.isidentifier()":
            yes = True
        if not v and s.startswith("keyword.iskeyword(") and show(t) in s:
            no = True
    return yes and no


def safe(p, t, depth=0) -> bool:
    """May this term stand inside compiled text?"""
    if isinstance(t, str) or depth > 40:
        return isinstance(t, str)
    if is_const(t):
        return t[2] is None or isinstance(t[2], (str, int))
    k = t[0]
    if k == "f":
        return all(safe(p, x, depth + 1) for x in t[1])
    if k in ("lst", "tup", "star", "gl"):
        xs = t[1] if isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else (t[1],) if t[1] else ()
        return all(safe(p, x, depth + 1) for x in xs)
    f = field(t)
    if f == "name":
        return identifier_checked(p, t)
    if f is not None:
        return f in SAFE_FIELDS or f in RENDERED_FIELDS
    if k in ("el", "i", "key", "keys"):
        b = t[1]
        while isinstance(b, tuple) and b[0] in ("i", "el", "call"):
            if b[0] == "call":
                return callee(b) in RENDERERS
            b = b[1]
        return field(b) in INT_SEQUENCES or field(b) in RENDERED_FIELDS or b == P("slots")
    if k == "p":
        return t[1] in RENDERED_PARAMS
    if k == "g":
        return t[1].endswith("INJECT_RESOLVER_KWARG") or t[1].endswith("_FALLBACK_ARGUMENT_EXPRESSION")
    if k == "call":
        return callee(t) in RENDERERS
    return False


def callee(t):
    h = t[1]
    if h[0] == "g":
        return h[1]
    if h[0] == "bm":
        return f"{h[1]}.{h[2]}"
    return None


def unsafe_holes(p, t, out, depth=0):
    if not isinstance(t, tuple) or not t or t[0] == "c" or depth > 60:
        return
    if t[0] == "f":
        out.extend(x for x in t[1] if not safe(p, x))
        return
    for x in t:
        unsafe_holes(p, x, out, depth + 1)


def template_functions(ctx):
    return [k for k, f in ctx.pair.rf.items() if k.startswith(COMPILER + "_compile_") and k.count(".") == 1]


def code_only_from_safe_parts(ctx):
    """Text that is compiled consists of constants, slot numbers, scope levels, names made of them and vetted identifiers; nothing else in the library turns text into code."""
    funcs, current = view(ctx)
    for k, f in funcs.items():
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            nm = n.func.id if isinstance(n.func, ast.Name) else f"{n.func.value.id}.{n.func.attr}" if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) else None
            if nm in CODE_CALLS:
                ctx.count("code_sites")
                if (k in current or k in ctx.functions) and nm not in CODE_SITES.get(k.split(".<locals>")[0], ()):
                    ctx.report("dynamic-code", k, f.module.rel, n.lineno, f"`{nm}` outside the two compile helpers")
    lost = []
    for k in [*template_functions(ctx), *sorted(RENDERERS)]:
        try:
            s = Subject(ctx, k)
            paths = s.paths()
        except TooManyPaths:
            lost.append(k)
            continue
        for p in paths:
            if p.kind != "ret" or p.ret is None:
                continue
            s.obligation()
            t = p.state.deref(p.ret)
            if k in RENDERERS:
                # the whole result is spliced somewhere
                bad = [] if safe_result(p, t) else [t]
                unsafe_holes(p, t, bad)
            elif t[0] == "call" and t[1][0] == "g" and t[1][1] in SINKS:
                bad = []
                unsafe_holes(p, t, bad)
            else:
                continue
            if bad:
                s.bad("unvetted-text", p, f"`{show(bad[0])[:120]}` becomes part of compiled text")
                break
    ctx.need(ctx.counts.get("rule_obligations", 0) > 100, "templates")
    if lost:
        ctx.notes.append("too many paths, decided by the comparison only: " + ", ".join(lost))


def safe_result(p, t) -> bool:
    if t is None or is_const(t) or t[0] == "f":
        return True
    if t[0] in ("lst", "tup"):
        return all(safe(p, x) for x in (t[1] or ()))
    return safe(p, t)


def family(name: str) -> str:
    return re.sub(r"H_[0-9a-f]+", "*", name)


def generated_functions(ctx, key):
    """(path, generated function) for every function text a template may return."""
    s = Subject(ctx, key)
    for p in s.paths():
        if p.kind != "ret" or p.ret is None:
            continue
        canon = Canon(ctx.pair, s.side, s.it, p.state, p.state, s.it)
        out = []
        gencode.abstract(summarize(p, canon, ctx.comparator.ignored(s.side))[1], out)
        for fn in out:
            yield s, p, fn


def contradict(a, b) -> bool:
    """Two paths of different functions cannot belong to the same plan."""
    other = b.state.atoms
    return any(t in other and other[t] != v for t, v in a.state.atoms.items() if t[0] == "t")


def _names(t):
    return [family("".join(x if isinstance(x, str) else "H_0" for x in y[1]) if y[0] == "f" else y[2]) for y in t if y[0] == "f" or is_const(y) and isinstance(y[2], str)]


def slot_paths(ctx):
    s = Subject(ctx, COMPILER + "_class_slots")
    out = []
    for p in s.paths():
        names = set()

        def walk(t):
            if isinstance(t, tuple) and t:
                if t[0] in ("lst", "tup") and isinstance(t[1], tuple):
                    for x in t[1]:
                        if isinstance(x, tuple) and x and x[0] == "a":
                            names.add("scope attribute")
                    names.update(_names([x for x in t[1] if isinstance(x, tuple) and x]))
                for x in t:
                    walk(x)

        walk(p.state.deref(p.ret))
        out.append((p, names))
    return out


def supplied_globals(ctx):
    s = Subject(ctx, COMPILER + "_build_generated_globals")
    names = set()
    for p in s.paths():
        t = p.state.deref(p.ret)
        if t[0] == "dct":
            names.update(_names([k for k, _ in t[1]]))
    return names


# bound by _build_classes once the classes exist, and the keys of context lookups
LATE_GLOBALS = {"_scope_ctor_*", "_scope_obj_*"}
METHODS = {"__exit__", "__aexit__", "resolve_*", "aresolve_*", "_resolve_from_context", "_is_registered_dependency", "enter_scope", "resolve", "aresolve", "close", "aclose"}
MAY_BE_MISSING = {"_cache_*", "_scope_resolver_*", "*"}  # one per slot or scope: declared by the same mapping, which a path may show empty


def generated_code_closed(ctx):
    """Generated functions use only attributes that the class declares under the plan flags of that very path, globals that are supplied, and locals they assign first."""
    slots = slot_paths(ctx)
    known = supplied_globals(ctx)
    ctx.need(len(slots) > 3 and len(known) > 20, "slots and globals of generated classes")
    everywhere = set().union(*(n for _, n in slots))
    seen = set()
    n = 0
    for key in template_functions(ctx):
        try:
            for s, p, fn in generated_functions(ctx, key):
                n += 1
                s.obligation()
                params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
                stored = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for x in ast.walk(fn):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        nm = family(x.attr)
                        if nm in METHODS or x.attr.startswith("H_"):
                            continue
                        where = (key, nm, tuple(sorted((t, v) for t, v in p.state.atoms.items() if t[0] == "t" and t[1][0] == "a" and t[1][1][0] == "p")).__repr__())
                        if where in seen:
                            continue
                        seen.add(where)
                        s.obligation()
                        if nm not in everywhere:
                            s.bad("undeclared-attribute", p, f"generated code uses self.{nm}, which no class declares")
                        elif nm not in MAY_BE_MISSING and any(nm not in names and not contradict(p, q) for q, names in slots) and not slot_optional(nm, p, slots):
                            s.bad("attribute-not-on-plan", p, f"generated code uses self.{nm} under plan flags for which the class does not declare it")
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in params | stored:
                        nm = family(x.id)
                        if nm.startswith("*") or hasattr(builtins, nm) or nm in known or nm in LATE_GLOBALS:
                            continue
                        s.bad("unknown-global", p, f"generated code reads the global {nm}, which is not supplied")
        except TooManyPaths:
            ctx.notes.append(f"too many paths, decided by the comparison only: {key}")
    ctx.count("generated_functions", n)
    ctx.need(n > 50, "generated functions")


def slot_optional(nm, p, slots) -> bool:
    """Facts the two functions spell through different calls cannot contradict each other: ask whether some flag of this path decides the slot."""
    flags = {t for t, v in p.state.atoms.items() if t[0] == "t"}
    without = [q for q, names in slots if nm not in names and not contradict(p, q)]
    return all(not (flags & {t for t in q.state.atoms if t[0] == "t"}) for q in without)


@subject_rule
def pooled_scope_reset(ctx):
    """A pooled scope is handed out only when inactive and after its context, parent, owned scopes and every cache of its own level were reset; a shared stateless scope only when no context is involved."""
    key = COMPILER + "_compile_specialized_enter_scope_method"
    n = 0
    for s, p, fn in generated_functions(ctx, key):
        n += 1
        s.obligation()
        pooled = [x for x in ast.walk(fn) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == "_pooled"]
        if pooled:
            reset = {family(t.attr) for a in ast.walk(fn) if isinstance(a, ast.Assign) for t in a.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "_pooled"}
            need = {"_context", "_parent_context_resolver", "_owned_scope_resolvers", "_active"}
            for m in sorted(need - reset):
                s.bad("stale-pooled-scope", p, f"a pooled scope is reused with its old {m}")
            caches = [t for t, v in p.state.atoms.items() if v and t[0] == "t" and t[1][0] == "i" and field(t[1][1]) == "cache_slots_by_owner_level"]
            if caches and "_cache_*" not in reset:
                s.bad("stale-pooled-scope", p, "a pooled scope is reused with the values cached by its previous user")
        for r in ast.walk(fn):
            if isinstance(r, ast.If):
                gives = any(isinstance(x, ast.Return) and isinstance(x.value, ast.Attribute) and x.value.attr.startswith("_scope_resolver_") or isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == "_pooled" for x in r.body for x in ast.walk(x))
                if gives and "context" in ast.unparse(r.test):
                    asked = set(re.findall(r"(?<![\w.])(?:self\.)?\w+(?= is None)", ast.unparse(r.test)))
                    for m in ("context", "self._context", "self._parent_context_resolver"):
                        s.obligation()
                        if m not in asked:
                            s.bad("shared-scope-hides-context", p, f"a shared or pooled scope is handed out without asking whether {m} is None")
    ctx.need(n >= 4, "enter_scope templates")
