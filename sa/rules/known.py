"""Rules that find the constructs behind the recorded known findings.

Each names the construct by its role, so the same defect keeps its identity when code moves,
and stops reporting when the construct is gone.
"""
from __future__ import annotations

import ast

from ..program import AnchorError


def _consts(node):
    return [n.value for n in ast.walk(node) if isinstance(n, ast.Constant) and isinstance(n.value, str)]


def _find(prog, short, pred):
    for f in prog.all_funcs():
        if f.module.short == short and pred(f):
            return f
    return None


def _locked(fn) -> bool:
    return any(isinstance(n, (ast.With, ast.AsyncWith)) for n in ast.walk(fn)) or any("with " in s or ".acquire" in s for s in _consts(fn))


def dispatch_cache_pair(ctx):
    """A memo kept in two attributes is read and written without a lock (the pair can be torn between threads)."""
    f = _find(ctx.cur, "compiler", lambda f: {"_last_sync_dependency", "_last_sync_method", "_last_async_dependency", "_last_async_method"} <= set(_consts(f.node)) and not any("=" in s for s in _consts(f.node)) and any(isinstance(n, ast.IfExp) for n in ast.walk(f.node)))
    f = f or _find(ctx.cur, "compiler", lambda f: {"_last_sync_dependency", "_last_sync_method"} <= set(_consts(f.node)))
    if f is None or _locked(f.node):
        return
    ctx.count("memo_pairs")
    ctx.report("two-field-memo", "dispatch-cache-pair", f.module.rel, f.node.lineno,
               "the last-dependency memo is two attributes, written one after the other without a lock; another thread can pair one dependency with another's method")


def pooled_scope_activation(ctx):
    """A pooled scope object is tested for being free and then claimed without a lock."""
    f = _find(ctx.cur, "compiler", lambda f: any("_active = True" in s for s in _consts(f.node)) and any("if not " in s and "._active" in s for s in _consts(f.node)))
    if f is None or _locked(f.node):
        return
    ctx.count("check_then_act_sites")
    ctx.report("check-then-act", "pooled-scope-activation", f.module.rel, f.node.lineno,
               "generated enter_scope tests _active and sets it in separate steps without a lock; two threads entering at once can be given the same scope object")


def root_resolver_discarded(ctx):
    """Invalidation clears the compiled root without closing it or carrying its cleanups over."""
    def pred(f):
        return f.cls is not None and f.cls.name == "Container" and f.name != "__init__" and any(
            isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None and any(isinstance(t, ast.Attribute) and t.attr == "_root_resolver" for t in n.targets) for n in ast.walk(f.node))
    f = _find(ctx.cur, "container", pred)
    if f is None:
        return
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == "_root_resolver" and isinstance(n.ctx, ast.Load):
            return
    ctx.count("discarding_sites")
    ctx.report("owned-resource-dropped", "root-resolver-on-invalidation", f.module.rel, f.node.lineno,
               "the compiled root resolver, its cached values and its pending cleanups are dropped when a registration invalidates the graph")


def bound_entrypoint_signature(ctx):
    """A container method is replaced by a resolver method that accepts fewer keyword arguments."""
    cont = ctx.cur.module("container").classes.get("Container")
    if cont is None or "resolve" not in cont.methods:
        raise AnchorError("Container.resolve")
    names = {s for st in cont.node.body if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None for s in _consts(st.value)}
    f = _find(ctx.cur, "container", lambda f: any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr" for x in n.args) for n in ast.walk(f.node)))
    if f is None or "resolve" not in names:
        return
    own = {a.arg for a in cont.methods["resolve"].node.args.kwonlyargs}
    proto = _find(ctx.cur, "protocol", lambda f: f.cls is not None and f.cls.name == "ResolverProtocol" and f.name == "resolve") or _find(ctx.cur, "resolvers.protocol", lambda f: f.cls is not None and f.cls.name == "ResolverProtocol" and f.name == "resolve")
    theirs = {a.arg for a in proto.node.args.kwonlyargs} if proto is not None else set()
    ctx.count("rebound_methods", len(names))
    if own - theirs:
        ctx.report("narrower-replacement", "bound-entrypoints", f.module.rel, f.node.lineno,
                   f"after compile() the bound resolve/aresolve no longer accept {', '.join(sorted(own - theirs))}: a per-call policy raises TypeError on a strict compiled container")


def open_generic_async_thread_lock(ctx):
    """The async open-generic path takes no thread lock for THREAD-locked registrations."""
    f = _find(ctx.cur, "open_generics", lambda f: f.name == "_resolve_open_match_async")
    if f is None:
        raise AnchorError("_resolve_open_match_async")
    if any(isinstance(n, ast.Attribute) and n.attr in ("get_thread_lock", "_resolve_open_match_sync") for n in ast.walk(f.node)):
        return
    ctx.count("lock_paths")
    ctx.report("lock-not-taken", "open-generic-async-path", f.module.rel, f.node.lineno,
               "aresolve of a SCOPED open generic with lock mode THREAD builds without any lock; two threads can build it twice")


def open_generic_cycle(ctx):
    """The lock guarding an open-generic build is not re-entrant and nothing detects a cycle before taking it."""
    f = _find(ctx.cur, "open_generics", lambda f: f.name == "get_thread_lock")
    g = _find(ctx.cur, "open_generics", lambda f: f.name == "_resolve_open_match_sync")
    if f is None or g is None:
        raise AnchorError("open-generic lock")
    makes_lock = any(isinstance(n, ast.Attribute) and n.attr == "Lock" and isinstance(n.value, ast.Name) and n.value.id == "threading" for n in ast.walk(f.node))
    guarded = any(isinstance(n, (ast.Name, ast.Attribute)) and "Circular" in (n.id if isinstance(n, ast.Name) else n.attr) for n in ast.walk(ctx.cur.module("open_generics").tree))
    ctx.count("reentrancy_sites")
    if makes_lock and not guarded:
        ctx.report("self-deadlock", "open-generic-cycle", f.module.rel, f.node.lineno,
                   "an open generic that depends on its own closed key takes its non-reentrant lock twice: resolution hangs instead of raising DIWireInvalidProviderSpecError")


def maybe_masks_nested_missing(ctx):
    """A runtime Maybe lookup of a registered key treats every not-registered error, nested ones included, as absence."""
    def is_call(node, attrs):
        return isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in attrs

    def pred(f):
        calls = {n.func.id for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
        if "strip_maybe_annotation" not in calls:
            return False
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Try):
                continue
            if not any("NotRegistered" in ast.dump(h.type) for h in n.handlers if h.type is not None):
                continue
            if any(is_call(x, ("resolve", "aresolve")) for st in n.body for x in ast.walk(st)):
                return True
        return False

    f = _find(ctx.cur, "compiler", pred)
    if f is None:
        return
    ctx.count("masking_handlers")
    ctx.report("masked-error", "maybe-dispatch-of-registered-key", f.module.rel, f.node.lineno,
               "resolve(Maybe[X]) catches DIWireDependencyNotRegisteredError around the resolution of a registered X, so an error raised inside X's own construction becomes None")


def optional_context_parameter(ctx):
    """The plan of a context parameter does not know whether the parameter is optional."""
    def pred(f):
        return any(isinstance(n, ast.Call) and any(k.arg == "kind" and isinstance(k.value, ast.Constant) and k.value.value == "context" for k in n.keywords) for n in ast.walk(f.node))

    f = _find(ctx.cur, "planner", pred)
    if f is None:
        return
    for n in ast.walk(f.node):
        name = n.id if isinstance(n, ast.Name) else n.arg if isinstance(n, (ast.arg, ast.keyword)) else n.attr if isinstance(n, ast.Attribute) else ""
        if name and ("optional" in name.lower() or "maybe" in name.lower()):
            return
    ctx.count("context_plans")
    ctx.report("optional-ignored", "planned-context-parameter", f.module.rel, f.node.lineno,
               "a planned Maybe[FromContext[X]] parameter is wired like FromContext[X]: it raises instead of giving None when no scope supplies X")


DEFERRED = {
    "iscoroutinefunction": ("coroutine function", "an injected coroutine function runs its body after the scope opened for the call is closed"),
    "isgeneratorfunction": ("generator function", "an injected generator function runs its body after the scope opened for the call is closed, so it works with dependencies that are already cleaned up"),
    "isasyncgenfunction": ("async generator function", "an injected async generator function runs its body after the scope opened for the call is closed, so it works with dependencies that are already cleaned up"),
}


def deferred_bodies(ctx):
    """Callables whose body runs after the call returns get a wrapper that keeps the scope opened for the call around the body."""
    f = _find(ctx.cur, "container", lambda f: f.name == "_inject_callable")
    if f is None:
        raise AnchorError("container:Container._inject_callable")
    by_name: dict[str, list] = {}
    for g in ctx.cur.all_funcs():
        by_name.setdefault(g.name, []).append(g)
    seen, work, asked = {f.key}, [(f, 0)], set()
    while work:
        g, depth = work.pop()
        for n in ast.walk(g.node):
            if not isinstance(n, ast.Call):
                continue
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if name in DEFERRED:
                asked.add(name)
            if depth < 3:
                for h in by_name.get(name, []):
                    if h.key not in seen and h.module.short in ("container", "injection", "type_checks"):
                        seen.add(h.key)
                        work.append((h, depth + 1))
    for name, (kind, what) in DEFERRED.items():
        ctx.count("callable_kinds")
        if name not in asked:
            ctx.report("body-after-scope", f"injected-call:{kind}", f.module.rel, f.node.lineno, what)


def planned_open_generic(ctx):
    """A planned parameter is looked up in the closed registrations only: the planner has no way to ask for an open match."""
    finders = [f for f in ctx.cur.all_funcs() if f.module.short == "planner"
               and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "find_by_type" for n in ast.walk(f.node))]
    if not finders:
        return
    ctx.count("planned_lookups", len(finders))
    for n in ast.walk(ctx.cur.module("planner").tree):
        name = (n.id if isinstance(n, ast.Name) else n.arg if isinstance(n, (ast.arg, ast.keyword)) else n.attr if isinstance(n, ast.Attribute) else "") or ""
        if any(w in name.lower() for w in ("open_generic", "opengeneric", "open_match", "best_match", "open_registry", "has_match")):
            return
    f = min(finders, key=lambda f: f.node.lineno)
    if ctx.prop == "C21":
        ctx.report("optional-ignored", "planned-open-generic-parameter", f.module.rel, f.node.lineno,
                   "a Maybe[Box[int]] parameter of an ordinary provider is planned as absent although the open registration Box[T] makes the key resolvable")
    else:
        ctx.report("open-match-ignored", "planned-open-generic-parameter", f.module.rel, f.node.lineno,
                   "a Box[int] parameter of an ordinary provider is not matched against the open registration Box[T]: compiling raises DIWireDependencyNotRegisteredError")


def open_generic_execution_scope(ctx):
    """The scope an open-generic provider is built in is chosen from its own scope alone, not from what its parameters need."""
    f = _find(ctx.cur, "open_generics", lambda f: f.name == "_resolve_execution_owner")
    if f is None:
        return
    ctx.count("execution_owner_choices")
    for n in ast.walk(f.node):
        name = (n.id if isinstance(n, ast.Name) else n.arg if isinstance(n, (ast.arg, ast.keyword)) else n.attr if isinstance(n, ast.Attribute) else "") or ""
        if any(w in name.lower() for w in ("dependenc", "binding", "max_required", "deepest")):
            return
    ctx.report("scope-rule-differs", "open-generic-transient-execution-scope", f.module.rel, f.node.lineno,
               "a TRANSIENT open generic is built in the scope of its registration even when a parameter needs a deeper scope that is open; an ordinary TRANSIENT provider is built in the requesting scope then")
