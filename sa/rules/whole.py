"""Rules over the program as a whole: call graph, effects on shared state, raise and handler sites, and single-exit protocols.

A function is read in its current form unless the comparison has shown it equal to the reviewed one.
"""
from __future__ import annotations

import ast

from ..engine import NONE, P, show
from ..program import AnchorError, walk_own
from .paths import Subject, attr, is_attr, subject_rule

GRAPH = {"_providers_registrations": {"add"}, "_open_generic_registry": {"register"}}
GRAPH_STATE = ("_decoration_rules_by_provides", "_decoration_chain_by_provides", "_decoration_counter")
LIST_MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "remove", "clear", "discard", "popitem"}
TRANSACTION = "_registration_mutation"


def view(ctx):
    """key -> function as it is to be read, and the keys read from the current tree."""
    out, current = {}, set()
    for k, f in ctx.pair.rf.items():
        r = ctx.comparator.cache.get(k)
        if r is not None and r.status == "differs" and k in ctx.functions and k in ctx.pair.cf:
            out[k] = ctx.pair.cf[k]
            current.add(k)
        else:
            out[k] = f
    if current:
        # what changed functions may now rely on
        for k, f in ctx.pair.cf.items():
            if k not in out:
                out[k] = f
                current.add(k)
    return out, current


def self_calls(fn):
    """(method, node, inside the transaction) for every call through self."""
    out = []

    def walk(n, inside):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            here = any(isinstance(i.context_expr, ast.Call) and isinstance(i.context_expr.func, ast.Attribute) and i.context_expr.func.attr == TRANSACTION for i in n.items)
            for i in n.items:
                walk(i, inside)
            for s in n.body:
                walk(s, inside or here)
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            out.append((n.func, n, inside))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in ts:
                out.append((t, n, inside))
        for c in ast.iter_child_nodes(n):
            walk(c, inside)

    for s in fn.body:
        walk(s, False)
    return out


def self_attr(n):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" else None


def graph_change(t, node):
    """What part of the registration graph a statement or call changes, if any."""
    if isinstance(node, ast.Call):
        a = self_attr(t.value)
        if a in GRAPH and t.attr in GRAPH[a]:
            return a
        if a in GRAPH_STATE and t.attr in LIST_MUTATORS:
            return a
        return None
    while isinstance(t, ast.Subscript):
        t = t.value
    a = self_attr(t)
    return a if a in GRAPH_STATE or a in GRAPH else None


def graph_mutations_transactional(ctx):
    """Every change to the registration graph reachable from a public method happens inside the rollback transaction."""
    funcs, _ = view(ctx)
    cont = {f.name: f for f in funcs.values() if f.cls is not None and f.cls.name == "Container"}
    sites = {n: self_calls(f.node) for n, f in cont.items()}
    open_: dict[str, str] = {}  # functions through which a change can happen outside a transaction
    n_sites = 0
    for n, f in cont.items():
        if n in ("__init__", TRANSACTION):
            continue
        for t, node, inside in sites[n]:
            what = graph_change(t, node)
            if what is not None:
                n_sites += 1
                if not inside:
                    open_[n] = f"changes self.{what} at line {node.lineno}"
    ctx.need(n_sites >= 6, "graph changes in Container")
    work = list(open_)
    called: dict[str, int] = {}
    while work:
        callee = work.pop()
        for n, f in cont.items():
            for t, node, inside in sites[n]:
                if isinstance(node, ast.Call) and self_attr(t) == callee:
                    called[callee] = called.get(callee, 0) + 1
                    if not inside and n not in open_ and n != TRANSACTION:
                        open_[n] = f"calls {callee} at line {node.lineno}, which {open_[callee]}"
                        work.append(n)
    ctx.count("graph_change_sites", n_sites)
    for n, why in open_.items():
        if not n.startswith("_"):
            f = cont[n]
            ctx.report("change-outside-transaction", f.key, f.module.rel, f.node.lineno, f"{n}() {why} outside the rollback transaction")


@subject_rule
def rollback_restores_everything(ctx):
    """A failed outermost registration puts back every part of the graph registrations can change and drops the compiled state; the failure is re-raised."""
    s = Subject(ctx, "container:Container._registration_mutation")
    outer = attr(P("self"), "_registration_mutation_depth")
    state = set(GRAPH) | set(GRAPH_STATE)
    n = 0
    for p in s.paths():
        if p.state.eq.get(outer) != ("c", "int", 0):
            s.obligation()
            if any(e.kind == "call" and e.name == "restore" for e in p.events):
                s.bad("nested-restore", p, "a nested registration restores the snapshot of the outer one")
            continue
        restored, invalid = set(), False
        failed_at = next((i for i, e in enumerate(p.events) if e.kind == "caught"), None)
        for e in p.events[failed_at or 0:] if failed_at is not None else []:
            if e.kind == "call" and e.name == "restore" and e.term[0] == "bm":
                restored.add(e.term[3][2])
            elif e.kind == "store" and is_attr(e.term, P("self"), e.name):
                restored.add(e.name)
            elif e.kind == "call" and e.name == "_invalidate_compilation":
                invalid = True
        s.obligation(2)
        if failed_at is not None:
            n += 1
            if not state <= restored:
                s.bad("not-restored", p, f"a failed registration leaves {', '.join(sorted(state - restored))} changed")
            if not invalid:
                s.bad("stale-after-rollback", p, "the compiled state survives a rolled back registration")
            if p.kind != "raise":
                s.bad("failure-hidden", p, "a failed registration is not re-raised")
        elif p.kind == "raise":
            s.bad("unrolled", p, "an exception leaves the registration without rollback")
        last = [e for e in p.events if e.kind == "store" and e.name == "_registration_mutation_snapshot"]
        if last and last[-1].value != NONE:
            s.bad("snapshot-kept", p, "the snapshot outlives its registration, so a later failure would restore the wrong state")
    ctx.need(n, "failing registration path")


ENTRIES = ("add_instance", "_register_non_concrete_provider")


@subject_rule
def registration_invalidates(ctx):
    """Every registration that returns has dropped what was compiled, after its last change to the graph; dropping means a new revision, no root resolver, and the container's own entry points back."""
    for name in ENTRIES:
        s = Subject(ctx, f"container:Container.{name}")
        n = 0
        for p in s.paths():
            changes = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("add", "register") and e.term[0] == "bm" and e.term[3] in (attr(P("self"), "_providers_registrations"), attr(P("self"), "_open_generic_registry"))]
            if p.kind != "ret" or not changes:
                continue
            n += 1
            s.obligation()
            if not any(e.kind == "call" and e.name in ("_finalize_registration_after_binding", "_invalidate_compilation") for e in p.events[changes[-1]:]):
                s.bad("stale-graph", p, "returns after changing the graph without dropping the compiled resolver")
        ctx.need(n, name)
    s = Subject(ctx, "container:Container._finalize_registration_after_binding")
    for p in s.paths():
        if p.kind == "ret":
            s.obligation()
            calls = [e.name for e in p.events if e.kind == "call"]
            if "_invalidate_compilation" not in calls or any(c in calls[calls.index("_invalidate_compilation"):] for c in ("_apply_pending_decorations", "_rebuild_decoration_chain", "_ensure_chain_keys")):
                s.bad("stale-graph", p, "decorations are applied after, or without, dropping the compiled resolver")
    s = Subject(ctx, "container:Container._invalidate_compilation")
    for p in s.paths():
        s.obligation(3)
        stores = {e.name: e.value for e in p.events if e.kind == "store"}
        if stores.get("_root_resolver") != NONE:
            s.bad("root-kept", p, "the compiled root resolver survives")
        if "_graph_revision" not in stores:
            s.bad("revision-kept", p, "the graph revision stays, so decorated callables keep what they inferred before")
        if not any(e.kind == "call" and e.name == "_restore_container_entrypoints" for e in p.events):
            s.bad("entrypoints-kept", p, "resolve and enter_scope stay bound to the old resolver")


WALKS = (("planner:ResolverGenerationPlanner._resolve_requires_async", "slot", True),
         ("planner:ResolverGenerationPlanner._resolve_max_required_scope_level", "slot", True),
         ("container:Container._infer_dependency_scope_level", "dependency", False))


@subject_rule
def walks_terminate(ctx):
    """Every recursive walk over the dependency graph marks its node before it recurses, stops at a marked node, and descends otherwise only into a part of its own annotation; planning turns a marked node into an error."""
    for key, node, strict in WALKS:
        s = Subject(ctx, key)
        name = key.split(".")[-1]
        n = 0
        for p in s.paths():
            marked = False
            for e in p.events:
                if e.kind == "mut" and e.name == "add" and e.term == P("in_progress"):
                    marked = True
                elif e.kind == "mut" and e.name in ("remove", "discard", "clear") and e.term == P("in_progress"):
                    marked = False
                elif e.kind == "call" and e.name == name:
                    n += 1
                    s.obligation()
                    a = dict(e.value[3]).get(node) if e.value is not None and e.value[0] in ("call", "xcall") else None
                    part = a is not None and "strip_" in show(a) and show(P(node)) in show(a)
                    if not marked and not part:
                        s.bad("unmarked-recursion", p, "recurses without having marked the node it is at: a cycle never ends")
            here = [a for a, v in p.state.atoms.items() if v and a[0] == "in" and a[2] == P("in_progress")]
            if here:
                s.obligation()
                if any(e.kind == "call" and e.name == name for e in p.events):
                    s.bad("marked-recursion", p, "recurses from a node that is already being visited")
                if strict and p.kind != "raise":
                    s.bad("cycle-accepted", p, "a node that depends on itself is planned instead of rejected")
        ctx.need(n, f"recursion in {key}")


BUILTIN_RAISES = {
    # misuse of the context-manager protocol and internal contradictions that no input reaches
    "RuntimeError": {"container:Container.__exit__", "container:Container.__aexit__", "compiler:_extract_function_code"},
    "TypeError": {"open_generics:cast_iterable", "open_generics:cast_mapping", "open_generics:_as_provider_type", "open_generics:_as_factory_provider",
                  "open_generics:_as_generator_provider", "open_generics:_as_context_manager_provider", "compiler:_call_provider"},
    "ValueError": {"compiler:_build_transition_plan_to_target", "compiler:_build_local_value_sync", "compiler:_build_local_value_async", "compiler:_build_local_value_sync_no_arguments",
                   "compiler:_build_local_value_async_no_arguments", "compiler:_resolve_dependency_value_sync", "compiler:_resolve_dependency_value_async",
                   "compiler:_argument_part_for_dependency", "compiler:_literal_value_for_plan"},
    "AttributeError": {"compiler:_MissingScopeResolver.__getattr__"},
}
BROAD = {
    # broad handlers around code of users: each records the first error or rolls back, and raises it again
    "compiler:_resolver_exit", "compiler:_resolver_aexit", "open_generics:_execute_sync_cleanup_callbacks", "open_generics:_execute_async_cleanup_callbacks",
    "container:Container._registration_mutation",
    # around attribute access on a scope object during validation; no provider code runs
    "planner:validate_resolver_assembly_managed_scopes",
}


def library_errors_only(ctx):
    """Outside contradictions no input reaches, whatever the library raises itself is a DIWireError; broad handlers exist only where the error is kept and raised again."""
    prog = ctx.cur
    exc = prog.module("diwire.exceptions") if "diwire.exceptions" in prog.modules else next((m for m in prog.modules.values() if m.rel.endswith("diwire/exceptions.py")), None)
    if exc is None:
        raise AnchorError("exceptions module")
    family = {"DIWireError"}
    for _ in range(4):
        family |= {c.name for c in exc.classes.values() if any(b in family for b in c.base_names)}
    for c in exc.classes.values():
        ctx.count("exception_classes")
        if c.name not in family:
            ctx.report("outside-family", f"exceptions:{c.name}", exc.rel, c.node.lineno, f"{c.name} does not derive from DIWireError")
    funcs, current = view(ctx)
    import builtins

    for k, f in funcs.items():
        reported = k in current
        for n in walk_own(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                nm = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None
                ctx.count("raise_sites")
                if nm and isinstance(getattr(builtins, nm, None), type) and k not in BUILTIN_RAISES.get(nm, ()):
                    if reported or k in ctx.functions:
                        ctx.report("builtin-error", k, f.module.rel, n.lineno, f"raises {nm}, which is not a DIWireError")
            elif isinstance(n, ast.ExceptHandler):
                ctx.count("handlers")
                names = {x.id for x in ast.walk(n.type) if isinstance(x, ast.Name)} if n.type is not None else {"BaseException"}
                if names & {"Exception", "BaseException"} and k.split(".<locals>")[0] not in BROAD and (reported or k in ctx.functions):
                    ctx.report("broad-handler", k, f.module.rel, n.lineno, "a broad handler can swallow or convert errors raised by user code")


@subject_rule
def test_item_restored(ctx):
    """Whatever happens, the pytest hook leaves the test item with its own function and the function with the signature it had; the injected call resolves from the item's container."""
    s = Subject(ctx, "integrations.pytest_plugin:pytest_pyfunc_call")
    item, obj = P("pyfuncitem"), attr(P("pyfuncitem"), "obj")
    n = 0
    for p in s.paths():
        swaps = [e for e in p.events if e.kind == "store" and is_attr(e.term, item, "obj")]
        if swaps:
            n += 1
            s.obligation(2)
            if swaps[-1].value != obj:
                s.bad("item-not-restored", p, "the test item keeps the injecting wrapper")
            after = [i for i, e in enumerate(p.events) if e.kind == "yield"]
            if after and p.events.index(swaps[-1]) < after[-1]:
                s.bad("restored-early", p, "the test item is restored before the test has run")
        signed = [e for e in p.events if e.kind in ("store", "del") and "__signature__" in (e.name or "")]
        if any(e.kind == "store" for e in signed):
            s.obligation()
            last = signed[-1]
            if last.kind == "store" and "_ORIGINAL_SIGNATURE" in show(last.value) or last.kind == "store" and "original_signature" in show(last.value):
                s.bad("signature-not-restored", p, "the function keeps the signature with injected parameters, so pytest would look for fixtures of those names")
    ctx.need(n, "pytest hook")


def closures(t):
    """Closure values inside a term, in order."""
    if isinstance(t, tuple):
        if t and t[0] == "fn":
            return [t]
        return [f for x in t for f in closures(x)]
    return []


@subject_rule
def wrapper_exit_complete(ctx):
    """Leaving an open-generic wrapper runs, through the common cleanup loop, the wrapped scope's exit once and the exit of every scope the wrapper opened, on every path."""
    for kind, aio in (("__exit__", "sync"), ("__aexit__", "async")):
        s = Subject(ctx, f"open_generics:_OpenGenericResolver.{kind}")
        n = 0
        for p in s.body_paths():
            n += 1
            s.obligation(3)
            runs = [e for e in p.events if e.kind == "call" and e.name == f"_execute_{aio}_cleanup_callbacks"]
            if len(runs) != 1:
                s.bad("cleanup-loop", p, f"the cleanup loop runs {len(runs)} times")
                continue
            kw = dict(runs[0].value[3])
            if [show(kw.get(x, NONE)) for x in ("exc_type", "exc_value", "traceback")] != ["exc_type", "exc_value", "traceback"]:
                s.bad("exception-not-passed", p, "the exception passing through is not handed to the cleanups")
            terms = [kw.get("callbacks", NONE)] + [a for e in p.events if e.kind == "mut" for a in e.args] + [e.value for e in p.events if e.kind == "store" and e.value is not None]
            fns = [t for x in terms for t in closures(p.state.deref(x))]
            inner, owned = 0, set()
            for t in fns:
                for q in s.comp.run_callable(s.it, p.state, t) or []:
                    for e in q.events:
                        if e.kind == "call" and e.name == kind:
                            if [show(x) for x in e.value[2]] != ["λ0", "λ1", "λ2"] and [show(v) for _, v in e.value[3]] != ["λ0", "λ1", "λ2"]:
                                s.bad("exception-not-passed", p, "a scheduled exit is not handed the exception passing through")
                            on = e.term[1] if e.term[0] == "a" else e.term[3]
                            if is_attr(on, P("self"), "_base_resolver"):
                                inner += 1
                            else:
                                owned.add(on)
                    break
            if inner != 1:
                s.bad("inner-exit", p, f"the wrapped scope's exit is scheduled {inner} times")
            want = sum(1 for a, v in p.state.atoms.items() if v and a[0] == "t" and is_attr(a[1], P("self"), "_owned_scope_wrappers"))
            if len(owned) != want or len(fns) != want + 1:
                s.bad("owned-exit", p, f"{want} owned scopes, {len(owned)} scheduled to close")
        ctx.need(n, kind)


def container_close_without_open(ctx):
    """Leaving or closing a container that never compiled is refused with an error instead of passing silently."""
    for name in ("__exit__", "__aexit__"):
        s = Subject(ctx, f"container:Container.{name}")
        n = 0
        for p in s.body_paths():
            if p.state.eq.get(attr(P("self"), "_root_resolver")) == NONE:
                n += 1
                s.obligation()
                if p.kind != "raise":
                    s.bad("silent-exit", p, "leaving a container that was never entered passes silently")
            elif p.kind == "ret":
                s.obligation()
                if not any(e.kind == "call" and e.name == name for e in p.events):
                    s.bad("not-closed", p, "the root resolver is not closed")
        ctx.need(n, name)
