"""Predicates over the enumerated paths of single functions.

A rule reads the current function when it is unchanged or does something else than its reviewed form,
and the reviewed form when the comparison has shown the two to be equal, so the way a function is written cannot upset it.
"""
from __future__ import annotations

from ..engine import NONE, P, FALSE, TRUE, TooManyPaths, show
from ..program import AnchorError


class Subject:
    """One function under a rule: where it is read, its paths and the paths of the closures it returns."""

    def __init__(self, ctx, key: str) -> None:
        pair = ctx.pair
        if key not in pair.rf:
            raise AnchorError(key)
        self.ctx, self.key = ctx, key
        self.comp = ctx.comparator
        r = self.comp.compare(key)
        compared = not ctx.functions or key in ctx.functions  # helpers read inside their callers are settled by the comparison of the property
        current = compared and r.status in ("identical", "differs") and key in pair.cf
        self.side = self.comp.sides("known")[1 if current else 0]
        self.func = (pair.cf if current else pair.rf)[key]
        self.read = "current" if current else "reviewed, shown equal" if r.status == "equivalent" else "reviewed"
        at = pair.cf.get(key, self.func)
        self.file, self.line = at.module.rel, at.node.lineno
        self.it = self.side.interp(self.func)

    def paths(self):
        out = self.it.run(self.func)
        self.ctx.count("rule_paths", len(out))
        return out

    def body_paths(self):
        """Paths of the function the subject returns (a slot implementation, the coroutine of an async helper)."""
        out = []
        for p in self.paths():
            if p.kind == "ret" and p.ret is not None and p.ret[0] in ("fn", "gen", "gencall", "thunk", "coro"):
                qs = self.comp.run_callable(self.it, p.state, p.ret[1] if p.ret[0] == "coro" else p.ret)
                self.ctx.count("rule_paths", len(qs))
                out.extend(qs)
            else:
                out.append(p)
        return out

    def bad(self, rule, p, what):
        ev = next((e for e in reversed(p.events) if e.line), None)
        self.ctx.report(rule, self.key, self.file, ev.line if ev is not None and self.read == "current" else self.line, what, "; ".join(p.facts())[:900])

    def obligation(self, n=1):
        self.ctx.count("rule_obligations", n)


def subject_rule(fn):
    """Turns an analysis budget overrun into a lost anchor: the comparison still decides the function."""
    def rule(ctx):
        try:
            return fn(ctx)
        except TooManyPaths as e:
            raise AnchorError(f"path budget exceeded in {fn.__name__}") from e
    rule.__name__, rule.__doc__, rule.__module__ = fn.__name__, fn.__doc__, fn.__module__
    return rule


def attr(base, name):
    return ("a", base, name)


def is_attr(t, base, name) -> bool:
    """`base.name`, in whatever version."""
    return isinstance(t, tuple) and len(t) >= 3 and t[0] == "a" and t[1] == base and t[2] == name


def flag(p, name, base=P("workflow")):
    """Truth of a plan flag on the path, None when the path does not depend on it."""
    return p.truth(("a", base, name))


def call_arg(ev, name, pos=None):
    v = ev.kw(name)
    if v is None and pos is not None and len(ev.args) > pos:
        v = ev.args[pos]
    return v


def unawait(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == "await" else t


SLOT_IMPLS = (("compiler:_build_sync_slot_impl", "sync", "uses_thread_lock", "thread_lock_by_slot"),
              ("compiler:_build_async_slot_impl", "async", "uses_async_lock", "async_lock_by_slot"))
LOCAL_BUILDERS = ("compiler:_build_local_value_sync", "compiler:_build_local_value_sync_no_arguments",
                  "compiler:_build_local_value_async", "compiler:_build_local_value_async_no_arguments")


@subject_rule
def locked_construction(ctx):
    """A lock-protected provider is built only inside its own slot's lock, after the cache was read again under it, and is stored before the lock is left."""
    for key, kind, uses, table in SLOT_IMPLS:
        s = Subject(ctx, key)
        seen = 0
        for p in s.body_paths():
            if flag(p, uses) is not True:
                continue
            for i, e in enumerate(p.events):
                if e.kind != "call" or e.name != f"_build_local_value_{kind}":
                    continue
                seen += 1
                s.obligation(3)
                depth = [x for x in p.events[:i] if x.kind in ("enter", "exit") and x.term is not None and x.term[0] == "i" and x.term[2] == ("a", P("workflow"), "slot") and x.term[1][0] == "a" and x.term[1][2] == table]
                if sum(1 if x.kind == "enter" else -1 for x in depth) != 1:
                    s.bad("built-outside-lock", p, f"{table}[workflow.slot] is not held where the provider runs")
                    continue
                # two reads of the cache were decided "missing": one before the lock, one under it
                reads = {t for t, c in p.state.eq.items() if t[0] == "a" and "_cache_" in show(t) and "_MISSING_CACHE" in show(c)}
                if len(reads) < 2:
                    s.bad("no-second-read", p, "the cache is not read again after the lock was taken, so a value built by the previous holder is built again")
                left = next((x for x in p.events[i:] if x.kind == "exit"), None)
                stored = any(x.kind == "call" and x.name == f"_replace_{kind}_cache" for x in p.events[i:p.events.index(left)]) if left is not None else False
                if p.kind == "ret" and not stored:
                    s.bad("stored-outside-lock", p, "the value is not stored before the lock is released")
        ctx.need(seen, f"{key}: no locked construction")


@subject_rule
def cached_value_returned(ctx):
    """What a cached slot returns is what it read from the cache or what it has just built and stored; nothing is built when the cache holds a value."""
    for key, kind, uses, _ in SLOT_IMPLS:
        s = Subject(ctx, key)
        seen = 0
        for p in s.body_paths():
            if p.kind != "ret":
                continue
            builds = [e for e in p.events if e.kind == "call" and e.name == f"_build_local_value_{kind}"]
            stores = [e for e in p.events if e.kind == "call" and e.name == f"_replace_{kind}_cache"]
            if builds:
                seen += 1
                s.obligation(3)
                if len(builds) != 1 or len(stores) > 1 or not stores and flag(p, "is_cached") is not False:
                    s.bad("built-or-stored-twice", p, f"{len(builds)} constructions, {len(stores)} stores on one resolution")
                    continue
                v = call_arg(stores[0], "value") if stores else p.ret
                if unawait(v) != builds[0].value or unawait(p.ret) != builds[0].value:
                    s.bad("other-value", p, "the value returned or stored is not the one that was built")
                if not any("_cache_" in show(t) and "_MISSING_CACHE" in show(c) for t, c in p.state.eq.items()) and flag(p, "is_cached") is True:
                    s.bad("built-over-value", p, "a cached slot builds without having found its cache empty")
            elif "_cache_" in show(p.ret) and p.ret[0] != "call":
                seen += 1
                s.obligation()
                miss = [c for t, c in p.state.eq.items() if t == p.ret]
                if any("_MISSING_CACHE" in show(c) for c in miss):
                    s.bad("sentinel-returned", p, "the cache's own 'missing' marker is returned as a value")
        ctx.need(seen, key)


@subject_rule
def only_cached_values_stored(ctx):
    """A value enters a cache, or replaces a slot method, only for cached slots; it is the built value, and the slot method is replaced only where the root owns the cache."""
    for kind in ("sync", "async"):
        s = Subject(ctx, f"compiler:_replace_{kind}_cache")
        seen = 0
        for p in s.paths():
            stores = [e for e in p.events if e.kind == "store"]
            cached = flag(p, "is_cached")
            at_root = p.state.order.get((attr(P("runtime"), "root_scope_level"), attr(P("workflow"), "cache_owner_scope_level")))
            for e in stores:
                s.obligation()
                name, on = (show(e.term[2]), e.term[1]) if e.name is None and e.term[0] == "a" else (str(e.name), e.term)
                if cached is not True:
                    s.bad("transient-stored", p, "a value of a slot that is not cached is stored")
                elif on != P("resolver"):
                    s.bad("other-resolver", p, "the value is stored on another resolver than the one it was built for")
                elif "_cache_" in name:
                    seen += 1
                    if e.value != P("value"):
                        s.bad("other-value", p, "what is stored is not the value that was built")
                elif at_root != frozenset("="):
                    s.bad("method-replaced-below-root", p, "a slot method is replaced by a constant although the root does not own the cache")
            if cached is True and not stores and p.kind == "ret":
                s.bad("not-stored", p, "a cached value is not stored")
        ctx.need(seen, f"_replace_{kind}_cache")


@subject_rule
def async_slot_refused_first(ctx):
    """On a path of the synchronous slot where the provider needs async resolution, no provider runs and the async-context error (or a scope error, or the owner's own refusal) is the outcome."""
    s = Subject(ctx, "compiler:_build_sync_slot_impl")
    seen = 0
    for p in s.body_paths():
        if flag(p, "requires_async") is not True:
            continue
        seen += 1
        s.obligation()
        if any(e.kind == "call" and e.name == "_build_local_value_sync" for e in p.events):
            s.bad("async-built-sync", p, "a provider that requires async resolution is built synchronously")
        elif p.kind != "raise" or p.exc_name() != "DIWireAsyncDependencyInSyncContextError":
            s.bad("async-not-refused", p, "an async requirement does not end in DIWireAsyncDependencyInSyncContextError")
    ctx.need(seen, "no path for async requirements")
    for key in LOCAL_BUILDERS[:2]:
        s = Subject(ctx, key)
        for p in s.body_paths():
            if flag(p, "is_provider_async") is True and p.kind == "ret":
                s.obligation()
                r = p.ret
                if not (r[0] == "call" and r[1] == ("g", "compiler:_awaitable_in_sync")):
                    s.bad("async-value-returned", p, "a synchronous build of an async provider returns without the awaitable check")


@subject_rule
def scope_checked_before_provider(ctx):
    """Resources are built only on paths where the owning scope's resolver was found; a provider declared deeper than the current scope always ends in DIWireScopeMismatchError."""
    for key in LOCAL_BUILDERS:
        s = Subject(ctx, key)
        seen = 0
        for p in s.body_paths():
            kind = p.state.eq.get(attr(P("workflow"), "provider_attribute"))
            if kind is None or kind[-1] not in ("generator", "context_manager"):
                continue
            runs = [e for e in p.events if e.kind == "call" and (e.term == P("provider") or e.name == "_call_provider" or e.name in ("__enter__", "__aenter__"))]
            if not runs:
                continue
            seen += 1
            s.obligation()
            if p.is_(P("provider_scope_resolver"), ("g", "compiler:_MISSING_RESOLVER")) is not False and not _known_not(p, P("provider_scope_resolver"), "_MISSING_RESOLVER"):
                s.bad("provider-before-scope-check", p, "a resource provider runs on a path where its owning scope was not checked to be open")
        ctx.need(seen, key)
    s = Subject(ctx, "compiler:_provider_scope_resolver_for_workflow")
    seen = 0
    for p in s.paths():
        deeper = p.cmp(">", attr(P("workflow"), "scope_level"), P("class_scope_level"))
        if deeper is None:
            o = p.state.order.get((attr(P("workflow"), "scope_level"), P("class_scope_level")))
            o2 = p.state.order.get((P("class_scope_level"), attr(P("workflow"), "scope_level")))
            deeper = o == frozenset(">") or o2 == frozenset("<")
        if deeper:
            seen += 1
            s.obligation()
            if p.kind != "raise" or p.exc_name() != "DIWireScopeMismatchError":
                s.bad("scope-not-checked", p, "a provider declared in a deeper scope does not raise DIWireScopeMismatchError")
    ctx.need(seen, "no path for deeper scopes")


def _known_not(p, t, what) -> bool:
    return any(what in show(c) for c in p.state.ne.get(t, ()))


@subject_rule
def entered_then_registered(ctx):
    """Every entered resource registers exactly one cleanup: its own exit, of the right kind, on its owning scope, with nothing in between; nothing else is registered."""
    for key in LOCAL_BUILDERS:
        s = Subject(ctx, key)
        seen = 0
        for p in s.body_paths():
            enters = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("__enter__", "__aenter__")]
            regs = [(i, e) for i, e in enumerate(p.events) if e.kind == "mut" and "_cleanup_callbacks" in show(e.term)]
            enabled = p.truth(attr(P("resolver"), "_cleanup_enabled"))
            if enabled is not True:
                s.obligation()
                if regs:
                    s.bad("registered-while-disabled", p, "a cleanup is registered although cleanups are disabled on this scope")
                continue
            if p.kind != "ret" or not (enters or regs):
                continue
            seen += 1
            s.obligation(3)
            if len(enters) != 1 or len(regs) != 1:
                s.bad("enter-register-count", p, f"{len(enters)} resources entered, {len(regs)} cleanups registered")
                continue
            (i, e), (j, r) = enters[0], regs[0]
            between = [x for x in p.events[i + 1:j] if x.kind != "await" or x.term != e.value]
            if between:
                s.bad("window", p, "something that can fail runs between entering the resource and registering its cleanup")
            if r.name != "append" or not is_attr(r.term, P("provider_scope_resolver"), "_cleanup_callbacks"):
                s.bad("wrong-list", p, f"the cleanup is registered through {show(r.term)}.{r.name}, not appended to the owning scope's list")
                continue
            aio = e.name == "__aenter__"
            want = ("tup", (("c", "int", 1 if aio else 0), ("a", e.term[1], "__aexit__" if aio else "__exit__")))
            if r.args[0] != want:
                s.bad("wrong-cleanup", p, f"registers {show(r.args[0])}, not {show(want)}")
        ctx.need(seen, key)


EXITS = (("compiler:_resolver_exit", False), ("compiler:_resolver_aexit", True),
         ("open_generics:_execute_sync_cleanup_callbacks", False), ("open_generics:_execute_async_cleanup_callbacks", True))


@subject_rule
def every_cleanup_runs(ctx):
    """Each cleanup popped by an exit is called (or, asynchronous in a synchronous exit, reported) on every path; owned scopes close after it; the first error wins and is raised only when no exception was passing through."""
    for key, aio in EXITS:
        s = Subject(ctx, key)
        seen = 0
        for p in s.body_paths():
            evs = p.events
            pops = [i for i, e in enumerate(evs) if e.kind == "mut" and e.name == "pop" and ("callbacks" in show(e.term))]
            caught = [e for e in evs if e.kind == "caught"]
            passing = p.is_(P("exc_type"), NONE)
            for n, i in enumerate(pops):
                seen += 1
                s.obligation()
                end = pops[n + 1] if n + 1 < len(pops) else len(evs)
                part = evs[i + 1:end]
                ran = any(e.kind == "call" and e.term is not None and e.term[0] in ("el", "i", "s", "at", "sub") and [show(a) for a in e.args] == ["exc_type", "exc_value", "traceback"] for e in part) or any(e.kind == "call" and [show(a) for a in e.args] == ["exc_type", "exc_value", "traceback"] and e.name is None for e in part)
                refused = not aio and any(e.kind in ("new", "raise") and e.name == "DIWireAsyncDependencyInSyncContextError" for e in part)
                if not ran and not refused:
                    s.bad("cleanup-not-run", p, "a cleanup is taken off the list and neither called nor reported")
            if p.kind == "raise" and p.exc is not None:
                s.obligation()
                if passing is False:
                    s.bad("error-hidden", p, "an error of a cleanup replaces the exception that was passing through the scope")
                if caught and p.exc != caught[0].term:
                    s.bad("later-error", p, "not the first cleanup error is raised")
                if not caught:
                    s.bad("cleanups-abandoned", p, "an error leaves the exit directly, so the remaining cleanups do not run")
            elif p.kind == "ret" and caught and passing is True:
                s.bad("error-lost", p, "a cleanup error is swallowed although no other exception is passing through")
            if key.startswith("compiler:"):
                s.obligation()
                if not any(e.kind == "store" and e.name == "_active" and e.value == FALSE for e in evs):
                    s.bad("still-active", p, "a scope that was left stays marked active")
                last = pops[-1] if pops else -1
                first = next((i for i, e in enumerate(evs) if e.kind == "call" and e.name in ("__exit__", "__aexit__")), len(evs))
                if last > first:
                    s.bad("owned-first", p, "owned scopes are closed before the scope's own cleanups have run")
        ctx.need(seen, key)


@subject_rule
def binding_always_undone(ctx):
    """Leaving a bound resolver pops it on every path, whatever the inner exit does; entering pushes only after the inner enter succeeded."""
    for name, inner in (("__exit__", "__exit__"), ("__aexit__", "__aexit__")):
        s = Subject(ctx, f"resolver_context:_ResolverBoundResolver.{name}")
        for p in s.paths():
            s.obligation(2)
            pops = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "_pop_resolver"]
            ins = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == inner]
            if len(pops) != 1:
                s.bad("pop-count", p, f"{len(pops)} pops on a way out of the scope")
            elif not ins or ins[0] > pops[0]:
                s.bad("popped-early", p, "the binding is dropped before the scope has closed")
    for name, inner in (("__enter__", "__enter__"), ("__aenter__", "__aenter__")):
        s = Subject(ctx, f"resolver_context:_ResolverBoundResolver.{name}")
        for p in s.paths():
            s.obligation()
            push = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "_push_resolver"]
            ins = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == inner]
            if len(push) != 1 or not ins or ins[0] > push[0]:
                s.bad("push", p, "the binding is not pushed exactly once after the inner enter")


@subject_rule
def lookup_order(ctx):
    """The context lookup asks the bound resolver first, then the fallback container, and raises DIWireResolverNotSetError only when neither exists."""
    s = Subject(ctx, "resolver_context:ResolverContext._require_context_or_fallback_resolver")
    n = 0
    for p in s.paths():
        n += 1
        s.obligation()
        txt = show(p.ret) if p.kind == "ret" else ""
        used_fallback = "fallback" in txt
        bound_missing = any(("current_resolver" in show(t) or "bound_resolver" in show(t)) and c == NONE for t, c in p.state.eq.items())
        if p.kind == "ret" and used_fallback and not bound_missing:
            s.bad("fallback-first", p, "the fallback container is used although a resolver is bound")
        if p.kind == "raise" and p.exc_name() != "DIWireResolverNotSetError":
            s.bad("other-error", p, "an unbound context does not raise DIWireResolverNotSetError")
        if p.kind == "raise" and not bound_missing:
            s.bad("refused", p, "the lookup fails although a resolver is bound")
    ctx.need(n >= 3, "lookup paths")


@subject_rule
def nearest_context_value(ctx):
    """The context lookup returns a value only from a context that contains the key (whatever the value), nearest first."""
    s = Subject(ctx, "compiler:_resolver_resolve_from_context")
    rets = 0
    for p in s.paths():
        s.obligation()
        if p.kind == "ret":
            rets += 1
            r = p.ret
            if not (r[0] == "i" and is_context(r[1])):
                s.bad("not-a-context-value", p, f"returns {show(r)}")
                continue
            yes = [a for a, v in p.state.atoms.items() if v and a[0] == "in" and a[1] == r[2] and a[2] == r[1]]
            if not yes:
                s.bad("membership", p, "a value is returned without the key being known to be in that context")
            # every nearer context was asked and did not have it
            depth = show(r[1]).count("_parent_context_resolver")
            asked = {show(a[2]).count("_parent_context_resolver") for a, v in p.state.atoms.items() if not v and a[0] == "in" and a[1] == r[2]}
            absent = {show(t).count("_parent_context_resolver") for t, c in p.state.eq.items() if c == NONE and is_context(t)}
            for d in range(depth):
                if d not in asked and d not in absent:
                    s.bad("not-nearest", p, f"the context {d} level(s) up was not asked first")
        elif p.exc_name() != "DIWireDependencyNotRegisteredError":
            s.bad("other-error", p, "a missing context value does not raise DIWireDependencyNotRegisteredError")
    ctx.need(rets >= 2, "context lookup paths")


def is_context(t) -> bool:
    return isinstance(t, tuple) and len(t) >= 3 and t[0] == "a" and t[2] == "_context"


@subject_rule
def strict_policy_registers_nothing(ctx):
    """With missing policy ERROR no path of the implicit-registration entry does anything."""
    s = Subject(ctx, "container:Container._ensure_autoregistration")
    n = 0
    for p in s.paths():
        err = [t for t, c in p.state.eq.items() if show(c).endswith("MissingPolicy.ERROR")]
        writes = [e for e in p.events if e.kind in ("store", "mut") or e.kind == "call" and "autoregister" in (e.name or "")]
        if err:
            n += 1
            s.obligation()
            if writes or p.kind != "ret":
                s.bad("registers-under-error", p, "something is registered although the policy is ERROR")
        elif writes:
            s.obligation()
            if not any(any(show(c).endswith("MissingPolicy.ERROR") for c in cs) for cs in p.state.ne.values()) and not any(not v and "MissingPolicy.ERROR" in str(a) for a, v in p.state.atoms.items()):
                s.bad("policy-not-asked", p, "implicit registration on a path that did not rule out the ERROR policy")
    ctx.need(n, "no path for the ERROR policy")
