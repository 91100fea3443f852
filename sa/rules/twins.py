"""The synchronous and the asynchronous form of one operation do the same things in the same order.

Both functions are enumerated; awaiting is erased, asynchronous names are mapped to their synchronous ones, and the two sets of
normal paths (decisions, effects, outcome) must be equal, or the synchronous set be contained in the asynchronous one where the
latter also handles asynchronous cleanups.
"""
from __future__ import annotations

import re

from .paths import Subject, subject_rule

OG = "open_generics:_OpenGenericResolver."
SAME = [
    ("container:Container._resolve_sync_injected_arguments", "container:Container._resolve_async_injected_arguments"),
    ("container:Container.resolve", "container:Container.aresolve"),
    ("container:Container.__enter__", "container:Container.__aenter__"),
    ("container:Container.__exit__", "container:Container.__aexit__"),
    ("container:Container.close", "container:Container.aclose"),
    (OG + "resolve", OG + "aresolve"),
    (OG + "_resolve_maybe_sync", OG + "_resolve_maybe_async"),
    (OG + "_resolve_maybe_from_context_sync", OG + "_resolve_maybe_from_context_async"),
    (OG + "__exit__", OG + "__aexit__"),
    (OG + "close", OG + "aclose"),
    (OG + "build_open_value_sync", OG + "build_open_value_async"),
    (OG + "_resolve_call_arguments_sync", OG + "_resolve_call_arguments_async"),
    (OG + "_resolve_binding_value_sync", OG + "_resolve_binding_value_async"),
    ("resolver_context:_ResolverBoundResolver.resolve", "resolver_context:_ResolverBoundResolver.aresolve"),
    ("resolver_context:_ResolverBoundResolver.__enter__", "resolver_context:_ResolverBoundResolver.__aenter__"),
    ("resolver_context:_ResolverBoundResolver.__exit__", "resolver_context:_ResolverBoundResolver.__aexit__"),
    ("resolver_context:_ResolverBoundResolver.close", "resolver_context:_ResolverBoundResolver.aclose"),
    ("resolver_context:ResolverContext.resolve", "resolver_context:ResolverContext.aresolve"),
    ("compiler:_resolve_dispatch_fallback_sync", "compiler:_resolve_dispatch_fallback_async"),
    ("compiler:_resolve_dependency_value_sync", "compiler:_resolve_dependency_value_async"),
    ("compiler:_build_argument_parts_sync", "compiler:_build_argument_parts_async"),
]
WITHIN = [
    ("open_generics:_execute_sync_cleanup_callbacks", "open_generics:_execute_async_cleanup_callbacks"),
    ("compiler:_resolver_exit", "compiler:_resolver_aexit"),
]
DROPPED = {"runtime", "dependency_requires_sync"}  # keywords only one of the two builders takes


def sync_name(s: str) -> str:
    s = re.sub(r":\d+(?=$|\.|:)", "", s)
    s = re.sub(r"_async(?=_|$|:|\b)", "_sync", s)
    s = re.sub(r"\baresolve", "resolve", s)
    s = re.sub(r"__a(enter|exit)__", r"__\1__", s)
    s = re.sub(r"\baclose", "close", s)
    s = s.replace(".<locals>._run.", ".").replace(".<locals>._run", "")
    return s.replace("asynccontextmanager", "contextmanager").replace("AsyncGenerator", "Generator").replace("_aexit", "_exit").replace("async ", "")


def sync_term(t):
    if isinstance(t, str):
        return sync_name(t)
    if isinstance(t, tuple):
        if t and t[0] in ("await", "coro"):
            return sync_term(t[1])
        if t and t[0] == "a":
            return ("a", sync_term(t[1]), sync_term(t[2]))
        if t and t[0] == "fn":
            return ("fn", sync_term(t[1]).replace("<locals>.", ""))
        if t and t[0] in ("call", "xcall") and len(t) >= 4:
            return (t[0], sync_term(t[1]), sync_term(t[2]), tuple(x for x in sync_term(t[3]) if not (isinstance(x, tuple) and x and x[0] in DROPPED)))
        if t and t[0] == "tup" and len(t) == 2 and len(t[1]) == 2 and t[1][0] in (("c", "int", 0), ("c", "int", 1)) and t[1][1][0] in ("fn", "a"):
            return ("cleanup", sync_term(t[1][1]))
        return tuple(sync_term(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(sync_term(x) for x in t)
    return t


def shape(p):
    """A normal path with awaiting erased; None for paths on which a call raised."""
    if any(v and a[0] == "raises" for a, v in p.state.atoms.items()) or any(e.kind == "caught" for e in p.events):
        return None
    d = lambda t: p.state.deref(t) if isinstance(t, tuple) else t  # noqa: E731
    evs = [(e.kind, sync_term(e.name), sync_term(d(e.term)), tuple(sync_term(d(a)) for a in e.args), sync_term(d(e.value))) for e in p.events if e.kind != "await"]
    facts = {(repr(sync_term(a)), v) for a, v in p.state.atoms.items() if a[0] != "raises"}
    facts |= {("eq", repr(sync_term(t)), repr(sync_term(c))) for t, c in p.state.eq.items()}
    return repr((sorted(map(str, facts)), evs, p.kind, sync_term(d(p.ret)), sync_term(p.exc)))


def bodies(s: Subject):
    out = []
    for p in s.paths():
        if p.kind == "ret" and p.ret is not None and (p.ret[0] in ("gen", "gencall", "thunk", "coro") or p.ret[0] == "fn" and "<lambda>" not in str(p.ret[1])):
            out.extend(s.comp.run_callable(s.it, p.state, p.ret[1] if p.ret[0] == "coro" else p.ret) or [])
        else:
            out.append(p)
    return out


@subject_rule
def twins_agree(ctx):
    """Each operation does the same in its synchronous and its asynchronous form, awaiting aside."""
    for pairs, within in ((SAME, False), (WITHIN, True)):
        for a, b in pairs:
            sa, sb = Subject(ctx, a), Subject(ctx, b)
            A = {k: p for p in bodies(sa) if (k := shape(p)) is not None}
            B = {k: p for p in bodies(sb) if (k := shape(p)) is not None}
            sa.obligation(len(A) + len(B))
            ctx.need(A and B, f"{a} / {b}")
            for k in sorted(A.keys() - B.keys())[:1]:
                sa.bad("sync-only-behaviour", A[k], f"a path of the synchronous form has no counterpart in {b.split(':')[1]}")
            if not within:
                for k in sorted(B.keys() - A.keys())[:1]:
                    sb.bad("async-only-behaviour", B[k], f"a path of the asynchronous form has no counterpart in {a.split(':')[1]}")
