"""Regenerates /verif/properties.jsonl (kept as data here so it can be reviewed in one place)."""
import json, pathlib

CO = "src/diwire/_internal/resolvers/assembly/compiler.py"
PL = "src/diwire/_internal/resolvers/assembly/planner.py"
CT = "src/diwire/_internal/container.py"
OG = "src/diwire/_internal/open_generics.py"
RC = "src/diwire/_internal/resolver_context.py"
PR = "src/diwire/_internal/providers.py"
MK = "src/diwire/_internal/markers.py"
IN = "src/diwire/_internal/injection.py"
AR = "src/diwire/_internal/autoregistration.py"
PT = "src/diwire/_internal/integrations/pytest_plugin.py"
PS = "src/diwire/_internal/integrations/pydantic_settings.py"
EX = "src/diwire/exceptions.py"

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }

props = [
P("C01", "A scoped provider yields one identical object per owning scope",
  "Within one scope instance every resolution of a SCOPED registration returns the identical object that the first resolution built, whatever that value is (including None or falsy values) and whichever path reached it: direct or nested, sync or async, from that scope or from a deeper one. A TRANSIENT registration runs its provider on every resolution, and a registered instance is returned as is.",
  ["configurations", "histories", "programs"],
  "every provider kind, lifetime, lock mode, scope layout and sequence of resolutions",
  "Tests sample a few graphs; each graph selects a different specialised code path of the generated resolver, and the guarantee must hold on every one of them.",
  [CO, PL, OG],
  [("runtime slot resolvers and cache replacement", CO + ":_build_sync_slot_impl,_build_async_slot_impl,_replace_sync_cache,_replace_async_cache"),
   ("generated slot methods", CO + ":_compile_slot_method,_compile_specialized_sync_slot_method"),
   ("lifetime to caching decision", PL + ":_is_cached,_cache_owner_scope_level")],
  [("_cache_<slot>", "cached value of a scoped slot in one scope instance", CO)],
  ["resolve/aresolve return values"]),
P("C02", "Locked cached providers are constructed at most once under concurrency",
  "When the effective lock mode of a SCOPED sync-only provider is THREAD, concurrent resolutions of it from any threads in one scope run its provider at most once and all receive that value; likewise for concurrent tasks when the effective mode is ASYNC and the graph needs async. Under \"auto\", containers holding any async registration use ASYNC and all others use THREAD, an explicit provider-level mode always wins over the container default, and concurrent first resolutions of one container share one compiled graph.",
  ["schedules", "configurations"],
  "every interleaving of resolving threads/tasks and every combination of provider and container lock mode",
  "Interleavings cannot be enumerated by running; a test that passes once says nothing about the window between the unlocked read and the store.",
  [CO, PL, OG, CT],
  [("double-checked locking in slot resolvers", CO + ":_build_sync_slot_impl,_build_async_slot_impl"),
   ("lock selection", PL + ":_resolve_effective_lock_mode,_build_workflow_plan"),
   ("open generic locks", OG + ":_resolve_open_match_sync,_resolve_open_match_async"),
   ("serialised compilation", CT + ":compile")],
  [("per-slot locks", "one lock object per locked slot", CO + ":_bootstrap_runtime")],
  ["number of provider invocations", "identity of resolved values"]),
P("C03", "Values are owned by the scope of their registration and never leak",
  "A SCOPED value is stored in the nearest open scope instance whose level is the registration's scope, and deeper scopes obtain it from that very instance. Two separately entered scope instances never share cached values or context, also when a previously closed scope object is reused for a later entry.",
  ["histories", "configurations"],
  "every sequence of scope entries, exits and resolutions and every scope layout",
  "Depends on which of several generated or pooled scope objects serves an entry; tests enter a handful of layouts.",
  [CO, OG],
  [("scope object (re)initialisation", CO + ":_resolver_init,_compile_init_method,_compile_specialized_init_method"),
   ("scope entry and pooling", CO + ":_resolver_enter_scope,_compile_enter_scope_method,_instantiate_scope_transition"),
   ("owner lookup", CO + ":_owner_resolver_for_scope; " + OG + ":_resolve_cache_owner,_scope_owner_for_level,parent_wrapper")],
  [("_scope_resolver_<level>", "the scope instance of that level visible from a resolver", CO)],
  ["identity of values resolved in different scope instances"]),
P("C04", "Resolving without the required scope fails and builds nothing that depends on it",
  "If a dependency, or anything it transitively needs, belongs to a deeper scope than the ones currently open, resolving it raises DIWireScopeMismatchError. In that case neither the provider of the closed scope nor any provider that transitively depends on it has been called, and none of their values is cached.",
  ["configurations", "programs"],
  "every dependency graph and every currently open scope",
  "The outcome depends on transitive maximum scope levels over arbitrary graphs and on each specialised resolver variant.",
  [CO, PL, OG],
  [("scope guards in slot resolvers", CO + ":_provider_scope_resolver_for_workflow,_raise_scope_mismatch,_scope_mismatch_lines_for_source,_delegate_scope_lines_for_source"),
   ("transitive maximum scope", PL + ":_build_max_required_scope_level_by_slot,_resolve_max_required_scope_level"),
   ("open generic execution owner", OG + ":_resolve_execution_owner")],
  [], ["exception type", "provider call log"]),
P("C05", "Scope entry follows the declared scope order",
  "Entering the current level returns the same resolver (except at the deepest level, where a plain resolver refuses every entry and only an open-generic wrapper returns itself), entering a shallower or unknown scope raises DIWireScopeMismatchError, and entering a deeper scope opens it together with every non-skippable level in between and closes those intermediate levels together with it. Entering without an argument opens the next non-skippable level, or the next level when all deeper ones are skippable, and at the deepest level raises.",
  ["configurations", "inputs"],
  "every custom scope declaration (any levels and skippable flags), current level and requested scope",
  "Tests use the built-in scopes and a few custom ones; transition planning branches on level arithmetic over arbitrary declarations.",
  [CO, OG, "src/diwire/_internal/scope.py"],
  [("transition planning", CO + ":_build_transition_plan_to_target,_next_scope_options,_resolver_enter_scope"),
   ("generated enter_scope", CO + ":_compile_enter_scope_method,_compile_specialized_enter_scope_method"),
   ("open generic transition path", OG + ":_resolve_scope_transition_path,enter_scope")],
  [], ["returned resolver", "exception type"]),
P("C06", "Every entered resource registers exactly one cleanup on its owning scope",
  "A generator or context-manager provider that has been entered successfully has its exit callback registered exactly once, immediately after entering and before any later step can fail, on the scope that owns the provider, tagged as sync or async according to how it was entered. A provider that was not entered successfully registers no cleanup.",
  ["fault_sequences", "configurations"],
  "every failure point around entering a resource and every provider kind, scope and open/closed generic form",
  "A leak needs a failure at one specific step of one specific variant; tests inject few failures.",
  [CO, OG],
  [("local value builders", CO + ":_build_local_value_sync,_build_local_value_async"),
   ("generated specialised builders", CO + ":_compile_specialized_sync_slot_method"),
   ("open generic builders", OG + ":_build_open_value_sync,_build_open_value_async")],
  [("_cleanup_callbacks", "ordered (kind, callback) pairs of one scope instance", CO)],
  ["enter/exit log of providers"]),
P("C07", "Closing a scope runs every cleanup once, in reverse order, without hiding errors",
  "Leaving a scope runs all cleanups registered on it, most recent first, each exactly once and with the exception details of the body, even when some of them raise anything at all, and then closes the intermediate scopes it opened. The body's own exception is never replaced or suppressed; when the body succeeded the first cleanup error is raised after everything ran.",
  ["fault_sequences", "histories"],
  "every set of cleanups, every subset of them failing with any exception, with and without a failing body",
  "The number of failing/succeeding combinations is unbounded and the behaviour must hold in each of several exit implementations.",
  [CO, OG],
  [("exit", CO + ":_resolver_exit,_resolver_aexit"),
   ("generated exit variants", CO + ":_compile_exit_method,_compile_no_cleanup_exit_method"),
   ("open generic cleanup", OG + ":_execute_sync_cleanup_callbacks,_execute_async_cleanup_callbacks,__exit__,__aexit__")],
  [("_cleanup_callbacks", "pending cleanups", CO), ("_owned_scope_resolvers", "intermediate scopes to close", CO)],
  ["cleanup log", "exception leaving the with block"]),
P("C08", "Async cleanups are never silently dropped by a synchronous exit",
  "If a scope that holds an async cleanup is closed synchronously, DIWireAsyncDependencyInSyncContextError is raised (unless the body is already raising) and the remaining sync cleanups still run. An asynchronous exit runs sync cleanups synchronously and awaits async ones, in the same reverse order.",
  ["histories", "configurations"],
  "every mixture and order of sync and async cleanups on every scope type",
  "Requires all mixtures of cleanup kinds in each exit implementation.",
  [CO, OG],
  [("kind dispatch in exits", CO + ":_resolver_exit,_resolver_aexit,_compile_exit_method"),
   ("open generic kind dispatch", OG + ":_execute_sync_cleanup_callbacks,_execute_async_cleanup_callbacks")],
  [], ["exception type", "cleanup log"]),
P("C09", "Sync resolution of anything async always raises the async-context error",
  "Resolving synchronously a dependency whose provider, or any eagerly resolved transitive dependency, is asynchronous raises DIWireAsyncDependencyInSyncContextError, unless its finished value is already cached and returned as it is; it never returns a coroutine, an async generator or a partially built object. Lazily resolved provider handles do not make their holder asynchronous.",
  ["programs", "configurations"],
  "every dependency graph with any placement of async providers and any annotation wrapper around the edge",
  "Async requirement is a transitive closure over arbitrary graphs and marker kinds.",
  [PL, CO, OG],
  [("transitive async requirement", PL + ":_build_requires_async_by_slot,_resolve_requires_async,_plan_dependency"),
   ("guards before building", CO + ":_build_sync_slot_impl,_build_local_value_sync,_awaitable_in_sync,_compile_specialized_sync_slot_method"),
   ("open generic guard", OG + ":_resolve_open_match_sync,_build_open_value_sync")],
  [], ["resolve() outcome"]),
P("C10", "Sync and async resolution behave alike",
  "For a graph that needs no asynchronous work, the async API gives the same values, errors, caching, scope delegation and cleanup registration as the sync API; where both exist, entering, exiting and injecting asynchronously follow the same decisions as their sync counterparts.",
  ["programs", "inputs", "histories"],
  "every graph, marker kind, scope state and exit outcome",
  "Each behaviour exists twice in the code; tests rarely assert both halves on the same inputs.",
  [CO, OG, CT, RC],
  [("twin implementations", CO + ":*_sync/*_async; " + OG + ":*_sync/*_async; " + CT + ":resolve/aresolve,_resolve_*_injected_arguments; " + RC + ":resolve/aresolve,__exit__/__aexit__")],
  [], ["results of the sync and async API for the same container"]),
P("C11", "A failed registration leaves the container exactly as it was",
  "If any registration or decoration call raises, whatever the exception, the set of registrations, open-generic registrations, decoration rules and chains, and hence everything resolvable, is the same as before the call, including for nested automatic registrations made on its behalf.",
  ["fault_sequences", "histories"],
  "every registration call, every prior history and every point at which validation can fail",
  "Each failure point after the first mutation is a separate scenario; tests hit a few of them.",
  [CT, PR, OG],
  [("transaction around registrations", CT + ":_registration_mutation"),
   ("registry snapshots", PR + ":ProvidersRegistrations.snapshot,restore; " + OG + ":_OpenGenericRegistry.snapshot,restore")],
  [("registries and decoration tables", "all mutable registration state", CT)],
  ["resolve() after a failed registration"]),
P("C12", "Registrations take effect on the next resolution",
  "After any successful registration, decoration or automatic registration, the next resolution through the container uses the new graph, also when the container had been compiled and its methods bound to the previous graph. Compiling twice without changes returns the same root resolver.",
  ["histories"],
  "every interleaving of registrations, compilations and resolutions",
  "Histories are unbounded; stale state appears only after a particular register/compile/register order.",
  [CT],
  [("invalidation", CT + ":_invalidate_compilation,_finalize_registration_after_binding,_restore_container_entrypoints"),
   ("recompilation", CT + ":compile,resolve,aresolve")],
  [("_root_resolver", "compiled root resolver or None", CT)],
  ["resolved values before/after a registration"]),
P("C13", "The last registration of a key wins and keys are independent",
  "Registering a key again replaces the earlier registration for every lookup and enumeration, and never affects other keys. A component-qualified key is distinct from its base key and from other components, and equal component markers denote the same key whether passed by argument or by annotation.",
  ["inputs", "histories"],
  "every sequence of registrations over keys with and without components, concrete or open generic",
  "Key identity ranges over arbitrary annotations; tests use a few.",
  [PR, CT, OG, MK],
  [("provider registry indexes", PR + ":ProvidersRegistrations.add"),
   ("key normalisation", CT + ":_resolve_registration_component_provides,_normalize_registration_component; " + MK + ":strip_non_component_annotation,component_base_key"),
   ("open generic registry", OG + ":_OpenGenericRegistry.register")],
  [], ["resolve() by key"]),
P("C14", "Decoration preserves the registration it wraps",
  "A decorated key keeps the lifetime, scope and lock mode of the registration it wraps; decorators apply in registration order with the newest outermost, each receiving the previous layer. Rules declared before a registration exists apply when it is registered, and re-registering the key replaces the innermost implementation while keeping all decorators.",
  ["histories", "configurations"],
  "every order of registrations, re-registrations and decorations over concrete and open-generic keys",
  "Orders of register/decorate/re-register are unbounded.",
  [CT],
  [("decoration chain maintenance", CT + ":decorate,_rebuild_decoration_chain,_copy_provider_spec_with_new_key,_finalize_registration_after_binding")],
  [("_decoration_chain_by_provides", "base key and layer keys per decorated key", CT)],
  ["resolved decorator stack", "identity across scopes"]),
P("C15", "Strict policies never register anything implicitly",
  "With the missing policy ERROR, resolving an unregistered dependency raises DIWireDependencyNotRegisteredError and registers nothing; with the dependency policy IGNORE, registering a provider registers only that provider. A per-call policy overrides the container default, and resolving with root-only registration registers the requested type but not its dependencies.",
  ["configurations", "inputs"],
  "every combination of container and per-call policies over every entry point",
  "Policies multiply over entry points and per-call overrides.",
  [CT],
  [("policy gates", CT + ":_ensure_autoregistration,_autoregister_provider_dependencies,resolve,aresolve,_resolve_resolution_on_missing,_resolve_registration_dependency_registration_policy")],
  [], ["registered keys after a call", "exception type"]),
P("C16", "Automatic registration only accepts eligible concrete classes",
  "Implicit registration happens only for concrete user classes: never for builtins, abstract classes, protocols, non-class keys, or a key that already has a registration or an open-generic match, which it never overwrites. Settings classes are registered once at the root scope regardless of the requesting scope, and a failed implicit dependency registration never fails the explicit registration it served.",
  ["inputs", "programs"],
  "every class reachable through annotations",
  "Eligibility ranges over all Python classes and annotations.",
  [AR, CT, PS],
  [("eligibility predicate", AR + ":ConcreteTypeAutoregistrationPolicy.is_eligible_concrete"),
   ("no overwrite guards", CT + ":_ensure_autoregistration,_autoregister_provider_dependencies,_autoregister_injected_dependencies,_autoregister_dependency"),
   ("settings detection", PS + ":is_pydantic_settings_subclass")],
  [], ["registered keys"]),
P("C17", "Context binding is restored on every way out of a scope",
  "Entering a container or scope makes it current for the running task or thread only, and leaving it, normally, by exception, by a failing cleanup or by cancellation, makes exactly the previously current resolver current again. A scope whose entry failed is never current, and bindings nest to any depth.",
  ["histories", "fault_sequences", "schedules"],
  "every nesting of scopes, every exit outcome, every interleaving of tasks",
  "Needs every combination of exit outcome and nesting; a leak shows only in a later unrelated resolution.",
  [RC, CT],
  [("push/pop of the bound resolver", RC + ":_ResolverBoundResolver.__enter__,__exit__,__aenter__,__aexit__; ResolverContext._push,_pop"),
   ("container delegation", CT + ":__enter__,__exit__,__aenter__,__aexit__")],
  [("context variable stack", "bound resolvers and their reset tokens", RC)],
  ["resolver seen by resolver_context.resolve"]),
P("C18", "Resolver lookup prefers explicit, then bound, then fallback",
  "An injected callable uses the resolver passed explicitly to the call, else the resolver bound in the current context, else the fallback container, else raises DIWireResolverNotSetError; context-level resolve, aresolve and enter_scope use the same order without the explicit step. A container that opted out of the context never uses a bound resolver.",
  ["histories", "configurations"],
  "every combination of explicit, bound and fallback resolvers",
  "The combinations and their per-entry-point implementations are only sampled.",
  [RC, CT],
  [("lookup order", RC + ":resolve,aresolve,enter_scope,_get_bound_resolver_or_none,_require_context_or_fallback_resolver; " + CT + ":_get_context_bound_resolver_or_none,_resolve_inject_resolver")],
  [], ["which container served a call"]),
P("C19", "Injected callables receive explicit arguments first and close what they open",
  "An injected wrapper never overwrites an argument the caller passed, fills every other marked parameter from the resolver of that call, and never forwards its reserved keyword arguments to the wrapped callable. If it opened a scope for the call, argument resolution and the call itself run inside it and it is closed on return and on error; if it opened none, it closes none and rejects supplied context values.",
  ["inputs", "fault_sequences"],
  "every signature, call argument combination, scope state and failure of the callable",
  "Signatures and call shapes are unbounded.",
  [CT, RC, IN],
  [("wrapper bodies", CT + ":_inject_callable,_enter_scope_if_needed,_validate_inject_context_usage,_pop_inject_context,_resolve_sync_injected_arguments,_resolve_async_injected_arguments"),
   ("parameter inspection", IN + ":InjectedCallableInspector")],
  [], ["arguments received by the callable", "cleanup log"]),
P("C20", "Context values come from the nearest scope that has the key",
  "A context dependency resolves to the value supplied for exactly that key by the nearest enclosing open scope, including None and falsy values; a key supplied by no open scope raises DIWireDependencyNotRegisteredError unless it is optional. Context values are never cached across scopes.",
  ["histories", "inputs"],
  "every nesting of scopes and every set of supplied context mappings",
  "Nesting depth and key/value sets are unbounded.",
  [CO, OG, CT],
  [("context lookup", CO + ":_resolver_resolve_from_context,_resolver_is_registered_dependency"),
   ("open generic context lookup", OG + ":_resolve_maybe_from_context_sync,_resolve_maybe_from_context_async,resolve,aresolve")],
  [("_context", "mapping supplied at scope entry", CO), ("_parent_context_resolver", "next enclosing scope to consult", CO)],
  ["value of FromContext parameters"]),
P("C21", "Optional, lazy and collection markers mean what they say",
  "An optional dependency yields None (or the parameter default) exactly when its key is not resolvable and otherwise behaves like the plain dependency; a lazy provider handle resolves its key in the scope that created it each time it is called; a collection yields, in registration order (a key counts from its latest registration or decoration), the plain registration and every component registration of its base key, and is empty when there is none.",
  ["programs", "configurations"],
  "every nesting of markers over every key and registration set",
  "Marker combinations are implemented separately in dispatch, planning, injection and open generics.",
  [CO, PL, OG, MK],
  [("marker handling", CO + ":_resolve_dispatch_fallback_sync,_resolve_dispatch_fallback_async,_resolve_dependency_value_sync,_resolve_dependency_value_async"),
   ("planning", PL + ":_plan_dependency"),
   ("open generics", OG + ":resolve,aresolve,_resolve_binding_value_sync,_resolve_binding_value_async")],
  [], ["resolved values of marked parameters"]),
P("C22", "Circular dependencies are rejected with an error, never a hang",
  "A cycle among eagerly resolved dependencies of registered providers is reported as DIWireInvalidProviderSpecError no later than the first resolution, and no provider on the cycle is called; lazily resolved edges do not count as cycles. Planning terminates on every graph.",
  ["programs"],
  "every dependency graph with any cycle length and any marker on the edges",
  "Graphs are unbounded; termination cannot be tested.",
  [PL, OG],
  [("cycle detection in graph walks", PL + ":_resolve_requires_async,_resolve_max_required_scope_level (depth-first walks over slots)")],
  [], ["exception type"]),
P("C23", "Each provider parameter receives its own dependency",
  "A provider is called once per construction with every declared dependency bound to its own parameter, by position or keyword as the signature demands (variadic positionals spread in order, variadic keywords by name), and with no other arguments; parameters without a resolvable dependency keep their defaults.",
  ["programs"],
  "every provider signature and every declared-dependency order",
  "Signatures are unbounded and handled by several specialised argument builders.",
  [PL, CO, OG],
  [("argument planning", PL + ":_plan_dependency,_dependency_order_is_signature_order"),
   ("argument building", CO + ":_build_argument_parts_sync,_build_argument_parts_async,_argument_part_for_dependency,_insert_internal_resolver_argument,_optimized_sync_arguments"),
   ("open generics", OG + ":_resolve_call_arguments_sync,_resolve_call_arguments_async")],
  [], ["arguments received by providers"]),
P("C24", "User-controlled text never becomes code in generated resolvers",
  "Source text compiled at run time is built only from constant fragments, integers, and identifiers derived from integers or from declared scope names; names, keys, annotations and values supplied by users reach generated code solely as objects looked up in its namespace. No other part of the library evaluates dynamic code.",
  ["inputs", "programs"],
  "every class, parameter, scope and component name",
  "An injection needs one hostile name on one of many template holes.",
  [CO, PL],
  [("source templates", CO + ":_compile_function_from_source and its callers, _compile_function"),
   ("argument expressions", PL + ":_dependency_expression,_format_dependency_argument,_format_all_dependency_expression")],
  [], ["compiled source"]),
P("C25", "Generated resolvers are internally consistent for every plan",
  "Every attribute, method and global that a generated resolver reads is defined for that same plan: attributes are declared and initialised in every scope class, slot methods exist for every slot that is referenced, and namespace names are provided with the object they denote. No plan yields a resolver that fails with an attribute or name error.",
  ["configurations", "programs"],
  "every plan shape: scopes, slots, cleanup and async flags",
  "Each plan generates different code; tests generate a few dozen.",
  [CO],
  [("slots and init", CO + ":_class_slots,_compile_init_method,_compile_specialized_init_method"),
   ("namespace", CO + ":_build_generated_globals"),
   ("generated bodies", CO + ":_compile_*")],
  [], ["absence of AttributeError/NameError"]),
P("C26", "Open generics resolve to the most specific valid match",
  "A closed generic key uses its exact registration if there is one, otherwise the most specific matching open registration, ties going to the latest; a type variable used twice must match equal arguments. Arguments that violate a type variable's bound or constraints raise DIWireInvalidGenericTypeArgumentError rather than being built, and type arguments reach the provider's parameters consistently.",
  ["inputs", "histories"],
  "every set of open registrations and every closed key",
  "The key space is infinite; specificity is compared across arbitrary registration sets.",
  [OG],
  [("matching", OG + ":_OpenGenericRegistry.find_best_match,_match_node,_specificity_score,validate_typevar_arguments")],
  [], ["which provider served a key"]),
P("C27", "Open-generic registrations obey the same lifetime and scope rules",
  "A closed key served by an open registration is cached once per owning scope when SCOPED and rebuilt every time when TRANSIENT, with different closed keys never sharing a value; scope requirements, lock selection and cleanup ownership follow the same rules as for ordinary registrations, in root and nested scopes alike.",
  ["configurations", "histories", "schedules"],
  "every open registration, closed key, scope nesting and lock mode",
  "This is a second implementation of the runtime reached only through generic keys; tests sample it lightly.",
  [OG],
  [("open value resolution", OG + ":_resolve_open_match_sync,_resolve_open_match_async,_resolve_execution_owner,_resolve_cache_owner"),
   ("scope wrappers", OG + ":enter_scope,__exit__,__aexit__")],
  [("_cache", "closed key to value per wrapper", OG)],
  ["identity of resolved generics", "cleanup log"]),
P("C28", "Wrapping a resolver never loses its lifecycle",
  "When open generics or context binding wrap a scope, closing the wrapper always closes the wrapped scope, the wrapper's own resources and the scopes it opened, each exactly once and even if one of them fails; entering, resolving and closing through a wrapper have the same observable effect as on the wrapped resolver. Closing a container that never compiled raises a descriptive error instead of passing silently.",
  ["fault_sequences", "histories"],
  "every exit outcome through every wrapper combination",
  "Wrapper combinations and failing exits multiply.",
  [OG, RC, CT],
  [("wrapper exits", OG + ":__exit__,__aexit__,close,aclose; " + RC + ":_ResolverBoundResolver.__exit__,close,aclose; " + CT + ":__exit__,__aexit__,close,aclose")],
  [], ["cleanup log", "exception leaving the scope"]),
P("C29", "Library failures are reported as documented library errors",
  "Every failure the library raises on purpose while registering, compiling, resolving, injecting or entering scopes is a subclass of its public base error, with the documented specific class for each condition. Library code neither swallows exceptions raised by user providers nor converts them into other errors.",
  ["inputs", "programs", "fault_sequences"],
  "every misuse and every exception raised by user code",
  "The set of misuses is open-ended; each raise and handler site must comply.",
  [EX, CT, CO, OG, PR, RC, IN],
  [("exception hierarchy", EX), ("raise and except sites", "all of src/diwire")],
  [], ["exception types"]),
P("C30", "The pytest integration isolates tests and closes what it opens",
  "Each test resolves injected parameters from its own container fixture, explicit fixtures and parameters keep precedence over injection, async tests resolve and clean up asynchronously, and any scope opened for a test is closed after it, whether it passed or failed. Previously active resolver-context state is restored afterwards.",
  ["programs", "fault_sequences"],
  "every test signature, fixture set and outcome",
  "The plugin is exercised by a small set of in-process sample tests.",
  [PT],
  [("plugin hooks", PT)],
  [], ["resolver context after a test", "arguments received by tests"]),
]

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props))
print(len(props))
