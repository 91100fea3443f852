From 60fcadd91f8c92b2f025e6cc7a19be515831ab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 01/24] fix: run every remaining open-generic cleanup when one
 raises a BaseException

---
 src/diwire/_internal/open_generics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index e7540d8..0c03d81 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1325,7 +1325,7 @@ def _execute_sync_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 _raise_async_cleanup_in_sync_context()
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
@@ -1347,7 +1347,7 @@ async def _execute_async_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 await cleanup_callback(exc_type, exc_value, traceback)
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
-- 
2.43.0


From 1da4c25a4f12758ad14050d5c61d27edcd57a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 02/24] fix: lock async open-generic caches even when only
 dependencies are async

---
 src/diwire/_internal/open_generics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 0c03d81..dae0ef9 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -971,8 +971,7 @@ class _OpenGenericResolver:  # pragma: no cover
         return self._effective_lock_mode(spec) is LockMode.THREAD
 
     def _uses_async_lock(self, spec: _OpenGenericSpec) -> bool:
-        if not spec.requires_async:
-            return False
+        # Dependencies may require async even when the provider itself does not.
         return self._effective_lock_mode(spec) is LockMode.ASYNC
 
     def _effective_lock_mode(self, spec: _OpenGenericSpec) -> LockMode:
-- 
2.43.0


From 76eaad321c36662cc8c1b327d5d5e3491732cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 03/24] fix: reject inject context when entering the target
 scope opened no new scope

---
 src/diwire/_internal/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index bac811d..6f3759e 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2389,9 +2389,10 @@ class Container:
             return base_resolver, False
         try:
             if context is None:
-                return base_resolver.enter_scope(target_scope), True
+                scoped_resolver = base_resolver.enter_scope(target_scope)
+                return scoped_resolver, scoped_resolver is not base_resolver
             try:
-                return base_resolver.enter_scope(target_scope, context=context), True
+                scoped_resolver = base_resolver.enter_scope(target_scope, context=context)
             except TypeError as error:
                 msg = (
                     "Resolver does not support context-aware scope entry. "
@@ -2399,6 +2400,7 @@ class Container:
                     f"'{INJECT_CONTEXT_KWARG}'."
                 )
                 raise DIWireInvalidRegistrationError(msg) from error
+            return scoped_resolver, scoped_resolver is not base_resolver
         except DIWireScopeMismatchError as error:
             if self._is_already_deep_enough_scope_error(error):
                 return base_resolver, False
-- 
2.43.0


From 7faa18083570b38cbf4bc5ba64159f9b211d519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 04/24] fix: serialise lazy compilation so concurrent first
 resolves share one root resolver

---
 src/diwire/_internal/container.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 6f3759e..93af3ce 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import functools
 import inspect
 import logging
+import threading
 from collections.abc import AsyncGenerator, Awaitable, Callable, Generator, Mapping
 from contextlib import contextmanager, suppress
 from dataclasses import dataclass
@@ -187,6 +188,7 @@ class Container:
 
         self._root_resolver: ResolverProtocol | None = None
         self._graph_revision: int = 0
+        self._compilation_lock = threading.RLock()
         self._registration_mutation_depth: int = 0
         self._registration_mutation_snapshot: _ContainerGraphSnapshot | None = None
         self._registration_mutation_failed: bool = False
@@ -2441,6 +2443,11 @@ class Container:
                 service = container.resolve(Service)
 
         """
+        with self._compilation_lock:
+            return self._compile_locked()
+
+    def _compile_locked(self) -> ResolverProtocol:
+        """Build the root resolver at most once per graph revision."""
         if self._root_resolver is None:
             root_resolver = self._resolvers_manager.build_root_resolver(
                 root_scope=self._root_scope,
-- 
2.43.0


From 2d7a63c369f8f7dda01936c5e93ac88593015718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 05/24] fix: roll back a failed registration whatever exception
 ended it

---
 src/diwire/_internal/container.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 93af3ce..ad23269 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2523,8 +2523,9 @@ class Container:
             yield
             if self._registration_mutation_depth == 1:
                 self._revalidate_injected_scope_contracts()
-        except DIWireInvalidRegistrationError:
-            self._registration_mutation_failed = True
+        except BaseException:
+            if self._registration_mutation_depth == 1:
+                self._registration_mutation_failed = True
             raise
         finally:
             self._registration_mutation_depth -= 1
-- 
2.43.0


From a071a6cb74469f23dc205b837ca17a58c3333d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 06/24] fix: report providers without an inspectable signature
 as dependency inference errors

---
 src/diwire/_internal/providers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index fbf223e..bba9815 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -545,7 +545,12 @@ class ProviderDependenciesExtractor:
         provider: Callable[..., Any],
         skip_first_parameter: bool,
     ) -> tuple[Parameter, ...]:
-        parameters = tuple(inspect.signature(provider).parameters.values())
+        try:
+            signature = inspect.signature(provider)
+        except (TypeError, ValueError) as error:
+            msg = f"Unable to inspect the signature of provider {provider!r}: {error}"
+            raise DIWireProviderDependencyInferenceError(msg) from error
+        parameters = tuple(signature.parameters.values())
         if (
             skip_first_parameter
             and parameters
-- 
2.43.0


From 3b421bb60c341a4deb099da8d5fecaa99a34934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 07/24] fix: do not serve an open generic when the exact
 registration fails

A registered closed key whose provider needs something unregistered raised
DIWireDependencyNotRegisteredError, which the open-generic wrapper took for
'key not registered' and silently built the open registration instead.
---
 src/diwire/_internal/open_generics.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index dae0ef9..aa26ad0 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -373,7 +373,10 @@ class _OpenGenericResolver:  # pragma: no cover
                 try:
                     return self._base_resolver.resolve(normalized_dependency)
                 except DIWireDependencyNotRegisteredError:
-                    pass
+                    if self._is_registered_in_base_resolver(normalized_dependency):
+                        raise
+            elif self._is_registered_in_base_resolver(dependency):
+                raise
 
             open_match = self._registry.find_best_match(dependency)
             match_dependency = dependency
@@ -404,7 +407,10 @@ class _OpenGenericResolver:  # pragma: no cover
                 try:
                     return await self._base_resolver.aresolve(normalized_dependency)
                 except DIWireDependencyNotRegisteredError:
-                    pass
+                    if self._is_registered_in_base_resolver(normalized_dependency):
+                        raise
+            elif self._is_registered_in_base_resolver(dependency):
+                raise
 
             open_match = self._registry.find_best_match(dependency)
             match_dependency = dependency
@@ -418,6 +424,10 @@ class _OpenGenericResolver:  # pragma: no cover
                 match=open_match,
             )
 
+    def _is_registered_in_base_resolver(self, dependency: Any) -> bool:
+        base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
+        return callable(base_registered_checker) and bool(base_registered_checker(dependency))
+
     def _is_registered_dependency(self, dependency: Any) -> bool:
         base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
         normalized_dependency = strip_non_component_annotation(dependency)
-- 
2.43.0


From 9a07fd3ef8eb04ba94d6b37094608ae766967453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 08/24] fix: never register protocols implicitly

A protocol without abstract methods was accepted as a concrete class and failed
with TypeError on instantiation instead of being reported as not registered.
---
 src/diwire/_internal/autoregistration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diwire/_internal/autoregistration.py b/src/diwire/_internal/autoregistration.py
index 129f209..fe0ad95 100644
--- a/src/diwire/_internal/autoregistration.py
+++ b/src/diwire/_internal/autoregistration.py
@@ -38,6 +38,8 @@ class ConcreteTypeAutoregistrationPolicy:
             return False
         if inspect.isabstract(candidate):
             return False
+        if getattr(candidate, "_is_protocol", False):
+            return False
         if issubclass(candidate, type):
             return False
         return not issubclass(candidate, self.ignored_base_types)
-- 
2.43.0


From 1cf89729316b09934ab45f5952972cbebf3b8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 09/24] fix: make a registered None instance resolvable

add_instance(None, provides=...) produced a provider spec without a provider, so
every later resolution of the container failed with DIWireInvalidProviderSpecError.
---
 src/diwire/_internal/container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index ad23269..b6c2fd6 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -261,6 +261,8 @@ class Container:
                 ProviderSpec(
                     provides=registration_provides,
                     instance=instance,
+                    # A spec field of None means "not set", so None is served by a factory.
+                    factory=(lambda: None) if instance is None else None,
                     lifetime=self._default_lifetime,
                     scope=self._root_scope,
                     is_async=False,
-- 
2.43.0


From 886375b244092e02aa3aae06f8006bec8d7fdaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:16 +0000
Subject: [PATCH 10/24] fix: resolve Maybe[Provider[X]] to a handle when open
 generics are registered

The open-generic resolver checked Provider[X] against the registered keys,
which never contain provider annotations, and returned None. A plain
resolver returns the handle.
---
 src/diwire/_internal/open_generics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index aa26ad0..fd0b3dc 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -451,6 +451,8 @@ class _OpenGenericResolver:  # pragma: no cover
         inner_dependency = strip_maybe_annotation(dependency)
         if is_from_context_annotation(inner_dependency):
             return self._resolve_maybe_from_context_sync(inner_dependency)
+        if is_provider_annotation(inner_dependency):
+            return self.resolve(inner_dependency)
         if not self._is_registered_dependency(inner_dependency):
             return None
         return self.resolve(inner_dependency)
@@ -462,6 +464,8 @@ class _OpenGenericResolver:  # pragma: no cover
         inner_dependency = strip_maybe_annotation(dependency)
         if is_from_context_annotation(inner_dependency):
             return await self._resolve_maybe_from_context_async(inner_dependency)
+        if is_provider_annotation(inner_dependency):
+            return await self.aresolve(inner_dependency)
         if not self._is_registered_dependency(inner_dependency):
             return None
         return await self.aresolve(inner_dependency)
-- 
2.43.0


From dc1f5bfd2dd051cf03caf973f0b19aa7613c7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 11/24] fix: keep FromContext keys out of the open-generic
 registration fallback

With open generics registered, resolving FromContext[X] without a context
value stripped the marker and returned the registered X. A plain resolver
raises DIWireDependencyNotRegisteredError.
---
 src/diwire/_internal/open_generics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index fd0b3dc..8b75573 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -368,6 +368,8 @@ class _OpenGenericResolver:  # pragma: no cover
         try:
             return self._base_resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
+            if is_from_context_annotation(dependency):
+                raise
             normalized_dependency = strip_non_component_annotation(dependency)
             if normalized_dependency is not dependency:
                 try:
@@ -402,6 +404,8 @@ class _OpenGenericResolver:  # pragma: no cover
         try:
             return await self._base_resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
+            if is_from_context_annotation(dependency):
+                raise
             normalized_dependency = strip_non_component_annotation(dependency)
             if normalized_dependency is not dependency:
                 try:
-- 
2.43.0


From cc04c6938ef400b361219b1ac2f1c881f269b767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:51 +0000
Subject: [PATCH 12/24] fix: report a dependency scoped above the root scope as
 not registered

A provider with scope at or below the root scope that depends on a provider
whose scope lies above it raised KeyError at compile time. Resolving such a
key directly already raises DIWireDependencyNotRegisteredError.
---
 src/diwire/_internal/resolvers/assembly/planner.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 4830b49..13df8b2 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -945,14 +945,20 @@ class ResolverGenerationPlanner:
         raise DIWireDependencyNotRegisteredError(msg)
 
     def _find_registered_dependency_spec(self, dependency: Any) -> ProviderSpec | None:
-        dependency_spec = self._registrations.find_by_type(dependency)
+        dependency_spec = self._find_reachable_spec(dependency)
         if dependency_spec is not None:
             return dependency_spec
 
         normalized_dependency = strip_non_component_annotation(dependency)
         if normalized_dependency is dependency:
             return None
-        return self._registrations.find_by_type(normalized_dependency)
+        return self._find_reachable_spec(normalized_dependency)
+
+    def _find_reachable_spec(self, dependency: Any) -> ProviderSpec | None:
+        spec = self._registrations.find_by_type(dependency)
+        if spec is None or spec.scope.level < self._root_scope.level:
+            return None
+        return spec
 
     def _build_all_slots_by_key(self) -> dict[Any, tuple[int, ...]]:
         slots_by_key: dict[Any, list[int]] = {}
-- 
2.43.0


From b06828fc08c86256a5e2bdeeca3e223866179662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:33 +0000
Subject: [PATCH 13/24] fix: never pass a dependency into an earlier positional
 parameter

A parameter that keeps its default (not annotated, or an omitted optional
dependency) in front of other dependencies was ignored when arguments were
passed by position, so the next dependency or *args value landed in it.
---
 .../_internal/resolvers/assembly/planner.py   | 69 ++++++++++++++++---
 1 file changed, 61 insertions(+), 8 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 13df8b2..03b4abc 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -33,6 +33,9 @@ from diwire.exceptions import DIWireDependencyNotRegisteredError, DIWireInvalidP
 
 DispatchKind = Literal["identity", "equality_map"]
 DependencyPlanKind = Literal["provider", "context", "provider_handle", "all", "literal", "omit"]
+_POSITIONAL_KINDS = frozenset(
+    {inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD},
+)
 _DATACLASS_DEFAULT_FACTORY_SENTINEL: Any = getattr(
     dataclasses,
     "_HAS_DEFAULT_FACTORY",
@@ -335,6 +338,8 @@ class ResolverGenerationPlanner:
         is_cached = self._is_cached(spec=spec)
         cache_owner_scope_level = self._cache_owner_scope_level(spec=spec, is_cached=is_cached)
 
+        positional_names = self._positional_parameter_names(spec=spec)
+        bound_names: set[str] = set()
         dependency_plans: list[ProviderDependencyPlan] = []
         dependency_slots: list[int | None] = []
         dependency_requires_async: list[bool] = []
@@ -348,6 +353,19 @@ class ResolverGenerationPlanner:
                     dependency=dependency,
                 )
             )
+            if self._follows_unbound_positional(
+                parameter=dependency.parameter,
+                positional_names=positional_names,
+                bound_names=bound_names,
+            ):
+                dependency_plan = ProviderDependencyPlan(
+                    kind="omit",
+                    dependency=dependency,
+                    dependency_index=dependency_index,
+                )
+                slot, requires_async, sync_argument, async_argument = None, False, "", ""
+            if dependency_plan.kind != "omit":
+                bound_names.add(dependency.parameter.name)
             dependency_plans.append(dependency_plan)
             dependency_slots.append(slot)
             dependency_requires_async.append(requires_async)
@@ -849,23 +867,58 @@ class ResolverGenerationPlanner:
         if not spec.dependencies:
             return True
 
-        provider_callable = self._provider_callable_for_signature(spec=spec)
-        if provider_callable is None:
-            return False
-
-        parameters = list(inspect.signature(provider_callable).parameters.values())
-        if spec.concrete_type is not None and parameters:
-            parameters = parameters[1:]
-
+        parameters = self._signature_parameters(spec=spec)
         order_by_name = {parameter.name: index for index, parameter in enumerate(parameters)}
         last_index = -1
         for dependency in spec.dependencies:
             current_index = order_by_name.get(dependency.parameter.name)
             if current_index is None or current_index < last_index:
                 return False
+            if (
+                dependency.parameter.kind in _POSITIONAL_KINDS
+                and current_index != last_index + 1
+            ):
+                return False
             last_index = current_index
         return True
 
+    def _positional_parameter_names(self, *, spec: ProviderSpec) -> list[str]:
+        if not spec.dependencies:
+            return []
+        return [
+            parameter.name
+            for parameter in self._signature_parameters(spec=spec)
+            if parameter.kind in _POSITIONAL_KINDS
+        ]
+
+    def _follows_unbound_positional(
+        self,
+        *,
+        parameter: inspect.Parameter,
+        positional_names: list[str],
+        bound_names: set[str],
+    ) -> bool:
+        """Check whether a by-position-only value would land in an earlier parameter."""
+        if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+            preceding_names = positional_names
+        elif (
+            parameter.kind is inspect.Parameter.POSITIONAL_ONLY
+            and parameter.name in positional_names
+        ):
+            preceding_names = positional_names[: positional_names.index(parameter.name)]
+        else:
+            return False
+        return any(name not in bound_names for name in preceding_names)
+
+    def _signature_parameters(self, *, spec: ProviderSpec) -> list[inspect.Parameter]:
+        provider_callable = self._provider_callable_for_signature(spec=spec)
+        if provider_callable is None:
+            return []
+        parameters = list(inspect.signature(provider_callable).parameters.values())
+        if spec.concrete_type is not None and parameters:
+            return parameters[1:]
+        return parameters
+
     def _provider_callable_for_signature(self, *, spec: ProviderSpec) -> Any | None:
         if spec.concrete_type is not None:
             return spec.concrete_type.__init__
-- 
2.43.0


From ae5a30802ac958ed4677106a87c056755a9df6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 14/24] fix: pass positional arguments before *args to
 open-generic providers

Positional-or-keyword dependencies always went by keyword, so a provider
that also takes a *args dependency failed with TypeError (multiple values).
---
 src/diwire/_internal/open_generics.py | 31 ++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 8b75573..5116c39 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -70,6 +70,7 @@ class _OpenGenericSpec:
     bindings: tuple[_OpenGenericBindingPlan, ...]
     registration_order: int
     provider_is_inject_wrapper: bool
+    positional_names: tuple[str, ...] = ()
 
     @property
     def requires_async(self) -> bool:
@@ -284,6 +285,7 @@ class _OpenGenericRegistry:
             bindings=bindings,
             registration_order=self._registration_counter,
             provider_is_inject_wrapper=bool(getattr(provider, INJECT_WRAPPER_MARKER, False)),
+            positional_names=_positional_parameter_names(provider=provider, bindings=bindings),
         )
         self._specs_by_key[canonical_key] = spec
         return spec
@@ -792,6 +794,7 @@ class _OpenGenericResolver:  # pragma: no cover
                 value=value,
                 positional_arguments=positional_arguments,
                 keyword_arguments=keyword_arguments,
+                positional_names=match.spec.positional_names,
             )
         if match.spec.provider_is_inject_wrapper:
             keyword_arguments[INJECT_RESOLVER_KWARG] = self
@@ -813,6 +816,7 @@ class _OpenGenericResolver:  # pragma: no cover
                 value=value,
                 positional_arguments=positional_arguments,
                 keyword_arguments=keyword_arguments,
+                positional_names=match.spec.positional_names,
             )
         if match.spec.provider_is_inject_wrapper:
             keyword_arguments[INJECT_RESOLVER_KWARG] = self
@@ -1010,25 +1014,50 @@ class _CallArguments:
     kwargs: dict[str, Any]
 
 
+def _positional_parameter_names(
+    *,
+    provider: Any,
+    bindings: tuple[_OpenGenericBindingPlan, ...],
+) -> tuple[str, ...]:
+    """Return the names to pass by position so that a ``*args`` dependency can follow."""
+    if not any(
+        binding.dependency.parameter.kind is inspect.Parameter.VAR_POSITIONAL
+        for binding in bindings
+    ):
+        return ()
+    return tuple(
+        parameter.name
+        for parameter in inspect.signature(provider).parameters.values()
+        if parameter.kind
+        in {inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD}
+    )
+
+
 def _append_call_argument(
     *,
     dependency: ProviderDependency,
     value: Any,
     positional_arguments: list[Any],
     keyword_arguments: dict[str, Any],
+    positional_names: tuple[str, ...] = (),
 ) -> None:
     kind = cast("Any", dependency.parameter.kind)
+    position = len(positional_arguments)
     if kind is inspect.Parameter.POSITIONAL_ONLY:
         positional_arguments.append(value)
         return
     if kind is inspect.Parameter.POSITIONAL_OR_KEYWORD:
+        if positional_names[position : position + 1] == (dependency.parameter.name,):
+            positional_arguments.append(value)
+            return
         keyword_arguments[dependency.parameter.name] = value
         return
     if kind is inspect.Parameter.KEYWORD_ONLY:
         keyword_arguments[dependency.parameter.name] = value
         return
     if kind is inspect.Parameter.VAR_POSITIONAL:
-        positional_arguments.extend(cast_iterable(value))
+        if position >= len(positional_names):
+            positional_arguments.extend(cast_iterable(value))
         return
     if kind is inspect.Parameter.VAR_KEYWORD:
         keyword_arguments.update(cast_mapping(value))
-- 
2.43.0


From db38e519d6b9b5eb255f10a55cafd31bf413881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:10 +0000
Subject: [PATCH 15/24] fix: keep parameter defaults for missing optional
 dependencies of open-generic providers

A missing Maybe[X] = default received None, a missing *args Maybe raised
TypeError, and a dataclass field with default_factory raised
DIWireDependencyNotRegisteredError; plain resolvers keep the default.
---
 src/diwire/_internal/open_generics.py | 51 ++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 5116c39..e4b4522 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import asyncio
+import dataclasses
 import inspect
 import threading
 from collections.abc import Iterable, Mapping
@@ -12,6 +13,7 @@ from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_arg
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
+    is_all_annotation,
     is_async_provider_annotation,
     is_from_context_annotation,
     is_maybe_annotation,
@@ -44,6 +46,11 @@ if TYPE_CHECKING:
 
 OpenProviderKind = Literal["concrete_type", "factory", "generator", "context_manager"]
 OpenBindingKind = Literal["dependency", "generic_argument", "generic_argument_type"]
+_DATACLASS_DEFAULT_FACTORY_SENTINEL: Any = getattr(
+    dataclasses,
+    "_HAS_DEFAULT_FACTORY",
+    object(),
+)
 _MISSING_CACHE = object()
 _MAYBE_UNHANDLED = object()
 
@@ -785,6 +792,8 @@ class _OpenGenericResolver:  # pragma: no cover
         positional_arguments: list[Any] = []
         keyword_arguments: dict[str, Any] = {}
         for binding in match.spec.bindings:
+            if self._keeps_parameter_default(binding=binding, typevar_map=match.typevar_map):
+                continue
             value = self._resolve_binding_value_sync(
                 binding=binding,
                 typevar_map=match.typevar_map,
@@ -807,6 +816,8 @@ class _OpenGenericResolver:  # pragma: no cover
         positional_arguments: list[Any] = []
         keyword_arguments: dict[str, Any] = {}
         for binding in match.spec.bindings:
+            if self._keeps_parameter_default(binding=binding, typevar_map=match.typevar_map):
+                continue
             value = await self._resolve_binding_value_async(
                 binding=binding,
                 typevar_map=match.typevar_map,
@@ -825,6 +836,35 @@ class _OpenGenericResolver:  # pragma: no cover
             kwargs=keyword_arguments,
         )
 
+    def _keeps_parameter_default(
+        self,
+        *,
+        binding: _OpenGenericBindingPlan,
+        typevar_map: Mapping[TypeVar, Any],
+    ) -> bool:
+        if binding.kind != "dependency":
+            return False
+        parameter = binding.dependency.parameter
+        dependency = substitute_typevars(binding.template, mapping=typevar_map)
+        if contains_typevar(dependency):
+            return False
+        if is_maybe_annotation(dependency):
+            dependency = strip_maybe_annotation(dependency)
+            can_omit = parameter.default is not inspect.Parameter.empty or parameter.kind in {
+                inspect.Parameter.VAR_POSITIONAL,
+                inspect.Parameter.VAR_KEYWORD,
+            }
+        else:
+            can_omit = parameter.default is _DATACLASS_DEFAULT_FACTORY_SENTINEL
+        if (
+            not can_omit
+            or is_from_context_annotation(dependency)
+            or is_provider_annotation(dependency)
+            or is_all_annotation(dependency)
+        ):
+            return False
+        return not self._is_registered_dependency(dependency)
+
     def _resolve_binding_value_sync(
         self,
         *,
@@ -1019,9 +1059,10 @@ def _positional_parameter_names(
     provider: Any,
     bindings: tuple[_OpenGenericBindingPlan, ...],
 ) -> tuple[str, ...]:
-    """Return the names to pass by position so that a ``*args`` dependency can follow."""
+    """Return the names to pass by position when some value can only go by position."""
     if not any(
-        binding.dependency.parameter.kind is inspect.Parameter.VAR_POSITIONAL
+        binding.dependency.parameter.kind
+        in {inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.VAR_POSITIONAL}
         for binding in bindings
     ):
         return ()
@@ -1043,11 +1084,13 @@ def _append_call_argument(
 ) -> None:
     kind = cast("Any", dependency.parameter.kind)
     position = len(positional_arguments)
+    is_next_positional = positional_names[position : position + 1] == (dependency.parameter.name,)
     if kind is inspect.Parameter.POSITIONAL_ONLY:
-        positional_arguments.append(value)
+        if is_next_positional or not positional_names:
+            positional_arguments.append(value)
         return
     if kind is inspect.Parameter.POSITIONAL_OR_KEYWORD:
-        if positional_names[position : position + 1] == (dependency.parameter.name,):
+        if is_next_positional:
             positional_arguments.append(value)
             return
         keyword_arguments[dependency.parameter.name] = value
-- 
2.43.0


From c3e39cbd88fb24f2aa89a958d7912025c6af71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:12 +0000
Subject: [PATCH 16/24] fix: keep scope resolver attribute names distinct

A non-root scope named ROOT or PARENT_CONTEXT, or two scopes whose names differ
only in case, shared one generated attribute and sent lookups into a loop.
---
 src/diwire/_internal/resolvers/assembly/planner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 03b4abc..7119f39 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -299,8 +299,13 @@ class ResolverGenerationPlanner:
         ordered_scopes = sorted(self._managed_scopes, key=lambda scope: scope.level)
 
         plans: list[ScopePlan] = []
+        used_attr_names = {"_root_resolver", "_parent_context_resolver"}
         for scope in ordered_scopes:
             scope_name = scope.scope_name.lower()
+            scope_attr_name = f"_{scope_name}_resolver"
+            if scope_attr_name in used_attr_names:
+                scope_attr_name = f"_{scope.level}_{scope_name}_resolver"
+            used_attr_names.add(scope_attr_name)
             plans.append(
                 ScopePlan(
                     scope_name=scope_name,
@@ -318,7 +323,7 @@ class ResolverGenerationPlanner:
                     resolver_attr_name=(
                         "_root_resolver"
                         if scope.level == self._root_scope.level
-                        else f"_{scope_name}_resolver"
+                        else scope_attr_name
                     ),
                     skippable=scope.skippable,
                     is_root=scope.level == self._root_scope.level,
-- 
2.43.0


From 0e6badf0775dcf6accd7d574006f170f1b4e404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:12 +0000
Subject: [PATCH 17/24] fix: report a scope mismatch when an optimized call
 reaches a skipped scope

A provider entered past the owner scope of one of its dependencies failed with
AttributeError on the missing-resolver placeholder.
---
 .../_internal/resolvers/assembly/compiler.py  | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 4474e47..d263590 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -48,7 +48,25 @@ from diwire.exceptions import (
 
 logger = logging.getLogger(__name__)
 
-_MISSING_RESOLVER: Final[Any] = object()
+
+class _MissingScopeResolver:
+    """Stand-in for the resolver of a managed scope that is not entered.
+
+    Optimized resolve methods call the owner scope's resolver directly, so reaching one
+    of them through this object means the owner scope was skipped.
+    """
+
+    __slots__ = ()
+
+    def __getattr__(self, name: str) -> Any:
+        method_prefix, separator, slot = name.partition("_")
+        if separator and method_prefix in {"resolve", "aresolve"}:
+            msg = f"Provider slot {slot} requires its owner scope to be opened."
+            raise DIWireScopeMismatchError(msg)
+        raise AttributeError(name)
+
+
+_MISSING_RESOLVER: Final[Any] = _MissingScopeResolver()
 _MISSING_CACHE: Final[Any] = object()
 _MISSING_DEP_SLOT: Final[Any] = object()
 _FALLBACK_ARGUMENT_EXPRESSION: Final[Any] = object()
-- 
2.43.0


From 60881d187bc9d4667568dbbe5651e8b8f60f01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:42 +0000
Subject: [PATCH 18/24] fix: run injected callables in an open deepest scope

An injected callable called inside the deepest scope with a target scope at or
above it failed with 'Cannot enter deeper scope from level N.' instead of
opening no additional scope.
---
 src/diwire/_internal/container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index b6c2fd6..c5e946f 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2413,6 +2413,8 @@ class Container:
     @staticmethod
     def _is_already_deep_enough_scope_error(error: DIWireScopeMismatchError) -> bool:
         message = str(error)
+        if message.startswith("Cannot enter deeper scope from level "):
+            return True
         return message.startswith("Cannot enter scope level ") and " from level " in message
 
     def _callable_name(self, callable_obj: Callable[..., Any]) -> str:
-- 
2.43.0


From 0d4e2b7faca5c2905d7b4b03231ebd4cdf2bf0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:42 +0000
Subject: [PATCH 19/24] fix: take constructor parameters from the constructor's
 own annotations

---
 src/diwire/_internal/providers.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index bba9815..01b0d1f 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -589,17 +589,35 @@ class ProviderDependenciesExtractor:
     ) -> tuple[dict[str, Any], Exception | None]:
         merged_annotations = dict(annotations)
         merged_error = annotation_error
-
-        for callable_member_name in ("__call__", "__new__", "__init__"):
-            callable_member = getattr(concrete_type, callable_member_name)
+        parameters = inspect.signature(concrete_type).parameters
+        class_annotations: dict[str, Any] = {}
+        for base in reversed(concrete_type.__mro__):
+            class_annotations.update(inspect.get_annotations(base))
+
+        callable_members: tuple[Callable[..., Any], ...] = (
+            type(concrete_type).__call__,
+            concrete_type.__new__,
+            concrete_type.__init__,
+        )
+        for callable_member in callable_members:
             try:
                 member_annotations = get_type_hints(callable_member, include_extras=True)
             except (AttributeError, NameError, TypeError) as error:
                 if merged_error is None:
                     merged_error = error
                 continue
+            raw_annotations = getattr(callable_member, "__annotations__", {})
             for parameter_name, parameter_annotation in member_annotations.items():
                 merged_annotations.setdefault(parameter_name, parameter_annotation)
+                # The constructor's own annotation beats a same-named class attribute.
+                raw_annotation = raw_annotations.get(parameter_name, _MISSING_ANNOTATION)
+                parameter = parameters.get(parameter_name)
+                if (
+                    parameter is not None
+                    and parameter.annotation is raw_annotation
+                    and class_annotations.get(parameter_name) is not raw_annotation
+                ):
+                    merged_annotations[parameter_name] = parameter_annotation
 
         return merged_annotations, merged_error
 
-- 
2.43.0


From bd69267ba4052eb263601c7de78e607408af8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:42 +0000
Subject: [PATCH 20/24] fix: substitute type variables inside Provider and All
 markers and callable signatures

---
 src/diwire/_internal/open_generics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index e4b4522..534229f 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -13,6 +13,8 @@ from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_arg
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
+    AllMarker,
+    ProviderMarker,
     is_all_annotation,
     is_async_provider_annotation,
     is_from_context_annotation,
@@ -164,6 +166,11 @@ def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
     """
     if isinstance(value, TypeVar):
         return mapping.get(value, value)
+    if isinstance(value, (AllMarker, ProviderMarker)):
+        dependency_key = substitute_typevars(value.dependency_key, mapping=mapping)
+        return value._replace(dependency_key=dependency_key)
+    if isinstance(value, list):
+        return [substitute_typevars(item, mapping=mapping) for item in value]
 
     origin = get_origin(value)
     if origin is None:
-- 
2.43.0


From 2d2a229912c6cc54f13b29a3edc093b257f7eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:14 +0000
Subject: [PATCH 21/24] fix: inject dependencies into test methods of classes
 in the pytest plugin

---
 .../_internal/integrations/pytest_plugin.py       | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/integrations/pytest_plugin.py b/src/diwire/_internal/integrations/pytest_plugin.py
index 12a5c35..037a9ec 100644
--- a/src/diwire/_internal/integrations/pytest_plugin.py
+++ b/src/diwire/_internal/integrations/pytest_plugin.py
@@ -67,17 +67,18 @@ def pytest_pycollect_makeitem(
         ``None`` to continue default collection flow.
 
     """
-    if not callable(obj):
+    function = obj.__func__ if isinstance(obj, (staticmethod, classmethod)) else obj
+    if not callable(function):
         return None
     if not collector.istestfunction(obj, name):
         return None
 
-    callable_obj = cast("Callable[..., Any]", obj)
+    callable_obj = cast("Callable[..., Any]", function)
     inspection = _INJECTED_CALLABLE_INSPECTOR.inspect_callable(callable_obj)
     if not inspection.injected_parameters:
         return None
 
-    obj_as_any = cast("Any", obj)
+    obj_as_any = cast("Any", function)
     obj_as_any.__dict__[_DIWIRE_INJECTED_PARAMETERS_ATTR] = inspection.injected_parameters
     obj_as_any.__dict__[_DIWIRE_ORIGINAL_SIGNATURE_ATTR] = inspection.signature
     obj_as_any.__signature__ = inspection.public_signature
@@ -104,7 +105,13 @@ def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
 
     """
     original_callable = cast("Callable[..., Any]", pyfuncitem.obj)
-    original_callable_as_any = cast("Any", original_callable)
+    # Attributes of a bound test method live on the function it wraps.
+    original_callable_as_any = cast(
+        "Any",
+        original_callable.__func__
+        if inspect.ismethod(original_callable)
+        else original_callable,
+    )
     injected_parameters = cast(
         "tuple[InjectedParameter, ...] | None",
         getattr(original_callable_as_any, _DIWIRE_INJECTED_PARAMETERS_ATTR, None),
-- 
2.43.0


From 484e70802c656d7ef440252d0e93683ec8345847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:14 +0000
Subject: [PATCH 22/24] fix: accept union bounds and constraints of type
 variables

---
 src/diwire/_internal/open_generics.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 534229f..b0d76bd 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -7,8 +7,18 @@ import threading
 from collections.abc import Iterable, Mapping
 from contextlib import asynccontextmanager, contextmanager
 from dataclasses import dataclass
-from types import TracebackType
-from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_args, get_origin
+from types import TracebackType, UnionType
+from typing import (
+    TYPE_CHECKING,
+    Any,
+    Literal,
+    NoReturn,
+    TypeVar,
+    Union,
+    cast,
+    get_args,
+    get_origin,
+)
 
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
@@ -53,6 +63,7 @@ _DATACLASS_DEFAULT_FACTORY_SENTINEL: Any = getattr(
     "_HAS_DEFAULT_FACTORY",
     object(),
 )
+_UNION_ORIGINS = (Union, UnionType)
 _MISSING_CACHE = object()
 _MAYBE_UNHANDLED = object()
 
@@ -1332,6 +1343,16 @@ def _is_type_argument_valid(*, typevar: TypeVar, argument: Any) -> bool:
 def _matches_type_constraint(*, argument: Any, constraint: Any) -> bool:
     if constraint is Any:
         return True
+    if get_origin(argument) in _UNION_ORIGINS:
+        return argument == constraint or all(
+            _matches_type_constraint(argument=option, constraint=constraint)
+            for option in get_args(argument)
+        )
+    if get_origin(constraint) in _UNION_ORIGINS:
+        return any(
+            _matches_type_constraint(argument=argument, constraint=option)
+            for option in get_args(constraint)
+        )
     argument_type = _origin_or_self(argument)
     constraint_type = _origin_or_self(constraint)
     if isinstance(argument_type, type) and isinstance(constraint_type, type):
-- 
2.43.0


From 24400e996761f788dc23a83f43f702770c73b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:14 +0000
Subject: [PATCH 23/24] fix: evaluate type variable bounds and constraints
 given as strings

---
 src/diwire/_internal/open_generics.py | 28 +++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index b0d76bd..aec1334 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import asyncio
 import dataclasses
 import inspect
+import sys
 import threading
 from collections.abc import Iterable, Mapping
 from contextlib import asynccontextmanager, contextmanager
@@ -11,6 +12,7 @@ from types import TracebackType, UnionType
 from typing import (
     TYPE_CHECKING,
     Any,
+    ForwardRef,
     Literal,
     NoReturn,
     TypeVar,
@@ -18,6 +20,7 @@ from typing import (
     cast,
     get_args,
     get_origin,
+    get_type_hints,
 )
 
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
@@ -1331,13 +1334,34 @@ def _is_type_argument_valid(*, typevar: TypeVar, argument: Any) -> bool:
     constraints = getattr(typevar, "__constraints__", ())
     if constraints:
         return any(
-            _matches_type_constraint(argument=argument, constraint=constraint)
+            _matches_type_constraint(
+                argument=argument,
+                constraint=_resolve_forward_reference(typevar=typevar, constraint=constraint),
+            )
             for constraint in constraints
         )
     bound = getattr(typevar, "__bound__", None)
     if bound is None:
         return True
-    return _matches_type_constraint(argument=argument, constraint=bound)
+    return _matches_type_constraint(
+        argument=argument,
+        constraint=_resolve_forward_reference(typevar=typevar, constraint=bound),
+    )
+
+
+def _resolve_forward_reference(*, typevar: TypeVar, constraint: Any) -> Any:
+    """Evaluate a bound or constraint written as a string where the TypeVar is defined."""
+    if not isinstance(constraint, (str, ForwardRef)):
+        return constraint
+    module = sys.modules.get(typevar.__module__)
+
+    def _holder() -> None: ...
+
+    _holder.__annotations__ = {"constraint": constraint}
+    try:
+        return get_type_hints(_holder, globalns=vars(module) if module else None)["constraint"]
+    except (AttributeError, NameError, TypeError):
+        return constraint
 
 
 def _matches_type_constraint(*, argument: Any, constraint: Any) -> bool:
-- 
2.43.0


From 6c750ef23b713bb3dcbc62ccd3f2d7f951c82167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:04 +0000
Subject: [PATCH 24/24] fix: detect asynchronous providers behind partials and
 callable objects

---
 src/diwire/_internal/providers.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index 01b0d1f..d330b20 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import functools
 import inspect
 from collections.abc import AsyncGenerator, Awaitable, Callable, Coroutine, Generator
 from contextlib import AbstractAsyncContextManager, AbstractContextManager
@@ -654,8 +655,11 @@ class ProviderReturnTypeExtractor:
             factory: Factory provider callable to inspect or validate.
 
         """
-        return inspect.iscoroutinefunction(factory) or self.return_annotation_matches_origins(
-            provider=factory,
+        called_factory = self._called_function(factory)
+        return inspect.iscoroutinefunction(
+            called_factory,
+        ) or self.return_annotation_matches_origins(
+            provider=called_factory,
             expected_origins=(Awaitable, Coroutine),
         )
 
@@ -669,8 +673,11 @@ class ProviderReturnTypeExtractor:
             generator: Generator provider callable to inspect or validate.
 
         """
-        return inspect.isasyncgenfunction(generator) or self.return_annotation_matches_origins(
-            provider=generator,
+        called_generator = self._called_function(generator)
+        return inspect.isasyncgenfunction(
+            called_generator,
+        ) or self.return_annotation_matches_origins(
+            provider=called_generator,
             expected_origins=(AsyncGenerator,),
         )
 
@@ -684,7 +691,7 @@ class ProviderReturnTypeExtractor:
             context_manager: Context manager provider callable to inspect or validate.
 
         """
-        unwrapped_context_manager = inspect.unwrap(context_manager)
+        unwrapped_context_manager = inspect.unwrap(self._called_function(context_manager))
         if inspect.isasyncgenfunction(unwrapped_context_manager):
             return True
         if inspect.iscoroutinefunction(unwrapped_context_manager):
@@ -894,6 +901,15 @@ class ProviderReturnTypeExtractor:
             return annotation
         return self.unwrap_annotated(annotation_args[0])
 
+    def _called_function(self, provider: Callable[..., Any]) -> Callable[..., Any]:
+        """Return the function or type a partial or a callable object runs when it is called."""
+        while isinstance(provider, functools.partial):
+            provider = provider.func
+        if isinstance(provider, type):
+            return provider
+        call_method = type(provider).__call__
+        return call_method if inspect.isfunction(call_method) else provider
+
     def _is_self_annotation(
         self,
         annotation: Any,
-- 
2.43.0

