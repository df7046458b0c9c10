From a22b75e035a01652961c7a4da7a0b68c24543430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 01/23] fix: give every entered scope its own resolver

Closing a scope twice handed the pooled root-level scope resolver to two
open scopes at once, so they shared scoped instances.
---
 .../_internal/resolvers/assembly/compiler.py   | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 4474e47..4caa97f 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -810,24 +810,6 @@ class ResolversAssemblyCompiler:
                     f"    return self._root_resolver._scope_resolver_{target_level}",
                 ],
             )
-        elif class_plan.is_root and not runtime.has_cleanup:
-            pooled_lines = [
-                "if context is None and self._context is None and self._parent_context_resolver is None:",
-                f"    _pooled = self._scope_resolver_{target_level}",
-                "    if not _pooled._active:",
-                "        _pooled._context = None",
-                "        _pooled._parent_context_resolver = self",
-                "        _pooled._owned_scope_resolvers = ()",
-            ]
-            for cache_slot in runtime.cache_slots_by_owner_level.get(target_level, ()):
-                pooled_lines.append(f"        _pooled._cache_{cache_slot} = _MISSING_CACHE")
-            pooled_lines.extend(
-                [
-                    "        _pooled._active = True",
-                    "        return _pooled",
-                ],
-            )
-            transition_lines.extend(pooled_lines)
         transition_lines.extend(
             [
                 (
-- 
2.43.0


From f5f36152e75791c2fa34d3c594e3497f8ad95ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 02/23] fix: raise scope mismatch for dependencies of skipped
 scopes

The inlined owner access called the missing-resolver sentinel directly and
failed with AttributeError; go through the slot method, which checks it.
---
 src/diwire/_internal/resolvers/assembly/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 4caa97f..09691ff 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -1622,10 +1622,10 @@ class ResolversAssemblyCompiler:
             class_plan.scope_level > dependency_workflow.scope_level
             and dependency_workflow.max_required_scope_level <= dependency_workflow.scope_level
         ):
+            owner_scope = runtime.scopes_by_level[dependency_workflow.scope_level]
             if dependency_workflow.scope_level == runtime.root_scope_level:
                 expression = f"self._root_resolver.resolve_{dependency_slot}()"
-            else:
-                owner_scope = runtime.scopes_by_level[dependency_workflow.scope_level]
+            elif not owner_scope.skippable:
                 expression = f"self.{owner_scope.resolver_attr_name}.resolve_{dependency_slot}()"
 
         if (
-- 
2.43.0


From a231e704adc1b52ade2915e1a7e590b3e47bd600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 03/23] fix: keep draining open-generic cleanups after
 BaseException

A finaliser raising KeyboardInterrupt or CancelledError skipped the
remaining finalisers of an open-generic scope.
---
 src/diwire/_internal/open_generics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index e7540d8..0c03d81 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1325,7 +1325,7 @@ def _execute_sync_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 _raise_async_cleanup_in_sync_context()
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
@@ -1347,7 +1347,7 @@ async def _execute_async_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 await cleanup_callback(exc_type, exc_value, traceback)
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
-- 
2.43.0


From c9b067ea7b98a9bcb198168fc65de088a0dd8ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 04/23] fix: reject inject context when the target scope is
 already open

Entering the current level returns the same resolver; that was counted as an
opened scope, so the supplied context was silently dropped.
---
 src/diwire/_internal/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index bac811d..6f3759e 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2389,9 +2389,10 @@ class Container:
             return base_resolver, False
         try:
             if context is None:
-                return base_resolver.enter_scope(target_scope), True
+                scoped_resolver = base_resolver.enter_scope(target_scope)
+                return scoped_resolver, scoped_resolver is not base_resolver
             try:
-                return base_resolver.enter_scope(target_scope, context=context), True
+                scoped_resolver = base_resolver.enter_scope(target_scope, context=context)
             except TypeError as error:
                 msg = (
                     "Resolver does not support context-aware scope entry. "
@@ -2399,6 +2400,7 @@ class Container:
                     f"'{INJECT_CONTEXT_KWARG}'."
                 )
                 raise DIWireInvalidRegistrationError(msg) from error
+            return scoped_resolver, scoped_resolver is not base_resolver
         except DIWireScopeMismatchError as error:
             if self._is_already_deep_enough_scope_error(error):
                 return base_resolver, False
-- 
2.43.0


From 6cdef298026bdf157bc8c1cd60633e3cc43a5e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 05/23] fix: reuse the deepest resolver for injected callables

A resolver at the last level is already deep enough for any managed target
scope, but the call failed with DIWireScopeMismatchError.
---
 src/diwire/_internal/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 6f3759e..be41c8b 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2402,7 +2402,10 @@ class Container:
                 raise DIWireInvalidRegistrationError(msg) from error
             return scoped_resolver, scoped_resolver is not base_resolver
         except DIWireScopeMismatchError as error:
-            if self._is_already_deep_enough_scope_error(error):
+            if self._is_already_deep_enough_scope_error(error) or (
+                str(error).startswith("Cannot enter deeper scope from level ")
+                and self._find_scope_by_level(scope_level=target_scope.level) is not None
+            ):
                 return base_resolver, False
             raise
 
-- 
2.43.0


From 483ac924325550a22f4a0ca3a067c905915da6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 06/23] fix: roll back every failed registration at its own
 level

Only DIWireInvalidRegistrationError rolled back, so other errors left a
half-applied registration behind, and a suppressed nested failure undid the
successful outer registration.
---
 src/diwire/_internal/container.py | 66 +++++++++++--------------------
 1 file changed, 23 insertions(+), 43 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index be41c8b..e756ab6 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -188,8 +188,6 @@ class Container:
         self._root_resolver: ResolverProtocol | None = None
         self._graph_revision: int = 0
         self._registration_mutation_depth: int = 0
-        self._registration_mutation_snapshot: _ContainerGraphSnapshot | None = None
-        self._registration_mutation_failed: bool = False
         self._decoration_rules_by_provides: dict[Any, list[_DecorationRule]] = {}
         self._decoration_chain_by_provides: dict[Any, _DecorationChain] = {}
         self._decoration_counter: int = 0
@@ -2495,55 +2493,37 @@ class Container:
 
     @contextmanager
     def _registration_mutation(self) -> Generator[None, None, None]:
-        if self._registration_mutation_depth == 0:
-            self._registration_mutation_snapshot = _ContainerGraphSnapshot(
-                providers_registrations=self._providers_registrations.snapshot(),
-                open_generic_registry=self._open_generic_registry.snapshot(),
-                decoration_rules_by_provides={
-                    provides: list(rules)
-                    for provides, rules in self._decoration_rules_by_provides.items()
-                },
-                decoration_chain_by_provides={
-                    provides: _DecorationChain(
-                        base_key=chain.base_key,
-                        layer_keys=list(chain.layer_keys),
-                    )
-                    for provides, chain in self._decoration_chain_by_provides.items()
-                },
-                decoration_counter=self._decoration_counter,
-            )
-            self._registration_mutation_failed = False
-
+        snapshot = _ContainerGraphSnapshot(
+            providers_registrations=self._providers_registrations.snapshot(),
+            open_generic_registry=self._open_generic_registry.snapshot(),
+            decoration_rules_by_provides={
+                provides: list(rules)
+                for provides, rules in self._decoration_rules_by_provides.items()
+            },
+            decoration_chain_by_provides={
+                provides: _DecorationChain(
+                    base_key=chain.base_key,
+                    layer_keys=list(chain.layer_keys),
+                )
+                for provides, chain in self._decoration_chain_by_provides.items()
+            },
+            decoration_counter=self._decoration_counter,
+        )
         self._registration_mutation_depth += 1
         try:
             yield
             if self._registration_mutation_depth == 1:
                 self._revalidate_injected_scope_contracts()
-        except DIWireInvalidRegistrationError:
-            self._registration_mutation_failed = True
+        except BaseException:
+            self._providers_registrations.restore(snapshot.providers_registrations)
+            self._open_generic_registry.restore(snapshot.open_generic_registry)
+            self._decoration_rules_by_provides = snapshot.decoration_rules_by_provides
+            self._decoration_chain_by_provides = snapshot.decoration_chain_by_provides
+            self._decoration_counter = snapshot.decoration_counter
+            self._invalidate_compilation()
             raise
         finally:
             self._registration_mutation_depth -= 1
-            if self._registration_mutation_depth == 0:
-                if self._registration_mutation_failed:
-                    snapshot = cast("_ContainerGraphSnapshot", self._registration_mutation_snapshot)
-                    self._providers_registrations.restore(snapshot.providers_registrations)
-                    self._open_generic_registry.restore(snapshot.open_generic_registry)
-                    self._decoration_rules_by_provides = {
-                        provides: list(rules)
-                        for provides, rules in snapshot.decoration_rules_by_provides.items()
-                    }
-                    self._decoration_chain_by_provides = {
-                        provides: _DecorationChain(
-                            base_key=chain.base_key,
-                            layer_keys=list(chain.layer_keys),
-                        )
-                        for provides, chain in snapshot.decoration_chain_by_provides.items()
-                    }
-                    self._decoration_counter = snapshot.decoration_counter
-                    self._invalidate_compilation()
-                self._registration_mutation_snapshot = None
-                self._registration_mutation_failed = False
 
     def _bind_container_entrypoints(
         self,
-- 
2.43.0


From fc6c0e0ba96991ceb422a9f152da80ad8d1d56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 07/23] fix: pass dependencies by keyword when an earlier
 parameter keeps its default

A provider whose undeclared optional parameter precedes a declared dependency
received the dependency in the wrong parameter.
---
 src/diwire/_internal/resolvers/assembly/planner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 4830b49..998adb5 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -859,10 +859,16 @@ class ResolverGenerationPlanner:
 
         order_by_name = {parameter.name: index for index, parameter in enumerate(parameters)}
         last_index = -1
-        for dependency in spec.dependencies:
+        for position, dependency in enumerate(spec.dependencies):
             current_index = order_by_name.get(dependency.parameter.name)
             if current_index is None or current_index < last_index:
                 return False
+            if (
+                dependency.parameter.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD
+                and current_index != position
+            ):
+                # An earlier parameter is left to its default: pass by keyword instead.
+                return False
             last_index = current_index
         return True
 
-- 
2.43.0


From 8da6d0b83f7d57f00c7696f4d2dedddb81739fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 08/23] fix: do not fall back to a plain provider for context
 and All keys

---
 src/diwire/_internal/open_generics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 0c03d81..57bd441 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -12,6 +12,7 @@ from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_arg
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
+    is_all_annotation,
     is_async_provider_annotation,
     is_from_context_annotation,
     is_maybe_annotation,
@@ -365,6 +366,8 @@ class _OpenGenericResolver:  # pragma: no cover
             if is_async_provider_annotation(dependency):
                 return lambda: self.aresolve(inner_dependency)
             return lambda: self.resolve(inner_dependency)
+        if is_all_annotation(dependency) or is_from_context_annotation(dependency):
+            return self._base_resolver.resolve(dependency)
         try:
             return self._base_resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
@@ -396,6 +399,8 @@ class _OpenGenericResolver:  # pragma: no cover
             if is_async_provider_annotation(dependency):
                 return lambda: self.aresolve(inner_dependency)
             return lambda: self.resolve(inner_dependency)
+        if is_all_annotation(dependency) or is_from_context_annotation(dependency):
+            return await self._base_resolver.aresolve(dependency)
         try:
             return await self._base_resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
-- 
2.43.0


From ec6c0d3a02938a4c8dec623d2e27e40a41e963c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 09/23] fix: lock open generics whose dependencies suspend

---
 src/diwire/_internal/open_generics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 57bd441..729f67b 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -976,8 +976,7 @@ class _OpenGenericResolver:  # pragma: no cover
         return self._effective_lock_mode(spec) is LockMode.THREAD
 
     def _uses_async_lock(self, spec: _OpenGenericSpec) -> bool:
-        if not spec.requires_async:
-            return False
+        # Dependencies are only known per closed key: any of them may suspend.
         return self._effective_lock_mode(spec) is LockMode.ASYNC
 
     def _effective_lock_mode(self, spec: _OpenGenericSpec) -> LockMode:
-- 
2.43.0


From 841d9e232a85736f9cfd44145bb485acea004cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 10/23] fix: pass open-generic parameters before *args
 positionally

---
 src/diwire/_internal/open_generics.py | 40 +++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 729f67b..ac4a025 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -71,6 +71,7 @@ class _OpenGenericSpec:
     bindings: tuple[_OpenGenericBindingPlan, ...]
     registration_order: int
     provider_is_inject_wrapper: bool
+    positional_parameters: frozenset[str] = frozenset()
 
     @property
     def requires_async(self) -> bool:
@@ -285,6 +286,11 @@ class _OpenGenericRegistry:
             bindings=bindings,
             registration_order=self._registration_counter,
             provider_is_inject_wrapper=bool(getattr(provider, INJECT_WRAPPER_MARKER, False)),
+            positional_parameters=_positional_parameters(
+                provider_kind=provider_kind,
+                provider=provider,
+                dependencies=dependencies,
+            ),
         )
         self._specs_by_key[canonical_key] = spec
         return spec
@@ -774,6 +780,9 @@ class _OpenGenericResolver:  # pragma: no cover
                 binding=binding,
                 typevar_map=match.typevar_map,
             )
+            if binding.dependency.parameter.name in match.spec.positional_parameters:
+                positional_arguments.append(value)
+                continue
             _append_call_argument(
                 dependency=binding.dependency,
                 value=value,
@@ -795,6 +804,9 @@ class _OpenGenericResolver:  # pragma: no cover
                 binding=binding,
                 typevar_map=match.typevar_map,
             )
+            if binding.dependency.parameter.name in match.spec.positional_parameters:
+                positional_arguments.append(value)
+                continue
             _append_call_argument(
                 dependency=binding.dependency,
                 value=value,
@@ -997,6 +1009,34 @@ class _CallArguments:
     kwargs: dict[str, Any]
 
 
+def _positional_parameters(
+    *,
+    provider_kind: OpenProviderKind,
+    provider: Any,
+    dependencies: list[ProviderDependency],
+) -> frozenset[str]:
+    """Select the parameters that have to precede a variadic positional dependency."""
+    if not any(
+        dependency.parameter.kind is inspect.Parameter.VAR_POSITIONAL for dependency in dependencies
+    ):
+        return frozenset()
+
+    if provider_kind == "concrete_type":
+        parameter_names = list(inspect.signature(provider.__init__).parameters)[1:]
+    else:
+        parameter_names = list(inspect.signature(provider).parameters)
+
+    positional_parameters: set[str] = set()
+    for parameter_name, dependency in zip(parameter_names, dependencies, strict=False):
+        if (
+            dependency.parameter.name != parameter_name
+            or dependency.parameter.kind is inspect.Parameter.VAR_POSITIONAL
+        ):
+            break
+        positional_parameters.add(parameter_name)
+    return frozenset(positional_parameters)
+
+
 def _append_call_argument(
     *,
     dependency: ProviderDependency,
-- 
2.43.0


From 693318e7ccf31bee7320bddce37441f9058de80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 11/23] fix: leave missing Maybe parameters of open generics to
 their default

---
 src/diwire/_internal/open_generics.py | 47 +++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index ac4a025..2305e7c 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -47,6 +47,7 @@ OpenProviderKind = Literal["concrete_type", "factory", "generator", "context_man
 OpenBindingKind = Literal["dependency", "generic_argument", "generic_argument_type"]
 _MISSING_CACHE = object()
 _MAYBE_UNHANDLED = object()
+_OMITTED_ARGUMENT = object()
 
 
 @dataclass(frozen=True, slots=True)
@@ -445,6 +446,14 @@ class _OpenGenericResolver:  # pragma: no cover
             return False
         return self._registry.find_best_match(normalized_dependency) is not None
 
+    def _is_missing_maybe_dependency(self, dependency: Any) -> bool:
+        if not is_maybe_annotation(dependency):
+            return False
+        inner_dependency = strip_maybe_annotation(dependency)
+        if is_from_context_annotation(inner_dependency):
+            return False
+        return not self._is_registered_dependency(inner_dependency)
+
     def _resolve_maybe_sync(self, *, dependency: Any) -> Any:
         if not is_maybe_annotation(dependency):
             return _MAYBE_UNHANDLED
@@ -775,12 +784,22 @@ class _OpenGenericResolver:  # pragma: no cover
     def _resolve_call_arguments_sync(self, *, match: _OpenGenericMatch) -> _CallArguments:
         positional_arguments: list[Any] = []
         keyword_arguments: dict[str, Any] = {}
+        positional_parameters = match.spec.positional_parameters
+        skip_positional_only = False
         for binding in match.spec.bindings:
+            parameter = binding.dependency.parameter
+            positional_only = parameter.kind is inspect.Parameter.POSITIONAL_ONLY
+            if skip_positional_only and positional_only:
+                continue
             value = self._resolve_binding_value_sync(
                 binding=binding,
                 typevar_map=match.typevar_map,
             )
-            if binding.dependency.parameter.name in match.spec.positional_parameters:
+            if value is _OMITTED_ARGUMENT:
+                positional_parameters = frozenset()
+                skip_positional_only = skip_positional_only or positional_only
+                continue
+            if parameter.name in positional_parameters:
                 positional_arguments.append(value)
                 continue
             _append_call_argument(
@@ -799,12 +818,22 @@ class _OpenGenericResolver:  # pragma: no cover
     async def _resolve_call_arguments_async(self, *, match: _OpenGenericMatch) -> _CallArguments:
         positional_arguments: list[Any] = []
         keyword_arguments: dict[str, Any] = {}
+        positional_parameters = match.spec.positional_parameters
+        skip_positional_only = False
         for binding in match.spec.bindings:
+            parameter = binding.dependency.parameter
+            positional_only = parameter.kind is inspect.Parameter.POSITIONAL_ONLY
+            if skip_positional_only and positional_only:
+                continue
             value = await self._resolve_binding_value_async(
                 binding=binding,
                 typevar_map=match.typevar_map,
             )
-            if binding.dependency.parameter.name in match.spec.positional_parameters:
+            if value is _OMITTED_ARGUMENT:
+                positional_parameters = frozenset()
+                skip_positional_only = skip_positional_only or positional_only
+                continue
+            if parameter.name in positional_parameters:
                 positional_arguments.append(value)
                 continue
             _append_call_argument(
@@ -839,6 +868,8 @@ class _OpenGenericResolver:  # pragma: no cover
                 "unresolved TypeVars after substitution."
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
+        if self._is_missing_maybe_dependency(resolved_dependency):
+            return _missing_optional_value(binding.dependency.parameter)
         return self.resolve(resolved_dependency)
 
     async def _resolve_binding_value_async(
@@ -860,6 +891,8 @@ class _OpenGenericResolver:  # pragma: no cover
                 "unresolved TypeVars after substitution."
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
+        if self._is_missing_maybe_dependency(resolved_dependency):
+            return _missing_optional_value(binding.dependency.parameter)
         return await self.aresolve(resolved_dependency)
 
     def _build_generator_sync(
@@ -1037,6 +1070,16 @@ def _positional_parameters(
     return frozenset(positional_parameters)
 
 
+def _missing_optional_value(parameter: inspect.Parameter) -> Any:
+    if parameter.default is not inspect.Parameter.empty:
+        return _OMITTED_ARGUMENT
+    if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+        return ()
+    if parameter.kind is inspect.Parameter.VAR_KEYWORD:
+        return {}
+    return None
+
+
 def _append_call_argument(
     *,
     dependency: ProviderDependency,
-- 
2.43.0


From 054d633377c31d861d7cf15484bd9c3df7b6aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 12/23] fix: keep closed registrations ahead of open generics
 when they fail

---
 src/diwire/_internal/open_generics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 2305e7c..af879ef 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -385,6 +385,9 @@ class _OpenGenericResolver:  # pragma: no cover
                 except DIWireDependencyNotRegisteredError:
                     pass
 
+            if self._has_closed_registration(normalized_dependency):
+                raise
+
             open_match = self._registry.find_best_match(dependency)
             match_dependency = dependency
             if open_match is None and normalized_dependency is not dependency:
@@ -418,6 +421,9 @@ class _OpenGenericResolver:  # pragma: no cover
                 except DIWireDependencyNotRegisteredError:
                     pass
 
+            if self._has_closed_registration(normalized_dependency):
+                raise
+
             open_match = self._registry.find_best_match(dependency)
             match_dependency = dependency
             if open_match is None and normalized_dependency is not dependency:
@@ -430,6 +436,10 @@ class _OpenGenericResolver:  # pragma: no cover
                 match=open_match,
             )
 
+    def _has_closed_registration(self, dependency: Any) -> bool:
+        base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
+        return callable(base_registered_checker) and bool(base_registered_checker(dependency))
+
     def _is_registered_dependency(self, dependency: Any) -> bool:
         base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
         normalized_dependency = strip_non_component_annotation(dependency)
-- 
2.43.0


From 3359694e49de89f6a90c2c55b703ae41f1c419e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 13/23] fix: keep open-generic cleanups of shared scopes apart

---
 src/diwire/_internal/open_generics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index af879ef..0f98635 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -991,11 +991,21 @@ class _OpenGenericResolver:  # pragma: no cover
         self._cleanup_callbacks.append((kind, callback))
 
     def _resolver_cleanup_callbacks(self) -> list[tuple[int, Any]] | None:
+        if self._shares_base_resolver():
+            return None
         callbacks = getattr(self._base_resolver, "_cleanup_callbacks", None)
         if isinstance(callbacks, list):
             return callbacks
         return None
 
+    def _shares_base_resolver(self) -> bool:
+        # Stateless scopes reuse one base resolver: its callbacks belong to no scope in particular.
+        if self._parent_wrapper is None:
+            return False
+        root_resolver = self._root_wrapper._base_resolver  # noqa: SLF001
+        shared_resolver = getattr(root_resolver, f"_scope_resolver_{self._scope_level}", None)
+        return shared_resolver is self._base_resolver
+
     def _resolve_execution_owner(self, spec: _OpenGenericSpec) -> _OpenGenericResolver:
         provider_scope_owner = self._scope_owner_for_level(spec.scope.level)
         if provider_scope_owner is None:
-- 
2.43.0


From 2ee7e6250b67065a73dc35c48ad8c2b9a7e2fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 14/23] fix: substitute type arguments inside Provider and All
 dependencies

---
 src/diwire/_internal/open_generics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 0f98635..b9b18df 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -12,6 +12,8 @@ from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_arg
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
+    AllMarker,
+    ProviderMarker,
     is_all_annotation,
     is_async_provider_annotation,
     is_from_context_annotation,
@@ -160,6 +162,10 @@ def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
     if isinstance(value, TypeVar):
         return mapping.get(value, value)
 
+    if isinstance(value, (AllMarker, ProviderMarker)):
+        dependency_key = substitute_typevars(value.dependency_key, mapping=mapping)
+        return value._replace(dependency_key=dependency_key)
+
     origin = get_origin(value)
     if origin is None:
         return value
-- 
2.43.0


From 561e31e02bedca6470952904da12aadcbd3f5c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 15/23] fix: open-generic resolvers accept integer scope
 targets like generated resolvers

---
 src/diwire/_internal/open_generics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index b9b18df..9517482 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1388,7 +1388,7 @@ def _resolve_scope_transition_path(
         )
         target_scope_level = default_next.level
     else:
-        target_scope_level = scope.level
+        target_scope_level = int(scope)
         if target_scope_level == current_scope_level:
             return []
     if target_scope_level <= current_scope_level:
-- 
2.43.0


From f495f37f30cf77a1ed755332470d0126137ab267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 16/23] fix: keep the open-generic binding of a type variable
 bound to None

---
 src/diwire/_internal/open_generics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 9517482..3fa4d01 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1240,6 +1240,11 @@ def _match_typevars(*, template: Any, concrete: Any) -> dict[TypeVar, Any] | Non
     return None
 
 
+def _none_as_type(argument: Any) -> Any:
+    # ``list[None]`` keeps ``None`` as an argument, typing aliases turn it into ``NoneType``.
+    return type(None) if argument is None else argument
+
+
 def _match_node(  # noqa: PLR0911
     *,
     template: Any,
@@ -1247,10 +1252,11 @@ def _match_node(  # noqa: PLR0911
     mapping: dict[TypeVar, Any],
 ) -> bool:
     if isinstance(template, TypeVar):
-        known = mapping.get(template)
-        if known is None:
+        if template not in mapping:
             mapping[template] = concrete
             return True
+        known = _none_as_type(mapping[template])
+        concrete = _none_as_type(concrete)
         return known == concrete
 
     template_origin = get_origin(template)
-- 
2.43.0


From 5349a96dda38aeb6fe51bd923a76fb7291a79679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:01 +0000
Subject: [PATCH 17/23] fix: accept a concrete provider for a key written A | B

---
 src/diwire/_internal/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index e756ab6..648438f 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -6,7 +6,7 @@ import logging
 from collections.abc import AsyncGenerator, Awaitable, Callable, Generator, Mapping
 from contextlib import contextmanager, suppress
 from dataclasses import dataclass
-from types import TracebackType
+from types import TracebackType, UnionType
 from typing import (
     Annotated,
     Any,
@@ -1613,7 +1613,7 @@ class Container:
             normalized_provides = get_args(normalized_provides)[0]
 
         origin = get_origin(normalized_provides)
-        if origin is None:
+        if origin is None or origin is UnionType:  # ``A | B`` has no type parameters
             return {}
 
         arguments = get_args(normalized_provides)
-- 
2.43.0


From 03ff84ebc9eed3efb4a080adb7beb0058f9ec4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 18/23] fix: a constructor parameter's own annotation decides
 its dependency

Parameter annotations were looked up by name in the class-level annotations and then in
__call__, so a parameter of __init__/__new__ received the dependency annotated for a class
attribute or __call__ parameter of the same name. Callable-object factories read their class
annotations instead of those of __call__.
---
 src/diwire/_internal/providers.py   | 45 ++++++++++++++++++++++++-----
 src/diwire/_internal/type_checks.py | 21 ++++++++++++--
 2 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index fbf223e..bf83d10 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -23,6 +23,7 @@ from typing import (
 
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.scope import BaseScope
+from diwire._internal.type_checks import callable_implementation
 from diwire.exceptions import (
     DIWireInvalidProviderSpecError,
     DIWireInvalidRegistrationError,
@@ -562,7 +563,7 @@ class ProviderDependenciesExtractor:
         annotation_error: Exception | None = None
 
         try:
-            annotations = get_type_hints(provider, include_extras=True)
+            annotations = get_type_hints(callable_implementation(provider), include_extras=True)
         except (AttributeError, NameError, TypeError) as error:
             annotation_error = error
 
@@ -584,20 +585,50 @@ class ProviderDependenciesExtractor:
     ) -> tuple[dict[str, Any], Exception | None]:
         merged_annotations = dict(annotations)
         merged_error = annotation_error
-
-        for callable_member_name in ("__call__", "__new__", "__init__"):
-            callable_member = getattr(concrete_type, callable_member_name)
+        class_annotations: dict[str, Any] = {}
+        for base in reversed(concrete_type.__mro__):
+            class_annotations.update(base.__dict__.get("__annotations__", {}))
+        declared_parameters: set[str] = set()
+
+        for callable_member in self._constructor_callables(concrete_type):
+            raw_annotations = getattr(callable_member, "__annotations__", {})
+            member_annotations: dict[str, Any] = {}
             try:
                 member_annotations = get_type_hints(callable_member, include_extras=True)
             except (AttributeError, NameError, TypeError) as error:
                 if merged_error is None:
                     merged_error = error
-                continue
-            for parameter_name, parameter_annotation in member_annotations.items():
-                merged_annotations.setdefault(parameter_name, parameter_annotation)
+            for parameter_name, raw_annotation in raw_annotations.items():
+                if parameter_name in declared_parameters:
+                    continue
+                declared_parameters.add(parameter_name)
+                # Generated constructors (dataclasses) repeat the class annotation, which is
+                # resolved in the namespace of the class that declares it. Otherwise the
+                # parameter's own annotation decides.
+                if (
+                    parameter_name in merged_annotations
+                    and class_annotations.get(parameter_name, _MISSING_ANNOTATION) == raw_annotation
+                ):
+                    continue
+                if parameter_name in member_annotations:
+                    merged_annotations[parameter_name] = member_annotations[parameter_name]
+                else:
+                    merged_annotations.pop(parameter_name, None)
 
         return merged_annotations, merged_error
 
+    def _constructor_callables(self, concrete_type: type[Any]) -> tuple[Callable[..., Any], ...]:
+        """Return the callables that build an instance, the one that defines the signature first."""
+        metaclass_call = type(concrete_type).__call__
+        constructors: list[Callable[..., Any]] = [concrete_type.__new__, concrete_type.__init__]
+        for base in concrete_type.__mro__:
+            if "__new__" in base.__dict__:
+                break
+            if "__init__" in base.__dict__:
+                constructors.reverse()
+                break
+        return (metaclass_call, *constructors)
+
     def _is_required_parameter(self, parameter: Parameter) -> bool:
         return (
             parameter.default is Parameter.empty
diff --git a/src/diwire/_internal/type_checks.py b/src/diwire/_internal/type_checks.py
index d31d6d6..4f2a27f 100644
--- a/src/diwire/_internal/type_checks.py
+++ b/src/diwire/_internal/type_checks.py
@@ -1,7 +1,9 @@
 from __future__ import annotations
 
+import inspect
 import types
-from typing import Any, TypeGuard
+from collections.abc import Callable
+from typing import Any, TypeGuard, cast
 
 
 def is_runtime_class(candidate: object) -> TypeGuard[type[Any]]:
@@ -14,4 +16,19 @@ def is_runtime_class(candidate: object) -> TypeGuard[type[Any]]:
     return isinstance(candidate, type) and not isinstance(candidate, types.GenericAlias)
 
 
-__all__ = ["is_runtime_class"]
+def callable_implementation(candidate: Callable[..., Any]) -> Callable[..., Any]:
+    """Return the function behind a callable object (an instance whose class defines __call__).
+
+    Args:
+        candidate: Callable whose signature, annotations or async mode are inspected.
+
+    """
+    if isinstance(candidate, type) or "__annotations__" in getattr(candidate, "__dict__", {}):
+        return candidate
+    call = getattr(type(candidate), "__call__", None)
+    if not inspect.isfunction(call):
+        return candidate
+    return cast("Callable[..., Any]", call.__get__(candidate))
+
+
+__all__ = ["callable_implementation", "is_runtime_class"]
-- 
2.43.0


From 8ec5cb02bb82d6ba9a227af43e7feed9099a0869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 19/23] fix: bind positional arguments of closed generic
 constructors past the injected ones

The remaining positional arguments were bound to the parameter that receives the type
argument, so P[int] with __init__(self, a: T, b: B, /) raised TypeError.
---
 src/diwire/_internal/container.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 648438f..a48c47e 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import functools
 import inspect
 import logging
+from collections import OrderedDict
 from collections.abc import AsyncGenerator, Awaitable, Callable, Generator, Mapping
 from contextlib import contextmanager, suppress
 from dataclasses import dataclass
@@ -1654,13 +1655,22 @@ class Container:
     ) -> Callable[..., Any]:
         constructor_signature = inspect.signature(concrete_type)
         factory_injected_arguments = dict(injected_arguments)
+        # The caller supplies the remaining parameters only, so positional arguments must not
+        # be bound to the injected ones.
+        remaining_signature = constructor_signature.replace(
+            parameters=[
+                parameter
+                for parameter in constructor_signature.parameters.values()
+                if parameter.name not in factory_injected_arguments
+            ],
+        )
 
         def _factory(*args: Any, **kwargs: Any) -> Any:
-            bound_arguments = constructor_signature.bind_partial(*args, **kwargs)
-            for argument_name, argument_value in factory_injected_arguments.items():
-                if argument_name in bound_arguments.arguments:
-                    continue
-                bound_arguments.arguments[argument_name] = argument_value
+            bound_arguments = inspect.BoundArguments(
+                constructor_signature,
+                OrderedDict(remaining_signature.bind_partial(*args, **kwargs).arguments),
+            )
+            bound_arguments.arguments.update(factory_injected_arguments)
             return concrete_type(*bound_arguments.args, **bound_arguments.kwargs)
 
         return _factory
-- 
2.43.0


From a75a5a257c53e4692cc467079231415c20eb99e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 20/23] fix: recognise asynchronous callable objects as
 asynchronous providers

An object with async __call__ (or an asynchronous generator one) registered as a factory,
generator or context manager was treated as synchronous, so resolve returned a coroutine.
Its string return annotation was not read either.
---
 src/diwire/_internal/providers.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index bf83d10..bfbc0c4 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -662,8 +662,11 @@ class ProviderReturnTypeExtractor:
             factory: Factory provider callable to inspect or validate.
 
         """
-        return inspect.iscoroutinefunction(factory) or self.return_annotation_matches_origins(
-            provider=factory,
+        implementation = callable_implementation(factory)
+        return inspect.iscoroutinefunction(
+            implementation,
+        ) or self.return_annotation_matches_origins(
+            provider=implementation,
             expected_origins=(Awaitable, Coroutine),
         )
 
@@ -677,8 +680,11 @@ class ProviderReturnTypeExtractor:
             generator: Generator provider callable to inspect or validate.
 
         """
-        return inspect.isasyncgenfunction(generator) or self.return_annotation_matches_origins(
-            provider=generator,
+        implementation = callable_implementation(generator)
+        return inspect.isasyncgenfunction(
+            implementation,
+        ) or self.return_annotation_matches_origins(
+            provider=implementation,
             expected_origins=(AsyncGenerator,),
         )
 
@@ -692,7 +698,7 @@ class ProviderReturnTypeExtractor:
             context_manager: Context manager provider callable to inspect or validate.
 
         """
-        unwrapped_context_manager = inspect.unwrap(context_manager)
+        unwrapped_context_manager = inspect.unwrap(callable_implementation(context_manager))
         if inspect.isasyncgenfunction(unwrapped_context_manager):
             return True
         if inspect.iscoroutinefunction(unwrapped_context_manager):
@@ -744,7 +750,9 @@ class ProviderReturnTypeExtractor:
             factory: Factory provider callable to inspect or validate.
 
         """
-        return_annotation, annotation_error = self._resolved_return_annotation(factory)
+        return_annotation, annotation_error = self._resolved_return_annotation(
+            callable_implementation(factory),
+        )
         provider_name = self._provider_name(factory)
         if return_annotation is _MISSING_ANNOTATION:
             self._raise_missing_return_annotation_error(
@@ -774,7 +782,9 @@ class ProviderReturnTypeExtractor:
             generator: Generator provider callable to inspect or validate.
 
         """
-        return_annotation, annotation_error = self._resolved_return_annotation(generator)
+        return_annotation, annotation_error = self._resolved_return_annotation(
+            callable_implementation(generator),
+        )
         provider_name = self._provider_name(generator)
         if return_annotation is _MISSING_ANNOTATION:
             self._raise_missing_return_annotation_error(
@@ -807,7 +817,9 @@ class ProviderReturnTypeExtractor:
             context_manager: Context manager provider callable to inspect or validate.
 
         """
-        return_annotation, annotation_error = self._resolved_return_annotation(context_manager)
+        return_annotation, annotation_error = self._resolved_return_annotation(
+            callable_implementation(context_manager),
+        )
         provider_name = self._provider_name(context_manager)
         if return_annotation is not _MISSING_ANNOTATION:
             yielded_type = self._extract_yielded_or_managed_type(
-- 
2.43.0


From 7765178e4b99bd96fadad6aae64d16ec39779f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 21/23] fix: inject into callable objects: await asynchronous
 ones inside the scope, read string annotations

---
 src/diwire/_internal/container.py        | 3 ++-
 src/diwire/_internal/injection.py        | 3 ++-
 src/diwire/_internal/resolver_context.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index a48c47e..d558234 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -68,6 +68,7 @@ from diwire._internal.resolver_context import (
 from diwire._internal.resolvers.manager import ResolversManager
 from diwire._internal.resolvers.protocol import ResolverProtocol
 from diwire._internal.scope import BaseScope, Scope
+from diwire._internal.type_checks import callable_implementation
 from diwire._internal.validators import DependecyRegistrationValidator
 from diwire.exceptions import (
     DIWireDependencyNotRegisteredError,
@@ -1923,7 +1924,7 @@ class Container:
             auto_open_scope=auto_open_scope,
         )
 
-        if inspect.iscoroutinefunction(callable_obj):
+        if inspect.iscoroutinefunction(callable_implementation(callable_obj)):
 
             @functools.wraps(callable_obj)
             async def _async_injected(*args: Any, **kwargs: Any) -> Any:
diff --git a/src/diwire/_internal/injection.py b/src/diwire/_internal/injection.py
index 1ba6091..e012399 100644
--- a/src/diwire/_internal/injection.py
+++ b/src/diwire/_internal/injection.py
@@ -10,6 +10,7 @@ from diwire._internal.markers import (
     is_from_context_annotation,
     strip_from_context_annotation,
 )
+from diwire._internal.type_checks import callable_implementation
 
 _ANNOTATED_DEPENDENCY_MIN_ARGS = 2
 INJECT_RESOLVER_KWARG = "diwire_resolver"
@@ -141,7 +142,7 @@ class InjectedCallableInspector:
 
         """
         try:
-            return get_type_hints(callable_obj, include_extras=True)
+            return get_type_hints(callable_implementation(callable_obj), include_extras=True)
         except (AttributeError, NameError, TypeError):
             return {}
 
diff --git a/src/diwire/_internal/resolver_context.py b/src/diwire/_internal/resolver_context.py
index 448b345..bfaa093 100644
--- a/src/diwire/_internal/resolver_context.py
+++ b/src/diwire/_internal/resolver_context.py
@@ -17,6 +17,7 @@ from diwire._internal.injection import (
 from diwire._internal.policies import DependencyRegistrationPolicy
 from diwire._internal.resolvers.protocol import ResolverProtocol
 from diwire._internal.scope import BaseScope
+from diwire._internal.type_checks import callable_implementation
 from diwire.exceptions import DIWireInvalidRegistrationError, DIWireResolverNotSetError
 
 if TYPE_CHECKING:
@@ -523,7 +524,7 @@ class ResolverContext:
         callable_obj: InjectableF,
         invocation: Callable[..., Any],
     ) -> Callable[..., Any]:
-        if inspect.iscoroutinefunction(callable_obj):
+        if inspect.iscoroutinefunction(callable_implementation(callable_obj)):
 
             @functools.wraps(callable_obj)
             async def _async_injected(*args: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From c5af8f6e41a82ab9c542e4435dabc2843fadb69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:46 +0000
Subject: [PATCH 22/23] fix: recognise a functools.partial of an async context
 manager function as asynchronous

A partial of an @asynccontextmanager function without a return annotation was registered as a
synchronous context manager, and resolving it failed with an AttributeError.
---
 src/diwire/_internal/providers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index bfbc0c4..663eadf 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import functools
 import inspect
 from collections.abc import AsyncGenerator, Awaitable, Callable, Coroutine, Generator
 from contextlib import AbstractAsyncContextManager, AbstractContextManager
@@ -698,7 +699,10 @@ class ProviderReturnTypeExtractor:
             context_manager: Context manager provider callable to inspect or validate.
 
         """
-        unwrapped_context_manager = inspect.unwrap(callable_implementation(context_manager))
+        implementation: Any = context_manager
+        while isinstance(implementation, functools.partial):
+            implementation = implementation.func
+        unwrapped_context_manager = inspect.unwrap(callable_implementation(implementation))
         if inspect.isasyncgenfunction(unwrapped_context_manager):
             return True
         if inspect.iscoroutinefunction(unwrapped_context_manager):
-- 
2.43.0


From 963bcc1f2399026da9b98751d4a339446da3867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:31 +0000
Subject: [PATCH 23/23] fix: an inherited constructor's annotations are read in
 the namespace of its own class

A constructor inherited from a class of another module, whose source annotation was spelled like
an annotation of the subclass, received the dependency the subclass names.
---
 src/diwire/_internal/providers.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index 663eadf..a1b3e52 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -586,13 +586,17 @@ class ProviderDependenciesExtractor:
     ) -> tuple[dict[str, Any], Exception | None]:
         merged_annotations = dict(annotations)
         merged_error = annotation_error
-        class_annotations: dict[str, Any] = {}
-        for base in reversed(concrete_type.__mro__):
-            class_annotations.update(base.__dict__.get("__annotations__", {}))
         declared_parameters: set[str] = set()
 
         for callable_member in self._constructor_callables(concrete_type):
             raw_annotations = getattr(callable_member, "__annotations__", {})
+            owner = self._constructor_owner(concrete_type, callable_member)
+            class_annotations: dict[str, Any] = {}
+            for base in reversed(owner.__mro__):
+                class_annotations.update(base.__dict__.get("__annotations__", {}))
+            class_hints = annotations
+            if owner is not concrete_type and annotations:
+                class_hints = get_type_hints(owner, include_extras=True)
             member_annotations: dict[str, Any] = {}
             try:
                 member_annotations = get_type_hints(callable_member, include_extras=True)
@@ -607,17 +611,28 @@ class ProviderDependenciesExtractor:
                 # resolved in the namespace of the class that declares it. Otherwise the
                 # parameter's own annotation decides.
                 if (
-                    parameter_name in merged_annotations
+                    parameter_name in class_hints
                     and class_annotations.get(parameter_name, _MISSING_ANNOTATION) == raw_annotation
                 ):
-                    continue
-                if parameter_name in member_annotations:
+                    merged_annotations[parameter_name] = class_hints[parameter_name]
+                elif parameter_name in member_annotations:
                     merged_annotations[parameter_name] = member_annotations[parameter_name]
                 else:
                     merged_annotations.pop(parameter_name, None)
 
         return merged_annotations, merged_error
 
+    def _constructor_owner(
+        self,
+        concrete_type: type[Any],
+        constructor: Callable[..., Any],
+    ) -> type[Any]:
+        """Return the class that defines the constructor."""
+        for base in reversed(concrete_type.__mro__):
+            if constructor in (base.__init__, base.__new__):  # type: ignore[misc]
+                return base
+        return concrete_type
+
     def _constructor_callables(self, concrete_type: type[Any]) -> tuple[Callable[..., Any], ...]:
         """Return the callables that build an instance, the one that defines the signature first."""
         metaclass_call = type(concrete_type).__call__
-- 
2.43.0

