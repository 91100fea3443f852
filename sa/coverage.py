"""Which functions and definitions of the repository each property rests on.

Patterns are regular expressions matched against "module:qualified.name".
"""
from __future__ import annotations

import re

COMPILER_SCOPES = (r"compiler:(_resolver_init|_resolver_enter_scope|_instantiate_scope_transition|_next_scope_options|_build_transition_plan_to_target|"
                   r"ResolversAssemblyCompiler\.(_compile_init_method|_compile_specialized_init_method|_compile_enter_scope_method|_compile_specialized_enter_scope_method))")
SLOT = (r"compiler:(_build_sync_slot_impl|_build_async_slot_impl|_replace_sync_cache|_replace_async_cache|_provider_scope_resolver_for_workflow|_owner_resolver_for_scope|"
        r"_dependency_value_for_slot_sync|_dependency_value_for_slot_async|"
        r"ResolversAssemblyCompiler\.(_compile_slot_method|_compile_specialized_sync_slot_method|_optimized_sync_arguments|_optimized_sync_dependency_expression))")
LOCALVAL = r"compiler:(_build_local_value_(sync|async)(_no_arguments)?|_awaitable_in_sync|_call_provider)"
EXITS = (r"compiler:(_resolver_exit|_resolver_aexit|ResolversAssemblyCompiler\.(_compile_exit_method|_compile_no_cleanup_exit_method|_compile_close_method))")
DISPATCH = (r"compiler:(_resolve_dispatch_fallback_(sync|async)|ResolversAssemblyCompiler\._compile_dispatch_method|_dispatch_workflows|_dispatch_cache_enabled_for_class)")
BOOT = r"compiler:ResolversAssemblyCompiler\.(build_root_resolver|_bootstrap_runtime|_build_classes|_build_generated_globals|_class_slots|_compile_simple_method)"
COMPILE = r"compiler:(_compile_function|_compile_function_from_source|_extract_function_code)"
OG_RES = r"open_generics:_OpenGenericResolver\."
OG = lambda names: rf"open_generics:_OpenGenericResolver\.({names})"  # noqa: E731
ARGS = (r"compiler:(_build_argument_parts_(sync|async)|_argument_part_for_dependency|_resolve_dependency_value_(sync|async)|_insert_internal_resolver_argument|_call_provider|"
        r"_literal_value_for_plan|_dependency_value_for_slot_(sync|async)|_dependency_plans_for_workflow|_unique_ordered|ResolversAssemblyCompiler\._optimized_sync_(arguments|dependency_expression))")
REG_API = (r"container:Container\.(add_instance|add|add_factory|add_generator|add_context_manager|_register_non_concrete_provider)")
CTX = r"resolver_context:"
CONT = lambda names: rf"container:Container\.({names})"  # noqa: E731
PLAN = lambda names: rf"planner:ResolverGenerationPlanner\.({names})"  # noqa: E731

COVERAGE: dict[str, list[str]] = {
    "C01": [SLOT, LOCALVAL, COMPILER_SCOPES, DISPATCH, BOOT, PLAN("build|_collect_specs|_build_workflow_plan|_is_cached|_cache_owner_scope_level|_build_scope_plans"),
            REG_API, CONT("_resolve_registration_lifetime|_copy_provider_spec_with_new_key|_resolve_registration_scope"), r"providers:ProviderSpec\.",
            OG("_resolve_open_match_(sync|async)|get_cached|set_cached|_resolve_cache_owner|_scope_owner_for_level|_resolve_execution_owner")],
    "C02": [SLOT, r"compiler:_replace_.*", BOOT, r"compiler:_resolver_enter_scope", r"compiler:ResolversAssemblyCompiler\.(_compile_init_method|_compile_specialized_init_method|_compile_enter_scope_method|_compile_specialized_enter_scope_method)",
            PLAN("build|_build_workflow_plan|_resolve_effective_lock_mode|_build_scope_plans|_build_requires_async_by_slot|_resolve_requires_async"), r"resolvers\.manager:",
            CONT("__init__|compile|_compile_locked|_resolve_provider_lock_mode|_invalidate_compilation|resolve|aresolve"), REG_API, CONT("_copy_provider_spec_with_new_key"), r"lock_mode:",
            OG("_resolve_open_match_(sync|async)|get_thread_lock|get_async_lock|_uses_thread_lock|_uses_async_lock|_effective_lock_mode|__init__|_resolve_cache_owner|get_cached|set_cached"),
            r"open_generics:_OpenGenericSpec\.requires_async"],
    "C03": [COMPILER_SCOPES, SLOT, r"compiler:(_owner_resolver_for_scope|_resolver_scope_level)", BOOT, EXITS,
            PLAN("_cache_owner_scope_level|_build_scope_plans|_build_workflow_plan|build"),
            OG("__init__|enter_scope|_resolve_cache_owner|_scope_owner_for_level|parent_wrapper|scope_level|get_cached|set_cached|_resolve_open_match_(sync|async)|_resolve_execution_owner")],
    "C04": [r"compiler:(_provider_scope_resolver_for_workflow|_raise_scope_mismatch|_scope_mismatch_lines_for_source|_delegate_scope_lines_for_source|_resolver_scope_level|_owner_resolver_for_scope)",
            SLOT, PLAN("_build_max_required_scope_level_by_slot|_resolve_max_required_scope_level|_build_workflow_plan|_dependency_slots_for_graph|_find_registered_dependency_spec|_find_reachable_spec|_dependency_spec_or_error|_plan_dependency"),
            r"planner:(validate_resolver_assembly_managed_scopes|_validate_.*)",
            OG("_resolve_execution_owner|_raise_scope_mismatch|_scope_owner_for_level|_resolve_open_match_(sync|async)|_resolve_cache_owner"), CONT("_infer_injected_scope_level|_infer_dependency_scope_level|_enter_scope_if_needed|_is_already_deep_enough_scope_error")],
    "C05": [COMPILER_SCOPES, EXITS, r"compiler:(_resolver_scope_level|_unique_ordered)", r"open_generics:_resolve_scope_transition_path", OG("enter_scope|__exit__|__aexit__|close|aclose|__init__"), r"scope:", PLAN("_build_scope_plans"), r"planner:(validate_resolver_assembly_managed_scopes|_validate_.*)",
            CONT("enter_scope")],
    "C06": [LOCALVAL, SLOT, r"compiler:(_literal_value_for_plan)", COMPILER_SCOPES, PLAN("_build_workflow_plan|_resolve_provider_attribute|_build_scope_plans|build"), r"providers:ProvidersRegistrations\.(_refresh_needs_cleanup_flags|add|restore)", r"providers:ProviderSpec\.",
            OG("_build_generator_(sync|async)|_build_context_manager_(sync|async)|_register_cleanup|_resolver_cleanup_callbacks|_build_open_value_(sync|async)|build_open_value_(sync|async)|__init__"),
            r"open_generics:_as_(generator|context_manager)_provider"],
    "C07": [EXITS, r"open_generics:_execute_(sync|async)_cleanup_callbacks", OG("__exit__|__aexit__|close|aclose|_register_cleanup|_resolver_cleanup_callbacks|__enter__|__aenter__|enter_scope"), COMPILER_SCOPES, LOCALVAL,
            PLAN("build|_build_scope_plans"), r"providers:ProvidersRegistrations\._refresh_needs_cleanup_flags", r"compiler:ResolversAssemblyCompiler\._build_classes"],
    "C08": [EXITS, r"open_generics:(_execute_(sync|async)_cleanup_callbacks|_raise_async_cleanup_in_sync_context)", LOCALVAL, OG("__exit__|__aexit__|close|aclose|_build_generator_(sync|async)|_build_context_manager_(sync|async)|_register_cleanup"), SLOT],
    "C09": [PLAN("_build_requires_async_by_slot|_resolve_requires_async|_dependency_slots_for_graph|_plan_dependency|_plan_.*|_build_workflow_plan|_split_maybe_dependency|_resolve_provider_attribute"), LOCALVAL, SLOT,
            r"compiler:(_build_argument_parts_sync|_resolve_dependency_value_sync|_dependency_value_for_slot_sync|_resolve_dispatch_fallback_sync)", r"compiler:ResolversAssemblyCompiler\._compile_dispatch_method", r"providers:ProviderReturnTypeExtractor\.(is_.*|_context_manager_mode|extract_from_.*)", REG_API,
            OG("resolve|_resolve_maybe_sync|_resolve_maybe_from_context_sync|_resolve_open_match_sync|_build_open_value_sync|_build_generator_sync|_build_context_manager_sync|_resolve_binding_value_sync|_resolve_call_arguments_sync"),
            r"open_generics:(_OpenGenericSpec\.requires_async|_raise_async_cleanup_in_sync_context)"],
    "C10": [LOCALVAL, SLOT, ARGS, DISPATCH, EXITS, OG_RES, CONT("resolve|aresolve|enter_scope|__enter__|__exit__|__aenter__|__aexit__|close|aclose|_inject_callable|_resolve_(sync|async)_injected_arguments"), r"resolver_context:(_ResolverBoundResolver|ResolverContext)\.(resolve|aresolve|__a?enter__|__a?exit__|close|aclose)",
            r"open_generics:_execute_(sync|async)_cleanup_callbacks"],
    "C11": [CONT("_registration_mutation|add_instance|add|add_factory|add_generator|add_context_manager|decorate|_register_.*|_invalidate_compilation|_restore_container_entrypoints|_finalize_registration_after_binding|_apply_pending_decorations|_rebuild_decoration_chain|_move_current_binding_to_base_key|_ensure_autoregistration|_autoregister_.*|_ensure_chain_keys|_build_decoration_chain|_revalidate_injected_scope_contracts|_create_decoration_alias_key|_copy_provider_spec_with_new_key|__init__"),
            r"providers:ProvidersRegistrations\.(snapshot|restore|add|__init__|_refresh_needs_cleanup_flags)", r"open_generics:_OpenGenericRegistry\.(snapshot|restore|register|__init__)"],
    "C12": [CONT("compile|_compile_locked|_invalidate_compilation|_registration_mutation|_bind_container_entrypoints|_restore_container_entrypoints|_finalize_registration_after_binding|_ensure_autoregistration|_autoregister_.*|resolve|aresolve|enter_scope|__enter__|__exit__|__aenter__|__aexit__|close|aclose|add_instance|add|add_factory|add_generator|add_context_manager|decorate|_register_.*|_apply_pending_decorations|_build_decoration_chain|_rebuild_decoration_chain|_is_registered_in_resolver|__init__|_revalidate_injected_scope_contracts"), r"resolvers\.manager:",
            r"providers:ProvidersRegistrations\.(add|restore|values|__len__)", r"open_generics:_OpenGenericRegistry\.(register|restore|has_specs|values)", r"compiler:ResolversAssemblyCompiler\.(build_root_resolver|_bootstrap_runtime)", PLAN("build|_collect_specs")],
    "C13": [r"providers:ProvidersRegistrations\.", r"providers:ProviderSpec\.", r"markers:(component_base_key|strip_non_component_annotation|build_annotated_key|_build_annotated|_extract_.*|strip_.*|is_.*|_build_provider_annotation|.*__class_getitem__)", r"open_generics:(_OpenGenericRegistry\.|canonicalize_open_key|_normalize_generic_node|_rebuild_alias|_origin_or_self)",
            CONT("_resolve_registration_(provides|component_provides|target_provides)|_resolve_concrete_registration_types|_normalize_registration_component|_register_non_concrete_provider|add_instance|add|add_factory|add_generator|add_context_manager|_has_registered_binding|_normalize_dependency_identity_key|_is_open_generic_provides"),
            DISPATCH, PLAN("_collect_specs|_build_all_slots_by_key|_resolve_dispatch_kind"), r"compiler:ResolversAssemblyCompiler\._bootstrap_runtime"],
    "C14": [CONT("decorate|_register_decoration_rule|_validate_decorator_callable|_extract_decoration_dependencies|_resolve_decoration_.*|_finalize_registration_after_binding|_apply_pending_decorations|_ensure_chain_keys|_build_decoration_chain|_rebuild_decoration_chain|_move_current_binding_to_base_key|_copy_provider_spec_with_new_key|_build_decorator_dependencies|_register_open_generic_decorator_layer|_normalize_decoration_provides_key|_create_decoration_alias_key|_has_registered_binding|_is_open_generic_provides|_resolve_registration_target_provides"),
            REG_API, r"open_generics:_OpenGenericRegistry\.(register|find_exact)", r"providers:ProvidersRegistrations\.(add|find_by_type|get_by_type)"],
    "C15": [CONT("__init__|_resolve_resolution_on_missing|_resolve_container_.*|_resolve_registration_dependency_registration_policy|_resolve_dependency_registration_policy|_ensure_autoregistration|_autoregister_.*|resolve|aresolve|compile|_compile_locked|_bind_container_entrypoints|_restore_container_entrypoints|_inject_callable|add|add_factory|add_generator|add_context_manager|_register_non_concrete_provider|_resolve_injected_dependency"), r"policies:",
            r"resolver_context:ResolverContext\.(inject|_resolve_inject_dependency_registration_policy|_resolve_injection_state|_wrap_injected_callable|_get_cached_injected_callable|_build_injection_invoker|resolve|aresolve)",
            PLAN("_plan_dependency|_dependency_spec_or_error")],
    "C16": [r"autoregistration:", CONT("_ensure_autoregistration|_autoregister_.*|_normalize_dependency_identity_key|_unwrap_provider_dependency_key|_extract_provider_inner_dependency_fast|_has_registered_binding|__init__|_resolve_closed_.*|_is_open_generic_provides"), r"integrations\.pydantic_settings:", r"type_checks:", r"validators:", r"open_generics:(_OpenGenericRegistry\.(has_match_for_dependency|find_best_match|find_exact)|_is_closed_generic_dependency)", r"markers:(is_.*|strip_.*)", REG_API],
    "C17": [r"resolver_context:(_ResolverBoundResolver\..*|ResolverContext\.(__init__|_push|_pop|_wrap_resolver|enter_scope|_get_bound_resolver_or_none))", CONT("__enter__|__exit__|__aenter__|__aexit__|enter_scope|_get_context_bound_resolver_or_none|close|aclose")],
    "C18": [r"resolver_context:ResolverContext\.", CONT("_get_context_bound_resolver_or_none|_resolve_inject_resolver|_inject_callable|resolve|aresolve|enter_scope|__init__|__enter__|__aenter__"), r"diwire(\.|:)"],
    "C19": [CONT("_inject_callable|_resolve_injected_dependency|_autoregister_injected_dependencies|_infer_injected_scope_level|_infer_dependency_scope_level|_resolve_sync_injected_arguments|_resolve_async_injected_arguments|_resolve_inject_resolver|_pop_inject_context|_validate_inject_context_usage|_build_injected_target_scope_getter|_find_scope_by_level|_enter_scope_if_needed|_is_already_deep_enough_scope_error|_revalidate_injected_scope_contracts|_is_registered_in_resolver|_callable_name"),
            r"injection:", r"resolver_context:ResolverContext\.(inject|_resolve_inject_scope|_validate_injected_callable_signature|_build_injection_invoker|_resolve_injection_state|_require_inject_fallback_container|_get_cached_injected_callable|_wrap_injected_callable|_callable_name)"],
    "C20": [r"compiler:(_resolver_resolve_from_context|_resolver_is_registered_dependency|_resolver_init|_resolver_enter_scope|_instantiate_scope_transition|_resolve_dispatch_fallback_(sync|async)|_resolve_dependency_value_(sync|async)|ResolversAssemblyCompiler\.(_compile_init_method|_compile_specialized_init_method|_compile_enter_scope_method|_compile_specialized_enter_scope_method|_compile_simple_method|_compile_dispatch_method|_bootstrap_runtime|_optimized_sync_dependency_expression))",
            PLAN("_plan_context_dependency|_plan_dependency|_split_maybe_dependency"), OG("enter_scope|__init__|resolve|aresolve|_resolve_maybe_from_context_(sync|async)|_is_registered_dependency|_resolve_binding_value_(sync|async)"), r"markers:(is_from_context_annotation|strip_from_context_annotation|FromContext.*|build_annotated_key)", r"injection:InjectedCallableInspector\.(extract_context_parameters|resolve_from_context_dependency|inspect_callable)",
            CONT("_pop_inject_context|_validate_inject_context_usage|_enter_scope_if_needed|_resolve_(sync|async)_injected_arguments|enter_scope|_inject_callable"), r"resolver_context:(_ResolverBoundResolver|ResolverContext)\.enter_scope"],
    "C21": [r"markers:", ARGS, r"compiler:(_resolve_dispatch_fallback_(sync|async)|_resolver_is_registered_dependency|ResolversAssemblyCompiler\._bootstrap_runtime)", PLAN("_plan_.*|_split_maybe_dependency|_missing_optional_literal_expression|_build_all_slots_by_key|_is_dataclass_default_factory_parameter|_find_registered_dependency_spec|_find_reachable_spec|_format_.*|_dependency_expression|_dependency_slots_for_graph"),
            OG("resolve|aresolve|_is_registered_dependency|_resolve_maybe_.*|_resolve_binding_value_(sync|async)|_resolve_call_arguments_(sync|async)"), r"open_generics:(_build_binding_plan|_append_call_argument)", CONT("_unwrap_provider_dependency_key|_extract_provider_inner_dependency_fast|_autoregister_.*|_ensure_autoregistration|resolve|aresolve"), r"providers:ProvidersRegistrations\.(values|add)"],
    "C22": [PLAN("build|_build_requires_async_by_slot|_resolve_requires_async|_build_max_required_scope_level_by_slot|_resolve_max_required_scope_level|_dependency_slots_for_graph|_find_registered_dependency_spec|_find_reachable_spec|_dependency_spec_or_error|_plan_dependency|_split_maybe_dependency"), CONT("_autoregister_.*|_ensure_autoregistration|_infer_dependency_scope_level|_infer_injected_scope_level|compile|_compile_locked|_rebuild_decoration_chain|_build_decorator_dependencies"),
            r"compiler:ResolversAssemblyCompiler\.(build_root_resolver|_bootstrap_runtime)", OG("_resolve_open_match_(sync|async)")],
    "C23": [ARGS, LOCALVAL, PLAN("_plan_.*|_format_.*|_dependency_expression|_dependency_order_is_signature_order|_positional_parameter_names|_follows_unbound_positional|_signature_parameters|_provider_callable_for_signature|_build_workflow_plan|_missing_optional_literal_expression|_is_dataclass_default_factory_parameter"), r"providers:ProviderDependenciesExtractor\.", OG("_resolve_call_arguments_(sync|async)|_keeps_parameter_default|_resolve_binding_value_(sync|async)|_build_open_value_(sync|async)"), r"open_generics:(_append_call_argument|_positional_parameter_names|cast_iterable|cast_mapping|_build_binding_plan)",
            CONT("_resolve_(factory|generator|context_manager|concrete)_registration_dependencies|_resolve_registration_dependencies|_resolve_closed_.*|_closed_generic_typevar_map|_build_closed_concrete_factory|_build_decorator_dependencies|_extract_decoration_dependencies"),
            r"compiler:ResolversAssemblyCompiler\._compile_specialized_sync_slot_method"],
    "C24": [COMPILE, r"compiler:(_scope_mismatch_lines_for_source|_delegate_scope_lines_for_source)", r"compiler:ResolversAssemblyCompiler\.(_compile_.*|_build_generated_globals|_optimized_sync_.*|_build_classes)", PLAN("_format_.*|_dependency_expression|_missing_optional_literal_expression|_resolve_provider_attribute|_build_workflow_plan|_plan_.*|_build_scope_plans")],
    "C25": [COMPILE, BOOT, r"compiler:ResolversAssemblyCompiler\.(_compile_.*|_optimized_sync_.*)", r"compiler:(_resolver_init|_resolver_.*|_scope_mismatch_lines_for_source|_delegate_scope_lines_for_source|_dependency_plans_for_workflow|_dispatch_.*|_unique_ordered|_next_scope_options)", r"resolvers\.manager:", PLAN("build|_build_scope_plans|_build_workflow_plan|_collect_specs|_format_.*|_dependency_expression|_missing_optional_literal_expression|_resolve_provider_attribute|_resolve_dispatch_kind"), r"compiler:ResolversAssemblyCompiler\._log_plan_strategy"],
    "C26": [r"open_generics:(?!_OpenGenericResolver)", OG("_resolve_binding_value_(sync|async)|_resolve_open_match_(sync|async)|_is_registered_dependency|resolve|aresolve"), CONT("_is_open_generic_provides|_resolve_closed_.*|_closed_generic_typevar_map|_build_closed_concrete_factory|_resolve_concrete_registration_types|_register_non_concrete_provider|add|add_factory|add_generator|add_context_manager")],
    "C27": [OG_RES, r"open_generics:(_resolve_scope_transition_path|_execute_.*|_OpenGenericSpec\..*|_as_.*|_raise_async_cleanup_in_sync_context|_OpenGenericRegistry\..*)", CONT("_compile_locked|compile|_register_open_generic_decorator_layer")],
    "C28": [OG("__init__|enter_scope|__enter__|__exit__|__aenter__|__aexit__|close|aclose|resolve|aresolve|_is_registered_dependency"), r"resolver_context:_ResolverBoundResolver\.", r"resolver_context:ResolverContext\.(_wrap_resolver|enter_scope)", CONT("enter_scope|__enter__|__exit__|__aenter__|__aexit__|close|aclose|compile|_compile_locked|_bind_container_entrypoints|_restore_container_entrypoints"), EXITS, r"open_generics:_execute_.*"],
    "C29": [r"diwire\.exceptions:", r"providers:ProviderReturnTypeExtractor\.", r"providers:ProviderDependenciesExtractor\.", r"validators:", r"container:Container\.(_validate_.*|_resolve_.*|_register_.*|decorate|add.*|_inject_callable|_pop_inject_context|resolve|aresolve|compile|_compile_locked|close|aclose|_find_scope_by_level|_normalize_registration_component|_extract_decoration_dependencies|_infer_.*|_is_already_deep_enough_scope_error|_enter_scope_if_needed|_autoregister_.*|_ensure_autoregistration)", r"resolver_context:ResolverContext\.(resolve|aresolve|enter_scope|inject|_require.*|_validate.*|_resolve_.*)",
            r"planner:(validate_resolver_assembly_managed_scopes|_validate_.*)", PLAN("_dependency_spec_or_error|_plan_dependency|_resolve_requires_async|_resolve_max_required_scope_level"), r"compiler:(_raise_scope_mismatch|_awaitable_in_sync|_resolver_.*|_next_scope_options|_resolve_dispatch_fallback_(sync|async)|_provider_scope_resolver_for_workflow)", r"open_generics:(_raise_.*|_OpenGenericResolver\.(_raise_scope_mismatch|resolve|aresolve|_resolve_open_match_.*)|validate_typevar_arguments|_resolve_scope_transition_path)", r"injection:", r"scope:"],
    "C30": [r"integrations\.pytest_plugin:", r"diwire\.integrations\.pytest_plugin:"],
}


# Neighbouring code whose change can break the property although it is not its main mechanism.
NEIGHBOURS: dict[str, list[str]] = {
    "C01": [ARGS, OG("__init__"), CONT("_build_closed_concrete_factory"), PLAN("_resolve_dispatch_kind")],
    "C02": [COMPILER_SCOPES, r"providers:ProviderReturnTypeExtractor\.(is_.*|_context_manager_mode)", r"providers:ProviderSpec\.", CONT("_register_open_generic_decorator_layer|_build_closed_concrete_factory|_bind_container_entrypoints")],
    "C03": [ARGS, CONT("enter_scope|_resolve_registration_scope"), OG("resolve|aresolve|close|aclose|__exit__|__aexit__"), r"resolver_context:(_ResolverBoundResolver\.enter_scope|ResolverContext\._wrap_resolver)"],
    "C04": [ARGS, DISPATCH, BOOT, CONT("_resolve_registration_scope|_copy_provider_spec_with_new_key"), PLAN("_split_maybe_dependency|build"), OG("enter_scope|scope_level|parent_wrapper")],
    "C05": [OG("__enter__|__aenter__|scope_level|parent_wrapper"), CONT("__enter__|__aenter__|_enter_scope_if_needed|_find_scope_by_level"), r"resolver_context:(_ResolverBoundResolver|ResolverContext)\.enter_scope"],
    "C06": [r"providers:ProviderReturnTypeExtractor\.(is_.*|_context_manager_mode)", OG("_resolve_execution_owner|_scope_owner_for_level|_resolve_open_match_(sync|async)|_resolve_cache_owner"), REG_API],
    "C07": [SLOT, OG("_resolve_execution_owner|_scope_owner_for_level|parent_wrapper|_build_.*"), r"resolver_context:_ResolverBoundResolver\.(__a?exit__|a?close)", CONT("__exit__|__aexit__|close|aclose")],
    "C08": [OG("_resolver_cleanup_callbacks"), r"resolver_context:_ResolverBoundResolver\.(__a?exit__|a?close)", CONT("__exit__|__aexit__|close|aclose"), PLAN("_resolve_provider_attribute"), r"providers:ProviderReturnTypeExtractor\.(is_.*|_context_manager_mode)", COMPILER_SCOPES],
    "C09": [ARGS, OG_RES, PLAN("build|_find_registered_dependency_spec|_find_reachable_spec|_dependency_spec_or_error"), r"markers:(is_.*|strip_.*|_extract_.*)", CONT("_unwrap_provider_dependency_key"), r"compiler:ResolversAssemblyCompiler\.(_bootstrap_runtime|_optimized_.*)", EXITS],
    "C10": [COMPILER_SCOPES, r"resolver_context:ResolverContext\.(_wrap_injected_callable|_build_injection_invoker|enter_scope|inject)", PLAN("_build_workflow_plan"), r"open_generics:_OpenGenericSpec\.requires_async"],
    "C11": [r"providers:ProvidersRegistrations\.", r"open_generics:_OpenGenericRegistry\.", CONT("compile|_compile_locked|_bind_container_entrypoints|_inject_callable|_has_registered_binding|_register_open_generic_decorator_layer")],
    "C12": [r"providers:ProvidersRegistrations\.", r"open_generics:_OpenGenericRegistry\.", DISPATCH, BOOT, PLAN("_build_all_slots_by_key"), r"resolver_context:ResolverContext\.(_get_.*|resolve|aresolve|_set_fallback_container|set_fallback_container|_build_injection_invoker|_wrap_injected_callable)",
            CONT("_build_injected_target_scope_getter|_infer_.*|_inject_callable|_enter_scope_if_needed|_extract_provider_inner_dependency_fast|_has_registered_binding|_is_registered_in_resolver|_resolve_inject.*|_ensure_chain_keys|_move_current_binding_to_base_key")],
    "C13": [r"providers:ProviderReturnTypeExtractor\.", CONT("_move_current_binding_to_base_key|_copy_provider_spec_with_new_key|_normalize_decoration_provides_key|_finalize_registration_after_binding|_autoregister_dependency|_ensure_autoregistration|_apply_pending_decorations|_rebuild_decoration_chain"), PLAN("_plan_all_dependency|_find_registered_dependency_spec|_find_reachable_spec|_plan_dependency"), OG("_is_registered_dependency|resolve|aresolve"), r"compiler:_resolver_is_registered_dependency"],
    "C14": [r"providers:ProvidersRegistrations\.", r"providers:ProviderSpec\.", r"open_generics:_OpenGenericRegistry\.", CONT("_registration_mutation|_resolve_registration_(lifetime|scope|component_provides|provides)|_resolve_provider_lock_mode|_normalize_registration_component|_invalidate_compilation|_resolve_.*_registration_dependencies|_build_closed_concrete_factory"),
            r"providers:ProviderDependenciesExtractor\.", r"markers:(component_base_key|strip_non_component_annotation|build_annotated_key)"],
    "C15": [CONT("_has_registered_binding|_extract_provider_inner_dependency_fast|_unwrap_provider_dependency_key|_is_registered_in_resolver|_resolve_(sync|async)_injected_arguments|_resolve_inject_resolver|_register_.*|add_instance|_registration_mutation|_normalize_dependency_identity_key|_invalidate_compilation"), DISPATCH, PLAN("_split_maybe_dependency|_find_registered_dependency_spec|_find_reachable_spec"), OG("resolve|aresolve"), r"resolver_context:ResolverContext\._get_.*",
            r"autoregistration:"],
    "C16": [CONT("_registration_mutation|_invalidate_compilation|_resolve_dependency_registration_policy|resolve|aresolve|_resolve_registration_dependency_registration_policy|_resolve_concrete_registration_.*|_resolve_registration_(scope|lifetime)"), r"providers:ProviderDependenciesExtractor\.extract_from_concrete_type", r"providers:ProvidersRegistrations\.(find_by_type|add)", r"open_generics:(contains_typevar|canonicalize_open_key)"],
    "C17": [r"resolver_context:ResolverContext\.", CONT("_inject_callable|_enter_scope_if_needed"), r"integrations\.pytest_plugin:_diwire_state"],
    "C18": [CONT("_pop_inject_context|_resolve_injected_dependency|_enter_scope_if_needed|_build_injected_target_scope_getter|close|aclose|__exit__|__aexit__|_resolve_(sync|async)_injected_arguments|_is_registered_in_resolver"), r"resolver_context:_ResolverBoundResolver\."],
    "C19": [r"resolver_context:ResolverContext\.", r"markers:(is_.*|strip_.*|Injected.*|_build_annotated|build_annotated_key)", CONT("enter_scope|_infer_.*|_extract_provider_inner_dependency_fast|_unwrap_provider_dependency_key"), OG("enter_scope|__a?enter__|__a?exit__"), r"resolver_context:_ResolverBoundResolver\.(enter_scope|__a?enter__|__a?exit__)"],
    "C20": [ARGS, OG_RES, EXITS, r"compiler:(_build_transition_plan_to_target|_next_scope_options)", r"compiler:ResolversAssemblyCompiler\._class_slots", r"markers:", PLAN("_build_workflow_plan|_build_requires_async_by_slot|_dependency_slots_for_graph|_is_cached")],
    "C21": [SLOT, OG_RES, r"providers:ProvidersRegistrations\.", r"injection:", CONT("_resolve_injected_dependency|_infer_.*|_has_registered_binding|_normalize_dependency_identity_key|_register_non_concrete_provider|add|add_instance"), PLAN("build|_build_requires_async_by_slot|_build_max_required_scope_level_by_slot|_resolve_requires_async|_resolve_max_required_scope_level"), BOOT],
    "C22": [PLAN("_plan_.*|_collect_specs|_build_workflow_plan"), r"markers:(is_.*|strip_.*|_extract_.*)", CONT("_unwrap_provider_dependency_key|_extract_provider_inner_dependency_fast|resolve|aresolve"), OG("get_thread_lock|get_async_lock|_uses_.*|_effective_lock_mode")],
    "C23": [SLOT, REG_API, PLAN("_build_all_slots_by_key|_find_registered_dependency_spec|_find_reachable_spec|_split_maybe_dependency"), CONT("_copy_provider_spec_with_new_key|_build_decoration_chain|_register_open_generic_decorator_layer"), r"open_generics:(substitute_typevars|_match_.*|_as_.*)", OG("build_open_value_(sync|async)|_build_(generator|context_manager)_(sync|async)"), r"providers:ProviderSpec\."],
    "C24": [r"compiler:ResolversAssemblyCompiler\.", r"planner:"],
    "C25": [r"compiler:", r"planner:"],
    "C26": [OG("_resolve_maybe_.*|_resolve_call_arguments_.*|_build_open_value_.*|get_cached|set_cached"), CONT("_autoregister_dependency|_ensure_autoregistration|_register_open_generic_decorator_layer|_has_registered_binding|_rebuild_decoration_chain|_resolve_registration_(provides|component_provides|target_provides)"), r"autoregistration:"],
    "C27": [r"open_generics:", CONT("_register_non_concrete_provider|add|add_factory|add_generator|add_context_manager|_resolve_provider_lock_mode|_resolve_registration_(lifetime|scope)|_build_closed_concrete_factory|_rebuild_decoration_chain")],
    "C28": [OG("_resolver_cleanup_callbacks|_register_cleanup|parent_wrapper|scope_level|_resolve_maybe_.*|_resolve_binding_value_.*"), r"resolver_context:ResolverContext\.(_push|_pop|_get_.*|resolve|aresolve)", COMPILER_SCOPES, r"compiler:_resolver_is_registered_dependency"],
    "C29": [LOCALVAL, SLOT, OG_RES, EXITS, r"autoregistration:", r"integrations\.pydantic_settings:", r"resolver_context:_ResolverBoundResolver\.", CONT("_registration_mutation|__a?enter__|__a?exit__|enter_scope|_move_current_binding_to_base_key|_rebuild_decoration_chain|_build_decorator_dependencies|_apply_pending_decorations|_ensure_chain_keys|_is_registered_in_resolver|_build_injected_target_scope_getter|_compile_locked"),
            r"open_generics:(_is_type_argument_valid|_matches_type_constraint|_execute_.*|canonicalize_open_key|_as_.*)", r"markers:component_base_key", r"planner:"],
    "C30": [],
}
# Code a property also rests on through a second path (another caller, another mode, a helper).
WIDER: dict[str, list[str]] = {
    "C01": [PLAN("_find_registered_dependency_spec|_find_reachable_spec|_plan_provider_dependency|_plan_all_dependency|_build_all_slots_by_key|_dependency_expression|_format_.*"), CONT("resolve|aresolve|compile|_compile_locked|_bind_container_entrypoints"), EXITS],
    "C02": [DISPATCH, LOCALVAL, ARGS, PLAN("_is_cached|_cache_owner_scope_level|_dependency_slots_for_graph|_plan_.*|_resolve_provider_attribute"), CONT("_resolve_registration_lifetime")],
    "C03": [LOCALVAL, DISPATCH, PLAN("_is_cached"), r"resolver_context:_ResolverBoundResolver\."],
    "C04": [COMPILER_SCOPES, LOCALVAL, PLAN("_build_scope_plans|_is_cached|_cache_owner_scope_level|_plan_.*|_format_.*|_dependency_expression"), OG("_resolve_maybe_(sync|async)|_resolve_binding_value_(sync|async)")],
    "C05": [BOOT, PLAN("build")],
    "C06": [BOOT, ARGS, EXITS],
    "C07": [BOOT, PLAN("_build_workflow_plan|_resolve_provider_attribute")],
    "C08": [BOOT, PLAN("build|_build_workflow_plan"), r"providers:ProvidersRegistrations\._refresh_needs_cleanup_flags", OG("_build_open_value_(sync|async)|__init__|enter_scope"), r"open_generics:_as_(generator|context_manager)_provider"],
    "C09": [BOOT, PLAN("_is_cached|_format_.*|_dependency_expression"), r"compiler:ResolversAssemblyCompiler\._compile_simple_method"],
    "C10": [BOOT, PLAN("_format_.*|_dependency_expression|_plan_.*|_resolve_provider_attribute|_build_requires_async_by_slot|_resolve_requires_async"), r"resolver_context:_ResolverBoundResolver\.enter_scope", CONT("_resolve_inject_resolver|_enter_scope_if_needed")],
    "C13": [CONT("decorate|_register_decoration_rule|_build_decoration_chain|_create_decoration_alias_key|_ensure_chain_keys|_register_open_generic_decorator_layer"), PLAN("_dependency_slots_for_graph")],
    "C14": [CONT("_autoregister_dependency|_resolve_closed_.*"), r"providers:ProviderReturnTypeExtractor\.(is_.*|_context_manager_mode)", r"markers:"],
    "C15": [r"resolver_context:ResolverContext\."],
    "C16": [CONT("_resolve_injected_dependency|_infer_.*"), r"markers:"],
    "C17": [OG("enter_scope|__a?enter__|__a?exit__|close|aclose"), CONT("compile|_compile_locked|_bind_container_entrypoints|_restore_container_entrypoints|resolve|aresolve")],
    "C18": [r"compiler:(_insert_internal_resolver_argument|_call_provider|_build_local_value_.*|ResolversAssemblyCompiler\._optimized_sync_.*)", CONT("_bind_container_entrypoints|_restore_container_entrypoints|compile|_compile_locked|_validate_inject_context_usage"), PLAN("_build_workflow_plan"), r"injection:"],
    "C19": [r"compiler:(_insert_internal_resolver_argument|_call_provider|_build_local_value_.*|ResolversAssemblyCompiler\._optimized_sync_.*)", COMPILER_SCOPES, EXITS, PLAN("_build_workflow_plan"), CONT("_ensure_autoregistration|_autoregister_.*|_get_context_bound_resolver_or_none")],
    "C20": [SLOT, LOCALVAL, DISPATCH, BOOT, PLAN("build|_build_scope_plans|_format_.*|_dependency_expression|_find_registered_dependency_spec"), CONT("resolve|aresolve|_resolve_injected_dependency|_infer_.*|_is_registered_in_resolver|_ensure_autoregistration|_unwrap_provider_dependency_key"),
            r"resolver_context:(_ResolverBoundResolver\.|ResolverContext\.(_wrap_resolver|inject|_wrap_injected_callable|_build_injection_invoker))", r"injection:"],
    "C21": [CONT("_resolve_(sync|async)_injected_arguments|_is_registered_in_resolver|_inject_callable|_move_current_binding_to_base_key|_rebuild_decoration_chain|_copy_provider_spec_with_new_key"), PLAN("_collect_specs|_build_workflow_plan|_dependency_spec_or_error|_resolve_dispatch_kind"), DISPATCH, r"autoregistration:", r"open_generics:_OpenGenericRegistry\."],
    "C22": [OG("resolve|aresolve|_resolve_binding_value_(sync|async)|_resolve_call_arguments_(sync|async)"), CONT("_bind_container_entrypoints|_build_decoration_chain")],
    "C23": [OG("_resolve_maybe_.*"), r"compiler:ResolversAssemblyCompiler\._build_generated_globals"],
    "C25": [r"scope:", r"providers:ProvidersRegistrations\._refresh_needs_cleanup_flags"],
    "C26": [OG("_keeps_parameter_default|_is_registered_in_base_resolver|build_open_value_.*"), CONT("_compile_locked|_normalize_dependency_identity_key"), r"providers:ProviderDependenciesExtractor\."],
    "C27": [CONT("_copy_provider_spec_with_new_key|_is_open_generic_provides|_finalize_registration_after_binding|decorate"), r"providers:ProviderReturnTypeExtractor\.(is_.*|_context_manager_mode)"],
    "C28": [OG_RES, r"open_generics:_resolve_scope_transition_path", r"resolver_context:ResolverContext\.", CONT("_get_context_bound_resolver_or_none")],
    "C29": [ARGS, CONT("_unwrap_provider_dependency_key|_build_closed_concrete_factory|_resolve_(sync|async)_injected_arguments"), DISPATCH],
    "C30": [r"injection:", CONT("_inject_callable|_resolve_(sync|async)_injected_arguments|_enter_scope_if_needed|_pop_inject_context|_resolve_inject_resolver"), r"resolver_context:ResolverContext\.(inject|_wrap_injected_callable|_build_injection_invoker|_get_cached_injected_callable|_resolve_injection_state|_push|_pop)"],
}
for _prop, _patterns in (*NEIGHBOURS.items(), *WIDER.items()):
    COVERAGE[_prop] = COVERAGE[_prop] + [x for x in _patterns if x not in COVERAGE[_prop]]


def properties_of(key: str) -> list[str]:
    return [p for p, pats in COVERAGE.items() if any(re.match(x, key) for x in pats)]


def functions_for(prop: str, keys) -> list[str]:
    pats = [re.compile(x) for x in COVERAGE[prop]]
    return [k for k in keys if any(p.match(k) for p in pats)]


def unmatched_patterns(keys) -> list[tuple[str, str]]:
    return [(p, x) for p, pats in COVERAGE.items() for x in pats if not any(re.match(x, k) for k in keys)]


# Definitions that are not functions: pattern -> properties; the first match decides.
DEFINITIONS: list[tuple[str, list[str]]] = [
    (r"lock_mode:", ["C02"]),
    (r"policies:MissingPolicy|policies:", ["C15"]),
    (r"scope:", ["C05"]),
    (r"diwire\.exceptions:", ["C29"]),
    (r"diwire\.integrations", ["C30"]),
    (r"diwire:", ["C29", "C18"]),
    (r"markers:", ["C21", "C13"]),
    (r"injection:", ["C19"]),
    (r"autoregistration:", ["C16"]),
    (r"integrations\.pydantic", ["C16"]),
    (r"integrations\.pytest", ["C30"]),
    (r"type_checks:|validators:", ["C16"]),
    (r"resolver_context:", ["C17", "C18", "C28"]),
    (r"open_generics:", ["C26", "C27"]),
    (r"providers:Lifetime", ["C01"]),
    (r"providers:ProviderSpec", ["C01", "C13"]),
    (r"providers:", ["C23", "C13"]),
    (r"container:", ["C11", "C12", "C18"]),
    (r"planner:", ["C23", "C25", "C09"]),
    (r"compiler:", ["C25", "C01", "C02"]),
    (r"resolvers\.", ["C25"]),
    (r"", ["C29"]),
]


def properties_of_definition(key: str) -> list[str]:
    out = []
    for pat, props in DEFINITIONS:
        if re.match(pat, key):
            out = list(props)
            break
    for p in properties_of(key):
        if p not in out:
            out.append(p)
    return out
