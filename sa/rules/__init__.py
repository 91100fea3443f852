"""Rules per property, applied in addition to the comparison with reviewed behaviour."""
from . import generated, known, paths, twins, whole

RULES = {
    "C01": [paths.cached_value_returned, paths.only_cached_values_stored],
    "C02": [known.dispatch_cache_pair, paths.locked_construction],
    "C03": [known.pooled_scope_activation, generated.pooled_scope_reset],
    "C04": [paths.scope_checked_before_provider],
    "C06": [paths.entered_then_registered],
    "C07": [known.root_resolver_discarded, paths.every_cleanup_runs],
    "C08": [paths.every_cleanup_runs],
    "C09": [paths.async_slot_refused_first],
    "C10": [twins.twins_agree],
    "C11": [whole.graph_mutations_transactional, whole.rollback_restores_everything],
    "C12": [whole.graph_mutations_transactional, whole.registration_invalidates],
    "C15": [known.bound_entrypoint_signature, paths.strict_policy_registers_nothing],
    "C17": [paths.binding_always_undone],
    "C18": [paths.lookup_order],
    "C19": [known.deferred_bodies],
    "C20": [known.optional_context_parameter, paths.nearest_context_value],
    "C21": [known.maybe_masks_nested_missing, known.planned_open_generic],
    "C22": [known.open_generic_cycle, whole.walks_terminate],
    "C24": [generated.code_only_from_safe_parts],
    "C25": [generated.generated_code_closed],
    "C26": [known.planned_open_generic],
    "C27": [known.open_generic_async_thread_lock, known.open_generic_execution_scope, paths.locked_construction],
    "C28": [whole.wrapper_exit_complete, whole.container_close_without_open],
    "C29": [whole.library_errors_only],
    "C30": [whole.test_item_restored],
}
