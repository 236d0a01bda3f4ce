"""property id -> how it is decided.  scens: 'scenario' (variant vc) or 'variant:scenario'."""
# a scenario listed k times gets k times the runs (the many_* ones take much longer per run)
CHECKS = {
 'C01': dict(scens=['mutex_excl'] * 5 + ['many_mutex'], quick_s=24),
 'C02': dict(scens=(['mutex_owner', 'cond_not_owner'] * 5 + ['many_depth']) * 16 + ['long_depth'], quick_s=24),
 'C03': dict(scens=['mutex_robust', 'mutex_robust_multi', 'cond_robust', 'ce:cond_robust'] * 5 + ['many_robust'] + ['dll:mutex_robust'] * 3, quick_s=34),
 'C04': dict(scens=(['cond_tokens', 'cond_who', 'ce:cond_tokens'] * 5 + ['cond_timed_cancel'] * 2 + ['many_cond']) * 16 + ['long_cond'], quick_s=30),
 'C05': dict(scens=['cond_timed_cancel', 'cond_cancel_signal', 'ce:cond_timed_cancel', 'ce:cond_cancel_signal'], quick_s=26),
 'C06': dict(scens=['cond_destroy', 'last_user', 'sem_handshake', 'ce:cond_destroy', 'last_user'], quick_s=28),
 'C07': dict(scens=(['rwlock_excl', 'rwlock_share', 'small:rwlock_excl', 'small:rwlock_share'] * 5 + ['many_readers']) * 16 + ['long_readers'], quick_s=24),
 'C08': dict(scens=['rwlock_abandon', 'rwlock_abandon_held', 'small:rwlock_abandon', 'small:rwlock_abandon_held', 'ce:rwlock_abandon', 'ce:rwlock_abandon_held', 'rwlock_excl', 'small:rwlock_excl'] * 60 + ['long_abandon'], quick_s=28),
 'C09': dict(scens=(['sem_conserve', 'sem_cancel', 'sem_limits', 'sem_destroy_busy', 'sem_handshake', 'small:sem_limits', 'ce:sem_cancel'] * 5 + ['many_sem']) * 16 + ['long_sem'], quick_s=32),
 'C10': dict(scens=(['barrier_rounds', 'barrier_serial_destroys', 'barrier_busy'] * 5 + ['many_barrier']) * 16 + ['long_barrier'], quick_s=24),
 'C11': dict(scens=['spin_excl', 'spin_last_user'] * 5 + ['many_spin'], quick_s=24),
 'C12': dict(scens=['once', 'ce:once'] * 5 + ['ce:cxx_once'] + ['many_once'], quick_s=28),
 'C13': dict(scens=['static_init', 'static_init_faults']),
 'C14': dict(scens=['join_values', 'join_cancel', 'ce:join_values', 'ce:join_cancel', 'ending_ids'] * 5 + ['many_threads'] + ['dll:join_values'] * 3, quick_s=37),
 'C15': dict(scens=(['detach_any_time', 'identity', 'implicit_ids', 'ending_ids', 'dead_ids', 'ce:detach_any_time'] * 5 + ['many_threads']) * 16 + ['long_ids'] + ['dll:detach_any_time', 'dll:identity'] * 40, quick_s=34),
 'C16': dict(scens=['cancel_deferred', 'cancel_vs_exit', 'cancel_native', 'ce:cancel_deferred', 'ce:cancel_vs_exit', 'ce:cancel_native', 'cancel_self'] + ['dll:cancel_deferred', 'dll:cancel_vs_exit'], quick_s=36),
 'C17': dict(scens=['cancel_async', 'cancel_async_exit', 'cancel_async_ring', 'cancel_self'] + ['dll:cancel_async_exit'], quick_s=25),
 'C18': dict(scens=['cleanup_order', 'ce:cleanup_order'] * 5 + ['many_handlers', 'ce:many_handlers'] + ['dll:cleanup_order'] * 3, quick_s=33),
 'C19': dict(scens=['tsd_model', 'tsd_key_recycled', 'tsd_in_destructor', 'tsd_calls', 'tsd_churn', 'ce:tsd_model', 'ce:tsd_in_destructor', 'ce:tsd_calls'] * 5 + ['many_keys'] + ['dll:tsd_model', 'dll:tsd_churn'] * 3, quick_s=38),
 'C20': dict(scens=['timed_exact', 'timed_delay', 'timed_concurrent', 'ce:timed_concurrent'], quick_s=22),
 'C28': dict(scens=['timechange']),
 'C21': dict(scens=['res_objects', 'res_create_conc', 'res_objects', 'res_create_conc', 'static_init_faults', 'implicit_failures', 'attach_faults'] + ['dll:res_create_conc'], quick_s=27),
 'C22': dict(scens=['res_life', 'res_rounds', 'ce:res_life', 'ce:res_rounds', 'res_objects'] + ['dll:res_life', 'dll:res_rounds'], quick_s=44),
 'C23': dict(scens=['names', 'names', 'create_attrs'], quick_s=22),
 'C25': dict(scens=['implicit_threads', 'implicit_cancel', 'implicit_failures', 'implicit_exit', 'implicit_handlers', 'implicit_ids', 'ce:implicit_threads', 'ce:implicit_cancel', 'ce:implicit_exit', 'ce:implicit_handlers'] + ['dll:dll_threads', 'dll:implicit_threads', 'dll:implicit_exit', 'dll:implicit_failures'], quick_s=42),
 'C26': dict(scens=['kill', 'kill_join'] + ['dll:kill'], quick_s=22),
 'C24': dict(scens=['proc_affinity']),
 'C27': dict(scens=['sched_prio', 'sched_affinity', 'sched_create', 'sched_self', 'create_attrs'], quick_s=22),
 'C29': dict(scens=['create_attrs', 'create_attrs', 'sched_create'], quick_s=22),
 'C30': dict(scens=['attr_model', 'attr_shared', 'attr_model', 'attr_shared', 'attr_refuse'], quick_s=22),
 'C31': dict(scens=['attach_faults', 'res_life'] + ['dll:attach_faults', 'dll:res_life', 'dll:dll_threads'], quick_s=26),
 'C32': dict(scens=['destroy_in_use', 'destroy_in_use', 'sem_destroy_busy'], quick_s=22),
 'C34': dict(scens=['nested', 'ce:nested'], quick_s=26),
 'C35': dict(scens=['refuse', 'dead_ids', 'refuse', 'ce:refuse']),
 'C33': dict(scens=['ce:cxx_unwind', 'ce:cxx_terminate', 'ce:cxx_once', 'ce:cleanup_order', 'ce:cancel_deferred']),
}
QUICK_S = 18
THOROUGH_S = 600
