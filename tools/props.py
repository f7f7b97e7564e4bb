"""Which monitored workloads decide which property."""


def run(h, sc, quick, thorough=None, **kw):
    return dict(h=h, sc=sc, quick=quick, thorough=thorough or quick * 20, **kw)


PROPS = {
    "P01": dict(runs=[
        run("processor", "proc_order", 2400), run("processor", "proc_mesh", 1200), run("processor", "proc_timed", 400),
        run("processor", "proc_timers", 4, flavors=["asan"]), run("processor", "proc_throw", 800), run("processor", "proc_same_id", 150),
        run("processor", "proc_nested", 300), run("processor", "proc_forms", 800),
    ], require={"accepted": 1000, "self_submitted": 50, "mesh_items": 500, "timed_runs": 100, "thrown_runs": 500, "same_id_calls": 500, "nested_runs": 5000, "forms": 20000}),
    "P02": dict(runs=[
        run("processor", "stop_race", 3000), run("processor", "stop_never_run", 400), run("processor", "stop_async", 600),
    ], require={"stop_cycles": 100, "released_waits": 100, "submitted_after_stop": 50, "refused_ways": 500, "replaced_async": 10}),
    "P03": dict(runs=[
        run("handlers", "handlers_model", 3000), run("handlers", "handlers_mt", 400), run("handlers", "handlers_edge", 300),
        run("handlers", "handlers_cross", 400),
    ], require={"emissions": 1000, "reconnects": 500, "type_disconnects": 100, "mt_handlers": 200}),
    "P04": dict(runs=[
        run("routing", "routing_unique", 800), run("routing", "routing_bcast", 500), run("routing", "routing_status", 800),
        run("routing", "routing_nested", 600),
    ], require={"ids_won": 500, "ids_lost": 200, "broadcasts": 1000, "directs": 500, "status_updates": 1000, "nested_ops": 1000}),
    "P05": dict(runs=[
        run("timer", "timer_model", 160), run("timer", "timer_remote", 300), run("timer", "timer_signal", 200),
        run("timer", "timer_sync", 400), run("timer", "timer_ontime", 24),
    ], require={"fired": 500, "self_ops": 100, "remote_timers": 300, "sync_restarts": 3, "sync_superseded": 10, "sync_executed_elsewhere": 20, "ordered_firings": 5000, "ontime_rounds": 20}),
    "P06": dict(runs=[
        run("signals", "signals_model", 3000),
    ], require={"emissions": 5000, "executor_calls": 1000, "self_disconnects": 300, "single_refused": 300, "ended_objects": 300,
                "signal_moves": 100, "thrown": 50}),
    "P07": dict(runs=[
        run("signals", "signals_mt", 300), run("signals", "signals_life", 240),
    ], require={"churned": 1000, "waitables": 200, "lifecycles": 500, "waits_served": 50, "waits_released": 50}),
    "P08": dict(runs=[
        run("observables", "obs_single", 1200), run("observables", "obs_multi", 1000), run("observables", "obs_joined", 500),
        run("observables", "obs_mt", 300), run("observables", "obs_join_mt", 150),
    ], require={"changes": 5000, "same_value_sets": 1000, "silent": 500, "joined_changes": 1000, "mt_changes": 10000, "late_observers": 300, "joined_in_flight": 200}),
    "P09": dict(runs=[
        run("pools", "pool_run", 600), run("pools", "pool_shutdown", 600), run("pools", "pool_priority", 400),
        run("pools", "pool_grow", 200),
    ], require={"tasks_run": 2000, "shutdowns": 200, "stop_requests": 50, "ordered_tasks": 1000, "grown": 200}),
    "P10": dict(runs=[
        run("pools", "queue_fifo", 400), run("pools", "queue_prio", 400), run("pools", "queue_close", 600), run("pools", "queue_parked", 200), run("pools", "queue_parked_prio", 100),
        run("pools", "guarded_objects", 200), run("pools", "upcoming_results", 400),
    ], require={"queue_elements": 5000, "ordered_pairs": 20000, "close_cycles": 500, "parked_consumers": 3000, "guarded_updates": 10000, "upcoming": 500}),
    "P11": dict(runs=[
        run("serialization", "srz_roundtrip", 900, flavors=["asan"]), run("serialization", "srz_sequence", 900, flavors=["asan"]),
        run("serialization", "srz_messages", 900, flavors=["asan"]),
    ], require={"roundtrips": 20000, "sequences": 200, "messages": 1000}),
    "P12": dict(runs=[
        run("serialization", "srz_truncated", 900, flavors=["asan"]), run("serialization", "srz_hostile", 900, flavors=["asan"]),
        run("serialization", "srz_hostile_messages", 900, flavors=["asan"]),
    ], require={"truncations": 50000, "hostile_accepted": 500, "hostile_refused": 500, "truncated_messages": 500, "hostile_msg_accepted": 200}),
    "P13": dict(runs=[
        run("ipc", "ipc_deliver", 240), run("ipc", "ipc_lifecycle", 160), run("ipc", "ipc_bad_address", 400),
    ], require={"delivered": 1000, "receiver_lives": 50, "sure_sends": 500, "address_refused": 20, "short_io": 10}),
    "P14": dict(runs=[
        run("ipc", "ipc_hostile", 240),
    ], require={"hostile_peers": 800, "complete_frames": 200, "good_buffers": 200, "idle_cpu_checks": 5}),
    "P15": dict(runs=[
        run("cs", "cs_requests", 500), run("csipc", "ipc_requests", 400), run("mp", "mp_clients", 24),
        run("cs", "cs_reqmodel", 200), run("csipc", "ipc_reqmodel", 150),
    ], require={"reqmodel_checks": 50000, "reqmodel_requests": 3000, "reqmodel_ends": 1500, "reqmodel_unhandled": 200, "mp_held": 500, "mp_killed_clients": 2, "mp_outages": 2, "requests": 3000, "async_requests": 1000, "updates": 1000, "held_answers": 300, "double_answers": 100, "raced_answers": 100}),
    "P16": dict(runs=[
        run("cs", "cs_endings", 300), run("cs", "cs_outage", 240), run("csipc", "ipc_endings", 200), run("csipc", "ipc_outage", 160),
        run("cs", "cs_dropped", 100), run("csipc", "ipc_dropped", 60),
        run("cs", "cs_reqmodel", 200), run("csipc", "ipc_reqmodel", 150),
        run("mp", "mp_clients", 24), run("mp", "mp_crash", 24), run("mp", "mp_quick", 3),
    ], require={"reqmodel_aborts": 300, "reqmodel_late_aborts": 500, "reqmodel_outlived": 300, "reqmodel_hooks": 500, "dropped_requests": 500, "mp_voided": 30, "mp_aborts": 300, "mp_kept": 300, "mp_server_deaths": 10, "mp_server_ends": 5, "mp_broken": 100,
                "aborts": 300, "abort_races": 200, "races_aborted": 50, "races_answered": 30, "timeouts": 100, "timeout_races_answered": 30,
                "aborts_after_answer": 200, "broken_requests": 500, "outages": 300, "late_answers": 100}),
    "P17": dict(runs=[
        run("cs", "cs_properties", 400), run("csipc", "ipc_properties", 300), run("mp", "mp_clients", 24),
        run("cs", "cs_model", 300), run("csipc", "ipc_model", 200),
    ], require={"model_checks": 50000, "model_gets": 1000, "model_removals": 1000, "model_clones": 800, "model_restarts": 300, "mp_statuses": 3000, "mp_outages": 2, "values": 5000, "segments": 10000, "leavers": 100, "outages": 100, "polled": 2000, "removals": 50, "unchanged_sets": 200, "nested": 50}),
    "P18": dict(runs=[
        run("cs", "cs_signals", 400), run("csipc", "ipc_signals", 300), run("mp", "mp_clients", 24),
        run("cs", "cs_model", 200), run("csipc", "ipc_model", 150),
    ], require={"model_checks": 30000, "model_changes": 5000, "mp_signals": 3000, "must_signals": 10000, "signals": 20000, "empty_signals": 2000, "churned": 5000}),
    "P19": dict(runs=[
        run("cs", "cs_statuses", 200), run("csipc", "ipc_statuses", 150), run("csipc", "ipc_connects", 150),
        run("mp", "mp_clients", 24), run("mp", "mp_crash", 24),
    ], require={"mp_killed_clients": 3, "mp_outages": 3, "mp_late_proxies": 10, "mp_server_deaths": 10, "mp_server_ends": 5, "changes_told": 20000, "status_messages": 100, "concurrent_toggles": 20, "nested_calls": 1000, "unobserved": 1000, "restarts": 30, "waits_ready": 300,
                "waits_expired": 10, "connected": 80, "clients_restarted": 15, "servers_restarted": 15, "all_shut_down": 15}),
    "P20": dict(runs=[
        run("keys", "keys", 1500, flavors=["asan"]), run("keys", "ids", 100),
    ], require={"distinct_pairs": 20000, "equal_pairs": 5000, "triples": 100000, "container_ops": 50000, "ids": 500000, "ids_in_use": 10000}),
    "P21": dict(runs=[
        run("keys", "logger", 300, flavors=["asan"]), run("keys", "logger_threads", 200),
    ], require={"passed": 5000, "filtered": 5000, "level_changes": 10000, "must_pass": 20000, "must_filter": 10000}),
    "P22": dict(runs=[
        run("mix", "mix", 600), run("cs", "cs_owned", 100), run("csipc", "ipc_owned", 60),
        run("reentry", "reentry_processors", 300), run("reentry", "reentry_timers", 300), run("reentry", "reentry_signals", 300),
        run("reentry", "reentry_pools", 300), run("reentry", "reentry_queues", 300),
    ], require={"calls_from_destructors": 200000, "timers_fired": 1000, "items_taken": 5000, "tasks_run": 10000, "slots_run": 8000,
                "callbacks_run": 20000, "objects_made": 15000, "op_request": 1000, "op_new_processor": 200, "op_new_stub": 200,
                "op_new_proxy": 200, "op_new_pool": 200, "op_timer": 1000, "op_emit": 1000, "op_set": 1000, "op_abort": 1000}),
    "P24": dict(runs=[
        run("hostile", "ipc_hostile_msgs", 80),
    ], require={"hostile_to_server": 5000, "hostile_to_client": 3000, "hostile_requests": 200, "odd_notifications": 800,
                "good_requests": 2000, "idle_cpu_checks": 3}),
    "P23": dict(runs=[
        run("values", "values_view", 400, flavors=["asan"]), run("values", "values_compare", 1500, flavors=["asan"]),
        run("values", "values_tuples", 400, flavors=["asan"]),
    ], require={"places": 3000, "views": 3000, "equal_pairs": 10000, "different_pairs": 10000, "diffs": 50000, "objects": 10000}),
    "P26": dict(runs=[
        run("executors", "cs_executors", 400), run("executors", "ipc_executors", 200),
    ], require={"executor_checks": 5000, "client_callbacks": 3000, "listeners": 1500, "handlers": 800, "executor_changes": 2000, "derived": 1000, "requests": 2500, "without_executor": 200}),
    "P25": dict(runs=[
        run("text", "text_values", 300, flavors=["asan"]), run("text", "text_objects", 300, flavors=["asan"]),
        run("text", "text_json", 300, flavors=["asan"]), run("text", "text_nulls", 100, flavors=["asan"]),
    ], require={"texts": 50000, "setters": 20000, "objects": 1000, "documents": 1000, "nulls": 300}),
}

NOT_APPLICABLE = {}
