"""The checks: which monitor programs, in which builds, with which workloads decide each property."""
import run
from run import Program, ModProgram, Job, WRAP

LOGDEFS = []
CLOCK = ["-Wl,--wrap=" + x for x in ("clock_gettime", "gettimeofday", "time", "timespec_get", "_ZNSt6chrono3_V212system_clock3nowEv")]


def log_prog(flavor, extra=()):
    return Program("h_log.cpp", flavor, "log", list(extra), WRAP)


def L01():
    return {"jobs": [
        Job(log_prog("asan"), "L01", {"cases": 120}, {"cases": 1200}, 2, 8),
        Job(log_prog("plain"), "L01", {"cases": 500}, {"cases": 6000}, 2, 8)],
        "require": ["deliveries_checked", "cases_beyond_pool", "injected_delays", "huge_backlogs", "crowds_of_listeners", "repeated_messages", "others_that_leave", "listeners_added_meanwhile"],
        "rule": "random services, 1-5 listeners with random filters, 1-6 producers with up to 1500 random messages; non-trivial: "
                "at least one message accepted, distinct by order of delivery and setting"}


def L02():
    return {"jobs": [
        Job(log_prog("asan"), "L02", {"cases": 480}, {"cases": 1500}, 2, 8),
        Job(log_prog("plain"), "L02", {"cases": 1800}, {"cases": 8000}, 2, 8)],
        "require": ["ordered_deliveries", "restarts", "late_listeners", "injected_delays"],
        "rule": "1-6 concurrent producers, late listeners, restarts, listeners that log; non-trivial: more than one source of "
                "submissions, distinct by observed delivery order"}


def L03():
    return {"jobs": [
        Job(log_prog("asan"), "L03", {"cases": 1500}, {"cases": 3000}, 2, 8),
        Job(log_prog("plain"), "L03", {"cases": 1500}, {"cases": 12000}, 2, 8)],
        "require": ["accepted", "rejected", "invalid_expressions", "generated_expressions", "near_categories", "altered_expressions", "repeated_categories"],
        "rule": "sequences of changes to level, category filter and enabled state of 1-4 listeners with messages in between; "
                "distinct by (expression, category, message level, listener level, enabled)"}


def L04():
    return {"jobs": [
        Job(log_prog("asan"), "L04", {"cases": 800}, {"cases": 2500}, 2, 8),
        Job(log_prog("plain"), "L04", {"cases": 2400}, {"cases": 8000}, 2, 8)],
        "require": ["detachments", "releases_checked", "detached_from_within", "inner_listeners", "crowds"],
        "rule": "sequences and interleavings of registration, detachment, submission, restart and destruction, from threads and "
                "from within listeners; distinct by history or observed order"}


def L05():
    return {"jobs": [
        Job(log_prog("asan"), "L05", {"cases": 60}, {"cases": 1500}, 2, 8),
        Job(log_prog("plain"), "L05", {"cases": 200}, {"cases": 6000}, 2, 8),
        Job(log_prog("plain", ["-DVF_COUNT_ALLOC"]), "L05mem", {"cases": 40}, {"cases": 600}, 1, 4),
        Job(log_prog("plain", ["-DVF_COUNT_ALLOC"]), "L05fail", {"cases": 200}, {"cases": 3000}, 1, 4)],
        "require": ["diags_checked", "memory_rounds", "huge_bursts"],
        "rule": "bursts, drains, interruptions and restarts with the diagnostics compared to a model at every quiescent point, "
                "and the bytes obtained from operator new; distinct by counter history"}


def L06():
    return {"jobs": [
        Job(log_prog("asan"), "L06", {"cases": 480}, {"cases": 1500}, 2, 8),
        Job(log_prog("plain"), "L06", {"cases": 2000}, {"cases": 6000}, 2, 8)],
        "require": ["stop_start", "concurrent_start_stop", "restarts_with_backlog", "destroyed_with_backlog", "stops_with_backlog", "huge_backlogs", "long_control_histories", "stops_while_busy"],
        "rule": "start/stop/log/destroy from one or several threads; distinct by control history and delivery order"}


def logger_prog(flavor, extra=()):
    return Program("h_logger.cpp", flavor, "log", list(extra), WRAP)


def L07():
    def pr(f):
        return Program("h_race.cpp", f, "log", [], WRAP)
    return {"jobs": [
        Job(pr("tsan"), "L07", {"cases": 375}, {"cases": 1500}, 4, 8),
        Job(pr("asan"), "L07", {"cases": 450}, {"cases": 2500}, 2, 8)],
        "require": ["deliveries"] + ["op_" + o for o in ("log", "rawlog", "add", "lcategory", "lcategoryget", "detach", "own", "share",
                    "writeon", "diags", "start", "stop", "LOG", "LOGBLOCK", "filter", "drop")],
        "rule": "2-6 threads each running a random sequence of every public operation on three services and their shared listeners, "
                "under ThreadSanitizer and ASan+UBSan; distinct by operation sequences and deliveries"}


def L08():
    def pr(f):
        return Program("h_stream.cpp", f, "log", [], WRAP + CLOCK)
    return {"jobs": [
        Job(pr("asan"), "L08", {"cases": 120}, {"cases": 3000}, 2, 8),
        Job(pr("tsan"), "L08", {"cases": 80}, {"cases": 2000}, 1, 8),
        Job(pr("plain"), "L08", {"cases": 300}, {"cases": 10000}, 2, 8)],
        "require": ["records_checked", "replacements", "by_own", "by_share", "by_writeOn", "no_stream", "discarded_records", "stream_set_again", "streams_with_formatting", "other_times"],
        "rule": "random records written directly and through services while one or several threads replace the stream in every way; "
                "distinct by record, or by how the records were spread over the streams (at least two)"}


def L09():
    return {"jobs": [
        Job(logger_prog("asan"), "L09", {"cases": 600}, {"cases": 4000}, 2, 8),
        Job(logger_prog("tsan"), "L09", {"cases": 1500}, {"cases": 2500}, 2, 8),
        Job(logger_prog("plain"), "L09", {"cases": 1500}, {"cases": 12000}, 2, 8)],
        "require": ["messages_compared", "nested_statements", "blocks_abandoned", "manipulators", "similar_places", "exception_masks"],
        "rule": "random trees of log statements and blocks (operands, manipulators, stream failures, locales, nested statements, "
                "temporary categories, early exits, exceptions) on 1-6 threads; distinct by shape of the trees"}


def L10():
    jobs = []
    for lim in range(-1, 6):
        d = ["-DFALCON_MIN_LOG_LEVEL=%s" % ("::falcon::LLDISABLE" if lim < 0 else lim)]
        jobs.append(Job(logger_prog("asan", d), "L10", {"cases": 6}, {"cases": 60}, 1, 2))
    # programs of several sources, each with a limit of its own, linked in several orders
    parts = ["h_logger_disable.cpp", "h_logger_err.cpp", "h_logger_trace.cpp"]
    for n, (flavor, lim) in enumerate((("debug", "::falcon::LLDISABLE"), ("debug", "1"), ("debug", "3"), ("debug", "5"), ("plain", "5"), ("asan", "1"))):
        d = ["-DVF_PARTS", "-DFALCON_MIN_LOG_LEVEL=" + lim]
        jobs.append(Job(Program("h_logger.cpp", flavor, "log", d, WRAP, parts[n % 3:] + parts[:n % 3]), "L10", {"cases": 6}, {"cases": 60}, 1, 2))
    return {"jobs": jobs, "par": 8, "require": ["enabled_statements", "disabled_statements", "categories_set", "sources_of_other_limits"],
            "rule": "one binary per compile-time limit, and programs of several sources of different limits; every macro, literal and computed levels, blocks, branches and nesting under "
                    "every run-time level; distinct by (form, level, run-time level, compile-time limit)"}


def M01():
    jobs = []
    for flavor, rdyn, lib, q, t in (("gasan", False, True, 300, 2000), ("gasan", False, False, 200, 2000), ("plain", False, True, 600, 6000),
                                    ("plain", False, False, 600, 6000), ("plain", True, True, 300, 6000), ("debug", False, False, 300, 2000),
                                    ("tsan", False, True, 200, 1500), ("asan", False, True, 200, 2000), ("asan", False, False, 200, 2000),
                                    ("native", True, False, 600, 6000)):
        jobs.append(Job(ModProgram(flavor, rdyn, lib), "M01", {"cases": q}, {"cases": t}, 1, 4))
    return {"jobs": jobs, "par": 8,
            "require": ["messages_compared", "objects_compared", "locks_across_parts", "errors_across_parts", "modules_loaded", "modules_unloaded", "calls_into_other_parts"],
            "rule": "programs of an executable, a linked library and up to two modules loaded and unloaded, 1-5 threads that run code of all of them; "
                    "distinct by parts and statements of the threads"}


def L11():
    return {"jobs": [
        Job(logger_prog("asan"), "L11", {"cases": 500}, {"cases": 4000}, 2, 8),
        Job(logger_prog("plain"), "L11", {"cases": 1500}, {"cases": 12000}, 2, 8)],
        "require": ["filters_installed", "filters_cleared", "clears_without_filter", "invalid_expressions", "matched", "as_before"],
        "rule": "histories of installing, replacing and clearing filters with messages of every level and category in between; "
                "distinct by (expression, category, level, requested level, base levels, installed)"}


def stack_prog(flavor):
    return Program("h_stack.cpp", flavor, "none", [], WRAP)


def seq(prop, quick, thorough, require, rule):
    return {"jobs": [Job(stack_prog("asan"), prop, {"cases": quick}, {"cases": thorough}, 4, 8),
                     Job(stack_prog("plain"), prop, {"cases": quick * 3}, {"cases": thorough * 3}, 2, 8)],
            "require": require, "rule": rule}


def with_large(d, prop):
    """Stacks of up to 200000 elements and pages of up to 100000."""
    d["jobs"] += [Job(stack_prog("asan"), prop + "large", {"cases": 60}, {"cases": 1500}, 2, 8),
                  Job(stack_prog("plain"), prop + "large", {"cases": 160}, {"cases": 6000}, 2, 8)]
    d["require"] += ["large_cases", "large_positions"]
    return d


def L12():
    def pr(f):
        return Program("h_proxy.cpp", f, "log", [], WRAP)
    return {"jobs": [
        Job(pr("asan"), "L12", {"cases": 500}, {"cases": 12000}, 2, 8),
        Job(pr("tsan"), "L12", {"cases": 150}, {"cases": 4000}, 1, 8),
        Job(pr("plain"), "L12", {"cases": 700}, {"cases": 30000}, 2, 8)],
        "require": ["accepted", "rejected", "nested_proxies", "detached", "target_changes", "deliveries_checked"],
        "rule": "random sets of proxies, nested ones included, on one or two services, whose filters and whose targets' filters "
                "change between bursts of messages; distinct by what the targets were given"}


def L13():
    def pr(f):
        return Program("h_life.cpp", f, "log", [], WRAP, ["h_life2.cpp"])
    return {"jobs": [
        Job(pr("asan"), "L13", {"cases": 150}, {"cases": 6000}, 3, 8),
        Job(pr("tsan"), "L13", {"cases": 70}, {"cases": 2500}, 2, 8),
        Job(pr("plain"), "L13", {"cases": 400}, {"cases": 25000}, 2, 8)],
        "require": ["programs_run", "submitted_before_main", "raced_first_uses", "static_destructors", "thread_ends_logging", "flushes", "arrivals_checked",
                    "releases_checked", "ended_with_backlog"],
        "rule": "programs that use the application's logger from static initialisers, threads and static destructors, and end by return or "
                "exit with or without backlog, each telling its submissions, deliveries and destructions; distinct by what they told"}


def S01():
    return with_large(seq("S01", 15000, 400000, ["operations", "contents_compared"],
               "random sequences of every operation on random page geometries and element types, each result and the whole contents "
               "compared to a plain sequence; non-trivial: more than one page; distinct by operations and sizes"), "S01")


def S02():
    return with_large(seq("S02", 15000, 400000, ["traversals", "positions_compared", "from_top", "writes"],
               "all iterators walked both ways, compared and written through after each operation of random histories; "
               "non-trivial: more than one page; distinct by operations and sizes"), "S02")


def S03():
    return with_large(seq("S03", 15000, 400000, ["addresses_compared", "operations"],
               "random histories with elements that know their address and life and an allocator that knows its blocks; "
               "non-trivial: more than one page; distinct by operations and sizes"), "S03")


def S04():
    d = seq("S04", 6000, 150000, ["failures_injected", "fault_push", "fault_emplace", "fault_push-many", "fault_pop-values",
            "fault_pop-reverse", "fault_peek", "fault_peek-reverse", "fault_set-top", "fault_copy", "fault_assign", "fault_sync-read"],
            "for one operation after a random history, every event that can throw (copy, construction, assignment, allocation) made to "
            "throw in turn; distinct by (operation, failing event, geometry, size)")
    d["level"] = "fault_enumeration"
    return d


def S05():
    return {"jobs": [
        Job(stack_prog("plain"), "S05", {"cases": 8000}, {"cases": 200000}, 3, 8),
        Job(stack_prog("asan"), "S05", {"cases": 2000}, {"cases": 40000}, 1, 4),
        Job(stack_prog("plain"), "S05stress", {"cases": 1800}, {"cases": 24000}, 2, 4),
        Job(stack_prog("tsan"), "S05stress", {"cases": 600}, {"cases": 4000}, 2, 8)],
        "require": ["overlapping_histories", "stress_operations", "statistics_read", "concurrent_copies", "concurrent_assignments", "locked_traversals"],
        "rule": "short histories of 2-4 threads checked for linearizability against a plain sequence (non-trivial: overlapping calls; "
                "distinct by operations and results), and long runs checked for conservation, under ThreadSanitizer"}


def S06():
    d = seq("S06", 10000, 300000, ["values_read", "resynchronised", "emptied_reported", "deferred_shrinks", "shrinks_requested",
            "iterator_copies", "iterator_assignments", "sync_traversals", "concurrent_reads"],
            "random histories with up to 7 synchronised iterators, mutable and constant, copied and assigned, compared to a model of "
            "their positions, also moved between stacks; and threads iterating while others change the stack, under TSan and ASan; distinct by history")
    d["require"] += ["many_iterators", "iterators_moved_over", "assigned_over"]
    d["jobs"] += [Job(stack_prog("asan"), "S06many", {"cases": 80}, {"cases": 2000}, 2, 8),
                  Job(stack_prog("plain"), "S06many", {"cases": 160}, {"cases": 6000}, 2, 8),
                  Job(stack_prog("tsan"), "S06mt", {"cases": 600}, {"cases": 4000}, 2, 8),
                  Job(stack_prog("asan"), "S06mt", {"cases": 1200}, {"cases": 8000}, 1, 8)]
    return d


def S07():
    return with_large(seq("S07", 10000, 300000, ["copies", "multi_page_copies", "assignments", "self_assignments", "destroyed", "copies_shrunk"],
               "random histories over up to 6 stacks copied from and assigned to each other, each compared to its own sequence after "
               "every operation; distinct by history"), "S07")


def futex_prog(flavor, instr=True):
    if instr:
        return Program("h_futex.cpp", flavor, "none", ["-DVF_INSTR", '-DVF_FUTEX_CPP="%s/src/engine/futex.cpp"' % run.REPO], optional=True)
    return Program("h_futex.cpp", flavor, "futex")


def F01():
    return {"jobs": [
        Job(futex_prog("plain", False), "F01", {"cases": 3000}, {"cases": 12000}, 1, 4),
        Job(futex_prog("plain"), "F01", {"cases": 1500}, {"cases": 6000}, 1, 4),
        Job(futex_prog("tsan", False), "F01", {"cases": 1000}, {"cases": 4000}, 1, 4),
        Job(futex_prog("tsan"), "F01", {"cases": 500}, {"cases": 2000}, 1, 4)], "par": 2,
        "require": ["critical_sections", "handovers", "held_starts", "watchers"],
        "rule": "2-4 threads taking a Futex of 7 spin counts around a multi-word critical section, directly and by guards, as it is and with "
                "weak exchanges failing at random; non-trivial: the holder changed more often than there are threads; distinct by order of holders"}


def F02():
    return {"jobs": [
        Job(futex_prog("plain", False), "F02", {"cases": 3000}, {"cases": 12000}, 1, 4),
        Job(futex_prog("plain"), "F02", {"cases": 1500}, {"cases": 6000}, 1, 4),
        Job(futex_prog("tsan", False), "F02", {"cases": 1000}, {"cases": 4000}, 1, 4),
        Job(futex_prog("tsan"), "F02", {"cases": 500}, {"cases": 2000}, 1, 4),
        Job(futex_prog("plain", False), "F02wide", {"threads": 70000}, {"threads": 300000}, 1, 1)], "par": 2,
        "require": ["critical_sections", "handovers", "held_starts", "watchers", "nested_locks", "ownership_checks", "bystander_checks", "deep_nestings", "threads_seen"],
        "rule": "2-4 threads nesting locks of 1-3 RFutexes at random, each comparing ownership and locked state to its own count after every "
                "operation, a thread that never locks, 200000 nested locks and 70000 threads; distinct by order of holders"}


def F03():
    return {"jobs": [
        Job(futex_prog("plain"), "F03", {"cases": 20000}, {"cases": 400000}, 2, 4),
        Job(futex_prog("plain", False), "F03real", {"cases": 1500}, {"cases": 20000}, 2, 4)], "par": 4,
        "require": ["real_waits"],
        "rule": "for 11 spin counts, waits of a chosen number of failed attempts (around the multiples of the spin count and random), with the "
                "yields counted and placed; non-trivial: at least one failed attempt; distinct by (spin count, failed attempts)"}


def atomic_prog(flavor):
    return Program("h_atomic.cpp", flavor, "none")


def A01():
    return {"jobs": [
        Job(atomic_prog("native"), "A01", {"cases": 8000}, {"cases": 200000}, 2, 4),
        Job(atomic_prog("asan"), "A01", {"cases": 1500}, {"cases": 40000}, 1, 2),
        Job(atomic_prog("tsan"), "A01race", {"cases": 600}, {"cases": 12000}, 1, 4)], "par": 2,
        "require": ["overlapping_histories", "stress_operations", "published_values", "sequential_operations"],
        "rule": "short histories of 2-3 threads of all operations on one variable checked for linearizability (non-trivial: overlapping), "
                "long runs checked for conservation, messages passed by set and exchange under TSan; distinct by operations and results"}


def G01():
    return {"jobs": [
        Job(atomic_prog("plain"), "G01", {}, {}, 12, 200),
        Job(atomic_prog("asan"), "G01", {}, {}, 4, 60),
        Job(atomic_prog("tsan"), "G01", {}, {}, 6, 100)], "par": 2,
        "require": ["raced_first_uses", "accesses", "failed_constructions"],
        "rule": "200 singleton types per process, each first used by 2-6 threads at once through all accessors and own or shared wrappers; "
                "distinct by (run, type, threads)"}


def item_prog(flavor, count=False):
    return Program("h_item.cpp", flavor, "item", ["-DVF_COUNT_ALLOC"] if count else [])


def code_prog(flavor, count=False):
    return Program("h_code.cpp", flavor, "code", ["-DVF_COUNT_ALLOC"] if count else [])


def I01():
    return {"jobs": [
        Job(item_prog("asan"), "I01", {"cases": 20000}, {"cases": 800000}, 4, 8),
        Job(item_prog("plain", True), "I01", {"cases": 40000}, {"cases": 1500000}, 2, 8)],
        "require": ["values_read", "conversions", "refused", "getters_refused", "items_under_locale", "items_nil", "items_bool", "items_char", "items_byte", "items_int32", "items_uint32",
                    "items_int64", "items_uint64", "items_double", "items_ccstring", "items_string", "items_bignum"],
        "rule": "items built from edge and random values of every accepted type, compared to an independent rendering and conversion of "
                "the value, and construction from 20 other types; distinct by kind and value"}


def I02():
    return {"jobs": [
        Job(item_prog("asan"), "I02", {"cases": 10000}, {"cases": 60000}, 4, 8),
        Job(item_prog("plain", True), "I02", {"cases": 10000}, {"cases": 60000}, 2, 8)],
        "require": ["copies", "assignments", "self_assignments", "changes", "allocated_items", "allocations", "leak_checks", "allocated_writes", "clones"],
        "rule": "random histories of copies, assignments, moves, swaps, changes in place and destructions of items of every kind, each "
                "compared to its own value after every operation, with the bytes allocated accounted for; distinct by history"}


def I03():
    return {"jobs": [
        Job(item_prog("asan"), "I03", {"cases": 20000}, {"cases": 800000}, 4, 8),
        Job(item_prog("plain"), "I03", {"cases": 40000}, {"cases": 1500000}, 2, 8)],
        "require": ["conversions", "special_values", "items_double", "items_string", "items_bignum", "items_ccstring"],
        "rule": "all conversions of edge and random values under UBSan with checked float casts, integers compared to an independent "
                "saturating conversion; distinct by kind and value"}


def I04():
    def prog(flavor):
        return Program("h_item.cpp", flavor, "values", ["-DVF_VALUES"])
    return {"jobs": [
        Job(prog("tsan"), "I04", {"cases": 600}, {"cases": 20000}, 2, 8),
        Job(prog("plain"), "I04", {"cases": 2500}, {"cases": 80000}, 2, 8)],
        "require": ["concurrent_operations"],
        "rule": "2-5 threads converting, copying and destroying items, code and handler allocations of their own and shared ones, every "
                "result compared to the value, under TSan; distinct by seed and threads"}


def I05():
    def pr(f):
        return Program("h_ilife.cpp", f, "values", [], [], ["h_ilife2.cpp"])
    return {"jobs": [
        Job(pr("debug"), "I05", {"cases": 400}, {"cases": 20000}, 2, 8),
        Job(pr("gasan"), "I05", {"cases": 100}, {"cases": 5000}, 2, 8),
        Job(pr("asan"), "I05", {"cases": 100}, {"cases": 5000}, 2, 8),
        Job(pr("plain"), "I05", {"cases": 400}, {"cases": 20000}, 2, 8)],
        "require": ["programs_run", "made_before_main", "used_after_main", "static_items_checked", "ended_with_threads_running", "holders"],
        "rule": "programs that hold and use items in static objects of two sources (some built before all others), in objects of functions and "
                "threads, in functions called at exit and in threads never joined, ending by return or exit; distinct by what they told"}


def C01():
    return {"jobs": [
        Job(code_prog("asan"), "C01", {"cases": 1500}, {"cases": 80000}, 4, 8),
        Job(code_prog("plain", True), "C01", {"cases": 2000}, {"cases": 80000}, 2, 8)],
        "require": ["rendered", "moved_rendered", "copies", "moves", "assignments", "self_assignments", "compiled", "empty_sources", "streams_that_throw", "leak_checks"],
        "rule": "random histories of construction, copy, assignment, move, compilation and destruction of code objects of 0 to 200000 "
                "arbitrary characters, each rendered after every operation and compared to its source; distinct by history"}


def D01():
    return {"jobs": [
        Job(code_prog("asan"), "D01", {"cases": 60000}, {"cases": 2000000}, 4, 8),
        Job(code_prog("plain"), "D01", {"cases": 100000}, {"cases": 4000000}, 2, 8)],
        "require": ["targets_assigned", "elements_read", "container_distributions"],
        "rule": "1-12 targets that count their assignments, over counting iterators of every category, containers, streams and stacks; "
                "distinct by (category, targets, position, elements, value category)"}


def T_spec(prop, quick, thorough, require, rule):
    import fut
    return {"run": fut.check(prop, quick, thorough), "require": require, "rule": rule}


FUT_RULE = ("generated test programs (0-14 cases of 0-9 components with scripted outcomes, or cases registered by the macros) and command lines, "
            "judged on the log their cases write; distinct by script and command line")


def T01():
    return T_spec("T01", 1800, 40000, ["cases_failed", "cases_passed", "states_read", "summaries", "components_told", "repeated_runs", "single_runs", "runs_failing_by_256"], FUT_RULE)


def T02():
    return T_spec("T02", 1800, 40000, ["executions", "setups_throwing", "selections", "multi_component_runs", "repeated_runs", "single_runs", "runs_of_several_units"], FUT_RULE)


def T03():
    return T_spec("T03", 1800, 40000, ["executions", "states_read", "silent_runs", "dumps_checked", "summaries", "streams_left_redirected"], FUT_RULE)


def T04():
    return T_spec("T04", 1800, 40000, ["reports", "report_cases", "report_failures", "reports_under_locale"], FUT_RULE)


def T05():
    return T_spec("T05", 1800, 40000, ["refused_command_lines", "help_requests", "selections", "reports", "summaries", "silent_runs"], FUT_RULE)


def T06():
    def prog(flavor):
        return Program("h_check.cpp", flavor, "fut")
    return {"jobs": [
        Job(prog("asan"), "T06", {"cases": 15000}, {"cases": 400000}, 3, 8),
        Job(prog("plain"), "T06", {"cases": 40000}, {"cases": 1500000}, 3, 8)],
        "require": ["checks_passing", "checks_failing", "shapes", "float_checks", "special_floats", "throw_checks", "explicit_failures", "string_checks", "zero_strings"],
        "rule": "every check macro over boundary and random operands of 8 types and expressions of every shape, its outcome, text, line and "
                "number of evaluations compared to the relation computed apart; distinct by operands"}


def T07():
    return T_spec("T07", 250, 8000, ["times_checked", "component_times_checked", "running_times_checked", "printed_times_checked", "setups_throwing"], FUT_RULE)


def T08():
    def prog(flavor):
        return Program("h_time.cpp", flavor, "fut", [], CLOCK)
    return {"jobs": [
        Job(prog("asan"), "T08", {"cases": 300}, {"cases": 12000}, 2, 8),
        Job(prog("tsan"), "T08", {"cases": 200}, {"cases": 6000}, 1, 8),
        Job(prog("plain"), "T08", {"cases": 400}, {"cases": 20000}, 3, 8)],
        "require": ["marks", "lapses", "lapses_now", "waits", "waits_with_signals", "long_waits", "threads"],
        "rule": "random sequences of marks, lapses and waits, in one or several threads, with and without signals handled meanwhile, "
                "against two clocks read around each call, and waits of minutes to millennia; distinct by operations and durations"}


PROPS = {k: v for k, v in globals().items() if k[0] in "LSFAGICDTM" and k[1:].isdigit()}
