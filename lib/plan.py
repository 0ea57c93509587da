"""What each check runs: scenario modules, budgets, and the counters that must be non-zero for a verdict."""

CHECKS = {}
NOT_APPLICABLE = {}


def c(pid, rule, require, quick, thorough, modules=None, level="exploration", assumptions=(), **kw):
    mod = pid.lower()
    if modules is None:
        modules = [
            {
                "mod": mod,
                "quick": {"cases": quick, "cap": kw.pop("quick_cap", 25)},
                "thorough": {"cases": thorough, "cap": kw.pop("thorough_cap", 420)},
                **kw.pop("m", {}),
            }
        ]
    CHECKS[pid] = dict(rule=rule, require=require, modules=modules, level=level, assumptions=list(assumptions), **kw)


VIRTUAL = (
    "pure event-loop runs use a virtual clock on the stock selector loop with its FIFO ready queue, so every schedule "
    "observed is one asyncio can produce"
)

THREADS = "thread interleavings are those the OS scheduler and a shortened switch interval produce; a wait of 40 s without progress counts as stuck"

c(
    "C09",
    "random bundles of settings given through decorator forms, descriptors, classes, inheritance, both at once (with the overridden value different) and the environment, on functions, methods and properties; every variant plays the "
    "same script of calls on a virtual clock and must give what an independent composition of cache, semaphore and limiter gives (outcome, execution shared, start and finish of each call), permits and allowance taken counted; "
    "non-trivial: some setting other than the mode in force; distinct by settings and reference trace",
    {"calls": 20000, "hits": 2000, "executions": 8000, "bare_plain": 300, "bare_awaited": 1000, "v_fn": 200, "v_method": 200, "v_class": 200, "v_split": 200, "v_sub": 100, "v_prop": 100, "v_descriptor": 100},
    0,
    0,
    assumptions=[VIRTUAL, "the limiter may sit inside or outside the semaphore, but the same way in every channel; class-level settings concern methods only"],
    modules=[
        {"mod": "c09", "tag": f"c09{k}", "procs": 2 if not env else 1, "env": env, "quick": {"cases": 400, "cap": 25}, "thorough": {"cases": 12000, "cap": 300}}
        for k, env in enumerate(
            [
                {},
                {"A_SYNC_SEMAPHORE": "1", "A_SYNC_DEFAULT_MODE": "sync"},
                {"A_SYNC_CACHE_TYPE": "memory", "A_SYNC_RUNS_PER_MINUTE": "6"},
                {"A_SYNC_RAM_CACHE_TTL": "5.5", "A_SYNC_RAM_CACHE_MAXSIZE": "2", "A_SYNC_DEFAULT_MODE": "async"},
                {"A_SYNC_CACHE_TYPED": "1", "A_SYNC_SEMAPHORE": "2", "A_SYNC_RUNS_PER_MINUTE": "3"},
            ]
        )
    ],
)
c(
    "C10",
    "random awaited calls of plain functions, methods, class methods, properties and cached properties with blocking (gated) bodies on thread, async, pruning, default and foreign executors, from 1-3 threads with successive event loops, "
    "with failures and cancellations; thread, executor, number in progress, arguments, outcome identity recorded and loop heartbeats counted while bodies block; a barrier meeting of all workers at the end; "
    "non-trivial: as many at once as the workers allow and bodies that blocked; distinct by start and release order",
    {"calls": 3000, "blocked_while_loop_ran": 1000, "loop_ticks_during_blocks": 3000, "saturated": 200, "cancelled": 50, "failed": 500, "t_prop": 10, "t_cached": 10, "t_method": 10, "t_class": 10},
    600,
    12000,
    assumptions=[THREADS],
)
c(
    "C11",
    "random programs of 2-16 clients taking permits by acquire/release, async with and decoration with random arrivals, holds, "
    "failures, cancellations and extra releases; non-trivial: all permits taken at some idle point while somebody waited; distinct by grant order",
    {"saturated_runs": 50, "cancelled_clients": 20, "grants": 500},
    1500,
    40000,
    assumptions=[VIRTUAL],
)
c(
    "C12",
    "1-4 threads, each with its own event loop and client programs, sharing one semaphore and one decorated function; non-trivial: several threads "
    "with somebody waiting at an idle point; distinct by grant orders of all threads",
    {"contended_multithread_runs": 20, "grants": 200},
    400,
    8000,
    assumptions=["thread interleavings are those the OS scheduler and a shortened switch interval produce"],
)
c(
    "C13",
    "random client programs with priorities from small, negative, wide and constant sets; non-trivial: a permit was handed out while waiters of different "
    "priorities were in line; distinct by grant order",
    {"choices_between_priorities": 100, "order_checks": 300, "cancelled_clients": 20, "starvation_checks": 50},
    1500,
    40000,
    assumptions=[VIRTUAL, "a task that never had to wait may take a free permit ahead of waiters (as with asyncio's own semaphore)"],
)
c(
    "C14",
    "random programs of 1-20 waiters (awaited, as tasks, awaited late, with timeouts, never started) against random set/clear/pulse scripts, with "
    "cancellations; non-trivial: somebody was blocked at an idle point and somebody was woken; distinct by wake order",
    {"woken": 500, "blocked": 300, "cancelled": 50, "pulsed": 100},
    8000,
    150000,
    assumptions=[VIRTUAL],
)
c(
    "C15",
    "random programs of 1-24 waiters on 1-3 counters or their cluster against random updates (increases, repeats, refused decreases), with cancellations "
    "and timeouts; non-trivial: somebody was blocked at an idle point and somebody was woken; distinct by wake order and counter values",
    {"woken": 500, "blocked": 300, "cancelled": 50, "refused": 100, "cluster_waits": 50},
    8000,
    150000,
    assumptions=[VIRTUAL],
)
c(
    "C16",
    "random programs of producers and consumers mixing every single/bulk/blocking/non-blocking operation on bounded and unbounded queues, with "
    "cancellations and timeouts; non-trivial: somebody was blocked at an idle point; distinct by the sequence of deliveries",
    {"delivered": 2000, "blocked_idle": 500, "multi_gets": 300, "multi_cancelled": 100, "refused": 100, "joins": 100, "order_checks": 500},
    8000,
    150000,
    assumptions=[VIRTUAL, "items a cancelled bulk get gives back may exceed a bound for a while, and several bulk gets cancelled at once give back in any order"],
)
c(
    "C17",
    "random job programs (arguments, durations, values, failures, self-cancellation; callers that await, drop, cancel or time out) on 1-5 workers with "
    "joins, closed and dropped queues; non-trivial: jobs waited for a worker at an idle point; distinct by start and finish order",
    {"jobs": 5000, "failed": 500, "cancelled_futures": 200, "dropped": 200, "joins": 100, "waited_in_queue": 500, "job_cancelled_itself": 200},
    4000,
    100000,
    assumptions=[VIRTUAL],
)
c(
    "C18",
    "random callers of up to four different jobs arriving while identical jobs are queued, running, finishing or done; callers await, shield, gather, drop, leave "
    "or cancel the shared future; non-trivial: somebody joined a pending job; distinct by execution order and counts",
    {"puts": 5000, "joined": 1000, "fresh": 1000, "executions": 1000, "dropped": 200, "left_behind_shield": 100, "cancelled_for_all": 100, "failed": 100},
    5000,
    100000,
    assumptions=[VIRTUAL, "a job may join one whose outcome was set in the same burst of callbacks; a queued job whose future nobody holds any more may be skipped"],
)
c(
    "C19",
    "random job programs with priorities (ties, floats, strings, changing ranks, demand by waiters); non-trivial: jobs waited for a worker or the queue held several "
    "items; distinct by start order",
    {"jobs": 2000, "priority_choices": 500, "variable_gets": 500, "demand_choices": 50, "failed": 200, "cancelled_futures": 100},
    5000,
    100000,
    assumptions=[VIRTUAL],
)

c(
    "C20",
    "1-3 client threads with their own successive event loops submitting gated calls (run, submit, run_in_executor) to thread, pruning, process and inline executors, with cancellations, "
    "a barrier meeting of all workers, and shutdown with work pending; non-trivial: all workers were busy at once; distinct by start and release order",
    {"calls": 1000, "full_parallel_meetings": 100, "shutdowns_with_work": 100, "process_calls": 20, "saturated_observations": 100},
    500,
    8000,
    assumptions=[THREADS],
)
c(
    "C21",
    "1-3 threads submitting bursts, trickles and pauses around the idle time to pools that prune after 0.5-5 ms; then idle shrinking, growing back to the maximum, and shutdown, "
    "drop or drop with work pending; non-trivial: several threads were busy at once; distinct by execution order",
    {"submissions": 2000, "prunes_seen": 50, "one_stayed": 20, "grown_again": 50, "ended_by_drop": 10, "ended_by_drop_pending": 10, "ended_by_shutdown": 10},
    300,
    6000,
    assumptions=[THREADS],
)
c(
    "C22",
    "random batches of tasks from coroutines, tasks, futures, custom awaitables and deferred results, with names, persistence, failures of every kind, cancellations and dropped handles "
    "(some waiting on a future that only they hold); non-trivial: persisted tasks among others; distinct by completion order",
    {"tasks": 2000, "persisted": 500, "dropped_persisted": 100, "cancelled": 100, "failed": 300, "fragile_kept": 20},
    3000,
    60000,
    assumptions=[VIRTUAL, "a plain RuntimeError of a non-coroutine awaitable is wrapped with context, as documented; a persisted task's failure is always reported too"],
)
c(
    "C23",
    "the same random program run with a_sync.gather and asyncio.gather (lists and mappings, failures, self-cancelled children, cancelled gathers, exclusion) and compared; non-trivial: "
    "at least two awaitables; distinct by completion order and settings",
    {"gathers": 1000, "ended_ok": 300, "ended_err": 200, "ended_cancelled": 100, "excluded": 300, "form_map": 100, "tqdm_cancelled": 20},
    4000,
    80000,
    assumptions=[VIRTUAL],
)
c(
    "C24",
    "random completions with distinct and tied times, failures, cancelled awaitables, slow consumers, early stops and timeouts, in sync and async iteration over lists, sets, iterators and mappings; non-trivial: at "
    "least two awaitables; distinct by completion order and settings",
    {"yielded": 2000, "raised": 200, "timeouts": 100, "runs_sync": 500, "runs_async": 500, "cancelled": 200},
    5000,
    100000,
    assumptions=[VIRTUAL, "completions at the same virtual time may come in either order"],
)
c(
    "C25",
    "random sources (pace, length, falsy items, failure, own cancellation) merged and consumed to the end, slowly, or stopped by break, aclose, failure, cancellation or dropping; non-trivial: several sources; "
    "distinct by the merged sequence",
    {"items": 5000, "source_errors": 200, "early_ends": 200, "sources_stopped": 200, "cancelled_sources": 200},
    3000,
    60000,
    assumptions=[VIRTUAL, "sources fail with Exceptions or end cancelled"],
)
c(
    "C26",
    "random sources (async generators, iterators and iterables, falsy ones included) under every wrapper, stepped by random mixtures of next, anext, for, async for, await, materialized and "
    "interleaved passes in several loops and threads; non-trivial: more than one step on a non-empty source; distinct by source, wrapper and steps",
    {"steps": 5000, "errors": 500, "refused": 200, "passes": 500, "site_thread": 100, "site_run": 100, "copies": 1000},
    3000,
    60000,
    assumptions=[VIRTUAL],
)
c(
    "C27",
    "random chains of filters and sorts (sync, async, awaitable and dual predicates; sync and async keys finishing in any order; stability, reversal, NaN and incomparable keys, failing stages) "
    "over sync and async sources consumed in nine ways, compared with filter() and sorted(); non-trivial: at least two items; distinct by program",
    {"views": 3000, "items": 5000, "errors": 300, "filter_async": 200, "sort_async": 200, "sort_sync": 200, "filter_dual": 100},
    4000,
    80000,
    assumptions=[VIRTUAL],
)
c(
    "C28",
    "random completions (distinct and tied times, some never) of values of every truthiness kind and failures, over utils.any/all and task mappings; non-trivial: at least two awaitables; "
    "distinct by values and times",
    {"decided": 1000, "failed": 200, "exhausted": 300, "early": 500, "undecided": 50, "over_mapping": 200, "over_utils": 500},
    4000,
    80000,
    assumptions=[VIRTUAL, "completions at the same virtual time may be met in either order"],
)
c(
    "C29",
    "random mappings (every kind of function, keys from constructor iterables of thirteen kinds (futures and tasks among them), map(), indexing; repeated, equal and falsy keys; failures) read by one to three concurrent readers of 17 kinds, "
    "in and outside a loop; non-trivial: more than one call; distinct by call order, sources and readers",
    {"calls": 3000, "reads": 2000, "failures": 100, "sync": 50, "reader_aiter": 100, "reader_keys": 100, "future_sources": 300},
    4000,
    80000,
    assumptions=[VIRTUAL, "a key that was popped counts as new when it comes again"],
)
c(
    "C30",
    "random mappings of results of nine kinds with failures, limits, removals before the aggregate, every aggregate popping or not, iteration, closing and discarding in mid-flight, and the same operations asked of a function, a "
    "bound method, a method named on its class or a property (any number of sources of seven kinds, limits, in a loop or outside); compared with the builtin "
    "on the results, with the number running checked whenever the loop is idle; non-trivial: more than one call; distinct by start and finish order",
    {
        "calls": 5000, "saturated": 500, "removed": 300, "errors": 100, "stopped": 200, "aggregated": 1000, "sync": 100, "op_drop": 50,
        "form_fn": 100, "form_fn_sync": 100, "form_fn_limited": 100, "form_bound": 100, "form_bound_sync": 100, "form_descr": 100, "form_descr_sync": 100, "form_prop": 100, "form_prop_sync": 100, "form_cprop": 100,
    },
    0,
    0,
    assumptions=[VIRTUAL, "a mapping with neither keys nor a source of keys may say so instead of giving the empty aggregate"],
    modules=[
        {"mod": "c30", "procs": 4, "quick": {"cases": 4000, "cap": 25}, "thorough": {"cases": 80000, "cap": 420}},
        {"mod": "c30", "tag": "c30env", "procs": 1, "env": {"A_SYNC_CACHE_TYPE": "memory", "A_SYNC_SEMAPHORE": "1", "A_SYNC_RUNS_PER_MINUTE": "30"}, "quick": {"cases": 800, "cap": 25}, "thorough": {"cases": 20000, "cap": 300}},
        {"mod": "c30b", "procs": 3, "quick": {"cases": 1000, "cap": 25}, "thorough": {"cases": 60000, "cap": 420}},
    ],
)
c(
    "C31",
    "random expression graphs (trees, chains, shared parts) over deferred, plain and awaitable operands of twelve types with failures, read by one to six waiters at different times or materialized outside a "
    "loop, in threads and after asyncio.run; compared with the same expression on the plain results; non-trivial: more than one operation; distinct by graph and readers",
    {"operations": 5000, "computations": 5000, "errors": 300, "several_waiters": 500, "materialized": 300, "where_sync_thread": 50, "where_sync_after": 50, "accessors": 1000},
    5000,
    100000,
    assumptions=[VIRTUAL, "of several parts failing at the same virtual time any one's exception may surface"],
)
c(
    "C32",
    "random programs of 1-3 shared futures or tasks (results, failures, own cancellation, bodies that suppress or convert it) and clients waiting on them directly, shielded, through a common shield, with timeouts, "
    "in groups, cancelled at random; the same program run with asyncio's futures, tasks and shield and compared, with the reported number of waiters checked whenever the loop is idle; non-trivial: several clients; "
    "distinct by outcomes",
    {"clients": 5000, "waiter_probes": 5000, "several_waiting": 500, "cancelled_clients": 1000, "survived": 500, "cancelled_by_direct": 300},
    9000,
    150000,
    assumptions=[VIRTUAL, "a gather, wait or group around a shielded future need not count as one waiter"],
)
c(
    "C01",
    "random dual functions (async and plain, seven signatures, every decorator form and default, bodies that return, raise any of thirteen exceptions, wait and call other dual functions) called with and without flags at ten "
    "places: in loops, in threads, before, beside and after loops, with a closed loop, many at once; the outcome must be the very object the body produced; non-trivial: every case; distinct by calls",
    {"calls": 5000, "awaited": 2000, "sync": 2000, "raised": 1500, "concurrent_calls": 300, "site_closed": 200, "site_thread": 200, "site_to_thread": 200, "site_loop": 200},
    8000,
    100000,
    assumptions=[THREADS],
)
c(
    "C02",
    "random dual functions called with no, one and two flags at ten places; kind of result, moment of execution and refusals compared with the documented rule; non-trivial: every case; distinct by function and calls",
    {"calls": 5000, "sync": 1000, "async": 1000, "refused_flags": 500, "refused_sync": 200, "site_closed": 200, "site_to_thread": 200},
    8000,
    100000,
    assumptions=[THREADS],
)
c(
    "C03",
    "random hierarchies of 1-3 dual-mode classes (eight ways of carrying the flag; async and plain methods, own defaults, overriding with and without super) with up to five instances created, copied, replaced and collected in between; "
    "methods called by attribute, held bound method, class and super at ten places, singly and many at once; receiver, body, arguments, outcome and kind of result compared with the plain method; nested classes, static methods, partials and other attributes read; non-trivial: every case",
    {"calls": 5000, "plain_result": 1500, "awaitable_result": 1500, "overriding": 500, "super_runs": 50, "access_class": 100, "access_super": 50, "concurrent_calls": 500, "instances": 2000, "copies": 200, "extras": 500},
    1500,
    40000,
    assumptions=[THREADS],
)
c(
    "C04",
    "random hierarchies of dual-mode and ordinary classes with plain and cached properties (async and plain getters, every decorator form, setters and deleters, overriding) read by attribute, hidden method, descriptor and map at ten "
    "places, set, deleted, instances copied and replaced; and many readers of cached properties at once with cancellations on a virtual clock; getter runs, receiver and outcome recorded; non-trivial: every case",
    {"reads": 4000, "cached_hits": 400, "getter_runs": 2000, "refused": 200, "form_map": 200, "form_hidden_await": 200, "sets": 200, "dels": 50, "shared_reads": 3000, "sharing_cases": 400, "copies": 200, "failed": 500, "shared_cancelled": 200},
    0,
    0,
    assumptions=[VIRTUAL, THREADS],
    modules=[
        {"mod": "c04", "procs": 3, "quick": {"cases": 1500, "cap": 25}, "thorough": {"cases": 40000, "cap": 300}},
        {"mod": "c04b", "procs": 4, "quick": {"cases": 3000, "cap": 25}, "thorough": {"cases": 100000, "cap": 300}},
    ],
)
c(
    "C05",
    "random singleton hierarchies (seven ways of carrying the flag, given by keyword or position, own and inherited constructors, constructors that are slow, fail a number of times or need the singleton of the other mode) constructed from up to eight threads, loops and "
    "tasks at once; identity, mode and constructor runs recorded; non-trivial: every case; distinct by order of constructions",
    {"constructions": 4000, "threaded_rounds": 800, "failed": 200, "nested": 100, "instances": 1500, "positional_flags": 300},
    1500,
    30000,
    assumptions=[THREADS],
)
c(
    "C06",
    "random calls (durations, failures, self-cancellation, cancelled callers, aborted loops, several loops one after another) of functions, methods and properties limited by a number or a semaphore object on the decorator or "
    "the class; number in progress checked at every start and whenever the loop is idle, the limit left in force measured afterwards; non-trivial: the limit reached with calls waiting; distinct by start and end order",
    {"calls": 5000, "saturated_runs": 300, "cancelled": 500, "kind_class_int": 50, "kind_prop": 30, "kind_method_int": 30, "kind_apply": 30},
    3000,
    60000,
    assumptions=[VIRTUAL, "a plain def body that runs on in a thread after its caller was cancelled no longer counts against the limit"],
)
c(
    "C07",
    "random calls (equal, equal-but-differently-typed and different arguments in seven shapes; durations, failures, self-cancellation, cancelled callers, aborted loops, synchronous calls, several loops one after another "
    "and threads) of cached functions, methods of equal instances and properties; replayed in the order they reached the cache against an LRU and time-to-live model; non-trivial: hits and misses; distinct by executions and outcomes",
    {"calls": 5000, "hits": 1000, "joined": 300, "misses": 1000, "evictions": 200, "expired": 50, "failed": 300, "threaded_calls": 100, "kept_checked": 300, "kind_prop": 50, "kind_method": 50, "kind_class": 50},
    4000,
    80000,
    assumptions=[VIRTUAL, "a call arriving at the very moment an entry fails or expires may go either way; executions in different event loops need not be shared"],
)
c(
    "C08",
    "random arrivals (bursts, trickles, after pauses, from one loop after another and synchronously; failures, cancelled waiters, aborted loops) of calls limited to 1-600 per minute on functions, methods, classes and properties; "
    "every start checked against a leaky bucket filled by the starts observed, calls arriving to a free bucket must start at once; non-trivial: delayed calls; distinct by start times",
    {"calls": 5000, "delayed": 2000, "prompt": 2000, "bursts": 100, "cancelled": 500, "sync": 300, "kind_class_int": 50, "kind_prop": 30, "kind_method_int": 30},
    3000,
    60000,
    assumptions=[VIRTUAL, "a delayed call may start up to one interval later than the bucket would allow"],
)

BORROWED = ["c01", "c02", "c03", "c04", "c04b", "c05", "c06", "c07", "c08", "c09", "c11", "c12", "c13", "c14", "c16", "c17", "c18", "c19", "c20", "c22", "c23", "c24", "c25", "c26", "c27", "c28", "c29", "c30", "c31", "c32"]
c(
    "C33",
    "the extension modules rebuilt with AddressSanitizer and UBSan (C assertions on, PYTHONMALLOC=malloc): random sequences of calls into every class and function they define with hostile arguments, uninitialised and "
    "re-initialised objects, callbacks that disturb the objects in use, cancellations, collections and threads, reference counts of sentinels compared; generated programs that end in every way with objects in every state of use; "
    "and the workloads of the other checks under the sanitizers; non-trivial: every case",
    {"calls": 3000, "objects": 4000, "processes": 25, "end_interrupt": 1, "end_thread": 1},
    0,
    0,
    assumptions=[
        "memory of CPython and asyncio themselves is observed only as far as the instrumented modules touch it",
        "self-referring structures and chains deeper than a few thousand are left out (recursion through native code: a listed finding)",
        "methods of the compiled classes are called on instances of these classes (others: a listed finding)",
    ],
    asan=True,
    procs=7,
    modules=[
        {"mod": "c33", "procs": 4, "quick": {"cases": 800, "cap": 40}, "thorough": {"cases": 40000, "cap": 420}},
        {"mod": "c33s", "procs": 3, "quick": {"cases": 150, "cap": 40}, "thorough": {"cases": 4000, "cap": 300}},
        *(
            {"mod": m, "crash_only": True, "clean_exit": i % 2 == 0, "debug_log": i % 5 == 0, "quick": {"cases": 300, "cap": 5}, "thorough": {"cases": 20000, "cap": 60}}
            for i, m in enumerate(BORROWED)
        ),
    ],
)
c(
    "C34",
    "the workloads of the other checks played with logging off and with every library logger at DEBUG (or switched to and fro every few loop steps, or with the debug mode switched on), "
    "records formatted as a handler would: own oracle satisfied and signed trace the same both times; objects that describe themselves with their own members; mode flags in every place; "
    "waits of up to minutes on every primitive and executor with what they held, their debug tasks and the loop's exception handler inspected afterwards; non-trivial: records were made or the trace compared; distinct by trace",
    {"records": 20000, "cases_with_records": 1000, "kind_repr": 300, "kind_flags": 200, "kind_daemon": 300, "kind_executor": 100, "daemon_reports": 500, "executor_reports": 50, "kept_until_report": 1},
    0,
    0,
    assumptions=[VIRTUAL, "timers due at the same moment fire in the order they were set", "a description (repr) of the user's that has side effects is the user's own doing", "traces that depend on threads or on the order of a set of tasks are judged by their own oracle only"],
    procs=8,
    modules=[
        {"mod": "c34", "procs": 3, "quick": {"cases": 3000, "cap": 40}, "thorough": {"cases": 60000, "cap": 420}},
        {"mod": "c34d", "tag": "c34cls", "procs": 2, "params": {"mods": ["c01", "c02", "c03", "c04", "c04b", "c05", "c09", "c10"]}, "quick": {"cases": 3000, "cap": 35}, "thorough": {"cases": 60000, "cap": 420}},
        {"mod": "c34d", "tag": "c34mod", "procs": 1, "params": {"mods": ["c06", "c07", "c08", "c09"]}, "quick": {"cases": 3000, "cap": 35}, "thorough": {"cases": 60000, "cap": 420}},
        {"mod": "c34d", "tag": "c34prim", "procs": 1, "params": {"mods": ["c11", "c12", "c13", "c14", "c15", "c16", "c20", "c21"]}, "quick": {"cases": 3000, "cap": 35}, "thorough": {"cases": 60000, "cap": 420}},
        {"mod": "c34d", "tag": "c34q", "procs": 1, "params": {"mods": ["c17", "c18", "c19", "c22", "c31", "c32"]}, "quick": {"cases": 3000, "cap": 35}, "thorough": {"cases": 60000, "cap": 420}},
        {"mod": "c34d", "tag": "c34it", "procs": 1, "params": {"mods": ["c23", "c24", "c25", "c26", "c27", "c28", "c29", "c30"]}, "quick": {"cases": 3000, "cap": 35}, "thorough": {"cases": 60000, "cap": 420}},
        {"mod": "c34d", "tag": "c34env", "procs": 1, "env": {"EZASYNC_DEBUG_MODE": "1"}, "params": {"mods": ["c03", "c04", "c09", "c05"]}, "quick": {"cases": 2000, "cap": 25}, "thorough": {"cases": 60000, "cap": 300}},
        {"mod": "c34d", "tag": "c34env2", "procs": 1, "env": {"EZASYNC_DEBUG_CLASS_NAME": "Root"}, "params": {"mods": ["c03", "c04", "c26", "c30"]}, "quick": {"cases": 2000, "cap": 25}, "thorough": {"cases": 60000, "cap": 300}},
    ],
)
c(
    "C36",
    "timers, callbacks and tasks of somebody else on every loop of the other checks' workloads and of uses of bound methods, properties, generators and caches over many minutes: what they do, when and in which order "
    "equals a recording made without the library, what they have armed is still armed as it was, the loop's timer heap is one at every step, and nothing reaches the loop's exception handler after failures that a caller was told of; "
    "non-trivial: somebody else's events were observed or failures reported; distinct by workload and foreign program",
    {"foreign_events": 20000, "foreign_timers_still_armed": 10000, "loops": 3000, "uses": 2000, "reported_failures": 150, "error_cases": 100},
    0,
    0,
    assumptions=[VIRTUAL, "timers due at the same moment fire in the order they were set", "failures of tasks that were never awaited are not reported failures"],
    modules=[
        {"mod": "c36", "procs": 4, "quick": {"cases": 900, "cap": 45}, "thorough": {"cases": 40000, "cap": 500}},
        {"mod": "c36d", "tag": "c36prim", "procs": 1, "params": {"mods": ["c06", "c09", "c11", "c12", "c13", "c14", "c15", "c16"]}, "quick": {"cases": 4000, "cap": 35}, "thorough": {"cases": 100000, "cap": 420}},
        {"mod": "c36d", "tag": "c36q", "procs": 1, "params": {"mods": ["c17", "c18", "c19", "c22", "c32", "c04b"]}, "quick": {"cases": 4000, "cap": 35}, "thorough": {"cases": 100000, "cap": 420}},
        {"mod": "c36d", "tag": "c36it", "procs": 1, "params": {"mods": ["c23", "c24", "c25", "c26", "c27", "c28", "c29", "c30"]}, "quick": {"cases": 4000, "cap": 35}, "thorough": {"cases": 100000, "cap": 420}},
        {"mod": "c36d", "tag": "c36debug", "procs": 1, "debug_log": True, "params": {"mods": ["c34", "c11", "c13", "c14", "c17", "c25"]}, "quick": {"cases": 2000, "cap": 35}, "thorough": {"cases": 100000, "cap": 420}},
    ],
)
c(
    "C37",
    "histories of functions with any parameter lists (flag names in every position and kind), kinds and wrappers, made, decorated through every form, used, kept, decorated again and discarded, in one or several threads: "
    "each verdict against an oracle of that function's own description, accepted ones' metadata and behaviour in every mode against the function itself; non-trivial: every history; distinct by history",
    {"decorations": 20000, "refused": 8000, "accepted": 10000, "calls": 15000, "id_reused_for_another_verdict": 500, "used_later": 1000, "decorated_again": 5000, "junk": 200, "concurrent_histories": 100},
    1500,
    40000,
    assumptions=[THREADS],
    modules=[{"mod": "c37", "quick": {"cases": 2400, "cap": 60}, "thorough": {"cases": 120000, "cap": 700}}],
)
c(
    "C35",
    "every kind of work the library does (calls of every sort of function, method, property and generator with and without settings, semaphores, events, queues, executors, tasks, collections, mappings, deferred results, views; "
    "ending well, with failures, cancelled, left early, dropped), alone and together: everything that took part is watched through weak references, first with the handles kept and then dropped, 400 s of loop time later; tasks, timers, "
    "callbacks and threads left over are looked for, the closed loop itself must go, and a census of all objects is taken while the work is repeated with the same handles; non-trivial: every case; distinct by work",
    {"watched": 20000, "loops_checked": 150, "growth_checked": 40, "censuses": 160, "watched_argument": 3000, "watched_result": 3000, "watched_exception": 500, "watched_thread": 30, "watched_class": 40, "watched_instance": 100, "watched_queue": 20},
    0,
    0,
    assumptions=[VIRTUAL, "the threads of the one default executor end when idle for their own time", "a persisted task's failure is kept until the next create_task, which reports it", "a cache keeps what it may return"],
    modules=[{"mod": "c35", "quick": {"cases": 2400, "cap": 70}, "thorough": {"cases": 100000, "cap": 700}}],
)
c(
    "C38",
    "random programs of callers cancelled at random moments (once, repeatedly, before the start, by timeouts, groups and each other) whose bodies react to cancellation in every way (clean up, suppress, convert, outlast, uncancel, try again), "
    "reached through functions, methods, properties, semaphores, limiters and stacks of them; the same program run with plain coroutines, asyncio's own semaphore and the limiter itself: every body's and caller's trace must be the same; "
    "non-trivial: some body was cancelled; distinct by trace",
    {
        "bodies": 10000,
        "bodies_cancelled": 5000,
        "cleaned_up": 1500,
        "suppressed": 250,
        "converted": 250,
        "outlasted": 200,
        "uncancelled": 200,
        "did_again": 200,
        "timeouts": 1000,
        "callers_cancelled": 4000,
        "cancelled_before_start": 1000,
        "callers_ok": 3000,
        "form_prop": 200,
        "form_method": 200,
        "form_smart_sem": 200,
        "form_prio_sem": 200,
        "form_fn_sync": 200,
    },
    12000,
    400000,
    assumptions=[VIRTUAL],
    quick_cap=40,
)

c(
    "C39",
    "random invalid values of each setting (and unknown settings) with random valid others through nine channels, each called up to four times awaited, together, or plainly, then the same without it; random placements and values of "
    "mode flags on class, base, constructor, instance and property of ordinary and singleton classes, each used up to five times, then put right; a refusal must come in bounded virtual time with the body not run and permits intact; "
    "non-trivial: every case; distinct by setting, value, channel, placement and refusals",
    {
        "refused": 5000, "refused_calling": 1500, "refused_decorating": 500, "refused_constructing": 150, "no_flag": 100, "many_flags": 200, "bad_value": 300, "repaired": 400, "worked": 400,
        **{"setting_" + k: 40 for k in ("semaphore", "runs_per_minute", "cache_type", "ram_cache_maxsize", "ram_cache_ttl", "default", "executor", "None")},
        **{"channel_" + k: 40 for k in ("fn", "method", "class", "sub", "prop", "cprop", "descriptor", "apply")},
    },
    8000,
    100000,
    assumptions=[VIRTUAL, "a plain call of a plain function plays no part in settings, and the mode given to a property decorator or a bare descriptor is not validated"],
    procs=4,
)

# The cheap checks do more: executions per quick run, times.
MORE = {"C01": 2, "C02": 2, "C03": 2, "C04": 2, "C05": 3, "C06": 4, "C07": 4, "C08": 4, "C09": 2, "C10": 2, "C11": 8, "C12": 6, "C13": 8, "C14": 8, "C15": 8, "C16": 2, "C17": 4, "C18": 2, "C19": 4, "C20": 4}
MORE |= {"C21": 3, "C22": 2, "C23": 6, "C24": 6, "C25": 3, "C26": 4, "C27": 3, "C28": 6, "C29": 5, "C30": 5, "C31": 4, "C32": 5, "C38": 2}
for _pid, _k in MORE.items():
    for _m in CHECKS[_pid]["modules"]:
        _m["quick"] = {"cases": _m["quick"]["cases"] * _k, "cap": max(_m["quick"]["cap"], 40)}
