#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to review and edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


FN = "a_sync/a_sync/function.pyx"
ME = "a_sync/a_sync/method.pyx"
PR = "a_sync/a_sync/property.pyx"
IT = "a_sync/iter.pyx"
TK = "a_sync/task.py"
Q = "a_sync/primitives/queue.py"
MM = "a_sync/a_sync/modifiers/manager.pyx"
LK = "a_sync/primitives/locks/"

prop(
    "C01",
    "A dual function gives the same outcome in every calling mode",
    "A function decorated for dual use returns the same value, or raises the same exception object, whichever "
    "way it is called: default mode, explicit flag, plain sync call or awaited, on any thread, before, during or after an event loop's life. "
    "Each call runs the body exactly once with exactly the arguments given (never the mode flag).",
    ["inputs", "configurations", "histories"],
    "every signature shape (positional, keyword, defaults, *args, **kwargs), sync or async body, every default mode and decorator form, "
    "every flag, any value or exception type, any order of calls in one process, any calling thread",
    "the tests sample a few arguments per default mode, mostly with one int or str, and never look at how often the body ran or what it received",
    [FN, "a_sync/a_sync/decorator.py", "a_sync/a_sync/_helpers.pyx", "a_sync/a_sync/_kwargs.pyx"],
    [("ASyncFunction.__call__ / _run_sync / flag popping", FN), ("_await, _asyncify", "a_sync/a_sync/_helpers.pyx")],
    observe=["return value, exception and call log of the decorated body"],
)
prop(
    "C02",
    "A call runs in the mode its flag or default says, or is refused",
    "Whether a call returns a plain value or an awaitable is decided by the call's own flag if it has one, else by the decorator's "
    "default, else by whether the function was written with async def. Two contradictory flags are refused, and a call that must block on an "
    "event loop that is already running is refused with the library's own error, leaving the loop usable and no body executed.",
    ["inputs", "configurations"],
    "every combination of body kind, default mode, decorator form, flag name and flag value, inside and outside a running loop, and any nesting of those",
    "the tests enumerate only part of the flag/default/body-kind matrix and do not check that a refused call leaves no trace",
    [FN, "a_sync/a_sync/_flags.pyx", "a_sync/a_sync/_kwargs.pyx", "a_sync/exceptions.py", "a_sync/a_sync/decorator.py"],
    [("flag resolution", "a_sync/a_sync/_kwargs.pyx"), ("SyncModeInAsyncContextError", "a_sync/exceptions.py")],
)
prop(
    "C03",
    "Instance methods follow the instance's mode and never cross instances",
    "A coroutine method of a dual-mode class returns a plain result on a synchronous instance and an awaitable on an asynchronous one unless the call carries "
    "its own flag or the method its own default, and either way gives what the plain method would give for that instance and those arguments. Instances and subclasses never "
    "see each other's mode, state, arguments or overridden bodies, however many are alive, however their calls interleave, and however "
    "often they are created, copied and dropped, and what the class holds that is no method (nested classes, static methods, values) stays as it is.",
    ["programs", "inputs", "histories", "schedules"],
    "every class shape (flag as attribute, property or constructor argument, inheritance, overriding, super() calls), any number of instances, any interleaving",
    "the tests use a handful of fixed classes with two instances and check one value each",
    [ME, "a_sync/a_sync/_meta.py", "a_sync/a_sync/abstract.pyx", "a_sync/a_sync/base.pyx", "a_sync/a_sync/_descriptor.py"],
    [("bound method cache", ME), ("ASyncMeta.__new__", "a_sync/a_sync/_meta.py"), ("__should_await__", ME)],
    state=[("instance.__dict__[field]", "bound method kept while in use", ME)],
)
prop(
    "C04",
    "Dual properties agree across access forms; a cached one computes once",
    "A dual-mode property gives the getter's value for its own instance whether read synchronously, awaited, or called through its hidden "
    "method with a flag. A cached property's getter runs at most once per instance until it has succeeded, all concurrent and later readers get that one "
    "result, and a failed or cancelled computation reaches every waiting reader without being remembered.",
    ["schedules", "inputs", "histories", "fault_sequences"],
    "any number of concurrent readers per instance, any suspension pattern in the getter, getters that fail any number of times before succeeding, sync and async getters, any instance lifetimes",
    "tests read the property a few times in order with a getter that always succeeds",
    [PR, "a_sync/a_sync/_descriptor.py"],
    [("ASyncCachedPropertyDescriptor.get_lock / get_cache_value", PR)],
    state=[("cache and lock entries in instance.__dict__", "the memoised value", PR)],
)
prop(
    "C05",
    "A singleton class has one instance per mode, however it is reached",
    "All constructions of a singleton class in the same mode, from any thread and in any order, return the same object and run its constructor "
    "once, while the other mode, and every subclass, has its own. A constructor that raises leaves no instance behind, so that a later construction can succeed.",
    ["schedules", "inputs", "fault_sequences"],
    "any number of threads racing the first construction with slow or failing constructors, any mix of modes, flags by position, keyword or default, any class hierarchy",
    "the test constructs two objects in one thread",
    ["a_sync/a_sync/_meta.py", "a_sync/a_sync/singleton.py", "a_sync/a_sync/base.pyx"],
    [("double-checked locking in ASyncSingletonMeta.__call__", "a_sync/a_sync/_meta.py"), ("flag extraction from constructor arguments", "a_sync/a_sync/base.pyx")],
)
prop(
    "C06",
    "A concurrency limit is never exceeded and never leaks a permit",
    "When a function, method or class is given a concurrency limit of n, at most n executions of its body are in progress at any moment in an "
    "event loop, and whenever fewer than n are in progress and calls are waiting, one of them proceeds. Failure or cancellation of calls, "
    "whether running or waiting, never changes the limit in force.",
    ["schedules", "fault_sequences", "configurations"],
    "any arrival pattern, body duration, exception or cancellation point; limit given as a number or as a semaphore object of any kind, on functions, methods or whole classes, possibly shared",
    "tests time a handful of equal sleeps; no cancellation, no failing bodies, no occupancy measurement",
    ["a_sync/a_sync/modifiers/semaphores.py", MM, LK + "semaphore.pyx"],
    [("apply_semaphore", "a_sync/a_sync/modifiers/semaphores.py"), ("Semaphore.decorate", LK + "semaphore.pyx")],
)
prop(
    "C07",
    "The memory cache returns only right results and honours its bounds",
    "With result caching on, a call returns the outcome of some earlier or current execution with equal arguments (and equal types when typed), never that of "
    "other arguments, another instance's method or an entry past its time to live. Concurrent equal calls share one execution, no entry within its "
    "bound and lifetime is recomputed, the number kept never exceeds the maximum size with the least recently used evicted first, and failures are not remembered.",
    ["inputs", "schedules", "histories", "configurations"],
    "any argument sequence, any maxsize/ttl/typed setting, any clock advance, any interleaving, failures and suspension patterns, functions and methods",
    "tests sample one ttl and one key",
    ["a_sync/a_sync/modifiers/cache/memory.py", "a_sync/a_sync/modifiers/cache/__init__.py", MM, ME],
    [("apply_async_memory_cache", "a_sync/a_sync/modifiers/cache/memory.py"), ("parameter plumbing", MM)],
)
prop(
    "C08",
    "A rate limit holds over every window and delays no more than needed",
    "A function limited to n runs per minute never starts more executions than the leaky-bucket bound allows in any window of time (n plus n per minute "
    "elapsed), for any arrival pattern. An idle limiter never delays a call, a burst of n starts at once, and every waiting call "
    "eventually starts exactly once and keeps its own arguments and result.",
    ["schedules", "inputs", "fault_sequences"],
    "any arrival times, any n, cancelled and failing calls, number or limiter object, functions and methods",
    "a minute-long window cannot be waited for in a unit test; the test checks one burst",
    ["a_sync/a_sync/modifiers/limiter.py", MM],
    [("apply_rate_limit", "a_sync/a_sync/modifiers/limiter.py")],
)
prop(
    "C09",
    "Settings act the same however they are given, and act exactly once",
    "A default mode, cache, rate-limit or concurrency setting has the same observable effect whether given to the decorator, through the "
    "environment or through any decorator form, for functions, methods and properties, and as a class-level setting for the methods of the class; an explicit setting overrides an inherited one. Each setting in "
    "force applies exactly once per call: a cached hit consumes no permit and no rate allowance, and one call consumes one of each.",
    ["configurations", "programs"],
    "every combination of settings and of the places they can be given",
    "tests exercise modifiers one at a time, and never the environment configuration",
    [MM, "a_sync/a_sync/config.py", "a_sync/a_sync/_meta.py", ME, PR, "a_sync/a_sync/decorator.py"],
    [("ModifierManager", MM), ("environment defaults", "a_sync/a_sync/config.py"), ("class-level modifiers", "a_sync/a_sync/_meta.py")],
)
prop(
    "C10",
    "Awaiting a synchronous function never blocks the event loop",
    "When a function written with plain def is called awaitably, its body runs off the event loop's thread on the executor configured for it, "
    "so other tasks keep running while it blocks; the caller gets exactly its return value or its exception. Concurrent calls overlap up to the executor's size, "
    "never beyond it, and calls are never lost, duplicated or given each other's results.",
    ["schedules", "inputs", "configurations", "fault_sequences"],
    "any mix of blocking durations, exceptions, argument shapes, executors (default, shared, custom size), functions and properties, callers cancelled while the body runs",
    "tests call one such function at a time and compare a value",
    ["a_sync/a_sync/_helpers.pyx", FN, "a_sync/a_sync/config.py"],
    [("_asyncify", "a_sync/a_sync/_helpers.pyx"), ("executor modifier", FN)],
)
prop(
    "C11",
    "Semaphore: bounded holders, no lost permit, no stuck waiter",
    "At most the initial number of holders (plus extra releases) ever hold a semaphore at once, in every way it can be held: acquired, entered with a "
    "block, or used to decorate a function. Whenever a permit is free a waiting task gets it, and cancelling waiters or failing inside the "
    "guarded section, in any order, neither loses nor duplicates a permit.",
    ["schedules", "fault_sequences"],
    "any interleaving of acquire, release, block entry, decorated calls, cancellations at any suspension point and failures",
    "tests start a few workers with equal sleeps and no cancellation",
    [LK + "semaphore.pyx", "a_sync/primitives/_debug.pyx"],
    [("Semaphore", LK + "semaphore.pyx")],
)
prop(
    "C12",
    "Threadsafe semaphore: bounded per thread and usable from any thread",
    "A threadsafe semaphore may be shared by any number of threads each with its own event loop: within each thread no more than its limit of "
    "holders are active at once, permits taken in a thread are returned in that thread, and no thread's activity blocks, unblocks or corrupts another's. This "
    "holds for acquire/release, block entry and decoration alike.",
    ["schedules"],
    "any number of threads, each running any interleaving of holders, waiters, cancellations and failures, with loops starting and ending meanwhile",
    "the tests use the object from one thread",
    [LK + "semaphore.pyx"],
    [("ThreadsafeSemaphore.semaphore", LK + "semaphore.pyx")],
    state=[("per-thread semaphores", "one per thread that used it", LK + "semaphore.pyx")],
)
prop(
    "C13",
    "Priority semaphore: better priority first, bounded, nobody lost",
    "No more holders than its limit ever hold a priority semaphore, and when a permit is handed to a waiting task, no task with a strictly better "
    "(lower) priority was already waiting at that time. Every waiter is eventually granted while permits keep being released, and cancellations and failures at any point neither lose "
    "nor duplicate a permit nor strand a waiter.",
    ["schedules", "fault_sequences", "inputs"],
    "any mix of priorities including equal, negative and default, any arrival order, hold time and cancellation point, acquire/release or block entry",
    "tests start all waiters together with distinct priorities and no cancellation",
    [LK + "prio_semaphore.pyx"],
    [("heap of context managers; count_waiters", LK + "prio_semaphore.pyx"), ("lost waiters handling", LK + "prio_semaphore.pyx")],
    state=[("_context_managers, _waiters, _potential_lost_waiters", "who waits at which priority", LK + "prio_semaphore.pyx")],
)
prop(
    "C14",
    "Event: every waiter wakes after set, and only after set",
    "A task waiting on an event returns after the event has been set while it waited or when it was already set when it called, never otherwise, and every task waiting when it is set wakes up even if it "
    "is cleared again at once. Cancelled waiters leave no trace, and the event may be created before any loop exists.",
    ["schedules", "fault_sequences"],
    "any interleaving of set, clear, wait and cancellation by any number of tasks; creation inside or outside a loop; with or without debug logging",
    "tests use one waiter",
    [LK + "event.pyx", "a_sync/primitives/_debug.pyx"],
    [("CythonEvent", LK + "event.pyx")],
)
prop(
    "C15",
    "Counter lock: waiters for a value wake once the counter reaches it",
    "A task waiting for a value resumes when, and not before, the counter reaches or passes that value, and all tasks waiting for values reached "
    "by an update are woken by it. The counter never moves backwards: a decrease is refused and changes nothing, and cancelled waiters do not disturb others.",
    ["schedules", "inputs", "fault_sequences"],
    "any sequence of set and set_to style updates with any jumps, any number of waiters per value, cancellations and interleavings",
    "tests use one or two waiters and small steps",
    [LK + "counter.pyx"],
    [("CounterLock events per value", LK + "counter.pyx")],
)
prop(
    "C16",
    "Queue: everything put in comes out exactly once, in order",
    "Every item put into a queue is delivered to exactly one consumer, in the order of insertion, whichever single, multiple, all-at-once, "
    "blocking or non-blocking operations are mixed; bounded queues never exceed their size. A cancelled or failed operation loses and duplicates nothing, "
    "no operation waits while it could proceed, and waiting for completion returns exactly when every delivered item has been marked done.",
    ["schedules", "fault_sequences", "inputs"],
    "any interleaving of producers and consumers using every operation with any count, any maximum size, cancellations at any suspension point",
    "tests use one producer and consumer and no cancellation",
    [Q],
    [("Queue.get_all / get_multi / join", Q)],
)
prop(
    "C17",
    "Processing queue: each job runs once, result to its own caller",
    "Every job put into a processing queue is executed exactly once with its own arguments by at most the configured number of workers at a time, and its "
    "result or exception goes to its own caller's future and no other. Failing, cancelled or abandoned jobs never stop the queue from processing "
    "the rest, jobs start in the order they were put, and waiting for completion returns once all are done.",
    ["schedules", "fault_sequences", "inputs"],
    "any number of workers, jobs, argument shapes, failures (any exception, including cancellation), callers that give up or drop the future, puts while draining, with or without returned data",
    "tests put a few successful jobs",
    [Q],
    [("ProcessingQueue.__worker_coro", Q), ("worker restart", Q)],
)
prop(
    "C18",
    "Smart queue: identical pending jobs share one execution",
    "While a job with given arguments is queued or running, putting an identical job joins it instead of running again, all callers receive the one outcome, and "
    "jobs with different arguments never share. When the outcome has been delivered, a new identical job runs anew; a caller that drops its future or gives up behind a shield never affects the other callers, and nobody waits forever.",
    ["schedules", "inputs", "fault_sequences"],
    "any argument multiset, positional and keyword, any arrival interleaving, callers cancelled at any point, failures, any worker count",
    "tests put distinct jobs, or identical ones at one instant",
    [Q, "a_sync/_smart.py"],
    [("SmartProcessingQueue._get_key / _futs", Q), ("SmartFuture.num_waiters", "a_sync/_smart.py")],
    state=[("_futs", "weak map of pending jobs by argument key", Q)],
)
prop(
    "C19",
    "Priority queues hand out the best-priority job first",
    "A priority processing queue with jobs waiting always starts one of the best (lowest) priority, first-put first among equals, and otherwise behaves as a processing "
    "queue: each job runs once and its outcome reaches its caller. A demand-ordered queue likewise prefers the job with the most waiting callers, and neither ever drops a job somebody waits for, nor repeats one.",
    ["schedules", "inputs", "fault_sequences"],
    "any priorities (including ties and values with no total order beyond the priority), arrival patterns, worker counts, failures, waiter counts that change while queued",
    "the priority queue could not even be used, and no test noticed; demand ordering is not tested under change",
    [Q],
    [("PriorityProcessingQueue, VariablePriorityQueueMixin", Q)],
)
prop(
    "C20",
    "Async executors run each submission once and report its outcome",
    "Each call submitted to an async thread or process executor, by run, submit or map, executes exactly once with its own arguments and yields its own result or exception; "
    "no more run at once than there are workers, and none waits while a worker is free. Shutting down waits for accepted work when asked to, and the executor works from any thread and event loop.",
    ["schedules", "inputs", "fault_sequences"],
    "any number of submissions, argument shapes, exceptions, durations, sizes (including zero workers, which run inline), loops and submitting threads",
    "tests submit a few sleeps",
    ["a_sync/executor.py"],
    [("_AsyncExecutorMixin.run / submit", "a_sync/executor.py")],
)
prop(
    "C21",
    "A pruning executor shrinks when idle and never strands work",
    "A thread pool that prunes idle workers keeps at most its maximum number of threads, lets all idle ones but the last go after the idle time, and can always grow again. "
    "However submissions, prunes, shutdown and garbage collection interleave, every accepted submission completes exactly once, and a dropped or shut-down pool lets its threads end.",
    ["schedules"],
    "submissions from any number of threads timed around the idle timeout, any pool size and timeout, drops and shutdowns at any moment",
    "the hand-over race between an expiring worker and a new submission needs exact timing",
    ["a_sync/executor.py"],
    [("_prune worker, _adjust_thread_count", "a_sync/executor.py")],
)
prop(
    "C22",
    "Created tasks run to completion, with their outcome observable",
    "A task created from any awaitable runs it exactly once and carries its result, exception or cancellation and the requested name; one marked to survive "
    "garbage collection completes even when the caller keeps no reference, and no longer occupies memory once finished. No earlier task's failure or cancellation ever makes a later creation fail.",
    ["histories", "fault_sequences", "inputs"],
    "any sequence of creations with any outcome, any awaitable kind, options in any combination, garbage collection at any moment, loops that end in between",
    "tests create one or two tasks",
    ["a_sync/asyncio/create_task.pyx"],
    [("__persisted_tasks and __prune_persisted_tasks", "a_sync/asyncio/create_task.pyx")],
    state=[("__persisted_tasks", "strong references to tasks that skip gc", "a_sync/asyncio/create_task.pyx")],
)
prop(
    "C23",
    "gather returns every result under its own position or key",
    "Gathering awaitables, or a mapping of them, returns exactly one outcome per input, in input order or under the input's key, whatever order they complete in, with only the explicitly excluded "
    "results missing. A failure is raised or returned as asked, exactly as the standard gather would; each awaitable is awaited once.",
    ["schedules", "inputs", "fault_sequences"],
    "any number of awaitables with any completion order, duplicates, failures, cancellations, any exclusion predicate, mappings with any keys",
    "tests gather two or three coroutines",
    ["a_sync/asyncio/gather.pyx"],
    [("gather / gather_mapping", "a_sync/asyncio/gather.pyx")],
)
prop(
    "C24",
    "as_completed yields each outcome once, in completion order",
    "Iterating completions, synchronously or asynchronously, over a list or mapping, yields every input's outcome exactly once, paired with its own key for mappings, in the order in which they complete. Failures, cancellations included, are raised at, or "
    "returned in, their own place as asked, and a timeout interrupts exactly when the given time has passed.",
    ["schedules", "inputs", "fault_sequences"],
    "any number of awaitables, completion orders and ties, failures, timeouts (any float), list or mapping, every option combination",
    "tests use sleeps of distinct lengths and no failure inside",
    ["a_sync/asyncio/as_completed.pyx"],
    [("as_completed, as_completed_mapping, ASyncIterator wrapper", "a_sync/asyncio/as_completed.pyx")],
)
prop(
    "C25",
    "Merged iteration yields every item once and cleans up after itself",
    "Merging several async iterators yields every item each of them produces exactly once, keeping each source's own order, and ends when all have ended. The error of a source that fails or is cancelled reaches the consumer without losing "
    "items already produced, and when the consumer stops early, fails or is cancelled, the producers are stopped and nothing is left running; exhausting iterators consumes every item.",
    ["schedules", "inputs", "fault_sequences"],
    "any number of sources of any length and timing, failures at any item, consumer stopping or cancelled at any point, slow or fast consumer",
    "tests merge a few short sources",
    ["a_sync/utils/iterators.py"],
    [("as_yielded, exhaust_iterators", "a_sync/utils/iterators.py")],
)
prop(
    "C26",
    "A dual iterable yields the same items in sync and async iteration",
    "An iterable usable both ways yields exactly the source's items in the source's order whether iterated with for, async for, awaited as a list, or stepped with next and anext in any mixture, including method generators on any instance and over several passes. An exception in the source "
    "surfaces at the same place both ways, and iteration works in any thread and after earlier loops have ended.",
    ["inputs", "programs", "configurations"],
    "any source (async generator, iterator, iterable, dual subclass), length, suspension pattern and exception position, any thread, any mixture of access forms",
    "tests use one generator yielding small ints on the main thread",
    [IT],
    [("__next__ running the loop", IT), ("ASyncGeneratorFunction.__get__", IT)],
)
prop(
    "C27",
    "Filter and sort views equal the builtin results",
    "Filtering a dual iterable with a sync or async predicate gives exactly the builtin filter's items in order, and sorting it gives exactly the builtin sorted result (stability and reversal included), "
    "for sync and async sources and keys alike, however iterated, awaited or chained. Errors in predicate, key or comparison reach the consumer, and each is called once per item.",
    ["inputs", "schedules", "fault_sequences"],
    "any items (ties, incomparable values behind a key), predicates, keys, suspension patterns, chains of views, sync and async iteration",
    "tests filter and sort small ranges of distinct ints",
    [IT],
    [("ASyncFilter, ASyncSorter", IT)],
)
prop(
    "C28",
    "all and any agree with the builtins on awaited values",
    "Asking whether any or all of a set of awaitables, or of a task mapping, are true gives the builtin answer for their results, whatever the completion order and truthiness types. A decision is never withheld because an undecided awaitable is still pending, and a failure met before the decision is raised.",
    ["schedules", "inputs", "fault_sequences"],
    "any number of awaitables, values with any truthiness, completion order, failures before and after the deciding value",
    "tests use a few fixed booleans",
    ["a_sync/utils/__init__.py", TK],
    [("any, all", "a_sync/utils/__init__.py"), ("TaskMapping.any/all", TK)],
)
prop(
    "C29",
    "A task mapping runs its function once per key and maps results right",
    "A task mapping calls its function exactly once for each distinct key (a key that was removed counts as new), with that key and the given extra arguments, however keys arrive (constructor, iterable, async iterable, indexing, repeated or concurrent requests) and however results are read. Every view of it (awaiting, iterating, keys, "
    "values, items, gathering) reports each key with its own result, and a failure surfaces to the readers.",
    ["schedules", "inputs", "histories", "fault_sequences"],
    "any keys with duplicates, sources sync or async with any timing, any order and concurrency of reads, failures of the function or the source, sync or async functions",
    "tests map a short range and read it once",
    [TK],
    [("TaskMapping.__getitem__, map, _init_loader", TK)],
    state=[("the mapping itself", "key to task", TK)],
)
prop(
    "C30",
    "A task mapping respects its concurrency limit and aggregates rightly",
    "With a concurrency limit of n, at most n of a mapping's function calls are in progress at once and all still finish. Its sum, minimum, maximum, any, all, gather and removal operations give what the same operation on the finished results would give, removals leave the rest intact, and a "
    "closed or discarded mapping leaves no task running unnoticed.",
    ["schedules", "inputs", "fault_sequences"],
    "any limit, keys, durations, failures, aggregate and removal sequences, synchronous and asynchronous use",
    "tests check one aggregate each on a range",
    [TK],
    [("_wrapped_func semaphore", TK), ("TaskMappingKeys/Items/Values", TK)],
)
prop(
    "C31",
    "Arithmetic on deferred results equals arithmetic on the results",
    "An expression built from deferred results with any supported operator, on either side and mixed with plain values and other awaitables, evaluates to what the same expression on the plain results gives, or "
    "raises what it would raise. Each underlying computation runs once however often and from however many places its deferred result is awaited, and independent parts run concurrently.",
    ["inputs", "programs", "schedules"],
    "any expression tree with sharing, any numeric types, any number of concurrent consumers, sync and async consumption, any thread, failures anywhere in the tree",
    "tests evaluate one operator at a time with each operand awaited once",
    ["a_sync/future.py"],
    [("ASyncFuture operators and __await", "a_sync/future.py")],
)
prop(
    "C32",
    "Shared futures survive the cancellation of any one waiter",
    "Cancelling a task that awaits a smart future or smart task through the library's shield never cancels the shared work, and every other waiter gets its outcome; awaited "
    "directly, it is cancelled with its waiter exactly as an ordinary future or task would be. The number of waiters reported always equals the tasks actually waiting, and smart tasks otherwise behave as ordinary tasks in result, exception, cancellation and context.",
    ["schedules", "fault_sequences"],
    "any number of waiters arriving and being cancelled in any order, direct or shielded or nested, before, during and after completion, with any outcome",
    "tests create one future and one waiter",
    ["a_sync/_smart.py"],
    [("_SmartFutureMixin.__await__, shield", "a_sync/_smart.py")],
    state=[("_waiters", "tasks currently waiting", "a_sync/_smart.py")],
)
prop(
    "C33",
    "The native extension modules are memory-safe and crash-free",
    "No sequence of calls into the library's compiled modules, whatever arguments, exceptions, cancellations, thread switches or garbage collections occur, reads or writes memory out of bounds or after free, corrupts reference counts or crashes the interpreter. "
    "This includes interpreter shutdown.",
    ["inputs", "schedules", "histories"],
    "every compiled entry point under the hostile workloads of the other checks, wrong argument types included",
    "a reference-count or lifetime error passes every functional test until memory is reused",
    ["a_sync/**/*.pyx"],
    [("cdef classes and C-level attributes", "a_sync/**/*.pyx")],
)
prop(
    "C34",
    "Debug logging and debug modes never change behaviour",
    "With the library's debug logging or debug environment switches on, every primitive, queue and decorated class gives exactly the results, wake-ups, ordering and errors it gives with them off, "
    "and the background debug reporting neither keeps an object alive beyond its next report after the object's last use nor raises.",
    ["configurations", "schedules"],
    "any logger level and debug switch combination, any workload of the other properties",
    "tests run with logging off",
    ["a_sync/primitives/_debug.pyx", "a_sync/primitives/_loggable.pyx", "a_sync/a_sync/_meta.py", LK + "event.pyx", Q],
    [("_DebugDaemonMixin", "a_sync/primitives/_debug.pyx"), ("logger checks", LK + "prio_semaphore.pyx")],
)
prop(
    "C35",
    "Finished work leaves nothing behind",
    "Once calls, tasks, iterations and queues have finished and their handles are dropped, the objects, arguments and results that took part become collectable and no task, timer or thread that the library started for them keeps running, except for its documented delayed clean-up of bound methods. Repeating a workload does not grow "
    "memory without bound.",
    ["histories"],
    "any of the operations of the other properties repeated many times with any outcome",
    "tests never look at what remains alive afterwards",
    ["a_sync/a_sync/method.pyx", "a_sync/asyncio/create_task.pyx", Q, "a_sync/_smart.py", "a_sync/executor.py", "a_sync/a_sync/abstract.pyx"],
    [("weak references, cache timers", ME), ("persisted task pruning", "a_sync/asyncio/create_task.pyx")],
)
prop(
    "C36",
    "The library never disturbs unrelated work on the event loop",
    "Using the library's objects on an event loop never delays, reorders, drops or cancels timers, callbacks or tasks that belong to others. An unrelated timer always fires at its own time, and unhandled errors of the library's "
    "internal tasks never reach the loop's exception handler when the failure has been reported to a caller.",
    ["schedules", "histories"],
    "any unrelated timers and tasks at any times, mixed with any workload of dual methods, properties, queues, semaphores and mappings",
    "tests never run unrelated timers next to the library's own",
    [ME, IT, "a_sync/primitives/_debug.pyx"],
    [("bound-method cache timers", ME)],
)
prop(
    "C37",
    "Decorating validates each function itself, for any number of functions",
    "A function whose own parameters collide with the mode flags, an async generator, or another invalid target is always refused when decorated, and a valid one is always accepted and keeps its name, docs, signature metadata and behaviour. The verdict depends only on the "
    "function given, never on functions, classes or instances that existed before it.",
    ["programs", "histories"],
    "any sequence of dynamically created and discarded functions, classes and instances, any parameter list",
    "an identity-keyed cache error shows only when memory of a discarded function is reused",
    [FN, "a_sync/a_sync/_meta.py", "a_sync/a_sync/abstract.pyx", "a_sync/a_sync/base.pyx", "a_sync/exceptions.py"],
    [("_validate_wrapped_fn and its caches", FN), ("is_a_sync cache", "a_sync/a_sync/abstract.pyx")],
)
prop(
    "C38",
    "Cancelling a caller stops exactly that caller's own work",
    "When a task awaiting a dual function, method, property, semaphore-guarded or rate-limited call that shares no cached execution is cancelled, the cancellation reaches the body at its suspension point, its clean-up code runs, and the caller sees the cancellation; nothing else is cancelled. "
    "A body that suppresses, converts or outlasts the cancellation is honoured exactly as for a plain coroutine.",
    ["schedules", "fault_sequences"],
    "any cancellation instant relative to any suspension point in any stack of settings, any number of sibling calls",
    "tests never cancel",
    [FN, ME, PR, "a_sync/a_sync/modifiers/semaphores.py", "a_sync/a_sync/modifiers/limiter.py"],
    [("coroutine passthrough", FN)],
)
prop(
    "C39",
    "A setting or mode that cannot be honoured is refused, never guessed",
    "A setting the library does not support (an unknown name, or a value of a wrong type or range for the semaphore, rate, cache, mode or executor) is refused with an error when it is given or at every use of it: the body never runs, "
    "nothing is left waiting and no permit is lost. An instance whose class gives no mode flag, contradictory ones or a value that is not a boolean is refused with the library's own error whenever its mode is needed, and works as soon "
    "as its mode is valid; what is valid is never refused.",
    ["inputs", "configurations"],
    "any invalid value of any setting with any valid other ones, through every channel, called in any mode any number of times; any placement of mode flags (class, base, constructor, instance, property) with any value",
    "tests try one invalid value per decorator and look at the first call only",
    ["a_sync/a_sync/modifiers/**", "a_sync/a_sync/base.pyx", "a_sync/a_sync/_flags.pyx", FN, "a_sync/exceptions.py"],
    [("ModifierManager and apply_*", "a_sync/a_sync/modifiers/manager.pyx"), ("__a_sync_flag_name__, __a_sync_flag_value__", "a_sync/a_sync/base.pyx")],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
