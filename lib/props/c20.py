"""Async thread and process executors."""
import asyncio
import os
import shutil
import tempfile
import threading
import time

from a_sync import AsyncProcessPoolExecutor, AsyncThreadPoolExecutor, PruningThreadPoolExecutor

from h import Boom, Inconclusive, Violation, check, outcome, boom

PATIENCE = 40


def gen(rng, i, tier):
    kind = rng.choice(["thread"] * 6 + ["pruning"] * 5 + ["process"] + ["inline"])
    workers = 0 if kind == "inline" else rng.choice([1, 1, 2, 3, 5])
    threads = 1 if kind == "process" else rng.choice([1, 1, 2, 3])
    return {
        "kind": kind,
        "workers": workers,
        "loops": rng.choice([1, 1, 2]),
        "init": rng.random() < 0.3,
        "clients": [
            [
                {
                    "way": rng.choice(["run", "submit", "submit", "loop"]),
                    "args": [rng.choice([None, 1, "a", (1, 2)]) for _ in range(rng.randrange(3))],
                    "kwargs": {k: rng.randrange(9) for k in rng.sample(["fn", "self", "x", "loop"], rng.choice([0, 0, 1]))} if rng.random() < 0.5 else {},
                    "end": rng.choice(["ok", "ok", "ok", "err", "none"]),
                    "gate": rng.random() < 0.6,
                    "cancel": rng.random() < 0.15,
                }
                for _ in range(rng.randrange(1, 9))
            ]
            for _ in range(threads)
        ],
        "release": rng.choice(["fifo", "lifo", "shuffle"]),
        "seed": rng.randrange(10**9),
        "shutdown": rng.choice(["wait", "wait", "early", "cancel"]),
    }


def make(case, init):
    kind, n = case["kind"], case["workers"]
    kw = {"initializer": init, "initargs": ("i",)} if init else {}
    if kind == "pruning":
        return PruningThreadPoolExecutor(n, **kw)
    if kind == "process":
        return AsyncProcessPoolExecutor(n, **kw)
    if kind == "inline":
        return (AsyncProcessPoolExecutor if case["seed"] % 3 == 0 else AsyncThreadPoolExecutor)(0)
    return AsyncThreadPoolExecutor(n, thread_name_prefix="verif", **kw)


def process_job(path, who, end, *args, **kwargs):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, f"{who}\n".encode())
    os.close(fd)
    time.sleep(0.002)
    if end == "err":
        raise boom(who)
    return (who, os.getpid(), args, kwargs)


def wait_until(cond, what, mech):
    end = time.monotonic() + PATIENCE
    while not cond():
        if time.monotonic() > end:
            raise Violation(f"after {PATIENCE} s still not: {what()}", mech)
        time.sleep(0.0005)


def run(case, ctx):
    if case["kind"] == "process":
        return run_process(case, ctx)
    lock = threading.Lock()
    ran, running, gates = {}, set(), {}
    peak = [0]
    inits = []
    problems = []
    errs, rets = {}, {}

    def init(arg):
        inits.append((arg, threading.get_ident()))

    ex = make(case, init if case["init"] and case["workers"] else None)
    limit = case["workers"]
    loop_threads = set()
    expect = {}

    def body(*args, **kwargs):
        who = kwargs.pop("who_")
        spec = expect[who]
        with lock:
            ran[who] = ran.get(who, 0) + 1
            running.add(who)
            peak[0] = max(peak[0], len(running))
            if limit and len(running) > limit:
                problems.append(Violation(f"{len(running)} calls at once with {limit} workers", "too-many"))
            if ran[who] > 1:
                problems.append(Violation(f"call {who} was executed twice", "exactly-once"))
            if list(args) != spec["args"] or kwargs != spec["kwargs"]:
                problems.append(Violation(f"call {who} ran with {args} {kwargs}", "arguments"))
            if limit and threading.current_thread() in loop_threads:
                problems.append(Violation("a call ran on an event loop's thread", "thread"))
            if case["init"] and limit and ("i", threading.get_ident()) not in inits:
                problems.append(Violation("a worker ran a call before its initializer", "initializer"))
        if spec["gate"] and limit:
            if not gates[who].wait(PATIENCE * 2):
                problems.append(Inconclusive("gate"))
        with lock:
            running.discard(who)
        if spec["end"] == "err":
            errs[who] = boom(who)
            raise errs[who]
        rets[who] = None if spec["end"] == "none" else [who]
        return rets[who]

    accepted = {}
    finished = {}
    nsub = [0]
    go = threading.Barrier(len(case["clients"]))

    def client(t, jobs):
        loop_threads.add(threading.current_thread())
        try:
            for rnd in range(case["loops"]):

                async def main():
                    loop = asyncio.get_running_loop()

                    async def one(k, j):
                        who = f"{t}.{rnd}.{k}"
                        kw = dict(j["kwargs"], who_=who)
                        spec = dict(j, kwargs={a: b for a, b in kw.items() if a != "who_"})
                        if j["way"] == "loop":
                            spec["kwargs"] = {}
                        expect[who] = spec
                        gates[who] = threading.Event()
                        accepted[who] = j
                        if j["way"] == "run":
                            aw = ex.run(body, *j["args"], **kw)
                        elif j["way"] == "loop":
                            import functools

                            aw = loop.run_in_executor(ex, functools.partial(body, who_=who), *j["args"])
                        else:
                            aw = ex.submit(body, *j["args"], **kw)
                            check(asyncio.isfuture(aw), f"submit returned {aw!r}", "submit")
                        task = asyncio.ensure_future(outcome(aw))
                        if j["cancel"] and limit:
                            await asyncio.sleep(0)
                            task.cancel()
                        with lock:
                            nsub[0] += 1
                        res = await task if not task.cancelled() else None
                        finished[who] = True
                        if j["cancel"] and limit and res[0] == "cancelled":
                            return
                        if spec["end"] == "err":
                            check(res[0] == "err" and res[1] is errs.get(who), f"{who} ended {res}", "result")
                        else:
                            check(res[0] == "ok" and res[1] is rets.get(who, 0), f"{who} ended {res}", "result")
                        check(ran.get(who) == 1, f"{who} ran {ran.get(who)} times", "exactly-once")

                    await asyncio.gather(*(one(k, j) for k, j in enumerate(jobs)))

                asyncio.run(main())
                if rnd + 1 < case["loops"]:
                    pass
        except BaseException as e:
            problems.append(e)

    ts = [threading.Thread(target=client, args=(t, jobs), daemon=True) for t, jobs in enumerate(case["clients"])]
    for t in ts:
        t.start()
    import random

    rng = random.Random(case["seed"])
    released = set()
    end = time.monotonic() + PATIENCE * 2
    saturations = 0
    while any(t.is_alive() for t in ts):
        if time.monotonic() > end:
            if problems:
                raise problems[0]
            raise Violation(f"submitted calls never ended: {sorted(set(accepted) - set(finished))} ran {ran}", "stuck")
        with lock:
            n = nsub[0]
            open_ = [w for w in list(gates) if accepted[w]["gate"] and w not in released]
            blocked = [w for w in open_ if w in running]
        if limit and blocked and len(blocked) == limit:
            saturations += 1
        # let a burst pile up, then open one gate at a time; whoever waits for a worker must get it
        if blocked and (len(blocked) == limit or rng.random() < 0.2 or n == 0):
            blocked.sort()
            w = {"fifo": blocked[0], "lifo": blocked[-1]}.get(case["release"]) or rng.choice(blocked)
            gates[w].set()
            released.add(w)
        time.sleep(0.0003)
    for t in ts:
        t.join()
    if problems:
        raise problems[0]
    for g in gates.values():  # calls whose caller gave up may still be running
        g.set()
    wait_until(lambda: not running, lambda: f"{running} ended", "stuck")
    # a free worker is used: exactly `limit` calls that wait for each other can run together
    if limit:
        bar = threading.Barrier(limit)
        both = [threading.Event() for _ in range(limit)]

        def meet(i):
            bar.wait(PATIENCE)
            both[i].set()
            return i

        async def meeting():
            return await asyncio.gather(*(ex.submit(meet, i) for i in range(limit)))

        try:
            check(asyncio.run(meeting()) == list(range(limit)), "results", "result")
        except threading.BrokenBarrierError:
            raise Violation(f"{limit} calls could not run at the same time on {limit} workers", "free-worker-unused") from None
        ctx.count("full_parallel_meetings")
    # shutdown
    if limit and case["shutdown"] != "early":
        hold, late = threading.Event(), []

        async def tail():
            futs = [ex.submit(lambda i=i: (hold.wait(PATIENCE), late.append(i))[1]) for i in range(limit + 2)]
            threading.Timer(0.003, hold.set).start()
            ex.shutdown(wait=True, cancel_futures=case["shutdown"] == "cancel")
            if case["shutdown"] == "wait":
                check(sorted(late) == list(range(limit + 2)), f"shutdown(wait) returned before accepted work was done: {late}", "shutdown")
            res = await asyncio.gather(*map(outcome, futs))
            done = [i for i, r in enumerate(res) if r[0] == "ok"]
            check(sorted(late) == done, f"ran {late}, outcomes {res}", "shutdown")
            if case["shutdown"] == "wait":
                check(len(done) == limit + 2, f"lost in shutdown: {res}", "shutdown")
            try:
                ex.submit(len, [])
            except RuntimeError:
                pass
            else:
                raise Violation("a shut-down executor accepted work", "shutdown")

        asyncio.run(tail())
        ctx.count("shutdowns_with_work")
    else:
        ex.shutdown(wait=True)
    if case["init"] and limit:
        check(len({i for _, i in inits}) == len(inits), "initializer ran twice in a thread", "initializer")
    ctx.count("calls", len(ran))
    ctx.count("saturated_observations", saturations)
    if len(ran) > 2 and (peak[0] == limit or not limit):
        ctx.nontrivial(case["kind"], limit, list(ran), sorted(released))
    ctx.count("kind_" + case["kind"])
    ctx.sample({"kind": case["kind"], "workers": limit, "start_order": list(ran)[:20], "peak": peak[0]})


def run_process(case, ctx):
    d = tempfile.mkdtemp(prefix="verif-c20-")
    ex = AsyncProcessPoolExecutor(case["workers"])
    path = os.path.join(d, "log")
    try:

        async def main(rnd):
            async def one(k, j):
                who = f"{rnd}.{k}"
                kw = {a: b for a, b in j["kwargs"].items() if a == "x"}
                if j["way"] == "run":
                    aw = ex.run(process_job, path, who, j["end"], *j["args"], **kw)
                else:
                    aw = ex.submit(process_job, path, who, j["end"], *j["args"], **kw)
                res = await outcome(aw)
                if j["end"] == "err":
                    check(res[0] == "err" and isinstance(res[1], Boom) and res[1].tag == who, f"{who}: {res}", "result")
                else:
                    check(res[0] == "ok" and res[1][0] == who and res[1][2:] == (tuple(j["args"]), kw), f"{who}: {res}", "result")
                    check(res[1][1] != os.getpid(), "ran in this process", "process")
                    pids.add(res[1][1])

            await asyncio.gather(*(one(k, j) for k, j in enumerate(case["clients"][0])))

        pids = set()
        for rnd in range(case["loops"]):
            asyncio.run(main(rnd))
        n = case["loops"] * len(case["clients"][0])
        with open(path) as f:
            lines = f.read().split()
        check(sorted(lines) == sorted(f"{r}.{k}" for r in range(case["loops"]) for k in range(len(case["clients"][0]))), f"executed {lines}", "exactly-once")
        check(len(pids) <= case["workers"], f"{len(pids)} processes with {case['workers']} workers", "too-many")
        ctx.count("process_calls", n)
        ctx.nontrivial("process", lines)
    finally:
        ex.shutdown(wait=True)
        shutil.rmtree(d, ignore_errors=True)


def probes():
    def executor_map():
        ex = AsyncThreadPoolExecutor(1)

        async def main():
            return list(ex.map(len, [[1], [1, 2]]))

        try:
            return asyncio.run(main()) != [1, 2]
        except (TypeError, asyncio.InvalidStateError):
            return True
        finally:
            ex.shutdown(wait=False)

    return {"executor-map": executor_map}
