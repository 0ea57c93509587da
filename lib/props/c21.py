"""PruningThreadPoolExecutor: growth, pruning, shutdown and collection, with real threads."""
import asyncio
import gc
import random
import sys
import threading
import time

from a_sync import PruningThreadPoolExecutor

from h import Violation, check

PATIENCE = 40


def gen(rng, i, tier):
    return {
        "max": rng.choice([1, 2, 3, 5, 8]),
        "timeout": rng.choice([0.0005, 0.001, 0.002, 0.005]),
        "submitters": rng.choice([1, 1, 2, 3]),
        "steps": [
            [
                rng.choice(["burst", "burst", "one", "trickle", "idle"]),
                rng.randrange(1, 12),
                rng.choice([0, 0.0003, 0.001, 0.003]),
                rng.choice([0.0, 0.0005, 0.001, 0.002, 0.004]),
            ]
            for _ in range(rng.randrange(3, 10 if tier == "quick" else 25))
        ],
        "end": rng.choice(["shutdown", "drop", "drop_pending", "shutdown_nowait"]),
        "seed": rng.randrange(10**9),
        "grow": rng.random() < 0.6,
        "prefix": f"verif21-{i}",
    }


def poll(cond, what, mech):
    end = time.monotonic() + PATIENCE
    while not cond():
        if time.monotonic() > end:
            raise Violation(f"after {PATIENCE} s still not: {what}", mech)
        time.sleep(0.0005)


def run(case, ctx):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        _run(case, ctx)
    finally:
        sys.setswitchinterval(old)


def _run(case, ctx):
    lock = threading.Lock()
    ran, problems = {}, []
    running = [0, 0]
    stats = {"prunes_seen": 0, "grown_again": 0}
    mx = case["max"]
    ex = PruningThreadPoolExecutor(mx, thread_name_prefix=case["prefix"], timeout=case["timeout"])

    def work(who, pause):
        with lock:
            ran[who] = ran.get(who, 0) + 1
            running[0] += 1
            running[1] = max(running)
            if running[0] > mx:
                problems.append(Violation(f"{running[0]} calls at once with {mx} threads", "too-many"))
        if pause:
            time.sleep(pause)
        with lock:
            running[0] -= 1
        return who

    def alive():
        return [t for t in threading.enumerate() if t.name.startswith(case["prefix"] + "_")]

    def submitter(s):
        rng = random.Random(case["seed"] + s)

        async def main():
            futs = {}
            k = 0
            for kind, n, pause, gap in case["steps"]:
                n = {"one": 1, "idle": 0}.get(kind, n)
                for _ in range(n):
                    who = (s, k)
                    k += 1
                    futs[who] = ex.submit(work, who, pause * rng.random())
                    if kind == "trickle":
                        time.sleep(gap * rng.random())
                size = len(ex)
                if size > mx:
                    problems.append(Violation(f"{size} threads, the maximum is {mx}", "too-many"))
                time.sleep(gap if kind != "idle" else case["timeout"] * rng.choice([0.5, 1, 1.1, 3]))
                if rng.random() < 0.3:
                    await asyncio.sleep(0)
            for who, f in futs.items():
                try:
                    r = await asyncio.wait_for(f, PATIENCE)
                except asyncio.TimeoutError:
                    raise Violation(f"submission {who} was accepted and not executed in {PATIENCE} s ({len(ex)} threads)", "stranded") from None
                check(r == who, f"{who} got {r}", "result")

        try:
            asyncio.run(main())
        except BaseException as e:
            problems.append(e)

    if case["submitters"] == 1:
        submitter(0)
    else:
        ts = [threading.Thread(target=submitter, args=(s,), daemon=True) for s in range(case["submitters"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join(PATIENCE * 3)
    if problems:
        raise problems[0]
    check(all(n == 1 for n in ran.values()), "a submission was executed twice", "exactly-once")
    check(len(alive()) <= mx, f"{len(alive())} threads alive, the maximum is {mx}", "too-many")
    # idle threads go
    # (CPython's SimpleQueue.get(timeout) can oversleep until the next put when another consumer emptied the queue just as
    # its time ran out: after a while, a call that does nothing wakes such a thread up)
    nudge_at = time.monotonic() + 4
    while len(ex) > 1 or len(alive()) > 1:
        if time.monotonic() > nudge_at:
            nudge_at = time.monotonic() + 1
            stats["nudges"] = stats.get("nudges", 0) + 1
            if stats["nudges"] > 30:
                raise Violation(f"idle threads do not go: {len(ex)} counted, {len(alive())} alive", "not-pruned")

            async def nudge():
                await ex.submit(int)

            asyncio.run(nudge())
        time.sleep(0.0005)
    if mx > 1 and running[1] > 1:
        stats["prunes_seen"] += 1
    if ran and case["seed"] % 4 == 0:
        # one stays, however long nothing comes
        time.sleep(case["timeout"] * 3)
        check(len(ex) == 1 and len(alive()) == 1, f"an idle pool has {len(ex)} threads counted, {len(alive())} alive, one should stay", "last-thread")
        stats["one_stayed"] = 1
    # and come back
    if case["grow"]:
        bar = threading.Barrier(mx)

        async def meeting():
            return await asyncio.gather(*(ex.submit(lambda i=i: (bar.wait(PATIENCE), i)[1]) for i in range(mx)))

        try:
            check(asyncio.run(meeting()) == list(range(mx)), "results", "result")
        except threading.BrokenBarrierError:
            raise Violation(f"a pruned pool could not grow back to {mx} threads", "cannot-grow") from None
        stats["grown_again"] += 1
    # the end
    n0 = len(ran)
    end = case["end"]

    async def final():
        return [ex.submit(work, ("f", i), 0.0005) for i in range(mx + 2)]

    if end == "drop":
        del ex
        gc.collect()
    else:

        async def tail():
            nonlocal ex
            futs = await final()
            if end == "drop_pending":
                ex = None
                gc.collect()
            elif end == "shutdown":
                ex.shutdown(wait=True)
                check(len(ran) == n0 + mx + 2, "shutdown(wait=True) returned before accepted work was done", "shutdown")
            else:
                ex.shutdown(wait=False)
            try:
                got = await asyncio.wait_for(asyncio.gather(*futs), PATIENCE)
            except asyncio.TimeoutError:
                raise Violation(f"work accepted before {end} was never executed", "stranded") from None
            check(got == [("f", i) for i in range(mx + 2)], f"{got}", "result")
            if end.startswith("shutdown"):
                try:
                    ex.submit(len, [])
                except RuntimeError:
                    pass
                else:
                    raise Violation("a shut-down pool accepted work", "shutdown")

        asyncio.run(tail())
    poll(lambda: not alive(), f"threads of a pool that was {end} still alive: {alive()}", "threads-left")
    ctx.count("submissions", len(ran))
    ctx.count("ended_by_" + end)
    for k, v in stats.items():
        ctx.count(k, v)
    if running[1] > 1 or mx == 1:
        ctx.nontrivial(mx, case["timeout"], list(ran)[:40], end)
    ctx.sample({"max": mx, "peak": running[1], "submissions": len(ran), "end": end})
