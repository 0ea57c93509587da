"""ThreadsafeSemaphore: one object, many threads, each with its own event loop."""
import asyncio
import threading

from a_sync.primitives import ThreadsafeSemaphore

import sem_common as S
from h import Inconclusive, Violation, check, rng_of
from vloop import vrun


def gen(rng, i, tier):
    t = rng.choice([1, 2, 2, 3, 4])
    return {
        "n": rng.choice([1, 1, 2, 3]),
        "threads": [
            {
                "rounds": [
                    S.gen_clients(rng, rng.randrange(2, 7), rng.choice([["acq"], ["ctx"], ["dec"], ["acq", "ctx", "dec"]]))
                    for _ in range(rng.choice([1, 1, 2]))
                ]
            }
            for _ in range(t)
        ],
        "main_too": rng.random() < 0.3,
        "lockstep": rng.random() < 0.5,
        "zero": rng.random() < 0.15,
        "extra": [rng.randrange(0, 30) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
    }


def run(case, ctx):
    n = case["n"]
    sem = ThreadsafeSemaphore(0 if case["zero"] else n, "t")
    current = threading.local()

    async def body(who, st, tag):
        return await S.make_body(current.mon)(who, st, tag)

    dec = sem(body)  # decorated once, used from every thread
    results, errors = [], []
    k = len(case["threads"])
    barrier = threading.Barrier(k)

    def thread(spec):
        try:
            here = n  # the permits of this thread
            for r, clients in enumerate(spec["rounds"]):
                mon = current.mon = S.Monitor(here)

                def locked_idle():
                    check(sem.locked() == (len(mon.holding) >= mon.limit), lambda: f"locked() is {sem.locked()} with {len(mon.holding)} of {mon.limit} permits taken in this thread", "locked")

                async def main():
                    loop = asyncio.get_running_loop()
                    if case["zero"] and not r:
                        check(sem.locked(), "a semaphore without permits is not locked", "locked")
                        waiter = asyncio.ensure_future(sem.acquire())
                        await S.spin(5)
                        check(not waiter.done(), "a semaphore without permits let somebody in", "too-many-holders")
                        sem.release()
                        await waiter
                        for _ in range(n):
                            sem.release()
                    loop.on_idle.append(locked_idle)
                    cancelled = await S.drive(clients, sem, mon, dec, case["extra"])
                    loop.on_idle.remove(locked_idle)
                    got = await S.capacity(sem, mon.limit)
                    check(got == mon.limit, f"{got} permits left of {mon.limit} after everybody in this thread left", "permit-count")
                    return cancelled

                if case["lockstep"]:
                    try:
                        barrier.wait(30)
                    except threading.BrokenBarrierError:
                        pass
                cancelled, loop = vrun(main)
                results.append((mon, cancelled))
                here = mon.limit
                check(not loop.unhandled, lambda: f"unhandled: {loop.unhandled}", "unhandled")
        except BaseException as e:
            errors.append(e)
        finally:
            barrier.abort()

    specs = list(case["threads"])
    own = specs.pop() if case["main_too"] else None
    ts = [threading.Thread(target=thread, args=(s,), daemon=True) for s in specs]
    for t in ts:
        t.start()
    if own:
        thread(own)
    for t in ts:
        t.join(60)
        if t.is_alive():
            raise Inconclusive("thread did not end")
    if errors:
        raise errors[0]
    ctx.count("threads", k)
    ctx.count("grants", sum(m.grants for m, _ in results))
    ctx.count("cancelled_clients", sum(c for _, c in results))
    blocked = sum(m.blocked for m, _ in results)
    ctx.count("idle_points_with_waiters", blocked)
    if k > 1 and blocked:
        ctx.count("contended_multithread_runs")
        ctx.nontrivial(n, [m.log for m, _ in results])
    ctx.sample({"n": n, "threads": k, "grants_per_round": [m.grants for m, _ in results]})
