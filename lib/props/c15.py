"""CounterLock and CounterLockCluster."""
import asyncio

from a_sync.primitives import CounterLock
from a_sync.primitives.locks.counter import CounterLockCluster

from h import Violation, check, spin, big
from vloop import vrun


def gen(rng, i, tier):
    locks = rng.choice([1, 1, 1, 2, 3])
    base = rng.choice([0, 0, -5, 10**12, -(2**62), 2**40])
    span = rng.choice([3, 6, 30])
    horizon = 20
    k = big(rng, rng.randrange(1, 9 if tier == "quick" else 24))
    return {
        "locks": locks,
        "base": base,
        "waiters": [
            {
                "lock": rng.randrange(locks) if locks == 1 or rng.random() < 0.5 else "cluster",
                "value": base + rng.randrange(-1, span + 1),
                "at": rng.choice([0, 0, rng.randrange(horizon)]),
                "pre": rng.randrange(3),
                "cancel": rng.choice([None, None, None, [rng.randrange(horizon), rng.randrange(3)], [0, 0]]),
                "timeout": rng.choice([None, None, None, rng.randrange(1, horizon)]),
            }
            for _ in range(k)
        ],
        "script": [
            [
                rng.choice([0, 0, 1, 2, 5]),
                rng.randrange(3),
                rng.randrange(locks),
                rng.choice([-3, -1, 0, 1, 1, 1, 2, 4]),
                rng.choice(["set", "value"]),
            ]
            for _ in range(rng.randrange(1, 14))
        ],
        "span": span,
        "name": rng.choice(["", "c", "ünï"]),
        "twice": rng.random() < 0.3,
    }


def run(case, ctx):
    n = case["locks"]
    model = [case["base"]] * n
    waiting = {}
    log = []
    stats = {"woken": 0, "blocked": 0, "cancelled": 0, "refused": 0, "cluster_waits": 0}

    async def main():
        locks = [CounterLock(case["base"], case["name"]) for _ in range(n)]
        cluster = CounterLockCluster(iter(locks))
        loop = asyncio.get_running_loop()

        def reached(lock, value):
            return min(model) >= value if lock == "cluster" else model[lock] >= value

        def idle():
            for j, c in enumerate(locks):
                check(c.value == model[j], lambda: f"value is {c.value}, expected {model[j]}", "value")
            for who, (lock, value) in waiting.items():
                if reached(lock, value):
                    raise Violation(f"waiter {who} still waits for {value} on {lock}; values are {model}", "not-woken")
            if waiting:
                stats["blocked"] += 1

        loop.on_idle.append(idle)

        def do(j, delta, way):
            target = model[j] + delta
            try:
                if way == "set":
                    locks[j].set(target)
                else:
                    locks[j].value = target
                failed = False
            except ValueError:
                failed = True
            check(failed == (delta < 0), f"going from {model[j]} to {target}: {'refused' if failed else 'accepted'}", "backwards")
            if failed:
                stats["refused"] += 1
            else:
                model[j] = target
            check(locks[j].value == model[j], f"value is {locks[j].value}, expected {model[j]}", "value")

        async def waiter(i, w):
            if w["at"]:
                await asyncio.sleep(w["at"] / 1000)
            await spin(w["pre"])
            for rep in range(1 + case["twice"]):
                who = (i, rep)
                lock, value = w["lock"], w["value"] + rep
                obj = cluster if lock == "cluster" else locks[lock]
                if lock == "cluster":
                    stats["cluster_waits"] += 1
                else:
                    check(obj.is_ready(value) == reached(lock, value), "is_ready()", "is-ready")
                waiting[who] = (lock, value)
                try:
                    if w["timeout"]:
                        try:
                            r = await asyncio.wait_for(obj.wait_for(value), w["timeout"] / 1000)
                        except asyncio.TimeoutError:
                            continue
                    else:
                        r = await obj.wait_for(value)
                finally:
                    del waiting[who]
                check(bool(r) is True, f"wait_for() returned {r!r}", "returns-true")
                check(reached(lock, value), f"waiter {who} for {value} on {lock} resumed at {model}", "early-wake")
                log.append((who, tuple(model)))
                stats["woken"] += 1

        async def controller():
            for at, sp, j, delta, way in case["script"]:
                if at:
                    await asyncio.sleep(at / 1000)
                await spin(sp)
                do(j, delta, way)

        async def canceller(t, at, sp):
            await asyncio.sleep(at / 1000)
            await spin(sp)
            t.cancel()

        tasks, aux = [], [asyncio.ensure_future(controller())]
        for i, w in enumerate(case["waiters"]):
            t = asyncio.ensure_future(waiter(i, w))
            tasks.append(t)
            if w["cancel"] == [0, 0] and i % 2:
                t.cancel()
            elif w["cancel"]:
                aux.append(asyncio.ensure_future(canceller(t, *w["cancel"])))
        await asyncio.gather(*aux)
        await asyncio.sleep(1)
        top = case["base"] + case["span"] + 2
        for step in (0, 1):  # raise every counter beyond everything waited for, half-way first
            for j in range(n):
                target = model[j] + max(0, (top - model[j]) // (2 - step))
                do(j, target - model[j], "set")
            await asyncio.sleep(1)
        loop.on_idle.remove(idle)
        for i, (t, w) in enumerate(zip(tasks, case["waiters"])):
            check(t.done(), f"waiter {i} never returned", "not-woken")
            if t.cancelled():
                check(w["cancel"], "a waiter nobody cancelled ended cancelled", "cancelled")
                stats["cancelled"] += 1
            else:
                t.result()
        for c in locks:
            repr(c)

    _, loop = vrun(main)
    check(not loop.unhandled, lambda: f"unhandled: {loop.unhandled}", "unhandled")
    for k, v in stats.items():
        ctx.count(k, v)
    if stats["blocked"] and stats["woken"]:
        ctx.nontrivial(log, stats["cancelled"])
    ctx.sample({"wakes": [f"{a}.{b}@{v}" for (a, b), v in log], "stats": stats})
