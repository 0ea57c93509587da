"""SmartProcessingQueue: identical pending jobs share one execution."""
import asyncio
import gc
import weakref

from a_sync._smart import shield
from a_sync.primitives.queue import SmartProcessingQueue

from h import Boom, Violation, check, outcome, spin, boom
from vloop import vrun

SHAPES = [  # (args, kwargs); all different jobs
    ((1,), {}),
    ((2,), {}),
    (("1",), {}),
    ((1, 2), {}),
    ((1,), {"k": 2}),
    ((1,), {"k": 2, "a": 3}),
    ((1,), {"k": 3, "a": 2}),
    (((1, 2),), {}),
    ((), {"k": 1}),
    ((), {}),
    ((None,), {}),
]


def gen(rng, i, tier):
    horizon = rng.choice([4, 12, 30])
    shapes = rng.sample(range(len(SHAPES)), rng.randrange(1, 5))
    many = tier != "quick" and rng.random() < 0.3
    return {
        "workers": rng.choice([1, 1, 2, 3]),
        "work": {str(s): [rng.choice(["spin", "sleep", "sleep"]), rng.randrange(0, 6)] for s in shapes},
        "ends": {str(s): [rng.choice(["ok", "ok", "ok", "err", "cancel"]) for _ in range(4)] for s in shapes},
        "callers": [
            {
                "shape": rng.choice(shapes),
                "at": rng.choice([0, 0, rng.randrange(horizon), rng.randrange(horizon)]),
                "spin": rng.randrange(5),
                "way": rng.choice(["call", "put_nowait", "put"]),
                "flip": rng.random() < 0.5,
                "mode": rng.choice(["await", "await", "shield", "shield_cancel", "drop", "gather", "fut_cancel"]),
                "patience": rng.randrange(horizon),
                "cspin": rng.randrange(4),
            }
            for _ in range(rng.randrange(2, 40 if many else 14))
        ],
    }


def run(case, ctx):
    stats = {"puts": 0, "joined": 0, "fresh": 0, "executions": 0, "dropped": 0, "left_behind_shield": 0, "cancelled_for_all": 0, "failed": 0}
    trace = []

    async def main():
        loop = asyncio.get_running_loop()
        gens = {}  # shape -> list of generations: {"ref": weakref to the shared future, "outcome", "runs", "delivered", "kept"}
        problems = []
        running = set()

        async def body(*args, **kwargs):
            shape = next((n for n, (a, k) in enumerate(SHAPES) if a == args and k == kwargs), None)
            try:
                check(shape in gens, f"ran with {args} {kwargs} that nobody asked for", "arguments")
                mine = [g for g in gens[shape] if not g["runs"]]
                # generations run in the order they were made; ones nobody waits for any more may be left out
                while len(mine) > 1 and (mine[0]["ref"]() is None or mine[0]["ref"]().cancelled()) and mine[-1]["ref"]() is not None:
                    mine.pop(0)
                check(mine, f"job {shape} ran more often than it was asked for", "exactly-once")
                g = mine[0]
                g["runs"] += 1
                stats["executions"] += 1
                check(len(running) < case["workers"], "too many at a time", "too-many-workers")
            except Violation as e:
                problems.append(e)
                raise
            running.add(id(g))
            trace.append(shape)
            try:
                kind, n = case["work"][str(shape)]
                await (spin(n) if kind == "spin" else asyncio.sleep(n / 1000))
                end = case["ends"][str(shape)][len(gens[shape]) % 4]
                if end == "err":
                    stats["failed"] += 1
                    g["outcome"] = ("err", boom((shape, len(gens[shape]))))
                    raise g["outcome"][1]
                if end == "cancel":
                    g["outcome"] = ("cancelled", None)
                    raise asyncio.CancelledError
                g["outcome"] = ("ok", [shape, len(gens[shape])])
                return g["outcome"][1]
            finally:
                running.discard(id(g))

        q = SmartProcessingQueue(body, case["workers"])

        def idle():
            if problems:
                raise problems[0]
            for gs in gens.values():
                for g in gs:
                    f = g["ref"]()
                    if f is not None and f.done():
                        g["delivered"] = True
                    del f
                    if g["waiting"] and not g["runs"] and len(running) < case["workers"]:
                        raise Violation("a job somebody waits for was not started though a worker is free", "stuck")

        loop.on_idle.append(idle)

        def put(c):
            args, kwargs = SHAPES[c["shape"]]
            if c["flip"]:
                kwargs = dict(reversed(list(kwargs.items())))
            gs = gens.setdefault(c["shape"], [])
            last = gs[-1] if gs else None
            prev = last["ref"]() if last else None
            must_join = prev is not None and not prev.done()
            may_join = prev is not None and not last["delivered"]
            if c["way"] == "call":
                fut = q(*args, **kwargs)
            else:
                fut = q.put_nowait(*args, **kwargs)
            return register(c, fut, must_join, may_join, prev)

        def register(c, fut, must_join, may_join, prev):
            stats["puts"] += 1
            gs = gens[c["shape"]]
            if prev is not None and fut is prev:
                check(may_join, "joined a job whose outcome had been delivered long ago", "stale")
                stats["joined"] += 1
                g = gs[-1]
            else:
                check(not must_join, "an identical job is pending but was not joined", "not-shared")
                for s, others in gens.items():
                    for o in others:
                        check(o["ref"]() is not fut, f"job {c['shape']} shares the future of another job ({s})", "wrong-share")
                g = {"ref": weakref.ref(fut), "outcome": None, "runs": 0, "delivered": False, "waiting": 0, "cancelled": False}
                gs.append(g)
                stats["fresh"] += 1
            return g, fut

        async def caller(c):
            if c["at"]:
                await asyncio.sleep(c["at"] / 1000)
            await spin(c["spin"])
            if c["way"] == "put":
                args, kwargs = SHAPES[c["shape"]]
                gs = gens.setdefault(c["shape"], [])
                last = gs[-1] if gs else None
                prev = last["ref"]() if last else None
                must = prev is not None and not prev.done()
                may = prev is not None and not last["delivered"]
                fut = await q.put(*args, **kwargs)
                g, fut = register(c, fut, must, may, prev)
                del prev, last
            else:
                g, fut = put(c)
            mode = c["mode"]
            if mode == "drop":
                stats["dropped"] += 1
                del fut
                gc.collect()
                return
            if mode == "fut_cancel":
                await asyncio.sleep(c["patience"] / 1000)
                await spin(c["cspin"])
                if fut.cancel():
                    g["cancelled"] = True
                    stats["cancelled_for_all"] += 1
                return
            g["waiting"] += 1
            try:
                if mode == "shield_cancel":
                    t = asyncio.ensure_future(outcome(shield(fut)))
                    await asyncio.sleep(c["patience"] / 1000)
                    await spin(c["cspin"])
                    done = t.done()
                    t.cancel()
                    await asyncio.wait([t])
                    res = ("cancelled", None) if t.cancelled() else t.result()
                    if not done and res[0] == "cancelled":
                        stats["left_behind_shield"] += 1
                        return
                elif mode == "shield":
                    res = await outcome(shield(fut))
                elif mode == "gather":
                    res = (await asyncio.gather(outcome(fut), outcome(fut)))[1]
                else:
                    res = await outcome(fut)
            finally:
                g["waiting"] -= 1
            if g["cancelled"] and res[0] == "cancelled":
                return  # somebody cancelled the shared future itself
            want = g["outcome"]
            check(g["runs"] == 1 and want is not None, f"{c['shape']}: outcome {res} after {g['runs']} executions", "exactly-once")
            check(
                res[0] == want[0] and res[1] is want[1],
                f"caller of {c['shape']} got {res}, the execution gave {want}",
                "result",
            )

        ts = [asyncio.ensure_future(caller(c)) for c in case["callers"]]
        done, pend = await asyncio.wait(ts)
        for t in done:
            t.result()
        await asyncio.sleep(1)
        await asyncio.wait_for(q.join(), 5)
        if problems:
            raise problems[0]
        check(not running, "still running", "stuck")
        for s, gs in gens.items():
            for g in gs:
                check(g["runs"] <= 1, f"{s} ran {g['runs']} times for one request", "exactly-once")
        loop.on_idle.remove(idle)

    _, loop = vrun(main)
    noise = [u for u in loop.unhandled if "never retrieved" not in str(u.get("message"))]
    check(not noise, lambda: f"unhandled: {noise}", "unhandled")
    for k, v in stats.items():
        ctx.count(k, v)
    if stats["joined"]:
        ctx.nontrivial(trace, stats)
    ctx.sample({"executions": trace, "stats": stats})
