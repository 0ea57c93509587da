"""create_task."""
import asyncio
import gc
import weakref

import a_sync
from a_sync import create_task
from a_sync.exceptions import PersistedTaskException

import aw_common as A
from h import Boom, BoomBase, Violation, check, outcome, spin, boom, big
from vloop import vrun


class Res:
    pass


def gen(rng, i, tier):
    n = big(rng, rng.randrange(1, 14 if tier == "quick" else 40))
    specs = A.gen(rng, n, ["coro", "coro", "task", "future", "custom", "asyncfuture"], ("ok", "ok", "ok", "err", "err", "base", "cancel", "rt"))
    for s in specs:
        s.update(
            at=rng.choice([0, 0, rng.randrange(10)]),
            name=rng.choice([None, None, "n", "täsk", "a b"]),
            skip=rng.random() < 0.4,
            quiet=rng.random() < 0.2,
            handle=rng.choice(["await", "await", "late", "drop", "drop", "cancel", "cancel_now"]),
            patience=rng.randrange(8),
            fragile=rng.random() < 0.3,
        )
    return {"specs": specs, "gc": rng.random() < 0.4, "rounds": rng.choice([1, 1, 2]), "lost": [[rng.random() < 0.5, rng.randrange(3)] for _ in range(rng.choice([0, 0, 1, 3]))]}


def run(case, ctx):
    stats = {"tasks": 0, "persisted": 0, "dropped_persisted": 0, "cancelled": 0, "failed": 0, "fragile_kept": 0, "reports": 0, "unread_reported": 0, "read_unreported": 0, "lost_quiet": 0, "lost_loud": 0}
    order = []

    async def main():
        loop = asyncio.get_running_loop()
        results = []  # weakrefs to results of persisted tasks
        reported = []

        def handler(loop_, context):
            e = context.get("exception")
            reported.append((context.get("message"), e))

        loop.set_exception_handler(handler)
        registry = weakref.WeakValueDictionary()
        ran = {}
        pending_cleanup = []
        unread = {}  # exceptions of dropped persisted tasks, to be reported once
        read = []  # exceptions somebody got

        async def one(rnd, i, s):
            await asyncio.sleep(s["at"] / 1000)
            who = (rnd, i)
            res = Res()
            if s["end"] == "err":
                exc = boom(who)
            elif s["end"] == "base":
                exc = BoomBase(who)
            elif s["end"] == "rt":
                exc = NotImplementedError(str(who))
            elif s["end"] == "cancel":
                exc = asyncio.CancelledError("self")
            else:
                exc = None
            fragile = s["fragile"] and s["skip"] and s["handle"] == "drop" and s["kind"] in ("coro", "custom")

            async def body():
                ran[who] = ran.get(who, 0) + 1
                if fragile:
                    f = loop.create_future()
                    registry[who] = f
                    await f  # only this frame holds f: an unprotected task would be collected here
                    stats["fragile_kept"] += 1
                else:
                    if s["delay"] is not None:
                        await asyncio.sleep(s["delay"] / 1000)
                    await spin(s["spin"])
                order.append(i)
                if exc is not None:
                    raise exc
                return res

            k = s["kind"]
            if k == "coro":
                aw = body()
            elif k == "task":
                aw = asyncio.ensure_future(body())
            elif k == "custom":
                aw = A.Custom(body)
            elif k == "asyncfuture":
                aw = a_sync.ASyncFuture(body())
            else:
                t = asyncio.ensure_future(body())
                aw = asyncio.gather(t, return_exceptions=False)
            kw = {}
            if s["name"]:
                kw["name"] = s["name"]
            if s["skip"]:
                kw["skip_gc_until_done"] = True
                stats["persisted"] += 1
            if s["quiet"]:
                kw["log_destroy_pending"] = False
            try:
                task = create_task(aw, **kw)
            except BaseException as e:
                raise Violation(f"create_task raised {e!r}", "create-failed") from e
            stats["tasks"] += 1
            check(isinstance(task, asyncio.Task), f"create_task gave {task!r}", "task")
            if s["name"]:
                check(task.get_name() == s["name"], f"name {task.get_name()!r}", "name")
            del aw
            if s["skip"] and s["end"] == "ok":
                results.append((who, weakref.ref(res)))
            h = s["handle"]
            if h == "drop":
                if s["skip"]:
                    stats["dropped_persisted"] += 1
                    if exc is not None and s["end"] != "cancel" and k in ("coro", "custom"):
                        unread[who] = exc
                else:
                    pending_cleanup.append(task)
                if fragile:
                    return who
                return None
            if h == "cancel_now":
                task.cancel()
            elif h == "cancel":
                await asyncio.sleep(s["patience"] / 1000)
                task.cancel()
            elif h == "late":
                await asyncio.sleep(s["patience"] / 1000)
            out = await outcome(task)
            check(task.done(), "awaited and not done", "task")
            want_cancel = h in ("cancel", "cancel_now") and out[0] == "cancelled"
            if want_cancel:
                stats["cancelled"] += 1
            elif exc is None:
                good = out[1][0] if k == "future" and out[0] == "ok" else out[1]
                check(out[0] == "ok" and good is res, f"{who}: {out}", "result")
            elif s["end"] == "cancel":
                check(out[0] == "cancelled", f"{who}: {out}, the work cancelled itself", "result")
            else:
                stats["failed"] += 1
                check(out[0] == "err" and out[1] is exc, f"{who}: {out}, the work raised {exc!r}", "result")
                if h == "await" and k in ("coro", "custom"):
                    read.append((who, exc))
            if h in ("await", "late"):
                check(ran.get(who) == 1, f"{who} ran {ran.get(who)} times", "once")
            else:
                check(ran.get(who, 0) <= 1, f"{who} ran {ran.get(who)} times", "once")
            return None

        async def rt(x):
            return x

        for rnd in range(case["rounds"]):
            ts = [asyncio.ensure_future(one(rnd, i, s)) for i, s in enumerate(case["specs"])]
            left = [w for w in await asyncio.gather(*ts) if w]
            del ts
            if case["gc"]:
                gc.collect()
            await asyncio.sleep(0.02)
            for who in left:
                f = registry.get(who)
                check(f is not None and not f.done(), f"the task {who} was collected although it was to survive", "collected")
                f.set_result(None)
                del f
            await asyncio.sleep(0.02)
            await asyncio.gather(*(outcome(t) for t in pending_cleanup))
            pending_cleanup.clear()
            for i, s in enumerate(case["specs"]):
                if s["handle"] == "drop":
                    check(ran.get((rnd, i)) == 1, f"dropped {(rnd, i)} ran {ran.get((rnd, i))} times", "once")
            # whatever happened to earlier tasks, creating one works
            for _ in range(3):
                try:
                    t = create_task(rt(5))
                except BaseException as e:
                    raise Violation(f"create_task raised {e!r} because of an earlier task", "create-failed") from e
                check(await t == 5, "result", "result")
                del t
        gc.collect()
        about = [e.exception if isinstance(e, PersistedTaskException) else e for _, e in reported]
        for who, e in unread.items():
            n = sum(x is e for x in about)
            check(n == 1, f"the failure of {who}, a persisted task nobody awaited, was reported {n} times", "unreported")
            stats["unread_reported"] += 1
        for who, e in read:
            check(not any(x is e for x in about), f"the failure of {who} was reported as never retrieved, its caller got it", "reported-twice")
            stats["read_unreported"] += 1
        if case["gc"]:
            # a task that is lost while it waits is reported, unless the caller asked for silence
            for quiet, sp in case["lost"]:
                k0 = len(reported)

                async def forever():
                    await spin(sp)
                    await loop.create_future()

                t = create_task(forever(), **({"log_destroy_pending": False} if quiet else {}))
                await spin(sp + 2)
                del t
                gc.collect()
                lost = [m for m, _ in reported[k0:] if "destroyed" in str(m)]
                check(len(lost) == (0 if quiet else 1), f"a task lost while pending: log_destroy_pending={not quiet}, reported {lost}", "destroyed")
                stats["lost_quiet" if quiet else "lost_loud"] += 1
            order_keep = list(order)
            await asyncio.sleep(0.1)
            gc.collect()
            for who, ref in results:
                check(ref() is None, f"the result of the finished persisted task {who} is still in memory", "kept")
        for msg, e in reported:
            stats["reports"] += 1
            check("never retrieved" in str(msg) or "destroyed" in str(msg), f"reported {msg} {e!r}", "reports")

    vrun(main)
    for k, v in stats.items():
        ctx.count(k, v)
    if stats["persisted"] and stats["tasks"] > 1:
        ctx.nontrivial(order, stats)
    ctx.sample({"completion_order": order[:30], "stats": stats})
