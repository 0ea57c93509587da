"""Smart futures, smart tasks and shield: the same program with the standard library's, plus the count of waiters."""
import asyncio
import contextvars

from a_sync import _smart
from a_sync._smart import SmartFuture, SmartTask, create_future, set_smart_task_factory, shield

from h import Boom, Violation, check, spin, boom, big
from vloop import vrun

VAR = contextvars.ContextVar("var", default="unset")
HOWS = ["direct", "shield", "shield", "shield", "shieldvar", "wait_for", "wait_for_shield", "common", "common", "gather", "wait", "timeout", "group"]


def gen(rng, i, tier):
    n = rng.choice([1, 1, 2, 3])
    m = big(rng, rng.choice([1, 2, 3, 5, 8] if tier == "quick" else [2, 5, 10, 20]))
    works = [
        {
            "kind": rng.choice(["future", "future", "task", "task", "coro_shield"]),
            "end": rng.choice(["ok", "ok", "ok", "err", "cancel", "never"]),
            "at": rng.randrange(0, 9),
            "spin": rng.randrange(3),
            "on_cancel": rng.choice(["raise", "raise", "suppress", "cleanup", "convert", "return"]),
            "name": rng.choice([None, f"work-{i}"]),
            "ctx": rng.random() < 0.3,
            "cancel": rng.choice([None, None, None, rng.randrange(0, 9)]),
            "key": rng.choice([None, ("a", ()), 0]),
        }
        for _ in range(n)
    ]
    hows = rng.choice([HOWS, HOWS, ["shield"], ["shield", "direct"], ["direct"], ["common", "shield"], ["shield", "wait_for_shield", "shieldvar"]])
    clients = [
        {
            "on": rng.randrange(n),
            "how": rng.choice(hows),
            "start": rng.choice([0, 0, 0, 1, 2, 4, 9]),
            "spin": rng.randrange(3),
            "cancel": rng.choice([None, None, None, 0, 1, 2, 3, 5, 9]),
            "timeout": rng.randrange(0, 7),
            "on_cancel": rng.choice(["raise", "raise", "raise", "again", "linger"]),
            "chain": rng.random() < 0.15,
            "twice": rng.random() < 0.3,
        }
        for _ in range(m)
    ]
    return {"works": works, "clients": clients, "factory": rng.random() < 0.6, "burst": rng.random() < 0.2}


def program(case, lib, ctx):
    """Runs the program with the library's (lib) or the standard futures, tasks and shield."""
    trace = {"work": [None] * len(case["works"]), "client": {}, "body": {}}
    waiting = {}  # (work, client) -> number of awaiting tasks
    stats = {"probes": 0, "multi": 0}
    problems = []

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        now = lambda: round((loop.time() - t0) * 1000)
        if lib and case["factory"]:
            set_smart_task_factory(loop)
        sh = shield if lib else asyncio.shield
        keep = []

        async def body(w):
            spec = case["works"][w]
            log = trace["body"].setdefault(w, [])
            me = asyncio.current_task()
            log.append(("start", now(), VAR.get(), me.get_name() if spec["name"] else None))
            try:
                for phase in range(3):
                    try:
                        if spec["end"] == "never":
                            await asyncio.sleep(0.06)
                        else:
                            await asyncio.sleep(max(0, spec["at"] / 1000 - (loop.time() - t0)))
                        await spin(spec["spin"])
                        break
                    except asyncio.CancelledError as e:
                        log.append(("cancel", now(), me.cancelling(), e.args))
                        if spec["on_cancel"] == "suppress":
                            continue
                        if spec["on_cancel"] == "cleanup":
                            await asyncio.sleep(0.002)
                        if spec["on_cancel"] == "convert":
                            raise boom(("converted", w)) from None
                        if spec["on_cancel"] == "return":
                            return ("returned", w)
                        raise
                if spec["end"] == "err":
                    raise boom(w)
                if spec["end"] == "cancel":
                    raise asyncio.CancelledError(f"own {w}")
                return ("value", w)
            finally:
                log.append(("end", now()))

        futures = []
        for w, spec in enumerate(case["works"]):
            if spec["kind"] == "future":
                f = create_future(queue=None, key=spec["key"], loop=loop) if lib else loop.create_future()
                if lib:
                    check(type(f) is SmartFuture, "create_future gave no SmartFuture", "kind")

                def settle(f=f, w=w, spec=spec):
                    if f.done():
                        return
                    if spec["end"] == "ok":
                        f.set_result(("value", w))
                    elif spec["end"] == "err":
                        f.set_exception(boom(w))
                    elif spec["end"] == "cancel":
                        f.cancel(msg=f"own {w}")

                if spec["end"] != "never":
                    loop.call_later(spec["at"] / 1000, settle)
            else:
                kw = {"name": spec["name"]} if spec["name"] else {}
                if spec["ctx"]:
                    c = contextvars.copy_context()
                    c.run(VAR.set, f"ctx{w}")
                    kw["context"] = c
                if lib and not case["factory"]:
                    f = SmartTask(body(w), loop=loop, **kw)
                else:
                    f = loop.create_task(body(w), **kw)
                if lib:
                    check(type(f) is SmartTask, f"a task of the smart factory is a {type(f)}", "kind")
            futures.append(f)
            if spec["cancel"] is not None:
                loop.call_later(spec["cancel"] / 1000, f.cancel, f"script {w}")
        abandoned = []
        commons = [None] * len(futures)

        async def wait_on(c, spec):
            w = spec["on"]
            f = futures[w]
            how = spec["how"]
            if how == "direct":
                k = (w, c)
                waiting[k] = 1
                try:
                    return await f
                finally:
                    waiting.pop(k, None)
            if how in ("shield", "shieldvar", "wait_for_shield", "common", "gather", "wait", "timeout", "group"):
                if how == "common":
                    if commons[w] is None or commons[w].done():
                        commons[w] = sh(f)
                    s = commons[w]
                else:
                    s = sh(f)
                if how in ("gather", "wait", "group") or how == "wait_for_shield" and not spec["timeout"]:
                    waiting[(w, c)] = "uncounted"
                else:
                    waiting[(w, c)] = 1
                try:
                    if how == "wait_for_shield":
                        return await asyncio.wait_for(s, spec["timeout"] / 1000)
                    if how == "timeout":
                        async with asyncio.timeout(spec["timeout"] / 1000):
                            return await s
                    if how == "gather":
                        r = (await asyncio.gather(s, spin(1), return_exceptions=bool(c % 2)))[0]
                        return (type(r).__name__, getattr(r, "tag", None)) if isinstance(r, BaseException) else r
                    if how == "wait":
                        abandoned.append((w, s))
                        done, _ = await asyncio.wait([s], timeout=spec["timeout"] / 1000)
                        return len(done)
                    if how == "group":

                        async def inner():
                            return await s

                        async with asyncio.TaskGroup() as g:
                            t = g.create_task(inner())
                        return t.result()
                    if how == "shieldvar":
                        return (await s, VAR.get())
                    return await s
                finally:
                    waiting.pop((w, c), None)
            if how == "wait_for":
                waiting[(w, c)] = 1 if spec["timeout"] else "uncounted"
                try:
                    return await asyncio.wait_for(f, spec["timeout"] / 1000)
                finally:
                    waiting.pop((w, c), None)

        async def client(c, spec):
            if spec["start"]:
                await asyncio.sleep(spec["start"] / 1000)
            await spin(spec["spin"])
            VAR.set(f"client{c}")
            try:
                r = await wait_on(c, spec)
                if spec["twice"]:
                    r = (r, await wait_on(c, spec))
                return r
            except asyncio.CancelledError:
                if spec["on_cancel"] == "again" and not futures[spec["on"]].done():
                    return ("again", await wait_on(c, spec))
                if spec["on_cancel"] == "linger":
                    await asyncio.sleep(0.003)
                raise

        async def watched(c, spec):
            try:
                r = ("ok", await client(c, spec))
            except asyncio.CancelledError as e:
                r = ("cancelled", asyncio.current_task().cancelling())
            except BaseExceptionGroup as e:
                r = ("group", [repr(x) for x in e.exceptions])
            except Exception as e:
                r = ("err", type(e).__name__, getattr(e, "tag", None))
            trace["client"][c] = (r, now())

        async def outer(t):
            """A task that waits for a client: waiters of waiters."""
            return await t

        tasks = []
        for c, spec in enumerate(case["clients"]):
            t = loop.create_task(watched(c, spec))
            if spec["chain"]:
                keep.append(loop.create_task(outer(t)))
            tasks.append(t)
            if spec["cancel"] is not None:
                at = case["clients"][0]["cancel"] or 2 if case["burst"] else spec["cancel"]
                loop.call_later(at / 1000, t.cancel)

        if lib:

            def probe():
                for w, f in enumerate(futures):
                    n = f.num_waiters
                    mine = {c: v for (x, c), v in waiting.items() if x == w}
                    stats["probes"] += 1
                    if f.done():
                        if n:
                            problems.append(Violation(f"a finished {type(f).__name__} reports {n} waiters", "waiters"))
                        continue
                    exact = sum(v for v in mine.values() if v != "uncounted")
                    slack = sum(v == "uncounted" for v in mine.values())
                    # a pending shield that nobody waits on (any more) may count
                    slack += sum(not o.done() for x, o in abandoned if x == w)
                    if len(mine) > 1:
                        stats["multi"] += 1
                    if not exact <= n <= exact + slack:
                        problems.append(
                            Violation(
                                f"{type(f).__name__} {w} reports {n} waiters at {now()} ms, {exact} (up to {exact + slack}) are waiting: {sorted(mine)}", "waiters"
                            )
                        )

            loop.on_idle.append(probe)
        await asyncio.wait(tasks, timeout=0.1)
        await asyncio.sleep(0.1)
        for w, f in enumerate(futures):
            if not f.done():
                f.cancel()
        await asyncio.sleep(0.2)
        for t in tasks:
            t.cancel()
        await asyncio.wait(tasks)
        for w, f in enumerate(futures):
            trace["work"][w] = (
                "pending"
                if not f.done()
                else "cancelled" if f.cancelled() else ("err", type(f.exception()).__name__, getattr(f.exception(), "tag", None)) if f.exception() else ("ok", f.result())
            )
        for t in keep:
            if t.done() and not t.cancelled():
                t.exception()

    _, loop = vrun(main)
    if problems:
        raise problems[0]
    bad = [u for u in loop.unhandled if "callback" in u.get("message", "").lower()]
    check(not bad, lambda: f"a callback failed: {bad[0]}", "callback")
    return trace, stats


def run(case, ctx):
    got, stats = program(case, True, ctx)
    ref, _ = program(case, False, ctx)
    for w in range(len(case["works"])):
        check(got["work"][w] == ref["work"][w], lambda: f"work {w} ended {got['work'][w]}, with the standard library's {ref['work'][w]}", "work")
        check(
            got["body"].get(w) == ref["body"].get(w),
            lambda: f"the body of work {w} saw {got['body'].get(w)}, with the standard library's {ref['body'].get(w)}",
            "body",
        )
    for c in range(len(case["clients"])):
        check(
            got["client"].get(c) == ref["client"].get(c),
            lambda: f"client {c} ended {got['client'].get(c)}, with the standard library's {ref['client'].get(c)}",
            "client",
        )
        ctx.count("client_" + str(got["client"][c][0][0]))
    ctx.count("clients", len(case["clients"]))
    ctx.count("waiter_probes", stats["probes"])
    ctx.count("several_waiting", stats["multi"])
    cancelled = [s for s in case["clients"] if s["cancel"] is not None]
    ctx.count("cancelled_clients", len(cancelled))
    ctx.count("cancelled_by_direct", sum(x == "cancelled" for x in got["work"]))
    ctx.count("survived", sum(x[0] == "ok" for x in got["work"]) if cancelled else 0)
    if len(case["clients"]) > 1:
        ctx.nontrivial(sorted(got["client"].items()), [s["how"] for s in case["clients"]], got["work"])
    ctx.sample({"works": [repr(x) for x in got["work"]], "clients": {c: repr(v) for c, v in sorted(got["client"].items())}})
