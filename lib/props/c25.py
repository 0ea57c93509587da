"""as_yielded, exhaust_iterator(s)."""
import asyncio
import gc

import a_sync
from a_sync.utils.iterators import as_yielded, exhaust_iterator, exhaust_iterators

from h import Boom, Violation, check, spin, boom, big
from vloop import vrun

FALSY = [None, 0, "", False, [], 7, "x"]


def gen(rng, i, tier):
    n = big(rng, rng.choice([0, 1, 2, 2, 3, 4] if tier == "quick" else [1, 2, 4, 8]))
    case = {
        "sources": [
            {
                "kind": rng.choice(["agen", "agen", "class", "asynciter", "queue"]),
                "items": [
                    [rng.choice([None, None, 0, 1, 2, 4]), rng.randrange(3), rng.randrange(len(FALSY))]
                    for _ in range(rng.choice([0, 1, 2, 3, 5, 12]))
                ],
                "end": rng.choice(["stop", "stop", "stop", "err"]) if rng.random() < 0.6 else "stop",
            }
            for _ in range(n)
        ],
        "use": rng.choice(["as_yielded"] * 5 + ["exhaust", "exhaust_queue", "join", "join", "exhaust_cancel"]),
        "consumer": rng.choice(["all", "all", "all", "break", "aclose", "cancel", "fail", "drop", "athrow"]),
        "after": rng.randrange(0, 10),
        "pace": rng.choice([0, 0, 1, 3]),
        "cancel_at": rng.randrange(0, 12),
        "cspin": rng.randrange(3),
    }
    # a source that ends because something it waits for is cancelled (nobody cancels the consumer)
    if case["sources"] and rng.random() < 0.12:
        rng.choice(case["sources"])["end"] = "cancelled"
        case["use"] = rng.choice(["as_yielded", "as_yielded", "exhaust", "exhaust_queue", "join"])
        case["consumer"] = "all"
    return case


class Src:
    def __init__(self, gen_fn):
        self.g = gen_fn()

    def __aiter__(self):
        return self

    async def __anext__(self):
        return await self.g.__anext__()


def run(case, ctx):
    stats = {"items": 0, "source_errors": 0, "early_ends": 0, "sources_stopped": 0, "joined": 0, "exhaust_cancelled": 0, "cancelled_sources": 0}
    trace = []

    async def main():
        loop = asyncio.get_running_loop()
        produced = []  # (source, n) in the order of production
        open_ = set()
        errs = {}
        cleaned = set()
        base_tasks = asyncio.all_tasks()

        def source(s, spec):
            async def agen():
                open_.add(s)
                try:
                    for n, (d, sp, v) in enumerate(spec["items"]):
                        if d is not None:
                            await asyncio.sleep(d / 1000)
                        await spin(sp)
                        produced.append((s, n))
                        yield (s, n, FALSY[v])
                    if spec["end"] == "err":
                        errs[s] = boom(s)
                        raise errs[s]
                    if spec["end"] == "cancelled":
                        t = asyncio.ensure_future(asyncio.sleep(100))
                        await asyncio.sleep(0)
                        t.cancel()
                        await t
                finally:
                    open_.discard(s)
                    cleaned.add(s)

            if spec["kind"] == "class":
                return Src(agen)
            if spec["kind"] == "asynciter":
                return a_sync.ASyncIterator(agen())
            return agen()

        its = [source(s, spec) for s, spec in enumerate(case["sources"])]
        bad = [s for s, spec in enumerate(case["sources"]) if spec["end"] == "err"]

        def left():
            return [t for t in asyncio.all_tasks() - base_tasks if t is not asyncio.current_task() and not t.done()]

        got = []

        def take(x):
            check(type(x) is tuple and len(x) == 3, f"yielded {x!r}", "items")
            s, n, v = x
            check(v is FALSY[case["sources"][s]["items"][n][2]] or v == [], f"item {x}", "items")
            mine = [m for q, m in got if q == s]
            check(n == len(mine), f"source {s} gave {mine}, then {n}", "order")
            check((s, n) in produced, "invented", "items")
            got.append((s, n))
            stats["items"] += 1

        everything = [(s, n) for s, spec in enumerate(case["sources"]) for n in range(len(spec["items"]))]
        use = case["use"]
        if any(spec["end"] == "cancelled" for spec in case["sources"]):
            q = asyncio.Queue()
            if use == "as_yielded":

                async def consume():
                    async for x in as_yielded(*its):
                        take(x)
                        if case["pace"]:
                            await asyncio.sleep(case["pace"] / 1000)

            elif use == "exhaust":

                async def consume():
                    await (exhaust_iterator(its[0]) if len(its) == 1 else exhaust_iterators(its))

            elif use == "exhaust_queue":

                async def consume():
                    await exhaust_iterators(its, queue=q)

            else:

                async def consume():
                    async def work():
                        while True:
                            x = await q.get()
                            if type(x) is tuple:
                                take(x)
                            q.task_done()

                    w = asyncio.ensure_future(work())
                    try:
                        await exhaust_iterators(its, queue=q, join=True)
                    finally:
                        await asyncio.sleep(0.5)
                        w.cancel()
                        await asyncio.wait([w])

            try:
                await asyncio.wait_for(consume(), 3600)
                how = None
            except asyncio.TimeoutError:
                check(False, "waits for ever although a source was cancelled", "hang")
            except (Boom, asyncio.CancelledError) as e:
                how = e
            check(how is not None, f"a source was cancelled on its way and {use} ended as if all were well", "error-lost")
            if isinstance(how, Boom):
                check(how is errs.get(how.tag), "another exception", "error")
            while not q.empty():
                x = q.get_nowait()
                if type(x) is tuple:
                    take(x)
            if use != "exhaust":
                check(sorted(got) == sorted(produced), f"produced {produced}, delivered only {got}", "items-lost")
            if use != "as_yielded":
                check(sorted(produced) == everything, "not everything was consumed", "items")
            stats["cancelled_sources"] += 1
        elif use == "exhaust":
            if len(its) == 1:
                co = exhaust_iterator(its[0])
            else:
                co = exhaust_iterators(its)
            try:
                await co
                failed = None
            except Boom as e:
                failed = e
            check((failed is not None) == bool(bad), f"sources {bad} failed, exhausting raised {failed!r}", "error-lost")
            if failed is not None:
                check(failed is errs[failed.tag], "other exception", "error")
                stats["source_errors"] += 1
            check(sorted(produced) == everything, "not everything was consumed", "items")
            stats["items"] += len(produced)
        elif use == "exhaust_queue":
            q = asyncio.Queue()
            try:
                await exhaust_iterators(its, queue=q)
                failed = None
            except Boom as e:
                failed = e
            check((failed is not None) == bool(bad), f"sources {bad} failed, exhausting raised {failed!r}", "error-lost")
            while not q.empty():
                x = q.get_nowait()
                if type(x) is tuple:
                    take(x)
            check(sorted(got) == everything, "not everything was queued", "items")
        elif use == "join":
            try:
                await exhaust_iterators([], join=True)
            except ValueError:
                pass
            else:
                check(False, "join without a queue was accepted", "join")
            q = asyncio.Queue() if case["after"] % 2 else a_sync.Queue()
            handled = []

            async def work():
                while True:
                    x = await q.get()
                    if case["pace"]:
                        await asyncio.sleep(case["pace"] / 1000)
                    await spin(case["cspin"])
                    if type(x) is tuple:
                        take(x)
                    handled.append(x)
                    q.task_done()

            w = [asyncio.ensure_future(work()) for _ in range(1 if case["pace"] else 2)]
            try:
                await exhaust_iterators(its, queue=q, join=True)
                failed = None
            except Boom as e:
                failed = e
            check((failed is not None) == bool(bad), f"sources {bad} failed, exhausting raised {failed!r}", "error-lost")
            if failed is None:
                check(sorted(got) == everything, f"joined with {sorted(got)} of {everything} processed", "join")
                stats["joined"] += 1
            await asyncio.sleep(60)
            check(sorted(got) == everything, "not everything was queued", "items")
            for t in w:
                t.cancel()
            await asyncio.gather(*w, return_exceptions=True)
            del w
        elif use == "exhaust_cancel":
            q = asyncio.Queue() if case["after"] % 2 else None
            t = asyncio.ensure_future(exhaust_iterators(its, queue=q, join=bool(q and case["after"] % 4 == 1)))
            await asyncio.sleep(case["cancel_at"] / 1000)
            await spin(case["cspin"])
            early = t.cancel()
            r = (await asyncio.gather(t, return_exceptions=True))[0]
            check(isinstance(r, asyncio.CancelledError) if early else r is None or r is errs.get(getattr(r, "tag", None)), f"cancelled: {early}, ended with {r!r}", "cancelled")
            del t, r
            await spin(10)
            gc.collect()
            made = list(produced)
            running = set(open_)
            await asyncio.sleep(0.5)
            check(produced == made and not running, f"sources {running} go on after exhausting them was cancelled: {produced[len(made):]}", "not-stopped")
            stats["exhaust_cancelled"] += early
            if q is not None:
                while not q.empty():
                    x = q.get_nowait()
                    if type(x) is tuple:
                        take(x)
                check(sorted(got) == sorted(produced), f"produced {produced}, queued {got}", "items-lost")
        else:
            mode = case["consumer"]
            y = as_yielded(*its)
            end = {"how": None, "exc": None}

            async def consume():
                nonlocal y
                try:
                    if mode == "aclose":
                        async for x in y:
                            take(x)
                            if len(got) > case["after"]:
                                await y.aclose()
                                end["how"] = "closed"
                                return
                            if case["pace"]:
                                await asyncio.sleep(case["pace"] / 1000)
                    elif mode == "athrow":
                        it = y.__aiter__()
                        while True:
                            if len(got) > case["after"]:
                                try:
                                    await y.athrow(GeneratorExit)
                                except (GeneratorExit, StopAsyncIteration):
                                    pass
                                end["how"] = "closed"
                                return
                            try:
                                take(await it.__anext__())
                            except StopAsyncIteration:
                                break
                    else:
                        async for x in y:
                            take(x)
                            if mode == "break" and len(got) > case["after"]:
                                end["how"] = "closed"
                                break
                            if mode == "fail" and len(got) > case["after"]:
                                end["how"] = "closed"
                                raise KeyError("consumer")
                            if mode == "drop" and len(got) > case["after"]:
                                end["how"] = "closed"
                                return
                            if case["pace"]:
                                await asyncio.sleep(case["pace"] / 1000)
                    end["how"] = end["how"] or "exhausted"
                except Boom as e:
                    end["how"], end["exc"] = "error", e
                except KeyError:
                    pass
                finally:
                    y = None

            t = asyncio.ensure_future(consume())
            if mode == "cancel":
                await asyncio.sleep(case["cancel_at"] / 1000)
                await spin(case["cspin"])
                t.cancel()
            try:
                await t
            except asyncio.CancelledError:
                check(mode == "cancel", "cancelled by nobody", "cancelled")
                end["how"] = "closed"
            del t
            if end["how"] == "closed":
                stats["early_ends"] += 1
                for _ in range(3):
                    await spin(10)
                    gc.collect()
                await asyncio.sleep(0)
                made = list(produced)
                running = set(open_)
                stats["sources_stopped"] += len(case["sources"]) - len(running)
                await asyncio.sleep(0.5)
                check(produced == made and not open_, f"sources {running} go on after the consumer ended: {produced[len(made):]}", "not-stopped")
            elif end["how"] == "error":
                stats["source_errors"] += 1
                check(end["exc"] is errs.get(end["exc"].tag), "another exception", "error")
                check(sorted(got) == sorted(produced), f"produced {produced}, delivered only {got}", "items-lost")
                for s in bad:
                    want = [(s, n) for n in range(len(case["sources"][s]["items"]))]
                    check([g for g in got if g[0] == s] == want or end["exc"].tag != s, "items before the error were lost", "items-lost")
            else:
                check(end["how"] == "exhausted", f"{end}", "harness")
                check(not bad, f"sources {bad} failed and nobody was told", "error-lost")
                check(sorted(got) == everything, f"delivered {sorted(got)} of {everything}", "items-lost")
        await asyncio.sleep(0.5)
        check(not open_, f"sources {open_} still open", "not-stopped")
        rest = left()
        check(not rest, f"tasks left behind: {rest}", "tasks-left")
        trace.extend(got)

    _, loop = vrun(main)
    check(not loop.unhandled, lambda: f"unhandled: {loop.unhandled}", "unhandled")
    for k, v in stats.items():
        ctx.count(k, v)
    if len(case["sources"]) > 1 and (stats["items"] or stats["early_ends"]):
        ctx.nontrivial(case["use"], case["consumer"], trace)
    ctx.sample({"use": case["use"], "consumer": case["consumer"], "items": trace[:20]})
