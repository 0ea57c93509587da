"""Queue: mixed single, bulk, blocking and non-blocking operations."""
import asyncio

from a_sync.primitives import Queue

from h import Violation, check, spin
from vloop import vrun

GETS = ["get", "get", "get_nowait", "get_all", "get_all_nowait", "multi", "multi_less", "multi_nowait", "multi_nowait_less"]


def gen(rng, i, tier):
    horizon = 20
    maxsize = rng.choice([0, 0, 0, 1, 2, 4])
    gets = rng.choice([GETS, ["get"], ["get", "multi"], ["multi", "multi_less"], ["get", "get_all"], ["get_nowait", "get_all_nowait"]])
    big = tier != "quick" and rng.random() < 0.4

    def cancel():
        return rng.choice([None, None, [rng.randrange(horizon), rng.randrange(4)], [0, rng.randrange(4)]])

    return {
        "maxsize": maxsize,
        "producers": [
            {
                "at": rng.choice([0, 0, rng.randrange(horizon)]),
                "ops": [
                    [rng.choice(["put", "put", "put_nowait"]), rng.choice([None, None, 0, 1, 2]), rng.randrange(3)]
                    for _ in range(rng.randrange(1, 20 if big else 8))
                ],
                "cancel": cancel(),
            }
            for _ in range(rng.randrange(1, 8 if big else 4))
        ],
        "consumers": [
            {
                "at": rng.choice([0, 0, rng.randrange(horizon)]),
                "ops": [
                    [rng.choice(gets), rng.choice([2, 2, 3, 5]), rng.choice([None, None, 0, 1, 2]), rng.randrange(3)]
                    for _ in range(rng.randrange(1, 16 if big else 7))
                ],
                "cancel": cancel(),
                "work": rng.choice([None, 0, 1, 3]),
                "timeout": rng.choice([None, None, None, 1, 4]),
            }
            for _ in range(rng.randrange(1, 8 if big else 5))
        ],
        "joins": [rng.randrange(horizon) for _ in range(rng.randrange(0, 3))],
        "bad": rng.random() < 0.3,
    }


def run(case, ctx):
    stats = {
        "delivered": 0,
        "blocked_idle": 0,
        "multi_gets": 0,
        "multi_cancelled": 0,
        "cancelled": 0,
        "refused": 0,
        "joins": 0,
        "order_checks": 0,
    }
    order = []

    async def main():
        maxsize = case["maxsize"]
        q = Queue(maxsize)
        check(bool(q) is True, "an empty queue is falsy", "bool")
        loop = asyncio.get_running_loop()
        seq = [0]
        undelivered = {}  # insertion number -> item, not yet handed to a consumer
        multi = {}  # multi-get in flight -> how many it wants
        blocked = {}  # actor -> "get" / "put" / "join"
        st = {"unfinished": 0, "order": True, "zero_since": 0, "putback": 0}

        def held_max():
            return sum(n - 1 for n in multi.values())

        def put_done(item):
            undelivered[item] = item
            st["unfinished"] += 1

        def deliver(items, kind):
            check(not st["order"] or items == sorted(items), f"{kind} returned {items}, put in increasing order", "order")
            for x in items:
                check(x in undelivered, f"item {x} was delivered twice or never put", "exactly-once")
                del undelivered[x]
            if st["order"] and items and kind not in ("multi", "multi_less"):
                older = [y for y in undelivered if y < items[-1]]
                stats["order_checks"] += 1
                check(
                    len(older) <= held_max(),
                    f"{kind} returned {items} although {older} were put before and are still in the queue",
                    "order",
                )
            order.append((kind, len(items)))
            stats["delivered"] += len(items)

        def idle():
            for t, _ in tasks:
                if t.done() and not t.cancelled() and t.exception():
                    raise t.exception()
            n = len(q)
            check(n == q.qsize() and q.empty() == (n == 0), "len/qsize/empty disagree", "size")
            if maxsize:
                check(n <= maxsize + st["putback"], f"{n} items in a queue of {maxsize}", "bound")
                check(q.full() == (n >= maxsize), "full()", "size")
            check(
                len(undelivered) - held_max() <= n <= len(undelivered),
                f"{n} items in the queue; {len(undelivered)} put and not delivered, at most {held_max()} held by bulk gets",
                "conservation",
            )
            kinds = set(blocked.values())
            if "get" in kinds:
                stats["blocked_idle"] += 1
                check(n == 0, lambda: f"{n} items are available and {blocked} wait for one", "not-served")
            if "put" in kinds:
                stats["blocked_idle"] += 1
                check(maxsize and n >= maxsize, lambda: f"there is room ({n}/{maxsize}) and {blocked} wait for it", "not-served")
            if "join" in kinds:
                check(st["unfinished"], lambda: "all work is done and join() still waits", "join-late")

        loop.on_idle.append(idle)

        async def done_later(k, work):
            if work is not None:
                await asyncio.sleep(work / 1000)
            for _ in range(k):
                q.task_done()
                st["unfinished"] -= 1
            if not st["unfinished"]:
                st["zero_since"] += 1

        workers = []
        tasks = []

        def finish(k, work):
            if work is None:
                for _ in range(k):
                    q.task_done()
                    st["unfinished"] -= 1
                if not st["unfinished"]:
                    st["zero_since"] += 1
            else:
                workers.append(asyncio.ensure_future(done_later(k, work)))

        async def producer(i, p):
            if p["at"]:
                await asyncio.sleep(p["at"] / 1000)
            for op, gap, sp in p["ops"]:
                if op == "put":
                    who = ("p", i)
                    blocked[who] = "put"
                    # numbered when it is inserted: the insertion is the last thing put() does
                    box = Item(seq)
                    try:
                        await q.put(box)
                    finally:
                        del blocked[who]
                    check(box.n is None, "item numbered early", "harness")
                    box.n = seq[0]
                    seq[0] += 1
                    put_done(box.n)
                else:
                    full = bool(maxsize) and len(q) >= maxsize
                    box = Item(seq)
                    try:
                        q.put_nowait(box)
                    except asyncio.QueueFull:
                        check(full, f"QueueFull with {len(q)} of {maxsize} items", "spurious-full")
                        stats["refused"] += 1
                    else:
                        check(not full, "put_nowait went beyond the bound", "bound")
                        box.n = seq[0]
                        seq[0] += 1
                        put_done(box.n)
                if gap is not None:
                    await asyncio.sleep(gap / 1000)
                await spin(sp)

        def nums(items):
            for b in items:
                check(isinstance(b, Item) and b.n is not None, f"{b!r} came out of the queue before it was put in", "exactly-once")
            return [b.n for b in items]

        async def take(i, op, n):
            who = ("c", i)
            size = len(q)
            if op == "get_nowait":
                try:
                    items = [q.get_nowait()]
                except asyncio.QueueEmpty:
                    check(size == 0, f"QueueEmpty with {size} items", "spurious-empty")
                    stats["refused"] += 1
                    return []
            elif op == "get_all_nowait":
                try:
                    items = q.get_all_nowait()
                    check(len(items) == size, f"get_all_nowait returned {len(items)} of {size}", "all")
                except asyncio.QueueEmpty:
                    check(size == 0, f"QueueEmpty with {size} items", "spurious-empty")
                    stats["refused"] += 1
                    return []
            elif op in ("multi_nowait", "multi_nowait_less"):
                less = op.endswith("less")
                try:
                    items = q.get_multi_nowait(n, can_return_less=less)
                    want = min(n, size) if less else n
                    check(len(items) == want and size >= (1 if less else n), f"get_multi_nowait({n}) of {size} gave {len(items)}", "count")
                except asyncio.QueueEmpty:
                    check(size == 0 if less else size < n, f"QueueEmpty with {size} items for {n}", "spurious-empty")
                    check(len(q) == size, f"a failed get_multi_nowait left {len(q)} of {size} items", "lost")
                    stats["refused"] += 1
                    return []
            else:
                blocked[who] = "get"
                bulk = op in ("multi", "multi_less")
                if bulk:
                    multi[who] = n
                    stats["multi_gets"] += 1
                try:
                    if op == "get":
                        items = [await q.get()]
                    elif op == "get_all":
                        items = await q.get_all()
                        check(len(items) >= 1 and (size == 0 or len(items) == size), f"get_all gave {len(items)} of {size}", "all")
                    else:
                        items = await q.get_multi(n, can_return_less=op == "multi_less")
                        check(1 <= len(items) <= n and (op == "multi_less" or len(items) == n), f"get_multi({n}) gave {len(items)}", "count")
                except BaseException:
                    if bulk:
                        stats["multi_cancelled"] += 1
                        st["putback"] += n - 1  # what it gives back may exceed the bound for a while
                        if len(multi) > 1:
                            st["order"] = False  # two bulk gets gave items back: their order is open
                    raise
                finally:
                    del blocked[who]
                    multi.pop(who, None)
            deliver(nums(items), op)
            return items

        async def consumer(i, c):
            if c["at"]:
                await asyncio.sleep(c["at"] / 1000)
            for op, n, gap, sp in c["ops"]:
                try:
                    if c["timeout"]:
                        async with asyncio.timeout(c["timeout"] / 1000):
                            items = await take(i, op, n)
                    else:
                        items = await take(i, op, n)
                except TimeoutError:
                    continue
                if items:
                    finish(len(items), c["work"])
                if gap is not None:
                    await asyncio.sleep(gap / 1000)
                await spin(sp)

        async def joiner(at):
            await asyncio.sleep(at / 1000)
            zero = st["zero_since"]
            free = not st["unfinished"]
            who = ("j", id(asyncio.current_task()))
            blocked[who] = "join"
            try:
                await q.join()
            finally:
                del blocked[who]
            check(free or not st["unfinished"] or st["zero_since"] > zero, f"join() returned with {st['unfinished']} unfinished", "join-early")
            stats["joins"] += 1

        async def canceller(t, at, sp):
            await asyncio.sleep(at / 1000)
            await spin(sp)
            t.cancel()

        if case["bad"]:
            for bad in ((1,), (0,), (-1,), ("2",), (2.0,), (2, 1)):
                for fn in (q.get_multi_nowait, q.get_multi):
                    try:
                        r = fn(*bad)
                        if fn == q.get_multi:
                            r = await r
                    except (ValueError, TypeError):
                        pass
                    else:
                        raise Violation(f"{fn.__name__}{bad} was accepted and gave {r!r}", "bad-arguments")

        aux = []
        for kind, specs in ((producer, case["producers"]), (consumer, case["consumers"])):
            for i, s in enumerate(specs):
                t = asyncio.ensure_future(kind(i, s))
                tasks.append((t, s))
                if s["cancel"]:
                    aux.append(asyncio.ensure_future(canceller(t, *s["cancel"])))
        joiners = [asyncio.ensure_future(joiner(at)) for at in case["joins"]]
        await asyncio.gather(*aux)
        await asyncio.sleep(1)

        async def settle(which):
            while True:
                live = [t for t, _ in which if not t.done()]
                if not live:
                    return
                for t in live:
                    t.cancel()
                await asyncio.sleep(1)

        for t, s in tasks:
            if t.done() and not t.cancelled():
                t.result()
        # consumers that still wait are cancelled; what they held must come back
        consumers = tasks[len(case["producers"]) :]
        for t, s in consumers:
            if not t.done():
                s["cancel"] = True
        await settle(consumers)
        st["putback"] += 100
        for _ in range(500):
            live = [t for t, _ in tasks if not t.done()]
            try:
                items = q.get_all_nowait()
                deliver(nums(items), "drain")
                finish(len(items), None)
            except asyncio.QueueEmpty:
                if not live:
                    break
            await asyncio.sleep(0.001)
        await asyncio.sleep(1)
        for t, s in tasks:
            check(t.done(), "a producer is stuck although the queue was drained", "not-served")
            if t.cancelled():
                check(s["cancel"], "a client nobody cancelled ended cancelled", "cancelled")
                stats["cancelled"] += 1
            else:
                t.result()
        await asyncio.gather(*workers)
        await asyncio.sleep(1)
        check(not undelivered, f"items {sorted(undelivered)} were put and never came out", "lost")
        check(len(q) == 0, "items left that nobody put", "duplicated")
        for j in joiners:
            check(j.done(), "join() still waits although everything is done", "join-late")
            j.result()
        check(st["unfinished"] == 0, "harness", "harness")
        try:
            q.task_done()
        except ValueError:
            pass
        else:
            raise Violation("one task_done() too many was accepted: completion is counted wrongly", "join-count")
        loop.on_idle.remove(idle)

    _, loop = vrun(main)
    check(not loop.unhandled, lambda: f"unhandled: {loop.unhandled}", "unhandled")
    for k, v in stats.items():
        ctx.count(k, v)
    if stats["delivered"] and stats["blocked_idle"]:
        ctx.nontrivial(order, stats["cancelled"], case["maxsize"])
    ctx.sample({"maxsize": case["maxsize"], "deliveries": [f"{k}:{n}" for k, n in order][:40], "stats": stats})


class Item:
    """An item; numbered in the order of insertion."""

    __slots__ = ("n", "__weakref__")

    def __init__(self, seq):
        self.n = None

    def __repr__(self):
        return f"Item({self.n})"
