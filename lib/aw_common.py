"""Awaitables with a known script: what they return or raise, when, and how often they were run."""
import asyncio

import a_sync

from h import Boom, BoomBase, spin, boom

KINDS = ["coro", "coro", "task", "future", "custom", "asyncfuture", "dual"]


def gen(rng, n, kinds=KINDS, ends=("ok", "ok", "ok", "err"), horizon=8, distinct=False, unique=False):
    times = list(range(1, n + 1)) if distinct else None
    if distinct:
        rng.shuffle(times)
    return [
        {
            "kind": rng.choice(kinds),
            "delay": times[i] if distinct else rng.choice([None, 0, rng.randrange(1, horizon)]),
            "spin": rng.randrange(3),
            "end": rng.choice(ends),
            "value": [i] if unique else rng.choice([None, 0, 1, "", "v", True, False, [i]]),
        }
        for i in range(n)
    ]


class Custom:
    def __init__(self, coro_fn):
        self.coro_fn = coro_fn

    def __await__(self):
        return self.coro_fn().__await__()


class Rec:
    """One awaitable and what happened to it."""

    def __init__(self, i, spec, book):
        self.i, self.spec, self.book = i, spec, book
        self.runs = 0
        self.done_at = None
        self.cancelled = 0
        self.exc = boom(i) if spec["end"] == "err" else BoomBase(i) if spec["end"] == "base" else None
        self.value = spec["value"] if not isinstance(spec["value"], list) else [i, "obj"]

    async def body(self):
        self.runs += 1
        self.book.running += 1
        self.book.peak = max(self.book.peak, self.book.running)
        try:
            if self.spec["delay"] is not None:
                await asyncio.sleep(self.spec["delay"] / 1000)
            await spin(self.spec["spin"])
            if self.spec["end"] == "cancel":
                raise asyncio.CancelledError("by itself")
            if self.exc is not None:
                raise self.exc
            return self.value
        except asyncio.CancelledError:
            self.cancelled += 1
            raise
        finally:
            self.book.running -= 1
            self.done_at = self.book.clock()
            self.book.order.append(self.i)

    def make(self):
        k = self.spec["kind"]
        if k == "coro":
            return self.body()
        if k == "task":
            return asyncio.ensure_future(self.body())
        if k == "custom":
            return Custom(self.body)
        if k == "asyncfuture":
            return a_sync.ASyncFuture(self.body())
        if k == "dual":
            return a_sync.a_sync(self.body)()
        loop = asyncio.get_running_loop()
        fut = loop.create_future()

        async def setter():
            try:
                v = await self.body()
            except asyncio.CancelledError:
                fut.cancel()
            except BaseException as e:
                if not fut.done():
                    fut.set_exception(e)
            else:
                if not fut.done():
                    fut.set_result(v)

        self.book.keep.append(asyncio.ensure_future(setter()))
        return fut


class Book:
    def __init__(self, specs):
        self.order = []
        self.keep = []
        self.running = self.peak = 0
        self.recs = [Rec(i, s, self) for i, s in enumerate(specs)]

    def clock(self):
        return round(asyncio.get_running_loop().time(), 9)
