"""What finished work leaves behind: every argument, result, failure, item, instance and function that took part is
watched through a weak reference; after the work, its handles dropped and the documented clean-up time passed, none is
alive, no task, timer or thread is left; and repeating the work with the same handles makes no kind of object more numerous."""

import asyncio
import collections
import concurrent.futures
import gc
import logging
import threading
import time
import types
import weakref

import a_sync
from a_sync import TaskMapping
from a_sync._smart import SmartFuture, set_smart_task_factory, shield
from a_sync.a_sync._descriptor import ASyncDescriptor  # noqa: F401
from a_sync.a_sync.method import ASyncMethodDescriptor
from a_sync.a_sync.property import a_sync_cached_property, a_sync_property
from a_sync.executor import AsyncThreadPoolExecutor, PruningThreadPoolExecutor
from a_sync.future import ASyncFuture, future
from a_sync.iter import ASyncFilter, ASyncGeneratorFunction, ASyncIterable, ASyncIterator, ASyncSorter
from a_sync.primitives import CounterLock, Event, PrioritySemaphore, Semaphore, ThreadsafeSemaphore
from a_sync.primitives.locks.counter import CounterLockCluster
from a_sync.primitives.queue import PriorityProcessingQueue, ProcessingQueue, Queue, SmartProcessingQueue, VariablePriorityQueue
from a_sync.utils.iterators import as_yielded, exhaust_iterator, exhaust_iterators

from h import Violation, check
from vloop import VirtualLoop, dispose

logging.getLogger("a_sync").addHandler(logging.NullHandler())
dual = a_sync.a_sync
HOWS = ["ok", "ok", "ok", "err", "stop", "cancel", "late"]


class Token:
    """Something that takes part; weakly watched."""

    __slots__ = ("no", "__weakref__")

    def __init__(self, no):
        self.no = no

    def __repr__(self):
        return f"T{self.no}"

    def __lt__(self, other):
        return self.no < other.no


class Oops(Exception):
    pass


class W:
    """The world of one case: makes the watched objects and knows which are alive."""

    def __init__(self, case, rng):
        self.case, self.rng, self.n = case, rng, 0
        self.refs = []
        self.made = collections.Counter()

    def watch(self, obj, what, handle=False):
        self.made[what] += 1
        self.refs.append((weakref.ref(obj), what, handle))
        return obj

    def tok(self, what="argument"):
        self.n += 1
        return self.watch(Token(self.n), what)

    def oops(self):
        return self.watch(Oops(self.tok("payload")), "exception")

    def alive(self, handles):
        return [(r(), what) for r, what, handle in self.refs if (handles or not handle) and r() is not None]

    async def body(self, how, dur, *seen):
        """What a call does: holds what it was given, waits, then ends as told."""
        held = self.tok("local")
        if dur:
            await asyncio.sleep(dur)
        if how == "err":
            raise self.oops()
        if how == "stop":
            raise asyncio.CancelledError(self.tok("payload"))
        if how in ("cancel",):
            await asyncio.sleep(50)
        del held
        return self.tok("result")

    def plain(self, how, *seen):
        held = self.tok("local")
        if how in ("err", "stop"):
            raise self.oops()
        del held
        return self.tok("result")


async def finish(aw, how):
    """Waits for something as told and lets go of whatever comes of it."""
    t = asyncio.ensure_future(aw)
    del aw
    if how in ("cancel", "late"):
        await asyncio.sleep(0.1 if how == "late" else 0.5)
        t.cancel()
    try:
        await t
    except (asyncio.CancelledError, Oops):
        pass


async def everyone(pairs):
    await asyncio.gather(*[finish(aw, how) for aw, how in pairs])


OPS = {}


def op(cls):
    OPS[cls.__name__] = cls
    return cls


class Op:
    sync = False  # use() is called outside of a running loop
    keeps = ()  # kinds of watched objects that the handle itself keeps by its nature
    threads = False

    def __init__(self, w):
        self.w = w


# functions -------------------------------------------------------------------------------------------------


@op
class Function(Op):
    MODS = [{}, {}, {"semaphore": 1}, {"semaphore": 3}, {"runs_per_minute": 3}, {"semaphore": 2, "runs_per_minute": 4}]

    def __init__(self, w):
        super().__init__(w)
        mods = w.rng.choice(self.MODS)

        @dual(default=w.rng.choice(["sync", "async", None]), **mods)
        async def f(how, dur, *args, **kwargs):
            return await w.body(how, dur, *args)

        self.f = w.watch(f, "function", True)

    async def use(self):
        w = self.w
        await everyone([(self.f(how, w.rng.choice([0, 0.2, 1]), w.tok(), k=w.tok(), sync=False), how) for how in w.case["hows"]])


@op
class CachedFunction(Op):
    keeps = ("argument", "result", "exception", "payload")

    def __init__(self, w):
        super().__init__(w)
        self.ttl = w.rng.choice([None, 5])
        self.size = w.rng.choice([None, 2])

        @dual("async", cache_type="memory", ram_cache_maxsize=self.size, ram_cache_ttl=self.ttl)
        async def f(how, dur, arg):
            return await w.body(how, dur, arg)

        self.f = w.watch(f, "function", True)
        if self.size is None and self.ttl is None:
            self.growing = True  # an unbounded cache

    async def use(self):
        w = self.w
        for how in w.case["hows"]:
            a = w.tok()
            await everyone([(self.f(how, 0.2, a), h) for h in (how, "late", how)])


@op
class CachedFunctionSameArg(Op):
    """An entry that expires, is computed anew and expires again is one entry at most."""

    keeps = ("result",)

    def __init__(self, w):
        super().__init__(w)

        @dual("async", cache_type="memory", ram_cache_ttl=2)
        async def f(arg):
            return await w.body("ok", 0.1)

        self.f = w.watch(f, "function", True)

    async def use(self):
        await everyone([(self.f(1), "ok"), (self.f(1), "late"), (self.f(1), "ok")])
        await asyncio.sleep(3)


@op
class PlainFunction(Op):
    def __init__(self, w):
        super().__init__(w)

        def f(how, *args, **kwargs):
            return w.plain(how, *args)

        self.f = w.watch(dual(f, default=w.rng.choice(["sync", "async"])), "function", True)

    async def use(self):
        w = self.w
        loop = asyncio.get_running_loop()
        for how in w.case["hows"]:
            loop.external += 1
            try:
                await self.f(how, w.tok(), k=w.tok(), sync=False)
            except Oops:
                pass
            finally:
                loop.external -= 1
            try:
                self.f(how, w.tok(), sync=True)
            except Oops:
                pass


@op
class SyncCalls(Op):
    sync = True

    def __init__(self, w):
        super().__init__(w)

        @dual("sync", **w.rng.choice(Function.MODS[:4]))
        async def f(how, *args):
            return await w.body(how, 0.1, *args)

        self.f = w.watch(f, "function", True)

    def use(self):
        w = self.w
        for how in w.case["hows"]:
            try:
                self.f("ok" if how in ("cancel", "late") else how, w.tok())
            except (Oops, asyncio.CancelledError):
                pass


@op
class DecorateAndDrop(Op):
    sync = True

    def use(self):
        w = self.w
        mods = w.rng.choice([{}, {"semaphore": 2}, {"runs_per_minute": 6}, {"cache_type": "memory"}])

        async def f(x):
            return await w.body("ok", 0, x)

        def g(x):
            return w.plain("ok", x)

        w.watch(f, "function")
        w.watch(g, "function")
        df, dg = w.watch(dual(f, default="sync", **mods), "dual"), w.watch(dual(g, default="sync"), "dual")
        df(w.tok())
        dg(w.tok())
        try:
            dual(lambda sync: sync)
        except Exception:
            pass


# classes ---------------------------------------------------------------------------------------------------


def make_class(w, base=a_sync.ASyncGenericBase):
    class Thing(base):
        def __init__(self, sync):
            self.sync = sync
            super().__init__()

        async def meth(self, how, dur, *args):
            return await w.body(how, dur, *args)

        @dual("async", semaphore=2)
        async def counted(self, how, dur, *args):
            return await w.body(how, dur, *args)

        @dual("async", runs_per_minute=5)
        async def limited(self, how, dur, *args):
            return await w.body(how, dur, *args)

        @dual("async", cache_type="memory", ram_cache_ttl=3)
        async def cached(self, how, dur, *args):
            return await w.body(how, dur, *args)

        def plain(self, how, *args):
            return w.plain(how, *args)

        @a_sync_property
        async def prop(self):
            return await w.body("ok", 0.1)

        @a_sync_cached_property
        async def cprop(self):
            return await w.body("ok", 0.1)

        @a_sync_cached_property
        async def bad(self):
            return await w.body("err", 0.1)

        async def gen(self, *args):
            for _ in range(3):
                yield await w.body("ok", 0.01)

    return Thing


class Instances(Op):
    own = True

    def __init__(self, w):
        super().__init__(w)
        self.Thing = w.watch(make_class(w), "class", True)
        self.inst = None

    def thing(self):
        return self.w.watch(self.Thing(sync=self.w.rng.random() < 0.5), "instance")

    async def members(self, x):
        w = self.w
        for name in w.rng.sample(["meth", "counted", "limited", "cached", "plain", "prop", "cprop", "bad", "gen", "held"], w.rng.randint(1, 6)):
            if name in ("meth", "counted", "limited", "cached"):
                await everyone([(getattr(x, name)(how, w.rng.choice([0, 0.3]), w.tok(), sync=False), how) for how in w.case["hows"]])
            elif name == "plain":
                try:
                    x.plain(w.case["hows"][0], w.tok(), sync=True)
                except Oops:
                    pass
            elif name == "gen":
                n = w.rng.choice([1, 9])
                async for got in x.gen(w.tok()):
                    n -= 1
                    if not n:
                        break
                got = None
            elif name == "held":
                m = x.meth
                await finish(m("ok", 0, w.tok(), sync=False), "ok")
                m = None  # noqa: F841
            else:
                hidden = getattr(x, f"__{name}__")
                await everyone([(hidden(sync=False), how) for how in w.case["hows"]])
                hidden = None


@op
class NewInstances(Instances):
    async def use(self):
        for _ in range(2):
            x = self.thing()
            await self.members(x)
            if self.w.rng.random() < 0.5:
                x.me = x  # a cycle through the instance
            if self.w.rng.random() < 0.3:
                await asyncio.sleep(self.w.rng.choice([1, 200, 400]))


@op
class OneInstance(Instances):
    keeps = ("instance", "result", "argument")

    async def use(self):
        if self.inst is None:
            self.inst = self.thing()
        await self.members(self.inst)


@op
class SyncInstances(Instances):
    sync = True

    def use(self):
        w = self.w
        x = w.watch(self.Thing(sync=True), "instance")
        for how in w.case["hows"]:
            how = "ok" if how in ("cancel", "late") else how
            try:
                x.meth(how, 0, w.tok())
            except (Oops, asyncio.CancelledError):
                pass
        x.prop, x.cprop  # noqa: B018
        for got in x.gen(w.tok()):
            pass


@op
class ClassesDropped(Op):
    sync = True

    def use(self):
        w = self.w
        base = w.rng.choice([a_sync.ASyncGenericBase, a_sync.ASyncGenericSingleton])
        cls = w.watch(make_class(w, base), "class")
        x = w.watch(cls(sync=True), "instance")
        x.meth("ok", 0, w.tok())
        x.prop, x.cprop  # noqa: B018
        if w.rng.random() < 0.5:
            sub = w.watch(type("Sub", (cls,), {}), "class")
            y = w.watch(sub(sync=True), "instance")
            y.plain("ok", w.tok())


@op
class PlainClass(Op):
    """Descriptors on a class that is none of the library's."""

    def __init__(self, w):
        super().__init__(w)

        class Plain:
            @ASyncMethodDescriptor
            async def meth(self, how, dur, *args):
                return await w.body(how, dur, *args)

            @ASyncGeneratorFunction
            async def gen(self, x):
                yield await w.body("ok", 0, x)
                yield 1

            @a_sync_cached_property
            async def cprop(self):
                return await w.body("ok", 0.1)

        self.Plain = w.watch(Plain, "class", True)

    async def use(self):
        w = self.w
        x = w.watch(self.Plain(), "instance")
        await everyone([(x.meth(how, 0.2, w.tok(), sync=False), how) for how in w.case["hows"]])
        async for _ in x.gen(w.tok()):
            break
        await x.cprop


# primitives ------------------------------------------------------------------------------------------------


@op
class Semaphores(Op):
    def __init__(self, w):
        super().__init__(w)
        self.kind = w.rng.choice(["semaphore", "threadsafe", "prio", "prio_levels", "decorated"])
        cls = {"semaphore": Semaphore, "threadsafe": ThreadsafeSemaphore, "decorated": Semaphore}.get(self.kind, PrioritySemaphore)
        self.sem = cls(1, name="s")
        if type(self.sem).__weakrefoffset__:
            w.watch(self.sem, "semaphore", True)
        self.f = None
        if self.kind == "decorated":
            self.f = self.sem(lambda_body(w))

    async def one(self, how, k):
        w = self.w
        if self.f is not None:
            return await self.f(how, 0.3, w.tok())
        # a level is taken once: other numbers each time
        async with (self.sem[w.rng.randint(-50, 1000)] if self.kind == "prio_levels" else self.sem):
            return await w.body(how, 0.3, w.tok())

    async def use(self):
        await everyone([(self.one(how, k), how) for k, how in enumerate(self.w.case["hows"])])


def lambda_body(w):
    async def f(how, dur, *args):
        return await w.body(how, dur, *args)

    return f


@op
class Events(Op):
    def __init__(self, w):
        super().__init__(w)
        self.kind = w.rng.choice(["event", "counter", "cluster"])
        self.n = 0
        self.x = Event("e") if self.kind == "event" else CounterLock(name="c")
        self.y = CounterLockCluster([self.x, CounterLock(10**9)]) if self.kind == "cluster" else self.x
        if type(self.x).__weakrefoffset__:
            w.watch(self.x, "event", True)

    async def one(self, k):
        held = self.w.tok("local")
        await (self.x.wait() if self.kind == "event" else self.y.wait_for(self.n + k))
        del held

    async def use(self):
        clients = [asyncio.ensure_future(finish(self.one(k % 3 + 1), how)) for k, how in enumerate(self.w.case["hows"])]
        await asyncio.sleep(1)
        if self.kind == "event":
            self.x.set()
            self.x.clear()
        else:
            self.n += 3
            self.x.set(self.n)
        await asyncio.gather(*clients)


@op
class ManyThreads(Op):
    """Objects shared by threads that come and go."""

    sync = True

    def __init__(self, w):
        super().__init__(w)
        self.sem = ThreadsafeSemaphore(2)

        @dual("async", semaphore=2)
        async def f(*args):
            return await w.body("ok", 0, *args)

        self.f = f
        self.Thing = make_class(w)
        self.inst = self.Thing(sync=True)

    def use(self):
        w = self.w
        failed = []

        async def main():
            async with self.sem:
                await asyncio.sleep(0)
            await asyncio.gather(*[self.f(w.tok()) for _ in range(3)])
            async with self.sem:
                pass

        def go():
            try:
                w.watch(threading.current_thread(), "thread")
                asyncio.run(main())
                self.f(w.tok(), sync=True)
                self.inst.meth("ok", 0, w.tok())
                asyncio.get_event_loop_policy().get_event_loop().close()
            except BaseException as e:
                failed.append(e)

        t = threading.Thread(target=go)
        t.start()
        t.join()
        if failed:
            raise failed[0]


# queues ----------------------------------------------------------------------------------------------------


@op
class Queues(Op):
    def __init__(self, w):
        super().__init__(w)
        self.q = w.watch(Queue(w.rng.choice([0, 2])), "queue", True)

    async def use(self):
        w, q = self.w, self.q
        n = len(w.case["hows"])

        async def produce():
            for _ in range(n):
                await q.put(w.tok("item"))

        async def consume(k):
            got = 0
            while got < n:
                what = w.rng.choice(["get", "get_multi", "get_all", "nowait"])
                if what == "get":
                    await q.get()
                    c = 1
                elif what == "get_multi":
                    c = len(await q.get_multi(2)) if n - got >= 2 else (await q.get() and 1)
                elif what == "get_all":
                    c = len(await q.get_all())
                else:
                    try:
                        q.get_nowait()
                        c = 1
                    except asyncio.QueueEmpty:
                        await asyncio.sleep(0.01)
                        continue
                got += c
                for _ in range(c):
                    q.task_done()

        await everyone([(q.get(), "late"), (q.get_all(), "late"), (q.get_multi(3), "cancel")])
        await asyncio.gather(produce(), consume(0))
        await q.join()


class Jobs(Op):
    def make(self, fn):
        raise NotImplementedError

    def __init__(self, w):
        super().__init__(w)

        async def work(how, no, *args, **kwargs):
            if how == "cancel":
                how = "ok"
            if how == "stop":
                how = "err"
            return await w.body(how, 0.2, *args)

        self.q = w.watch(self.make(work), "queue", True)

    def put(self, k, how):
        w = self.w
        return self.q.put_nowait(how, k, w.tok(), x=w.tok())

    async def use(self):
        futs = [(self.put(k, how), how) for k, how in enumerate(self.w.case["hows"])]
        if self.w.rng.random() < 0.4:
            futs.pop()  # nobody waits for the last
        await everyone(futs)
        del futs
        await self.q.join()


@op
class Processing(Jobs):
    def make(self, fn):
        return ProcessingQueue(fn, self.w.rng.randint(1, 3))


@op
class Smart(Jobs):
    def make(self, fn):
        return SmartProcessingQueue(fn, self.w.rng.randint(1, 3))

    def put(self, k, how):
        if k == 0:
            self.shared = self.w.tok()
        arg = self.shared if k % 2 else self.w.tok()
        if k == len(self.w.case["hows"]) - 1:
            del self.shared
        return self.q.put_nowait(how, 0, arg)


@op
class Priority(Jobs):
    def make(self, fn):
        return PriorityProcessingQueue(fn, self.w.rng.randint(1, 3))

    def put(self, k, how):
        return self.q.put_nowait(self.w.rng.randint(0, 3), how, k, self.w.tok())


@op
class Variable(Op):
    def __init__(self, w):
        super().__init__(w)
        self.q = w.watch(VariablePriorityQueue(), "queue", True)

    async def use(self):
        w = self.w
        for _ in w.case["hows"]:
            self.q.put_nowait(w.tok("item"))
        for _ in w.case["hows"]:
            await self.q.get()


@op
class QueuesDropped(Op):
    async def use(self):
        w = self.w

        async def work(how, no, *args):
            return await w.body("ok" if how in ("cancel", "stop") else how, 0.1, *args)

        cls = w.rng.choice([ProcessingQueue, SmartProcessingQueue, PriorityProcessingQueue])
        q = w.watch(cls(work, 2), "dropped queue")
        pre = (1,) if cls is PriorityProcessingQueue else ()
        futs = [(q.put_nowait(*pre, how, k, w.tok()), how) for k, how in enumerate(w.case["hows"])]
        await everyone(futs)
        await q.join()
        del futs, q


# executors -------------------------------------------------------------------------------------------------


@op
class Executors(Op):
    threads = True

    def __init__(self, w):
        super().__init__(w)
        self.kind = w.rng.choice(["thread", "pruning", "inline"])
        self.pool = {"thread": lambda: AsyncThreadPoolExecutor(2), "pruning": lambda: PruningThreadPoolExecutor(2, timeout=1), "inline": lambda: AsyncThreadPoolExecutor(0)}[self.kind]()
        w.watch(self.pool, "executor", True)

    async def use(self):
        w = self.w
        loop = asyncio.get_running_loop()
        loop.external += 1
        try:
            aws = []
            for k, how in enumerate(w.case["hows"]):
                how = "ok" if how in ("cancel", "late", "stop") else how
                aws.append(self.pool.submit(w.plain, how, w.tok()) if k % 2 else self.pool.run(w.plain, how, w.tok()))
            for aw in aws:
                try:
                    await aw
                except Oops:
                    pass
            aws.clear()
            del aw
        finally:
            loop.external -= 1


@op
class ExecutorsDropped(Executors):
    def __init__(self, w):
        Op.__init__(self, w)
        self.pool = None

    async def use(self):
        w = self.w
        self.pool = w.watch(w.rng.choice([lambda: AsyncThreadPoolExecutor(2), lambda: PruningThreadPoolExecutor(2, timeout=1)])(), "dropped executor")
        try:
            await Executors.use(self)
        finally:
            self.pool = None


@op
class FunctionWithExecutor(Op):
    threads = True

    def __init__(self, w):
        super().__init__(w)

        def f(how, *args):
            return w.plain(how, *args)

        self.f = w.watch(dual("async", executor=PruningThreadPoolExecutor(1, timeout=1))(f), "function", True)

    async def use(self):
        w = self.w
        loop = asyncio.get_running_loop()
        loop.external += 1
        try:
            for how in w.case["hows"]:
                try:
                    await self.f("ok" if how in ("cancel", "late", "stop") else how, w.tok())
                except Oops:
                    pass
        finally:
            loop.external -= 1


# tasks and collections -------------------------------------------------------------------------------------


@op
class Tasks(Op):
    async def use(self):
        w = self.w
        out = []
        for k, how in enumerate(w.case["hows"]):
            keep = w.rng.random() < 0.5 and how not in ("err", "stop")
            t = a_sync.create_task(w.body(how, 0.2, w.tok()), name=f"n{k}", skip_gc_until_done=keep)
            w.watch(t, "task")
            if keep and how == "ok":
                del t
                continue
            out.append((t, how))
            del t
        await everyone(out)
        await asyncio.sleep(1)


@op
class Gathers(Op):
    async def use(self):
        w = self.w
        n = [h for h in w.case["hows"] if h != "cancel"] or ["ok"]
        kind = w.rng.choice(["list", "map", "exc"])
        try:
            if kind == "map":
                await a_sync.gather({w.tok("key"): w.body(h, 0.1 * k) for k, h in enumerate(n)})
            else:
                await a_sync.gather(*[w.body(h, 0.1 * k) for k, h in enumerate(n)], return_exceptions=kind == "exc")
        except (Oops, asyncio.CancelledError):
            pass
        await finish(a_sync.gather(*[w.body("cancel", 1) for _ in n]), "cancel")
        await asyncio.sleep(2)


@op
class AsCompleted(Op):
    async def use(self):
        w = self.w
        n = [h for h in w.case["hows"] if h != "cancel"] or ["ok"]
        kind = w.rng.choice(["list", "map", "aiter", "amap", "stop"])
        fs = {w.tok("key"): w.body(h, 0.1 * k) for k, h in enumerate(n)} if "map" in kind else [w.body(h, 0.1 * k) for k, h in enumerate(n)]
        try:
            if kind in ("aiter", "amap"):
                async for x in a_sync.as_completed(fs, aiter=True):
                    pass
            else:
                for x in a_sync.as_completed(fs):
                    try:
                        await x
                    except (Oops, asyncio.CancelledError):
                        pass
                    if kind == "stop":
                        break
        except (Oops, asyncio.CancelledError):
            pass
        del fs
        await asyncio.sleep(3)


def source(w, n, how):
    async def gen():
        held = w.tok("local")
        for k in range(n):
            await asyncio.sleep(0.1)
            yield w.tok("item")
        if how == "err":
            raise w.oops()
        del held

    return gen()


@op
class Merged(Op):
    async def use(self):
        w = self.w
        hows = w.case["hows"]
        kind = w.rng.choice(["all", "break", "cancel", "exhaust"])

        async def go():
            try:
                if kind == "exhaust":
                    await exhaust_iterators([source(w, 2, h) for h in hows])
                    await exhaust_iterator(source(w, 3, "ok"), queue=None)
                    return
                n = 0
                agen = as_yielded(*[source(w, 3, h) for h in hows])
                async for x in agen:
                    n += 1
                    if kind == "break" and n == 2:
                        break
                del agen
            except Oops:
                pass

        await finish(go(), "late" if kind == "cancel" else "ok")
        await asyncio.sleep(1)


@op
class AnyAll(Op):
    async def use(self):
        w = self.w
        for fn in (a_sync.any, a_sync.all):
            try:
                await fn(*[w.body("ok" if h == "cancel" else h, 0.1 * k) for k, h in enumerate(w.case["hows"])])
            except (Oops, asyncio.CancelledError):
                pass
        await asyncio.sleep(3)


@op
class Mapping(Op):
    async def use(self):
        w = self.w

        async def f(key, *args):
            return await w.body("ok" if w.fate.get(key.no) in ("cancel", None) else w.fate[key.no], 0.1, key)

        w.fate = {}
        keys = [w.tok("key") for _ in w.case["hows"]]
        for k, h in zip(keys, w.case["hows"]):
            w.fate[k.no] = "ok" if h == "late" else h
        m = w.watch(TaskMapping(f, concurrency=w.rng.choice([None, 1, 2]), name=w.rng.choice(["", "m"])), "mapping")
        kind = w.rng.choice(["map", "map_keep", "getitem", "await", "iter_break", "aggregate", "close"])
        try:
            if kind.startswith("map"):
                async for k, x in m.map(keys, pop=kind == "map"):
                    pass
            elif kind == "getitem":
                for k in keys:
                    await finish(m[k], w.rng.choice(["ok", "late"]))
            elif kind == "await":
                for k in keys:
                    m[k]
                await m
            elif kind == "iter_break":
                async for k, x in m.map(keys):
                    break
            elif kind == "close":
                for k in keys:
                    m[k]
                await asyncio.sleep(0.05)
                await m.close()
            else:
                for k in keys:
                    m[k]
                await w.rng.choice([m.any, m.all])(pop=w.rng.random() < 0.5, sync=False)
        except (Oops, asyncio.CancelledError):
            pass
        k = x = None  # noqa: F841
        keys.clear()
        del m
        await asyncio.sleep(2)


@op
class OneMapping(Op):
    """A mapping that stays in use and is emptied every time."""

    def __init__(self, w):
        super().__init__(w)

        async def f(key, *args):
            return await w.body(w.fate.get(key.no, "ok"), 0.1, key)

        w.fate = {}
        self.m = w.watch(TaskMapping(f, concurrency=w.rng.choice([None, 2])), "mapping", True)

    async def use(self):
        w, m = self.w, self.m
        w.fate.clear()
        for how in w.case["hows"]:
            k = w.tok("key")
            if how == "err":
                w.fate[k.no] = "err"
            m[k]
            await asyncio.sleep(0.01)
            if how in ("late", "cancel"):
                m.pop(k, cancel=True)
            else:
                try:
                    await m.pop(k)
                except Oops:
                    pass
        del k


@op
class Deferred(Op):
    async def use(self):
        w = self.w

        async def num(how, x):
            await w.body("ok" if how in ("cancel", "stop") else how, 0.1)
            return Num(w, x)

        dn = future(num)
        for how in w.case["hows"]:
            a, b = w.watch(dn(how, 1), "deferred"), w.watch(ASyncFuture(num("ok", 2)), "deferred")
            c = w.watch((a + b) + Num(w, 3), "deferred")
            await asyncio.gather(finish(one(c), "ok"), finish(one(c), "late"), finish(one(a), "ok"), finish(one(b), "ok"))
            del a, b, c


class Num:
    __slots__ = ("v", "w", "__weakref__")

    def __init__(self, w, v):
        self.v, self.w = v, w
        w.watch(self, "result")

    def __add__(self, other):
        return Num(self.w, self.v + other.v)


async def one(aw):
    return await aw


@op
class SmartFutures(Op):
    async def use(self):
        w = self.w
        loop = asyncio.get_running_loop()
        f = w.watch(SmartFuture(queue=None, key=None, loop=loop), "future")
        ts = [asyncio.ensure_future(finish(shield(f) if how != "ok" else shielded(f), how)) for how in w.case["hows"]]
        await asyncio.sleep(2)
        if w.case["hows"][0] == "err":
            f.set_exception(w.oops())
        else:
            f.set_result(w.tok("result"))
        await asyncio.gather(*ts)
        try:
            await f
        except Oops:
            pass
        del f


async def shielded(f):
    return await shield(f)


@op
class SmartTasks(Op):
    async def use(self):
        w = self.w
        loop = asyncio.get_running_loop()
        old = loop.get_task_factory()
        set_smart_task_factory(loop)
        try:
            t = w.watch(loop.create_task(w.body("ok" if w.case["hows"][0] != "err" else "err", 1, w.tok())), "task")
        finally:
            loop.set_task_factory(old)
        await asyncio.gather(*[finish(shielded(t), how) for how in w.case["hows"]])
        del t


@op
class Iterables(Op):
    async def use(self):
        w = self.w
        how = w.case["hows"][0]
        kind = w.rng.choice(["iterable", "iterator", "filter", "sort", "await", "break", "generator"])

        class Src:
            def __aiter__(self):
                return source(w, 4, how)

        async def pred(x):
            held = w.tok("local")
            await asyncio.sleep(0.01)
            return held is not None

        async def key(x):
            return x.no

        src = w.watch(Src(), "source")
        try:
            if kind == "filter":
                view = ASyncFilter(pred, src)
            elif kind == "sort":
                view = ASyncSorter(src, key=key)
            elif kind == "iterator":
                view = ASyncIterator(source(w, 4, how))
            elif kind == "generator":
                view = ASyncGeneratorFunction(lambda: source(w, 4, how))()
            else:
                view = ASyncIterable(src)
            if type(view).__weakrefoffset__:
                w.watch(view, "view")
            if kind == "await":
                await view
            else:
                async for x in view:
                    if kind == "break":
                        break
                x = None  # noqa: F841
        except Oops:
            pass
        view = src = None
        await asyncio.sleep(1)


@op
class SyncIterables(Op):
    sync = True

    def use(self):
        w = self.w
        view = ASyncIterable(source(w, 4, w.case["hows"][0])) if w.rng.random() < 0.5 else ASyncIterator(source(w, 4, w.case["hows"][0]))
        try:
            for x in view:
                if w.rng.random() < 0.2:
                    break
        except Oops:
            pass


# the run ---------------------------------------------------------------------------------------------------


def gen(rng, i, tier):
    names = sorted(OPS)
    return {
        "i": i,
        "ops": [names[i % len(names)]] + [rng.choice(names) for _ in range(rng.choice([0, 0, 1, 2]))],
        "seed": rng.randrange(10**9),
        "hows": [rng.choice(HOWS) for _ in range(rng.randint(1, 5))],
        "together": rng.random() < 0.5,
        "repeat": rng.choice([4, 6]),
        "grow": rng.random() < 0.35,
        "keep_loop": rng.random() < 0.7,
    }


def settle(loop, far=True):
    """Everything that was started has come to its end, the documented clean-up time included."""

    async def rest():
        await asyncio.sleep(400 if far else 30)

    loop.run_until_complete(loop.create_task(rest()))
    gc.collect()
    loop.run_until_complete(loop.create_task(asyncio.sleep(1)))
    loop.unhandled.clear()  # reports of failures nobody waited for
    gc.collect()
    loop.unhandled.clear()
    gc.collect()


def eventually(cond, seconds=5):
    """What other threads hold goes when they get round to it."""
    end = time.monotonic() + seconds
    while not cond():
        if time.monotonic() > end:
            return False
        time.sleep(0.005)
        gc.collect()
    return True


HARMLESS = {"frame", "cell", "wrapper_descriptor", "method-wrapper", "builtin_function_or_method"}


def census():
    c = collections.Counter(map(type, gc.get_objects()))
    return {f"{t.__module__}.{t.__qualname__}": n for t, n in c.items() if isinstance(t.__module__, str) and isinstance(getattr(t, "__qualname__", None), str)}


def use_all(loop, ops, case):
    if case["together"]:
        rest = [o for o in ops if not o.sync]

        async def main():
            await asyncio.gather(*[o.use() for o in rest])

        if rest:
            loop.run_until_complete(loop.create_task(main()))
        for o in ops:
            if o.sync:
                o.use()
    else:
        for o in ops:
            if o.sync:
                o.use()
            else:
                loop.run_until_complete(loop.create_task(o.use()))


def whose(obj):
    """Who still refers to it."""
    out = []
    for r in gc.get_referrers(obj):
        if isinstance(r, types.FrameType) or r is globals():
            continue
        out.append(f"{type(r).__name__} {str(r)[:150]}")
        for s in gc.get_referrers(r)[:3]:
            if not isinstance(s, types.FrameType):
                out.append(f"   < {type(s).__name__} {str(s)[:100]}")
    return "; ".join(out[:8])


def run(case, ctx):
    import h

    rng = h.rng_of("c35", case["seed"])
    gc.collect()
    before_threads = set(threading.enumerate())
    loop = VirtualLoop(400000)
    asyncio.set_event_loop(loop)
    w = W(case, rng)
    names = "+".join(case["ops"])
    try:
        ops = [OPS[name](w) for name in case["ops"]]
        keeps = {k for o in ops for k in o.keeps}
        use_all(loop, ops, case)
        settle(loop)

        def leftovers():
            return [x for x in w.alive(False) if x[1] not in keeps]

        if not eventually(lambda: not leftovers()):
            left = leftovers()
            raise Violation(f"{names}: finished, but still alive while its handles are kept: {collections.Counter(k for _, k in left)}: {left[0]!r}, held by {whose(left[0][0])}", "kept")
        ctx.count("cases_clean")
        if case["grow"] and not any(getattr(o, "growing", False) for o in ops):
            grow(loop, ops, case, ctx, names, w)
        del ops
        settle(loop)
        if not eventually(lambda: not w.alive(True)):
            left = w.alive(True)
            raise Violation(f"{names}: finished and dropped, but still alive: {collections.Counter(k for _, k in left)}: {left[0]!r}, held by {whose(left[0][0])}", "alive")
        for what, n in w.made.items():
            ctx.count("watched_" + what.replace(" ", "_"), n)
            ctx.count("watched", n)
        # nothing is left to run
        tasks = [repr(t.get_coro())[:200] for t in asyncio.all_tasks(loop)]
        check(not tasks, lambda: f"{names}: tasks are left over: {tasks}", "tasks")
        timers = [repr(t)[:300] for t in loop._scheduled if not t.cancelled()]
        check(not timers, lambda: f"{names}: timers are left over: {timers}", "timers")
        check(not loop._ready, lambda: f"{names}: callbacks are left over: {list(loop._ready)}", "callbacks")

        def strange():
            return [t for t in set(threading.enumerate()) - before_threads if not is_default(t)]

        if not eventually(lambda: not strange()):
            raise Violation(f"{names}: threads are left over: {strange()}", "threads")
        ctx.count("loops_checked")
        for o in case["ops"]:
            ctx.count("op_" + o)
        ctx.nontrivial(case["ops"], case["hows"], case["together"], case["seed"])
    finally:
        dispose(loop)
    ref = weakref.ref(loop)
    del loop
    gc.collect()
    if not eventually(lambda: ref() is None):
        raise Violation(f"{names}: the closed event loop is kept alive by {whose(ref())}", "loop")


DEFAULT = {id(e) for e in ()}


def is_default(t):
    """A thread of the executor all decorated functions share by default (it ends when idle for long enough)."""
    from a_sync.a_sync import config as _config

    ex = _config.default_sync_executor if hasattr(_config, "default_sync_executor") else None
    return ex is not None and t in ex._threads or t.name.startswith("asyncio_")


def fill_default_pool(n=48):
    """Gives the shared default pool all the threads it can need here: whether it starts another one, up to its maximum, depends on
    how soon a worker that has handed its result over is seen to be idle, and would look like growth."""
    from a_sync.a_sync import config as _config

    ex = _config.default_sync_executor
    if len(ex._threads) >= n or not isinstance(ex, concurrent.futures.ThreadPoolExecutor):
        return
    go = threading.Event()
    futs = [concurrent.futures.ThreadPoolExecutor.submit(ex, go.wait, 10) for _ in range(n)]
    go.set()
    concurrent.futures.wait(futs, 10)
    end = time.monotonic() + 2
    while ex._idle_semaphore._value < len(ex._threads) and time.monotonic() < end:
        time.sleep(0.001)


def grow(loop, ops, case, ctx, names, w):
    k = case["repeat"]
    counts = []
    fill_default_pool()
    for _ in range(4):
        for _ in range(k):
            w.rng.seed(case["seed"])
            use_all(loop, ops, case)
        settle(loop)
        w.refs[:] = [r for r in w.refs if r[0]() is not None]
        gc.collect()
        time.sleep(0.01)
        counts.append(census())
    ctx.count("censuses", len(counts))
    grown = []
    for name in counts[-1]:
        seq = [c.get(name, 0) for c in counts]
        if all(b - a >= k for a, b in zip(seq[1:], seq[2:])):
            grown.append((name, seq))
    if grown:
        raise Violation(f"{names}: every {k} repetitions leave behind more: {grown[:5]}", "growth")
    ctx.count("growth_checked")
