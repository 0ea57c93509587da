"""Next to somebody else's timers, callbacks and tasks: bound methods, properties, generators and caches used over
many minutes; and failures that were reported to a caller, which nobody else must hear of."""

import asyncio
import gc
import threading

import a_sync
from a_sync import ASyncGenericBase, ProcessingQueue, SmartProcessingQueue, TaskMapping, a_sync as dual
from a_sync.a_sync.method import ASyncMethodDescriptor
from a_sync.a_sync.property import a_sync_cached_property, a_sync_property
from a_sync.iter import ASyncGeneratorFunction

import h
from h import Boom, Violation, check, boom
from props.c36d import TIMES, Beside, alone, gen_actor
from vloop import VirtualLoop, dispose

MEMBERS = ["meth", "ameth", "smeth", "prop", "cprop", "gen", "cached", "limited", "counted", "hidden", "plain"]
GAPS = [0, 0, 0.5, 1, 10, 60, 120, 149, 150, 151, 299, 299.5, 300, 300.5, 301, 450, 600]


def gen(rng, i, tier):
    tasks = rng.random() < 0.7
    case = {"actors": [gen_actor(rng, tasks) for _ in range(rng.choice([1, 3, 6, 12]))], "i": i}
    if i % 3 == 2:
        case.update(kind="errors", ops=[[rng.choice(sorted(OPS)), rng.randrange(1, 4), rng.choice([0, 0, 1, 5])] for _ in range(rng.randrange(1, 6))], smart=rng.random() < 0.3, together=rng.random() < 0.5)
        return case
    case.update(
        kind="uses",
        n=rng.randrange(1, 5),
        sync=rng.random() < 0.3,
        # per phase: [gap before, instance, member, what]
        phases=[
            [[rng.choice(GAPS), rng.randrange(4), rng.choice(MEMBERS), rng.choice(["use", "use", "use", "get", "drop", "renew", "fail", "cancel", "del", "gc"])] for _ in range(rng.randrange(1, 12))]
            for _ in range(rng.choice([1, 1, 2, 3]))
        ],
        between=rng.choice(["close", "keep", "sync_calls"]),
        tail=rng.choice([0, 1, 301, 1000]),
        other_thread=rng.random() < 0.1,
    )
    return case


def make_class():
    class Thing(ASyncGenericBase):
        def __init__(self, sync, no):
            self.sync, self.no, self.fail = sync, no, False
            super().__init__()

        async def _body(self, x=0):
            await asyncio.sleep(0.25)
            if self.fail:
                raise boom(x)
            return (self.no, x)

        async def meth(self, x=0):
            return await self._body(x)

        @dual("async")
        async def ameth(self, x=0):
            return await self._body(x)

        @dual("sync")
        async def smeth(self, x=0):
            return await self._body(x)

        @a_sync_property
        async def prop(self):
            return await self._body()

        @a_sync_cached_property
        async def cprop(self):
            return await self._body()

        async def gen(self, x=0):
            yield await self._body(x)
            yield x

        @dual(ram_cache_ttl=7, cache_type="memory")
        async def cached(self, x=0):
            return await self._body(x)

        @dual(runs_per_minute=5)
        async def limited(self, x=0):
            return await self._body(x)

        @dual(semaphore=1)
        async def counted(self, x=0):
            return await self._body(x)

    class Plain:
        def __init__(self, no):
            self.no, self.fail = no, False

        @ASyncMethodDescriptor
        async def plain(self, x=0):
            await asyncio.sleep(0.25)
            if self.fail:
                raise boom(x)
            return (self.no, x)

        @ASyncGeneratorFunction
        async def gen(self):
            yield self.no

    return Thing, Plain


async def use(inst, plain, member, what, n):
    """One use of a member; failures are reported to us."""
    obj = plain if member == "plain" else inst
    if what == "del":
        # a bound method may be taken out of its cache by its owner
        return
    if member == "gen":
        out = []
        async for x in obj.gen(n):
            out.append(x)
        return out
    if member in ("prop", "cprop"):
        return await getattr(type(obj), member).hidden_method_descriptor.__get__(obj, type(obj))(sync=False) if n % 2 else await getattr(obj, "__%s__" % member)(sync=False)
    if member == "hidden":
        return await obj.__prop__(sync=False)
    args = (n,) if member != "cached" else (n % 2,)
    return await getattr(obj, member)(*args, sync=False)


def uses(case, ctx):
    Thing, Plain = make_class()
    expected = alone(case["actors"])
    loops, errors = [], []
    count = [0]
    with Beside(case["actors"], expected, ctx) as beside:
        insts = [Thing(sync=case["sync"], no=k) for k in range(4)]
        plains = [Plain(k) for k in range(4)]
        try:
            for phase in case["phases"]:
                loop = loops[-1] if case["between"] == "keep" and loops else VirtualLoop()
                if loop not in loops:
                    loops.append(loop)
                asyncio.set_event_loop(loop)

                async def step(k, member, what):
                    count[0] += 1
                    n = count[0]
                    if what == "drop":
                        insts[k] = plains[k] = None
                    if insts[k] is None or what == "renew":
                        insts[k], plains[k] = Thing(sync=case["sync"], no=k), Plain(k)
                    if what == "gc":
                        gc.collect()
                    elif what == "get" and member in ("meth", "ameth", "smeth", "gen", "limited", "counted", "cached"):
                        getattr(insts[k], member)
                    elif what == "cancel":
                        t = asyncio.ensure_future(use(insts[k], plains[k], member, what, n))
                        await asyncio.sleep(0.1)
                        t.cancel()
                        await asyncio.wait([t])
                    elif what == "fail":
                        insts[k].fail = plains[k].fail = True
                        try:
                            await use(insts[k], plains[k], member, what, n)
                        except Boom:
                            ctx.count("reported_failures")
                        insts[k].fail = plains[k].fail = False
                    else:
                        await use(insts[k], plains[k], member, what, n)
                    ctx.count("uses")

                async def main():
                    for gap, k, member, what in phase:
                        if gap:
                            await asyncio.sleep(gap)
                        await step(k, member, what)
                        if gap:
                            # a moment between the phases where other threads use them as well
                            if case["other_thread"]:
                                foreign_thread(insts[k])
                    await asyncio.sleep(case["tail"])

                loop.run_until_complete(asyncio.Task(main(), loop=loop))
                if case["between"] == "sync_calls":
                    # synchronous calls from outside of the loop run on it
                    for gap, k, member, what in phase[:3]:
                        if insts[k] is not None and member in ("meth", "ameth", "smeth", "counted"):
                            getattr(insts[k], member)(1, sync=True)
                            ctx.count("sync_calls")
                if case["between"] == "close":
                    problems(loop, errors, ctx)
                    dispose(loop)
                    loops.clear()
            insts.clear()
            plains.clear()
            gc.collect()
            for loop in loops:
                asyncio.set_event_loop(loop)
                loop.run_until_complete(asyncio.Task(asyncio.sleep(1), loop=loop))
                problems(loop, errors, ctx)
        finally:
            for loop in loops:
                dispose(loop)
    check(beside.msg is None, lambda: beside.msg, "disturbed")
    check(not errors, lambda: f"the loop's exception handler heard of {errors[0]}", "unhandled")
    ctx.nontrivial(case)


def foreign_thread(inst):
    """The same object used by another thread with a loop of its own."""
    failed = []

    def go():
        try:
            asyncio.run(asyncio.wait_for(one(), 10))
        except BaseException as e:
            failed.append(e)

    async def one():
        inst.meth  # noqa: B018
        return [x async for x in inst.gen(1)] and None

    t = threading.Thread(target=go)
    t.start()
    t.join()
    if failed:
        raise failed[0]


def problems(loop, errors, ctx):
    gc.collect()
    for c in loop.unhandled:
        errors.append({k: repr(v)[:200] for k, v in c.items()})
    loop.unhandled.clear()


# failures which a caller was told of ----------------------------------------


async def expect(aw):
    try:
        r = await aw
    except Boom:
        return True
    raise Violation(f"the failure was not reported: {r!r}", "unreported")


def failing(n, delay=0):
    async def fail(x=0, *args):
        for _ in range(delay):
            await asyncio.sleep(0.01)
        raise boom((n, x))

    return fail


async def op_dual(n, d):
    f = dual(failing(n, d))
    for _ in range(n):
        await expect(f(1, sync=False))


async def op_dual_sync_def(n, d):
    def fail(x):
        raise boom(x)

    f = dual(fail, default="async")
    await expect(asyncio.wait_for(run_external(f(1)), None))


async def run_external(aw):
    loop = asyncio.get_running_loop()
    loop.external += 1
    try:
        return await aw
    finally:
        loop.external -= 1


async def op_create_task(n, d):
    ts = [a_sync.create_task(failing(k, d)(), name=f"t{k}") for k in range(n)]
    for t in ts:
        await expect(t)


async def op_gather(n, d):
    await expect(a_sync.gather(*[failing(k, d * k)() for k in range(n)]))
    got = await a_sync.gather(*[failing(k, d * k)() for k in range(n)], return_exceptions=True)
    assert all(isinstance(x, Boom) for x in got)


async def op_as_completed(n, d):
    for fut in a_sync.as_completed([failing(k, d * k)() for k in range(n)]):
        await expect(fut)
    for fut in a_sync.as_completed({k: failing(k, d * k)() for k in range(n)}):
        await expect(fut)


async def op_queue(n, d):
    q = ProcessingQueue(failing(0, d), n)
    futs = [await q.put(k) for k in range(n + 1)]
    for f in futs:
        await expect(f)
    await q.join()


async def op_smart_queue(n, d):
    q = SmartProcessingQueue(failing(0, d), n)
    f1 = await q.put(1)
    f2 = await q.put(1)
    await expect(f1)
    await expect(f2)
    await q.join()


async def op_smart_queue_many(n, d):
    q = SmartProcessingQueue(failing(0, d), n)
    f = await q.put(1)
    oks = await asyncio.gather(*[expect(asyncio.ensure_future(wait(f))) for _ in range(n)])
    assert all(oks)
    await q.join()


async def wait(f):
    return await f


async def op_mapping_getitem(n, d):
    m = TaskMapping(failing(0, d), concurrency=None)
    for k in range(n):
        m[k]
    for k in range(n):
        await expect(m[k])


async def op_mapping_iter(n, d):
    async def f(k):
        if k == n - 1:
            raise boom(k)
        return k

    async def go():
        async for _ in TaskMapping(f, range(n)):
            pass

    await expect(go())


async def op_mapping_gather(n, d):
    async def f(k):
        if k == 0:
            for _ in range(d):
                await asyncio.sleep(0.01)
            raise boom(k)
        return k

    await expect(TaskMapping(f, range(n)).gather(sync=False))


async def op_mapping_await(n, d):
    async def f(k):
        if k == 0:
            raise boom(k)
        return k

    async def go():
        return await TaskMapping(f, range(n))

    await expect(go())


async def op_as_yielded(n, d):
    async def src(k):
        for j in range(3):
            await asyncio.sleep(0.01)
            yield j
        if k == 0:
            raise boom(k)

    async def go():
        async for _ in a_sync.as_yielded(*[src(k) for k in range(n)]):
            pass

    await expect(go())


async def op_as_yielded_instant(n, d):
    async def src(k):
        if k == 0:
            raise boom(k)
        yield k

    async def go():
        async for _ in a_sync.as_yielded(*[src(k) for k in range(n)]):
            pass

    await expect(go())


async def op_exhaust(n, d):
    async def src(k):
        yield 1
        if k == 0:
            raise boom(k)

    await expect(a_sync.utils.exhaust_iterators([src(k) for k in range(n)]))


async def op_any_all(n, d):
    async def truth(x):
        await asyncio.sleep(0.01)
        return x

    assert await a_sync.any(truth(True), *[failing(k, d + 2)() for k in range(n)]) is True
    await expect(a_sync.all(truth(True), failing(1, d)()))


async def op_future(n, d):
    f = a_sync.future(failing(0, d))
    x = f(1)
    await expect(x)
    await expect(x + 1)
    y = f(2) + f(3)
    await expect(y)


async def op_cached_property(n, d):
    class P(ASyncGenericBase):
        def __init__(self, sync):
            self.sync = sync
            super().__init__()

        @a_sync_cached_property
        async def c(self):
            for _ in range(d + 1):
                await asyncio.sleep(0.01)
            raise boom("c")

        @a_sync_property
        async def p(self):
            raise boom("p")

    p = P(sync=False)
    await asyncio.gather(*[expect(p.__c__(sync=False)) for _ in range(n)])
    await expect(p.__p__(sync=False))
    await expect(P(sync=False).c)


async def op_cached(n, d):
    f = dual(cache_type="memory", ram_cache_ttl=[None, 1, 100][n - 1])(failing(0, d + 1))
    await asyncio.gather(*[expect(f(1, sync=False)) for _ in range(n)])


async def op_limited(n, d):
    f = dual(runs_per_minute=60, semaphore=1)(failing(0, d))
    await asyncio.gather(*[expect(f(k, sync=False)) for k in range(n)])


async def op_iterable(n, d):
    async def src():
        yield 1
        raise boom(1)

    async def go(it):
        return [x async for x in it]

    await expect(go(a_sync.ASyncIterator(src())))
    await expect(go(a_sync.filter(lambda x: True, a_sync.ASyncIterator(src()))))
    await expect(go(a_sync.sorted(a_sync.ASyncIterator(src()), key=lambda x: x)))


async def op_thread_pool(n, d):
    def fail():
        raise boom(1)

    pool = a_sync.ThreadPoolExecutor(n)
    for _ in range(n):
        await expect(run_external(pool.run(fail)))
    pool.shutdown()


async def op_cancelled_waiters(n, d):
    f = dual(cache_type="memory")(failing(0, d + 3))
    ts = [asyncio.ensure_future(f(1, sync=False)) for _ in range(n + 1)]
    await asyncio.sleep(0.01)
    for t in ts[1:]:
        t.cancel()
    await expect(ts[0])
    await asyncio.wait(ts)


async def op_min_max(n, d):
    f = dual(failing(0, d), default="async")
    for agg in ("any", "all", "min", "max", "sum"):
        await expect(getattr(f, agg)([1]))


async def op_nested(n, d):
    f = dual(failing(0, d), default="async")

    async def outer(x):
        return await a_sync.gather(f(x), f(x + 1))

    await expect(dual(outer)(1, sync=False))


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


def errors(case, ctx):
    expected = alone(case["actors"])
    found = []
    with Beside(case["actors"], expected, ctx) as beside:
        loop = VirtualLoop()
        asyncio.set_event_loop(loop)
        if case["smart"]:
            from a_sync._smart import set_smart_task_factory

            set_smart_task_factory(loop)
        try:

            async def one(name, n, d):
                await OPS[name](n, d)
                ctx.count("op_" + name)

            async def main():
                if case["together"]:
                    await asyncio.gather(*[one(*op) for op in case["ops"]])
                else:
                    for op in case["ops"]:
                        await one(*op)
                        gc.collect()
                await asyncio.sleep(0.5)
                gc.collect()
                await asyncio.sleep(400)

            loop.run_until_complete(asyncio.Task(main(), loop=loop))
            problems(loop, found, ctx)
        finally:
            dispose(loop)
    check(beside.msg is None, lambda: beside.msg, "disturbed")
    check(not found, lambda: f"after {[o[0] for o in case['ops']]} the loop's exception handler heard of {found[0]}", "unhandled")
    ctx.count("error_cases")
    ctx.nontrivial(case)


def run(case, ctx):
    (errors if case["kind"] == "errors" else uses)(case, ctx)
