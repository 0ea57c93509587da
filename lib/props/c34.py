"""Debug logging: self-describing objects, mode flags in every place, debug daemons and what they leave behind."""

import asyncio
import concurrent.futures
import gc
import logging
import re
import threading
import weakref

import a_sync
from a_sync import executor as ax
from a_sync.a_sync.abstract import ASyncABC

import h
import vloop
from h import Inconclusive, check
from props.c34d import SINK, debugging
from vloop import VirtualLoop, dispose

KINDS = ["repr", "repr", "flags", "daemon", "daemon", "executor"]
MEMBERS = ["prop", "cprop", "meth", "sprop", "smeth", "fn", "cfn", "hidden", "flag", "boom", "item"]
FLAGS = ["pos_sync", "pos_async", "default_sync", "default_async", "kwonly", "attr", "inherited", "none", "both", "bad_value", "abc", "inst_attr", "property_flag"]
PRIMS = ["event", "event_short", "counter", "semaphore", "prio", "prio_simple", "threadsafe", "decorated", "decorated_method", "queue", "pqueue", "processing", "cluster"]


def gen(rng, i, tier):
    kind = KINDS[i % len(KINDS)]
    case = {"kind": kind, "i": i}
    if kind == "repr":
        case.update(
            tells=[rng.choice(MEMBERS) for _ in range(rng.randrange(1, 4))],
            uses=[rng.choice(MEMBERS + ["repr", "make", "map", "del", "set", "bound"]) for _ in range(rng.randrange(2, 8))],
            sync=rng.random() < 0.7,
            loop=rng.random() < 0.4,
            carrier=rng.choice(["inst", "inst", "arg", "result", "error"]),
        )
    elif kind == "flags":
        case.update(
            flag=rng.choice(FLAGS), value=rng.random() < 0.5, singleton=rng.random() < 0.3, name=rng.choice(["sync", "asynchronous"]),
            makes=[rng.choice(["bare", "kw", "kw_not", "other", "pos", "both"]) for _ in range(rng.randrange(1, 4))], loop=rng.random() < 0.3,
        )
    elif kind == "daemon":
        case.update(
            prim=rng.choice(PRIMS),
            waits=[[rng.choice(["woken", "cancelled", "timeout", "late"]), rng.randrange(0, 4), rng.choice([0, 0.5, 20, 65, 130, 310])] for _ in range(rng.randrange(1, 6))],
            gap=rng.choice([0, 1, 61, 301, 400]),
            rounds=rng.choice([1, 1, 2, 3]),
            abandon=rng.random() < 0.3,
            toggle=rng.choice([None, None, "off", "on"]),
        )
    else:
        case.update(
            pool=rng.choice(["thread", "thread", "pruning", "async_thread", "sync0"]),
            jobs=[[rng.choice(["ok", "err", "cancel"]), rng.choice([0, 5, 16, 40, 100])] for _ in range(rng.randrange(1, 4))],
            shutdown=rng.random() < 0.3,
            form=rng.choice(["submit", "run"]),
        )
    return case


# objects that describe themselves with their own members ------------------


def say(x):
    """Outcome of something, as far as it can be compared between two worlds."""
    return x if isinstance(x, (str, int, float, bool, type(None))) else type(x).__name__


def attempt(fn):
    try:
        r = fn()
        if asyncio.iscoroutine(r):
            r.close()
        return ("ok", say(r))
    except Exception as e:
        return (type(e).__name__, words(e, 60))


def words(e, n):
    try:
        return re.sub("0x[0-9a-f]+", "0x", str(e))[:n]
    except Exception as e2:
        return type(e2).__name__


def make_class(case, log):
    tells = case["tells"]

    class Base(a_sync.ASyncGenericBase):
        def __init__(self, tag, sync=True):
            self.tag = tag
            self.sync = sync
            super().__init__()

        @a_sync.aliases.property
        async def prop(self):
            log.append("prop")
            return f"p{self.tag}"

        @a_sync.aliases.cached_property
        async def cprop(self):
            log.append("cprop")
            return f"c{self.tag}"

        async def meth(self, *args):
            log.append("meth")
            for a in args:
                if isinstance(a, Exception):
                    raise a
            return args[0] if args else f"m{self.tag}"

        @a_sync.aliases.property
        def sprop(self):
            log.append("sprop")
            return f"s{self.tag}"

        def smeth(self):
            log.append("smeth")
            return f"sm{self.tag}"

        async def boom(self):
            log.append("boom")
            raise ValueError(f"b{self.tag}")

        @a_sync.a_sync(default="sync", ram_cache_maxsize=8)
        async def cached(self):
            log.append("cached")
            return f"k{self.tag}"

        def __repr__(self):
            log.append("repr")
            depth[0] += 1
            try:
                if depth[0] > 200:
                    raise RecursionError("describing itself without end")
                return "<" + ",".join(str(read(self, k)) for k in tells) + ">"
            finally:
                depth[0] -= 1

    depth = [0]

    @a_sync.a_sync(default="sync")
    async def fn(x):
        log.append("fn")
        return x.tag if isinstance(x, Base) else x

    @a_sync.a_sync(default="sync", cache_type="memory")
    async def cfn(x):
        log.append("cfn")
        return 3

    def read(x, k):
        if k == "prop":
            return x.prop
        if k == "cprop":
            return x.cprop
        if k == "meth":
            return x.meth()
        if k == "sprop":
            return x.sprop
        if k == "smeth":
            return x.smeth()
        if k == "fn":
            return fn(x)
        if k == "cfn":
            return cfn(x)
        if k == "hidden":
            return x.__prop__(sync=True)
        if k == "flag":
            return x.__a_sync_flag_name__, x.__a_sync_flag_value__
        if k == "boom":
            return x.boom()
        return x.cached()

    def use(x, k):
        if k == "repr":
            return repr(x)
        if k == "make":
            return type(x)("z").tag
        if k == "map":
            return sorted(map(say, type(x).prop.map([x], sync=True).values())) if not case["loop"] else None
        if k == "del":
            if "cprop" not in case["tells"]:  # describing the instance is allowed to load what it says
                del x.cprop
            return None
        if k == "set":
            x.cprop = "set"
            return None
        if k == "bound":
            return repr(x.meth)[:1]
        how = case["carrier"]
        if how == "arg" and k == "meth":
            return x.meth(x)
        if how == "result" and k == "fn":
            return fn(x)
        if how == "error" and k == "meth":
            return x.meth(ValueError(x))
        return read(x, k)

    return Base, use


def play_repr(case):
    log = []
    cls, use = make_class(case, log)
    out = []

    def script():
        x = cls("1", sync=case["sync"])
        for k in case["uses"]:
            out.append((k, attempt(lambda: use(x, k))))

    async def main():
        script()
        x = cls("2", sync=case["sync"])
        for k in case["uses"]:
            try:
                r = use(x, k)
                out.append((k, "ok", say(await r) if asyncio.iscoroutine(r) else say(r)))
            except Exception as e:
                out.append((k, type(e).__name__, words(e, 60)))

    if case["loop"]:
        asyncio.run(main())
    else:
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            script()
        finally:
            asyncio.set_event_loop(None)
            loop.close()
    return out


# the flag in every place ---------------------------------------------------


def play_flags(case):
    n, v = case["name"], case["value"]
    meta = a_sync.ASyncGenericSingleton if case["singleton"] else a_sync.ASyncGenericBase
    f = case["flag"]
    ns, bases = {}, (meta,)

    def init_body(self, **kw):
        for k, x in kw.items():
            setattr(self, k, x)

    if f == "pos_sync":
        def __init__(self, sync):
            self.sync = sync
    elif f == "pos_async":
        def __init__(self, asynchronous):
            self.asynchronous = asynchronous
    elif f == "default_sync":
        def __init__(self, sync=v):
            self.sync = sync
    elif f == "default_async":
        def __init__(self, a=1, asynchronous=v):
            self.asynchronous = asynchronous
    elif f == "kwonly":
        def __init__(self, *, sync=v):
            self.sync = sync
    elif f == "both":
        def __init__(self, sync=v, asynchronous=v):
            self.sync, self.asynchronous = sync, asynchronous
    elif f == "bad_value":
        def __init__(self, sync="nonsense"):
            self.sync = sync
    elif f == "inst_attr":
        def __init__(self, x=0):
            setattr(self, n, v)
    else:
        def __init__(self, x=0):
            pass
    ns["__init__"] = __init__
    if f in ("attr", "inherited"):
        ns[n] = v
    if f == "property_flag":
        ns[n] = property(lambda self: v)
    if f == "abc":
        bases = (ASyncABC,)
        ns.update(
            __a_sync_flag_name__=n, __a_sync_flag_value__=v,
            __a_sync_default_mode__=classmethod(lambda cls: v),
        )

    async def m(self):
        return "m"

    ns["m"] = m
    ns["p"] = a_sync.aliases.property(lambda self: "p")
    out = []
    made = []

    def go():
        try:
            cls = type(meta)("Flags", bases, ns) if f != "abc" else type(ASyncABC)("Flags", bases, ns)
            if f == "inherited":
                cls = type(cls)("Sub", (cls,), {})
        except Exception as e:
            out.append(("class", type(e).__name__, words(e, 80)))
            return
        for how in case["makes"]:
            kw = {"bare": {}, "kw": {n: v}, "kw_not": {n: not v}, "other": {"asynchronous" if n == "sync" else "sync": v}, "pos": {}, "both": {"sync": v, "asynchronous": v}}[how]
            a = (v,) if how == "pos" else ()
            try:
                x = cls(*a, **kw)
            except Exception as e:
                out.append((how, type(e).__name__, words(e, 80)))
                continue
            made.append(x)
            out.append((how, [k for k, y in enumerate(made) if y is x][0]))
            for get in (lambda: cls.__a_sync_default_mode__(), lambda: x.__a_sync_instance_should_await__ if hasattr(x, "__a_sync_instance_should_await__") else "-", lambda: x.__a_sync_flag_name__, lambda: x.__a_sync_flag_value__, lambda: x.m(), lambda: x.m(sync=True), lambda: x.m(asynchronous=True), lambda: x.p):
                out.append(attempt(get))

    async def main():
        go()

    if case["loop"]:
        asyncio.run(main())
    else:
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            go()
        finally:
            asyncio.set_event_loop(None)
            loop.close()
    return out


def differential(case, ctx, play):
    def once(on):
        del SINK.failed[:]
        with debugging(on, case["i"] % 3 == 0):
            return play(case)

    off, off2 = once(False), once(False)
    if off != off2:
        raise Inconclusive("not the same twice")
    n = sum(SINK.seen.values())
    on = once(True)
    failed = list(SINK.failed)
    ctx.count("records", sum(SINK.seen.values()) - n)
    ctx.count("kind_" + case["kind"])
    ctx.nontrivial(case["kind"], off)
    if on != off:
        pairs = [(a, b) for a, b in zip(on, off) if a != b] if len(on) == len(off) else (on, off)
        check(False, lambda: f"with debug logging (left) and without (right): {pairs}")
    if case["kind"] == "flags":
        check(not failed, lambda: f"a debug report could not be made: {failed[:2]}")


# daemons -------------------------------------------------------------------


class Thing:
    """Something a waiter holds, to see whether it is let go of."""


def weakly(cls):
    """A subclass whose instances can be watched."""
    return type(cls.__name__, (cls,), {})


WEAK = {n: weakly(getattr(a_sync, n)) for n in ("Event", "CounterLock", "Semaphore", "ThreadsafeSemaphore", "PrioritySemaphore")}


def make_prim(case, name):
    p = case["prim"]
    Event, CounterLock, Semaphore, ThreadsafeSemaphore, PrioritySemaphore = (WEAK[n] if case["i"] % 3 else getattr(a_sync, n) for n in WEAK)
    if p in ("event", "event_short"):
        x = Event(name=name, debug_daemon_interval=7) if p == "event_short" else Event(name=name)
        return x, lambda: x.wait(), lambda: x.set(), lambda: x.clear()
    if p == "counter":
        x = CounterLock(name=name)
        n = [0]

        def up():
            n[0] += 1
            x.set(n[0])

        return x, lambda: x.wait_for(n[0] + 1), up, lambda: None
    if p == "cluster":
        x = CounterLock(name=name)
        y = a_sync.primitives.locks.counter.CounterLockCluster([x, CounterLock(99, name="other")])
        n = [0]

        def up():
            n[0] += 1
            x.set(n[0])

        return x, lambda: y.wait_for(n[0] + 1), up, lambda: None
    if p in ("semaphore", "threadsafe", "prio", "prio_simple"):
        x = {"semaphore": Semaphore, "threadsafe": ThreadsafeSemaphore, "prio": PrioritySemaphore, "prio_simple": PrioritySemaphore}[p](1, name=name)

        async def wait():
            if p == "prio":
                async with x[3]:
                    return True
            async with x:
                return True

        return x, wait, None, None
    if p in ("decorated", "decorated_method"):
        x = Semaphore(1, name=name)
        gate = asyncio.Event()

        if p == "decorated":

            @x
            async def work(i):
                await gate.wait()
                return True

            return x, lambda: work(1), gate.set, gate.clear

        class K:
            @x
            async def work(self, i):
                await gate.wait()
                return True

        k = K()
        return x, lambda: k.work(1), gate.set, gate.clear
    if p in ("queue", "pqueue"):
        x = a_sync.Queue() if p == "queue" else a_sync.PriorityQueue() if hasattr(a_sync, "PriorityQueue") else a_sync.Queue()

        async def get():
            await x.get()
            return True

        return x, get, lambda: [x.put_nowait(k) for k in range(9)], lambda: [x.get_nowait() for _ in range(x.qsize())]
    gate = asyncio.Event()

    async def work(i):
        await gate.wait()
        return True

    x = a_sync.ProcessingQueue(work, 2, return_data=True, name=name)

    async def put():
        return await x.put_nowait(1)

    return x, put, gate.set, gate.clear


def play_daemon(case, on, ctx):
    trace, info = [], {}
    loop = VirtualLoop(400000)
    asyncio.set_event_loop(loop)
    name = f"d{case['i']}"

    async def scenario():
        x, wait, wake, reset = make_prim(case, name)
        ref = weakref.ref(x) if type(x).__weakrefoffset__ else None
        things = []

        async def client(k, spec):
            how, start, _ = spec
            await asyncio.sleep(start)
            t = Thing()
            things.append(weakref.ref(t))
            try:
                if how == "timeout":
                    r = await asyncio.wait_for(wait(), 3)
                else:
                    r = await wait()
                trace.append((k, "woken", r, round(loop.time(), 3)))
            except asyncio.CancelledError:
                trace.append((k, "cancelled", round(loop.time(), 3)))
                raise
            except asyncio.TimeoutError:
                trace.append((k, "timeout", round(loop.time(), 3)))
            del t

        for r in range(case["rounds"]):
            held = None
            if wake is None:
                held = x[0] if case["prim"] == "prio" else x
                await held.acquire()
            tasks = [asyncio.ensure_future(client((r, k), s)) for k, s in enumerate(case["waits"])]
            await asyncio.sleep(4)
            if case["toggle"]:
                lib = logging.getLogger("a_sync")
                if on:
                    lib.setLevel(logging.DEBUG if case["toggle"] == "on" else logging.WARNING)
            for t, s in zip(tasks, case["waits"]):
                await asyncio.sleep(s[2])
                if s[0] == "cancelled":
                    t.cancel()
            if wake is None:
                held.release()
            elif not case["abandon"]:
                wake()
            del held
            done, pending = await asyncio.wait(tasks, timeout=1)
            trace.append(("pending", len(pending)))
            for t in tasks:
                t.cancel()
            await asyncio.gather(*tasks, return_exceptions=True)
            del tasks, done, pending
            if reset:
                reset()
            await asyncio.sleep(case["gap"])
        if case["prim"] == "processing":
            if wake:
                wake()
            await asyncio.sleep(1)
        return ref, things

    main = None
    try:

        async def outer():
            ref, things = await scenario()
            gc.collect()
            info["alive_now"] = ref() is not None if ref else False
            info["things"] = sum(1 for t in things if t() is not None)
            await asyncio.sleep(case.get("linger", 301))
            gc.collect()
            await asyncio.sleep(1)
            gc.collect()
            info["alive_later"] = repr(ref()) if ref and ref() is not None else None
            me = asyncio.current_task()
            info["tasks"] = sorted(repr(t.get_coro()) for t in asyncio.all_tasks() if t is not me)

        main = loop.create_task(outer())
        loop.run_until_complete(main)
        info["unhandled"] = [repr(u)[:300] for u in loop.unhandled]
    finally:
        dispose(loop)
    return trace, info


def run_daemon(case, ctx):
    del SINK.failed[:]
    with debugging(False):
        off, info0 = play_daemon(case, False, ctx)
    n = sum(SINK.seen.values())
    with debugging(True):
        if case["toggle"] == "on":
            logging.getLogger("a_sync").setLevel(logging.WARNING)
        on, info = play_daemon(case, True, ctx)
    failed = list(SINK.failed)
    ctx.count("records", sum(SINK.seen.values()) - n)
    ctx.count("daemon_" + case["prim"])
    ctx.count("kind_daemon")
    ctx.count("daemon_reports", sum(SINK.seen.values()) - n)
    if info["alive_now"]:
        ctx.count("kept_until_report")
    ctx.nontrivial(case["prim"], off)
    check(on == off, lambda: f"{case['prim']}: with debug logging {on}, without {off}")
    check(not failed, lambda: f"{case['prim']}: a debug report could not be made: {failed[:2]}")
    check(info["things"] == info0["things"], lambda: f"{case['prim']}: with debug logging {info['things']} waiters' objects stay alive, without {info0['things']}")
    check(info["unhandled"] == info0["unhandled"], lambda: f"{case['prim']}: with debug logging the loop's exception handler hears {info['unhandled']}")
    check(info["alive_later"] is None or info0["alive_later"] is not None, lambda: f"{case['prim']}: kept alive by debug reporting five minutes after its last use: {info['alive_later']}")
    extra = list(info["tasks"])
    for t in info0["tasks"]:
        for u in extra:
            if u.split(" at 0x")[0] == t.split(" at 0x")[0]:
                extra.remove(u)
                break
    check(not extra, lambda: f"{case['prim']}: debug tasks still running five minutes after the last wait ended: {extra}")


# executors -----------------------------------------------------------------


def play_executor(case, ctx):
    loop = VirtualLoop(400000)
    asyncio.set_event_loop(loop)
    out, info = [], {}
    pool = {
        "thread": lambda: a_sync.ThreadPoolExecutor(2),
        "async_thread": lambda: ax.AsyncThreadPoolExecutor(2),
        "pruning": lambda: a_sync.PruningThreadPoolExecutor(2),
        "sync0": lambda: ax.AsyncThreadPoolExecutor(0),
    }[case["pool"]]()
    refs = []

    class Arg:
        def __repr__(self):
            return "Arg"

    gates = []

    def job(gate, how, x, y=None):
        if case["pool"] != "sync0":
            assert gate.wait(30)
        if how == "err":
            raise h.Boom("job")
        return ("done", type(x).__name__, type(y).__name__)

    async def main():
        futs = []
        for how, dur in case["jobs"]:
            gate = threading.Event()
            gates.append(gate)
            x, y = Arg(), Arg()
            refs.extend([weakref.ref(x), weakref.ref(y)])
            if case["form"] == "submit":
                futs.append(pool.submit(job, gate, how, x, y=y))
            else:
                futs.append(asyncio.ensure_future(pool.run(job, gate, how, x, y=y)))
                await asyncio.sleep(0)
            del x, y
        for f, gate, (how, dur) in zip(futs, gates, case["jobs"]):
            await asyncio.sleep(dur)
            if how == "cancel":
                f.cancel()
            loop.external += 1
            gate.set()
            try:
                out.append(("ok", await f))
            except asyncio.CancelledError:
                out.append(("cancelled",))
            except h.Boom as e:
                out.append(("boom", e.tag))
            finally:
                loop.external -= 1
            del f
        futs.clear()
        if case["shutdown"] and case["pool"] != "sync0":
            pool.shutdown(wait=True)
        gate = None
        for _ in range(200):
            # what runs in the threads lets go of its arguments a moment after the caller has the result
            await asyncio.sleep(0)
            gc.collect()
            if not any(r() is not None for r in refs):
                break
            threading.Event().wait(0.005)
        await asyncio.sleep(0.01)
        me = asyncio.current_task()
        info["tasks"] = [repr(t.get_coro()) for t in asyncio.all_tasks() if t is not me]
        info["args"] = sum(1 for r in refs if r() is not None)

    try:
        loop.run_until_complete(main())
        info["unhandled"] = [repr(u)[:300] for u in loop.unhandled]
    finally:
        for g in gates:
            g.set()
        dispose(loop)
        if case["pool"] != "sync0":
            pool.shutdown(wait=True)
    return out, info


def run_executor(case, ctx):
    with debugging(False):
        off, info0 = play_executor(case, ctx)
    n = sum(SINK.seen.values())
    del SINK.failed[:]
    with debugging(True):
        on, info = play_executor(case, ctx)
    failed = list(SINK.failed)
    ctx.count("records", sum(SINK.seen.values()) - n)
    ctx.count("executor_reports", sum(SINK.seen.values()) - n)
    ctx.count("kind_executor")
    ctx.nontrivial("executor", case["pool"], off)
    check(on == off, lambda: f"executor: with debug logging {on}, without {off}")
    check(not failed, lambda: f"executor: a debug report could not be made: {failed[:2]}")
    for k in ("tasks", "args", "unhandled"):
        if info0[k]:
            raise Inconclusive("left behind without logging")
    check(not info["tasks"], lambda: f"executor: debug tasks of finished work items still running: {info['tasks']}")
    check(not info["args"], lambda: f"executor: {info['args']} arguments of finished work items kept alive by debug reporting")
    check(not info["unhandled"], lambda: f"executor: with debug logging the loop's exception handler hears {info['unhandled']}")


def run(case, ctx):
    kind = case["kind"]
    if kind == "repr":
        differential(case, ctx, play_repr)
    elif kind == "flags":
        differential(case, ctx, play_flags)
    elif kind == "daemon":
        run_daemon(case, ctx)
    else:
        run_executor(case, ctx)
