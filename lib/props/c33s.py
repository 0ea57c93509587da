"""Processes that end with the library's objects in every state of use: none may crash on the way out."""
import os
import random
import subprocess
import sys
import tempfile

from h import check

HEAD = '''
import asyncio, atexit, builtins, functools, gc, sys, threading, time, weakref
sys.unraisablehook = lambda *a: None
import logging; logging.disable(logging.CRITICAL)
import a_sync
from a_sync import *
from a_sync.primitives.locks import *
from a_sync.a_sync.method import ASyncMethodDescriptor
from a_sync.iter import *
import a_sync.a_sync._helpers, a_sync.executor
from a_sync._smart import shield, SmartFuture, set_smart_task_factory
from a_sync.future import ASyncFuture
from a_sync.primitives.queue import *
KEEP = []
def keep(x, where=HOWKEEP):
    if where == "list": KEEP.append(x)
    elif where == "builtins": setattr(builtins, "k%d" % id(x), x)
    elif where == "sys": sys.__dict__["k%d" % id(x)] = x
    elif where == "cycle":
        class C: pass
        c = C(); c.c = c; c.x = x
    elif where == "del":
        class D:
            def __init__(self, x): self.x = x
            def __del__(self):
                try: repr(self.x); len(self.x)
                except Exception: pass
        KEEP.append(D(x))
    elif where == "local":
        L.x = getattr(L, "x", []) + [x]
    elif where == "atexit":
        atexit.register(lambda: repr(x))
    return x
L = threading.local()
async def slow(*a):
    try:
        await asyncio.sleep(1000)
    finally:
        KEEP and KEEP[0]
async def quick(*a):
    await asyncio.sleep(0)
    return a
async def agen(*a):
    try:
        for i in range(100):
            yield i
            await asyncio.sleep(0)
    finally:
        KEEP and repr(KEEP[0])
class K(a_sync.ASyncGenericBase):
    def __init__(self, sync=True):
        self.sync = sync
        super().__init__()
    @a_sync.a_sync(ram_cache_ttl=5, semaphore=2)
    async def m(self, *a): return a
    async def w(self): await asyncio.sleep(1000)
    @a_sync.aliases.property
    async def p(self): return 1
    @a_sync.aliases.cached_property
    async def c(self):
        await asyncio.sleep(0)
        return self
    @a_sync.aliases.cached_property
    async def cw(self): await asyncio.sleep(1000)
    async def g(self):
        for i in range(9): yield i
class O:
    d = ASyncMethodDescriptor(quick)
    g = ASyncGeneratorFunction(agen)
'''

# statements run inside a coroutine
ASYNC = {
    "sem": "s = keep(Semaphore(1)); await s.acquire(); keep(asyncio.ensure_future(s.acquire()))",
    "semdeco": "f = keep(Semaphore(1))(slow); keep([asyncio.ensure_future(f()) for _ in range(3)])",
    "prio": "s = keep(PrioritySemaphore(1)); await s.acquire(); keep([asyncio.ensure_future(s[i].acquire()) for i in range(4)])",
    "tsem": "s = keep(ThreadsafeSemaphore(1)); await s.acquire(); keep(asyncio.ensure_future(s.acquire()))",
    "event": "e = keep(Event(debug_daemon_interval=1)); keep([asyncio.ensure_future(e.wait()) for _ in range(3)])",
    "counter": "c = keep(CounterLock(3)); keep(asyncio.ensure_future(c.wait_for(9))); c.set(1) if False else None",
    "task": "keep(create_task(slow(), skip_gc_until_done=True)); create_task(slow(), skip_gc_until_done=True)",
    "tasklost": "create_task(slow(), log_destroy_pending=False)",
    "gather": "keep(asyncio.ensure_future(a_sync.gather(slow(), quick(), slow())))",
    "gathermap": "keep(asyncio.ensure_future(a_sync.gather({1: slow(), 2: quick()})))",
    "ascompleted": "it = keep(a_sync.as_completed([slow(), quick(), quick()], aiter=True)); keep(await it.__anext__())",
    "iter": "it = keep(ASyncIterator(agen())); keep(await it.__anext__())",
    "filter": "it = keep(ASyncIterable(agen()).filter(lambda i: i % 2)); keep(await it.__anext__())",
    "sort": "it = keep(ASyncIterator(agen()).sort()); keep(await it.__anext__())",
    "aiterpending": "it = keep(ASyncIterator(agen())); keep(asyncio.ensure_future(it.__anext__()))",
    "yielded": "it = keep(as_yielded(agen(), agen())); keep(await it.__anext__())",
    "taskmap": "t = keep(TaskMapping(slow, [1, 2, 3])); it = keep(t.map()); keep(asyncio.ensure_future(it.__anext__())); await asyncio.sleep(0)",
    "taskmaplimited": "t = keep(TaskMapping(quick, range(5), concurrency=2)); keep(t[1]); keep(asyncio.ensure_future(t.gather(sync=False)))",
    "pqueue": "q = keep(ProcessingQueue(slow, 2)); keep([q.put_nowait(i) for i in range(5)]); await asyncio.sleep(0)",
    "pqueuelost": "f = ProcessingQueue(quick, 2).put_nowait(1); keep(f)",
    "prioqueue": "q = keep(PriorityProcessingQueue(slow, 2)); keep([q.put_nowait(i, 'x') for i in range(5)]); await asyncio.sleep(0)",
    "smartqueue": "q = keep(SmartProcessingQueue(slow, 2)); keep([q.put_nowait(i) for i in range(5)]); await asyncio.sleep(0)",
    "queue": "q = keep(Queue()); keep([asyncio.ensure_future(q.get()) for _ in range(3)])",
    "smart": "set_smart_task_factory(); t = keep(asyncio.ensure_future(slow())); keep(asyncio.ensure_future(shield(t))); await asyncio.sleep(0)",
    "future": "keep(ASyncFuture(slow()) + 1); keep(asyncio.ensure_future((ASyncFuture(quick()) + (1,)).__await__.__self__))",
    "method": "k = keep(K(False)); keep(k.m); keep(asyncio.ensure_future(k.w())); keep(await k.m(1)); k.w",
    "prop": "k = keep(K(False)); keep([asyncio.ensure_future(k.cw) for _ in range(3)]); keep(await k.c); keep(await k.p)",
    "gen": "k = keep(K(False)); it = keep(k.g()); keep(await it.__anext__()); o = keep(O()); it = keep(o.g()); await it.__anext__(); keep(o.d); await o.d(1, sync=False)",
    "cached": "f = keep(a_sync.a_sync(cache_type='memory', ram_cache_ttl=1)(quick)); keep(await f(1)); keep(asyncio.ensure_future(f(2)))",
    "limited": "f = keep(a_sync.a_sync(runs_per_minute=1)(quick)); await f(); keep([asyncio.ensure_future(f(i)) for i in range(3)])",
    "exec": "e = keep(AsyncThreadPoolExecutor(2)); keep(e.submit(time.sleep, 0.05)); await e.run(time.sleep, 0)",
    "prune": "e = keep(PruningThreadPoolExecutor(2)); keep([e.submit(time.sleep, 0.03) for _ in range(4)]); await asyncio.sleep(0.01)",
    "plain": "f = keep(a_sync.a_sync(default='async')(lambda n: time.sleep(n))); keep(asyncio.ensure_future(f(0.05))); await f(0)",
    "uninit": "keep([c.__new__(c) for c in (Semaphore, ThreadsafeSemaphore, CounterLock, Event)])",
    "cancelled": "e = Event(); t = [asyncio.ensure_future(e.wait()) for _ in range(3)]; await asyncio.sleep(0); t[1].cancel(); e.set(); keep(t)",
    "syncloop": "keep(asyncio.get_running_loop()); keep(asyncio.new_event_loop())",
    "any": "keep(asyncio.ensure_future(a_sync.utils.any(slow(), quick()))); await asyncio.sleep(0)",
}

# statements run with no loop running
SYNC = {
    "smethod": "k = keep(K()); keep(k.m(1)); keep(k.p); keep(k.c); keep(list(k.g())); keep(k.m)",
    "shalfiter": "it = keep(builtins.iter(ASyncIterator(agen()))); keep(next(it)); keep(next(it))",
    "shalffilter": "it = keep(builtins.iter(ASyncIterable(agen()).filter(lambda i: True))); keep(next(it))",
    "sfuture": "keep(ASyncFuture(slow())); keep(ASyncFuture(quick()) + ASyncFuture(quick()))",
    "sunawaited": "k = K(False); keep(k.m(1)); keep(quick()); keep(a_sync.a_sync(quick)(1, sync=False)); keep(Semaphore(0).acquire()); keep(Event().wait())",
    "smap": "keep(TaskMapping(quick, [1, 2, 3]).values()) if False else keep(TaskMapping(quick, [1, 2, 3]))",
    "sexec": "asyncio.set_event_loop(asyncio.new_event_loop()); keep(PruningThreadPoolExecutor(2).submit(time.sleep, 0.05))",
    "sreload": "sys.modules.pop('a_sync.iter', None); sys.modules.pop('a_sync.primitives.locks.event', None)",
    "sgc": "gc.collect(); gc.disable()",
    "spoison": "sys.modules.pop('asyncio', None); sys.modules.pop('a_sync', None)",
    "satexit": "atexit.register(lambda: (K().m(3), list(ASyncIterator(agen()))[:2]))",
    "satexitloop": "atexit.register(lambda: asyncio.run(quick()))",
    "sglobals": "keep([sys.modules[m].__dict__ for m in list(sys.modules) if m.startswith('a_sync')])",
    "sfinalize": "keep(weakref.finalize(keep(K()), lambda: K().m(1)))",
}

THREAD = {
    "tspin": "while True:\n        K().m(1); list(ASyncIterator(agen()))",
    "tloop": "asyncio.run(slow())",
    "tsem": "asyncio.run(Semaphore(0).acquire())",
    "tevents": "while True:\n        e = Event(); e.set(); c = CounterLock(1); repr(e); repr(c)",
    "tonce": "K().m(1)",
}


def gen(rng, i, tier):
    a = rng.sample(sorted(ASYNC), rng.choice([0, 1, 2, 4, 8]))
    s = rng.sample(sorted(SYNC), rng.choice([0, 1, 1, 2, 4]))
    t = rng.sample(sorted(THREAD), rng.choice([0, 0, 0, 1, 2]))
    if not a and not s:
        a = ["task"]
    return {
        "async": a,
        "sync": s,
        "threads": t,
        "keep": rng.choice(["list", "list", "builtins", "sys", "cycle", "del", "local", "atexit"]),
        "loop": rng.choice(["run", "until", "until", "closed", "twice"]),
        "end": rng.choice(["normal", "normal", "exit", "raise", "interrupt", "thread", "inloop", "signal"]),
        "debug": rng.random() < 0.2,
        "first": rng.choice(["async", "sync"]),
    }


def script(case):
    lines = [HEAD.replace("HOWKEEP", repr(case["keep"]))]
    for n, t in enumerate(case["threads"]):
        lines.append(f"def t{n}():\n    try:\n        {THREAD[t].replace(chr(10), chr(10) + '    ')}\n    except BaseException: pass")
        lines.append(f"threading.Thread(target=t{n}, daemon=True).start()")
    body = ["async def main():"]
    for a in case["async"]:
        body.append("    try:\n        " + ASYNC[a] + "\n    except (ImportError, NameError): raise\n    except Exception as e: sys.stderr.write('note: %r' % e)")
        body.append("    await asyncio.sleep(0)")
    body.append("    await asyncio.sleep(0.01)")
    if case["end"] == "inloop":
        body.append("    sys.exit(3)")
    if case["end"] == "interrupt":
        body.append("    raise KeyboardInterrupt")
    a = ["\n".join(body)]
    if case["loop"] == "run":
        a.append("asyncio.run(main())")
    else:
        a.append("loop = asyncio.new_event_loop(); asyncio.set_event_loop(loop); loop.run_until_complete(main())")
        if case["loop"] == "closed":
            a.append("loop.close()")
        if case["loop"] == "twice":
            a.append("asyncio.run(main())")
    s = ["try:\n    " + SYNC[x] + "\nexcept (ImportError, NameError): raise\nexcept Exception as e: sys.stderr.write('note: %r' % e)" for x in case["sync"]]
    lines += a + s if case["first"] == "async" else s + a
    if case["end"] == "exit":
        lines.append("sys.exit(3)")
    if case["end"] == "raise":
        lines.append("raise ValueError('the end')")
    if case["end"] == "thread":
        lines.append("threading.Thread(target=lambda: (time.sleep(0.1), K().m(1))).start()")
    if case["end"] == "signal":
        lines.append("import signal, os; os.kill(os.getpid(), signal.SIGINT); time.sleep(0.1)")
    return "\n".join(lines)


def run(case, ctx):
    env = dict(os.environ, PYTHONFAULTHANDLER="1")
    if case["debug"]:
        env["EZASYNC_DEBUG_MODE"] = "1"
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        path = os.path.join(d, "s.py")
        with open(path, "w") as f:
            f.write(script(case))
        try:
            p = subprocess.run([sys.executable, "-W", "ignore", path], capture_output=True, text=True, errors="replace", timeout=40, env=env, cwd=d)
        except subprocess.TimeoutExpired:
            ctx.count("did_not_end")
            return
    err = p.stderr
    ctx.count("notes", err.count("note: "))
    if ("ImportError" in err or "NameError" in err) and not {"spoison", "sreload"} & set(case["sync"]):
        raise AssertionError("the generated program is wrong: " + err[-1500:])
    # an interrupt nobody handles ends a Python process by that very signal
    fine = {0, 1, 3, 130, -2}
    check(
        p.returncode in fine and "Fatal Python error" not in err and "AddressSanitizer" not in err and "runtime error:" not in err,
        lambda: f"a process that used the library ended with {p.returncode}: {err[-2500:]}",
        "exit-crash",
    )
    ctx.count("processes")
    ctx.count("pieces", len(case["async"]) + len(case["sync"]) + len(case["threads"]))
    for e in ("keep", "end", "loop"):
        ctx.count(f"{e}_{case[e]}")
    ctx.nontrivial(case)
