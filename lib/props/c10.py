"""Plain functions awaited: off the loop's thread, on the executor configured, each caller its own outcome."""
import asyncio
import concurrent.futures
import random
import threading
import time

import a_sync
from a_sync import AsyncThreadPoolExecutor, PruningThreadPoolExecutor, aliases
from a_sync.a_sync.config import default_sync_executor
from a_sync.a_sync.method import ASyncMethodDescriptor

import mod_common as M
from h import Boom, BoomBase, Inconclusive, Violation, check

PATIENCE = 60
TARGETS = ["fn", "fn", "wrapped", "method", "method", "class", "prop", "cached", "plain_method", "cached_fn", "limited"]


def gen(rng, i, tier):
    kind = rng.choice(["thread", "thread", "async", "pruning", "default", "foreign"])
    n = 8 if kind == "default" else rng.choice([1, 1, 2, 3, 5])
    jobs = rng.choice([4, 8, 14]) if tier == "quick" else rng.choice([8, 16, 30])
    return {
        "kind": kind,
        "n": n,
        "target": rng.choice(TARGETS),
        "form": rng.choice(M.FN_FORMS),
        "default": rng.choice([None, "sync", "async"]),
        "sync_inst": rng.random() < 0.5,
        "clients": [
            [
                {
                    "args": [rng.choice([None, 1, "a", (1, 2), 0.5]) for _ in range(rng.randrange(3))],
                    "kwargs": {k: rng.randrange(9) for k in rng.sample(["fn", "x", "loop", "func", "executor", "timeout"], rng.choice([0, 0, 1, 2]))},
                    "end": rng.choice(["ok", "ok", "ok", "err", "none", "base", "type", "key"]),
                    "gate": rng.random() < 0.7,
                    "cancel": rng.random() < 0.12,
                    "flag": rng.choice("sa"),
                    "at": rng.choice([0, 0, 0, 0.002]),
                    "how": rng.choice(["await", "task", "gather"]),
                }
                for _ in range(rng.randrange(1, jobs + 1))
            ]
            for _ in range(rng.choice([1, 1, 1, 2, 3]))
        ],
        "rounds": rng.choice([1, 1, 2]),
        "release": rng.choice(["fifo", "lifo", "shuffle"]),
        "seed": rng.randrange(10**9),
    }


class Foreign(concurrent.futures.Executor):
    """An executor of the user's own."""

    def __init__(self, n):
        self._inner = concurrent.futures.ThreadPoolExecutor(n, thread_name_prefix="verif-pool")

    def submit(self, fn, /, *args, **kwargs):
        return self._inner.submit(fn, *args, **kwargs)

    def shutdown(self, wait=True, **kw):
        self._inner.shutdown(wait, **kw)


def make(case):
    k, n = case["kind"], case["n"]
    if k == "default":
        return None
    if k == "async":
        return AsyncThreadPoolExecutor(n, thread_name_prefix="verif-pool")
    if k == "pruning":
        return PruningThreadPoolExecutor(n, thread_name_prefix="verif-pool")
    if k == "foreign":
        return Foreign(n)
    return concurrent.futures.ThreadPoolExecutor(n, thread_name_prefix="verif-pool")


def build(case, ex, body):
    """call(who, inst, args, kwargs, flag) -> awaitable; direct(...) -> value in the caller's thread"""
    mods = {} if ex is None else {"executor": ex}
    if case["default"]:
        mods["default"] = case["default"]
    t, form = case["target"], case["form"]

    def f(who, *args, **kwargs):
        return body(who, None, args, kwargs)

    def m(self, who, *args, **kwargs):
        return body(who, self, args, kwargs)

    class Base(a_sync.ASyncGenericBase):
        def __init__(self, sync, who=None):
            self.sync = sync
            self.who = who
            super().__init__()

    if t in ("fn", "wrapped", "cached_fn", "limited"):
        if t == "cached_fn":
            mods["cache_type"] = "memory"
        if t == "limited":
            mods.update(semaphore=1000, runs_per_minute=100000)
        if t == "wrapped":
            g = a_sync.a_sync(f, **mods)

            async def outer(who, *args, **kwargs):
                return await g(who, *args, sync=False, **kwargs)

            return lambda who, inst, args, kwargs, flag: outer(who, *args, **kwargs), None, lambda: None, g
        g = M.decorate(f, form, mods)
        return lambda who, inst, args, kwargs, flag: g(who, *args, **kwargs, **flag), None, lambda: None, g
    if t in ("prop", "cached"):

        def p(self):
            return body(self.who, self, (), {})

        C = type("C", (Base,), {"p": M.prop(p, form, mods, cached=t == "cached")})

        def call(who, inst, args, kwargs, flag):
            inst.who = who
            return inst.__p__(**flag)

        return call, C, lambda: C(case["sync_inst"]), None
    if t == "method":
        C = type("C", (Base,), {"m": M.decorate(m, form, mods)})
    elif t == "class":
        C = type("C", (Base,), {"m": m, **mods})
    else:
        C = type("P", (), {"m": ASyncMethodDescriptor(m, **mods)})
        return lambda who, inst, args, kwargs, flag: inst.m(who, *args, **kwargs, **flag), C, C, None
    return lambda who, inst, args, kwargs, flag: inst.m(who, *args, **kwargs, **flag), C, lambda: C(case["sync_inst"]), None


def run(case, ctx):
    ex = make(case)
    n = case["n"]
    lock = threading.Lock()
    ran, running, gates, spec_of, outcome_of, insts, threads_of = {}, set(), {}, {}, {}, {}, {}
    problems, finished, loop_threads, released = [], set(), set(), set()
    peak, ticks, saturated = [0], [0], [0]
    prefix = "ThreadPoolExecutor" if ex is None else "verif-pool"

    def body(who, inst, args, kwargs):
        spec = spec_of[who]
        here = threading.current_thread()
        with lock:
            ran[who] = ran.get(who, 0) + 1
            threads_of[who] = here.ident
            running.add(who)
            peak[0] = max(peak[0], len(running))
            if here in loop_threads:
                problems.append(Violation(f"call {who} ran on an event loop's thread", "blocking"))
                running.discard(who)
                return
            if not here.name.startswith(prefix):
                problems.append(Violation(f"call {who} ran on {here.name}, not on the executor given", "executor"))
            if len(running) > n:
                problems.append(Violation(f"{len(running)} calls at once on {n} workers", "too-many"))
            if ran[who] > 1:
                problems.append(Violation(f"call {who} was executed {ran[who]} times", "exactly-once"))
            if case["target"] not in ("prop", "cached") and (list(args) != spec["args"] or kwargs != spec["kwargs"]):
                problems.append(Violation(f"call {who} ran with {args} {kwargs} instead of {spec['args']} {spec['kwargs']}", "arguments"))
            if inst is not insts[who]:
                problems.append(Violation(f"call {who} ran for {inst} instead of {insts[who]}", "instance"))
        if spec["gate"] and not gates[who].wait(PATIENCE * 2):
            problems.append(Inconclusive("gate"))
        with lock:
            running.discard(who)
        e = spec["end"]
        if e in ("err", "base", "type", "key"):
            exc = {"err": Boom, "base": BoomBase, "type": TypeError, "key": KeyError}[e](who)
            outcome_of[who] = ("err", exc)
            raise exc
        outcome_of[who] = ("ok", None if e == "none" else [who])
        return outcome_of[who][1]

    call, cls, new, fn = build(case, ex, body)
    entered = [0]
    shared_inst = new()

    def client(t, jobs):
        loop_threads.add(threading.current_thread())
        try:
            for rnd in range(case["rounds"]):
                asyncio.run(main(t, rnd, jobs))
        except BaseException as e:
            problems.append(e)

    async def main(t, rnd, jobs):
        stop = False

        async def heartbeat():
            while not stop:
                ticks[0] += 1
                await asyncio.sleep(0.0005)

        hb = asyncio.ensure_future(heartbeat())

        async def one(k, j):
            who = f"{t}.{rnd}.{k}"
            if j["at"]:
                await asyncio.sleep(j["at"])
            inst = new() if case["target"] in ("prop", "cached") or k % 2 else shared_inst
            insts[who] = inst
            spec_of[who] = j
            gates[who] = threading.Event()
            aw = call(who, inst, tuple(j["args"]), j["kwargs"], {"s": {"sync": False}, "a": {"asynchronous": True}}[j["flag"]])

            async def settle():
                try:
                    return "ok", await aw
                except asyncio.CancelledError as e:
                    return "cancelled", e
                except BaseException as e:
                    return "err", e

            task = asyncio.ensure_future(settle())
            with lock:
                entered[0] += 1
            if j["cancel"]:
                await asyncio.sleep(0.001 if k % 2 else 0)
                task.cancel()
            try:
                out = await task
            except asyncio.CancelledError:
                out = ("cancelled", None)
            finished.add(who)
            if out[0] == "cancelled":
                check(j["cancel"], f"call {who} was cancelled by nobody", "cancelled")
                ctx_cancelled[0] += 1
                return
            check(ran.get(who) == 1, f"call {who} has an outcome and ran {ran.get(who)} times", "exactly-once")
            want = outcome_of.get(who)
            # TimeoutError is not among the endings: asyncio itself copies it when it leaves an executor
            check(want is not None and out[0] == want[0] and out[1] is want[1], lambda: f"call {who} got {out}, its body gave {want}", "result")

        try:
            await asyncio.gather(*(one(k, j) for k, j in enumerate(jobs)))
        finally:
            stop = True
            await hb

    ctx_cancelled = [0]
    ts = [threading.Thread(target=client, args=(t, jobs), daemon=True) for t, jobs in enumerate(case["clients"])]
    for t in ts:
        t.start()
    rng = random.Random(case["seed"])
    end = time.monotonic() + PATIENCE
    blocked_since = None
    heard = 0
    while any(t.is_alive() for t in ts):
        if problems:
            for g in list(gates.values()):
                g.set()
            break
        if time.monotonic() > end:
            for g in list(gates.values()):
                g.set()
            raise Violation(f"calls never ended: {sorted(set(gates) - finished)}, ran {ran}", "stuck")
        with lock:
            blocked = sorted(w for w in running if spec_of[w]["gate"] and w not in released)
            pending = [w for w in list(gates) if w not in finished and w not in ran]
        if blocked:
            # the loops must stay alive while these bodies block
            if blocked_since is None:
                blocked_since = ticks[0]
            elif ticks[0] > blocked_since + 2:
                full = len(blocked) == n
                if full:
                    saturated[0] += 1
                if full or not pending or rng.random() < 0.3:
                    w = {"fifo": blocked[0], "lifo": blocked[-1]}.get(case["release"]) or rng.choice(blocked)
                    heard += ticks[0] - blocked_since
                    gates[w].set()
                    released.add(w)
                    blocked_since = None
        time.sleep(0.0002)
    for t in ts:
        t.join(PATIENCE)
    if problems:
        raise problems[0]
    for g in gates.values():
        g.set()
    end = time.monotonic() + PATIENCE
    while running:
        check(time.monotonic() < end, "a body never ended", "stuck")
        time.sleep(0.0005)
    # every worker is used: n calls that wait for each other can run together
    bar = threading.Barrier(n)
    met = []

    def meet(i):
        if threading.current_thread() in (threading.main_thread(),):
            raise Violation("ran on the loop's thread", "blocking")
        bar.wait(PATIENCE)
        met.append(i)
        return i

    g = a_sync.a_sync(meet, **({} if ex is None else {"executor": ex}), default="async")

    async def meeting():
        return await asyncio.gather(*(g(i) for i in range(n)))

    try:
        check(asyncio.run(meeting()) == list(range(n)), "results of the meeting", "result")
    except threading.BrokenBarrierError:
        raise Violation(f"{n} calls could not run at the same time on {n} workers", "overlap") from None
    # called synchronously it runs in the caller's thread
    if case["target"] not in ("prop", "cached", "wrapped"):
        here = {}

        def sync_body():
            here["t"] = threading.current_thread()
            return 7

        h = a_sync.a_sync(sync_body, **({} if ex is None else {"executor": ex}))
        check(h(sync=True) == 7 and here["t"] is threading.current_thread(), "a synchronous call left the caller's thread", "sync")
    if ex is not None:
        ex.shutdown(wait=True)
    ctx.count("calls", len(gates))
    ctx.count("blocked_while_loop_ran", len(released))
    ctx.count("loop_ticks_during_blocks", heard)
    ctx.count("saturated", saturated[0])
    ctx.count("cancelled", ctx_cancelled[0])
    ctx.count("failed", sum(1 for o in outcome_of.values() if o[0] == "err"))
    ctx.count("t_" + case["target"])
    ctx.count("kind_" + case["kind"])
    if len(ran) > 1 and peak[0] == min(n, len(ran)) and released:
        ctx.nontrivial(case["kind"], n, case["target"], list(ran), sorted(released))
    ctx.sample({"kind": case["kind"], "workers": n, "target": case["target"], "start_order": list(ran)[:20], "peak": peak[0], "ticks": heard})


def probes():
    def process_executor():
        import importlib
        import os
        import sys
        import tempfile

        with tempfile.TemporaryDirectory(prefix="verif-c10-") as d:
            with open(os.path.join(d, "verif_c10_proc.py"), "w") as f:
                f.write("import os\nfrom a_sync import a_sync\n@a_sync('async', executor=__import__('concurrent.futures').futures.ProcessPoolExecutor(1))\ndef f(x):\n    return x, os.getpid()\n")
            sys.path.insert(0, d)
            try:
                mod = importlib.import_module("verif_c10_proc")
                got = asyncio.run(asyncio.wait_for(mod.f(3), 60))
                return not (got[0] == 3 and got[1] != os.getpid())
            except Exception as e:
                return type(e).__name__ == "PicklingError"
            finally:
                sys.path.remove(d)

    return {"process-executor": process_executor}
