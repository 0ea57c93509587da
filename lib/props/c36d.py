"""Unrelated work on the event loop: the workloads of the other checks, played next to timers, callbacks and tasks of somebody else.

On every loop such a workload makes, a small program of somebody else's is started: timers (some re-armed, some
cancelled by their owner), chains of callbacks, tasks that sleep, exchange messages and wait.  What it does, at
which (virtual) time and in which order was recorded once on a loop of its own; next to the library it must do the
same, up to the moment the workload ends, and what it has armed for later must still be armed then."""

import asyncio
import copy
import importlib

import h
import vloop
from h import Inconclusive, Violation
from vloop import VirtualLoop

VirtualLoop.stable = True
TIMES = [0, 0.001, 0.01, 0.05, 0.1, 0.25, 0.5, 1, 1.5, 2, 5, 10, 30, 59.9, 60, 61, 120, 299, 300, 300.5, 301, 450, 600, 900]


PLAIN = ("timer", "chain", "burst", "cancelled", "future")
NO_TASKS = ("c25",)  # these count the tasks of the loop


def gen_actor(rng, tasks):
    kind = rng.choice(["timer", "timer", "chain", "burst", "cancelled", "future"] + (["sleeper", "talkers", "lock", "waiter"] if tasks else []))
    a = {"kind": kind, "at": rng.choice(TIMES)}
    if kind == "chain":
        a.update(every=rng.choice(TIMES[1:]), times=rng.randrange(1, 8))
    elif kind == "burst":
        a.update(n=rng.randrange(1, 12))
    elif kind == "cancelled":
        a.update(before=rng.random())
    elif kind == "future":
        a.update(n=rng.randrange(1, 4))
    elif kind in ("sleeper", "talkers", "lock", "waiter"):
        a.update(sleeps=[rng.choice([0, 0, 0.001] + TIMES) for _ in range(rng.randrange(1, 6))])
    return a


class Foreign:
    """Somebody else's work on `loop`."""

    def __init__(self, loop, actors, watch=None):
        self.loop, self.log, self.armed, self.tasks = loop, [], {}, []
        self.over = False
        self.wrong = []
        self.t0 = loop.time()
        self.settings = None
        for i, a in enumerate(actors):
            getattr(self, a["kind"])(i, a)
        self.settings = (loop.get_debug(), loop.slow_callback_duration)

    def note(self, *what):
        if not self.over:
            self.log.append((round(self.loop.time() - self.t0, 6), *what))

    def arm(self, delay, fn, *args):
        when = self.loop.time() + delay

        def fire():
            self.armed.pop(id(handle), None)
            fn(*args)

        handle = self.loop.call_at(when, fire)
        self.armed[id(handle)] = (handle, when)
        return handle

    def timer(self, i, a):
        self.arm(a["at"], self.note, i)

    def chain(self, i, a):
        def fire(k):
            self.note(i, k)
            if k < a["times"]:
                self.arm(a["every"], fire, k + 1)

        self.arm(a["at"], fire, 0)

    def burst(self, i, a):
        def step(k):
            self.note(i, k)
            if k < a["n"]:
                self.loop.call_soon(step, k + 1)

        self.arm(a["at"], step, 0)

    def cancelled(self, i, a):
        h1 = self.arm(a["at"] + 1, self.note, i, "should not fire")

        def cancel():
            self.note(i, "cancels")
            h1.cancel()
            self.armed.pop(id(h1), None)

        self.arm(a["at"] * a["before"], cancel)

    def future(self, i, a):
        fut = self.loop.create_future()
        for k in range(a["n"]):
            fut.add_done_callback(lambda f, k=k: self.note(i, k, f.result()))
        self.arm(a["at"], lambda: fut.set_result("r"))

    def task(self, coro):
        # their own tasks, whatever factory the loop has
        t = asyncio.Task(self.guard(coro), loop=self.loop)
        self.tasks.append(t)
        return t

    async def guard(self, coro):
        try:
            await coro
        except asyncio.CancelledError:
            if not self.over:
                self.wrong.append("a task of somebody else's was cancelled")
            raise
        except Exception as e:
            if not self.over:
                self.wrong.append(f"a task of somebody else's failed: {e!r}")

    def sleeper(self, i, a):
        async def go():
            for k, s in enumerate(a["sleeps"]):
                await asyncio.sleep(s)
                self.note(i, k)

        self.arm(a["at"], lambda: self.task(go()))

    def talkers(self, i, a):
        q1, q2 = asyncio.Queue(), asyncio.Queue(1)

        async def ping():
            for k, s in enumerate(a["sleeps"]):
                await asyncio.sleep(s)
                await q1.put(k)
                self.note(i, "heard", await q2.get())

        async def pong():
            for _ in a["sleeps"]:
                k = await q1.get()
                self.note(i, "said", k)
                await q2.put(-k)

        self.arm(a["at"], lambda: (self.task(ping()), self.task(pong())))

    def lock(self, i, a):
        lock = asyncio.Lock()

        async def go(k, s):
            async with lock:
                self.note(i, "in", k)
                await asyncio.sleep(s)
                self.note(i, "out", k)

        self.arm(a["at"], lambda: [self.task(go(k, s)) for k, s in enumerate(a["sleeps"])])

    def waiter(self, i, a):
        async def go():
            for k, s in enumerate(a["sleeps"]):
                try:
                    await asyncio.wait_for(asyncio.sleep(s + 1), s)
                except asyncio.TimeoutError:
                    self.note(i, k, "timeout")
            futs = [asyncio.ensure_future(asyncio.sleep(s, k)) for k, s in enumerate(a["sleeps"])]
            self.note(i, await asyncio.gather(*futs))

        self.arm(a["at"], lambda: self.task(go()))

    def heap(self):
        """The loop's own timer heap must be one at any time, or timers are late."""
        s = self.loop._scheduled
        for k in range(1, len(s)):
            if s[k] < s[(k - 1) >> 1]:
                return f"timer {s[k]!r} is due before its parent in the loop's heap, {s[(k - 1) >> 1]!r}"

    def end(self):
        """-> what is wrong at the moment the workload has ended."""
        self.over = True
        if self.wrong:
            return self.wrong[0]
        if msg := self.heap():
            return msg
        if self.settings != (self.loop.get_debug(), self.loop.slow_callback_duration):
            return f"the loop's settings changed from {self.settings}"
        ready = {id(x) for x in self.loop._ready}
        scheduled = {id(x) for x in self.loop._scheduled}
        for key, (handle, when) in self.armed.items():
            if handle.cancelled():
                return "a timer of somebody else's was cancelled"
            if handle._when != when:
                return f"a timer of somebody else's was moved from {when} to {handle._when}"
            if key not in scheduled and key not in ready:
                return f"a timer of somebody else's, due at {when - self.t0}, got lost"


def alone(actors):
    """What they do on a loop of their own."""
    loop = VirtualLoop()
    f = Foreign(loop, actors)
    try:
        loop.run_until_complete(asyncio.Task(asyncio.sleep(20000), loop=loop))
        if msg := f.end():
            raise h.Inconclusive("foreign work alone: " + msg)
        return f.log
    finally:
        vloop.dispose(loop)


class Beside:
    """Starts the work of somebody else on every loop made, and judges it when that loop's workload has ended."""

    def __init__(self, actors, expected, ctx):
        self.actors, self.expected, self.ctx = actors, expected, ctx
        self.loops = {}
        self.msg = None

    def created(self, loop):
        self.loops[id(loop)] = Foreign(loop, self.actors)
        self.ctx.count("loops")

    def ended(self, loop):
        f = self.loops.pop(id(loop), None)
        if f is None:
            return
        t_end = loop.time() - f.t0
        msg = f.end()
        log = f.log
        want = self.expected[: len(log)]
        if msg is None and log != want:
            k = next(k for k, (a, b) in enumerate(zip(log, want + [None])) if a != b)
            msg = f"after {log[max(0, k - 2):k]} somebody else's work saw {log[k]}, not {want[k] if k < len(want) else 'nothing'}"
        # what was due strictly before the last moment must have happened
        if msg is None and len(log) < len(self.expected) and self.expected[len(log)][0] < t_end - 1e-6:
            msg = f"{self.expected[len(log)]} of somebody else's had not happened at {t_end}"
        self.ctx.count("foreign_events", len(log))
        self.ctx.count("foreign_timers_still_armed", len(f.armed))
        self.msg = self.msg or msg

    def __enter__(self):
        VirtualLoop.created.append(self.created)
        VirtualLoop.disposing.append(self.ended)
        beside = self

        def heaps(loop):
            f = beside.loops.get(id(loop))
            if f is not None and len(loop._scheduled) < 200 and beside.msg is None:
                beside.msg = f.heap()

        VirtualLoop.tick = heaps  # a method of the loop
        return self

    def __exit__(self, *exc):
        VirtualLoop.created.remove(self.created)
        VirtualLoop.disposing.remove(self.ended)
        VirtualLoop.tick = None


def gen(rng, i, tier):
    return {"seed": rng.randrange(2**60), "i": i, "mod": None, "actors": [gen_actor(rng, rng.random() < 0.7) for _ in range(rng.choice([1, 2, 4, 8, 16]))]}


def observe(mod, case, ctx, beside):
    sub = h.Ctx()
    sub.tier, sub.job = ctx.tier, ctx.job
    try:
        if beside is None:
            mod.run(copy.deepcopy(case), sub)
        else:
            with beside:
                mod.run(copy.deepcopy(case), sub)
        out = ("ok",)
    except Inconclusive:
        out = ("inconclusive",)
    except Violation as e:
        out = ("violation", e.mech, e.msg)
    except (MemoryError, OSError, SystemExit, KeyboardInterrupt):
        raise
    except BaseException as e:
        out = ("ended", type(e).__name__, str(e)[:200])
    return out


def run(case, ctx):
    names = ctx.job.get("params", {}).get("mods")
    name = case["mod"] or names[case["i"] // max(1, ctx.job.get("step", 1)) % len(names)]
    case["mod"] = name
    mod = importlib.import_module("props." + name)
    inner = mod.gen(h.rng_of("c36d", name, case["seed"]), case["i"], ctx.tier)
    actors = [a for a in case["actors"] if name not in NO_TASKS or a["kind"] in PLAIN]
    expected = alone(actors)
    beside = Beside(actors, expected, ctx)
    out = observe(mod, inner, ctx, beside)
    if beside.msg is not None:
        raise Violation(f"next to a workload of {name}: {beside.msg}", "disturbed")
    ctx.count("cases_" + name)
    if out[0] != "ok":
        # the workload's own oracle: is it the foreign work that made the difference?
        if observe(mod, inner, ctx, None)[0] == "ok":
            ctx.count("own_oracle_" + name)
        raise Inconclusive("the workload itself does not pass")
    ctx.nontrivial(name, case["seed"], case["actors"])
