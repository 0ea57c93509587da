"""Cancelling callers: scripts of bodies that react to cancellation in every way, reached through stacks of dual
settings, against the same scripts as plain coroutines under asyncio's own semaphore and the limiter itself."""

import asyncio
import gc

import a_sync
from a_sync import ASyncGenericBase, a_sync as dual
from a_sync.a_sync.method import ASyncMethodDescriptor
from a_sync.a_sync.property import a_sync_property
from aiolimiter import AsyncLimiter

import h
from h import Boom, check, boom
from vloop import Quiescent, VirtualLoop, dispose

FORMS = ["fn_async", "fn_sync", "fn_bare", "method", "method_dual", "amethod", "class_async", "plain_method", "prop", "hidden", "raw_fn", "stacked", "smart_sem", "prio_sem"]
REACTS = ["pass", "pass", "finally", "finally", "suppress", "convert", "outlast", "other", "again", "uncancel", "return"]


def gen_ops(rng, depth=0, callee=None):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < 0.4 or depth > 2:
            ops.append(["sleep", rng.choice([0, 1, 1, 2, 3, 5])])
        elif r < 0.7:
            ops.append(["try", rng.choice(REACTS), gen_ops(rng, depth + 1, callee), [["sleep", rng.choice([0, 1, 2])] for _ in range(rng.choice([0, 1, 1, 2]))]])
        elif r < 0.76:
            ops.append(["timeout", rng.choice([1, 2, 4]) + 0.25, gen_ops(rng, depth + 1, callee), rng.random() < 0.5])
        elif r < 0.80:
            ops.append(["wait_for", rng.choice([1, 2, 4]) + 0.25, gen_ops(rng, depth + 1, callee)])
        elif r < 0.84:
            ops.append(["shield", gen_ops(rng, depth + 1, callee)])
        elif r < 0.88:
            ops.append(["task", gen_ops(rng, depth + 1, callee)])
        elif callee is not None:
            ops.append(["call" if rng.random() < 0.6 else "gather", callee, rng.randrange(1, 4)])
        else:
            ops.append(["sleep", 1])
    return ops


def gen(rng, i, tier):
    nf = rng.choice([1, 1, 2, 3])
    fns = []
    for k in range(nf):
        fns.append(
            {
                "form": rng.choice(FORMS),
                "sem": rng.choice([None, None, 1, 1, 2, 3]),
                "rpm": rng.choice([None, None, None, 60, 600, 6000]),
                "ops": gen_ops(rng, 0, k + 1 if k + 1 < nf else None),
                "end": rng.choice(["ok", "ok", "ok", "err"]),
            }
        )
    # the inner ones share nothing with the outer ones, so that no permit is waited for by its own holder
    calls = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        at = rng.choice([0, 0, 0, 1, 2, 3])
        cancels = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            cancels.append([at + rng.choice([0, 0.5, 0.5, 1.5, 2.5, 3.5, 5.5, 8.5, 12.5, 30.5, 1000.5, 5000.5]), rng.choice([None, None, "msg"])])
        calls.append({"at": at, "fn": rng.choice([0, 0, rng.randrange(nf)]), "cancels": sorted(cancels, key=lambda c: c[0]), "via": rng.choice(["task", "task", "create_task", "wait_for", "timeout", "group", "gather"]), "limit": rng.choice([2.75, 6.75, 20.75])})
    return {"fns": fns, "calls": calls, "smart": rng.random() < 0.2}


class World:
    """One run of the case: with the library (lib=True) or with plain coroutines."""

    def __init__(self, case, lib):
        self.case, self.lib = case, lib
        self.log = {}
        self.loop = VirtualLoop()
        self.t0 = self.loop.time()
        self.outcomes = {}
        self.ids = {}
        self.background = []

    def note(self, who, *what):
        self.log.setdefault(who, []).append((round((self.loop.time() - self.t0) * 1000, 3), *what))

    # the bodies

    async def body(self, k, who):
        self.note(who, "starts", k, asyncio.current_task().cancelling())
        try:
            r = await self.play(self.case["fns"][k]["ops"], who)
            if r is not None:
                self.note(who, "returns early")
                return r
            if self.case["fns"][k]["end"] == "err":
                raise boom(who)
            self.note(who, "returns")
            return ("value", who)
        except asyncio.CancelledError as e:
            self.note(who, "leaves cancelled", e.args)
            raise
        except Exception as e:
            self.note(who, "leaves", repr(e))
            raise

    async def play(self, ops, who):
        for n, op in enumerate(ops):
            kind = op[0]
            if kind == "sleep":
                try:
                    await asyncio.sleep(op[1] / 1000)
                except asyncio.CancelledError as e:
                    self.note(who, "cancelled at", n, e.args, asyncio.current_task().cancelling())
                    raise
            elif kind == "try":
                r = await self.react(op, who)
                if r is not None:
                    return r
            elif kind == "timeout":
                try:
                    async with asyncio.timeout(op[1] / 1000):
                        r = await self.play(op[2], who)
                        if r is not None:
                            return r
                except TimeoutError:
                    self.note(who, "timeout")
                    if op[3]:
                        raise
            elif kind == "wait_for":
                try:
                    r = await asyncio.wait_for(self.play(op[2], who), op[1] / 1000)
                    if r is not None:
                        return r
                except TimeoutError:
                    self.note(who, "wait_for timeout")
            elif kind == "shield":
                t = asyncio.ensure_future(self.play(op[1], who + ("shielded", n)))
                self.background.append(t)
                await asyncio.shield(t)
            elif kind == "task":
                t = asyncio.ensure_future(self.play(op[1], who + ("task", n)))
                self.background.append(t)
                await t
            elif kind == "call":
                await self.call(op[1], who + (n,))
            elif kind == "gather":
                await asyncio.gather(*[self.call(op[1], who + (n, j)) for j in range(op[2])])
        return None

    async def react(self, op, who):
        _, how, ops, cleanup = op
        try:
            r = await self.play(ops, who)
            if r is not None:
                return r
        except asyncio.CancelledError:
            self.note(who, "reacts", how)
            if how == "pass":
                raise
            if how == "convert":
                raise boom(("converted", who)) from None
            if how == "other":
                raise asyncio.CancelledError("another one")
            if how == "outlast":
                await self.play(cleanup, who)
                self.note(who, "outlasted")
                raise
            if how == "again":
                try:
                    await self.play(ops, who)
                finally:
                    self.note(who, "did it again")
            elif how == "uncancel":
                self.note(who, "uncancelled", asyncio.current_task().uncancel())
            elif how == "return":
                await self.play(cleanup, who)
                return ("returned instead", who)
            elif how == "finally":
                raise
            # "suppress": carry on
        finally:
            if how == "finally":
                self.note(who, "cleans up")
                await self.play(cleanup, who)
                self.note(who, "has cleaned up")
        return None

    # the ways to get there

    def build(self):
        self.entries = []
        for k, f in enumerate(self.case["fns"]):
            self.entries.append(self.entry_lib(k, f) if self.lib else self.entry_ref(k, f))

    def entry_ref(self, k, f):
        sem = asyncio.Semaphore(f["sem"]) if f["sem"] else None
        lim = AsyncLimiter(f["rpm"]) if f["rpm"] else None

        async def limited(who):
            if lim is None:
                return await self.body(k, who)
            async with lim:
                return await self.body(k, who)

        async def entry(who):
            if sem is None:
                return await limited(who)
            async with sem:
                return await limited(who)

        return entry

    def entry_lib(self, k, f):
        w, form = self, f["form"]
        mods = {}
        if f["sem"]:
            mods["semaphore"] = f["sem"]
        if form == "smart_sem" and f["sem"]:
            mods["semaphore"] = a_sync.Semaphore(f["sem"])
        if form == "prio_sem" and f["sem"]:
            mods["semaphore"] = a_sync.PrioritySemaphore(f["sem"])
        if f["rpm"]:
            mods["runs_per_minute"] = f["rpm"]

        async def fn(who):
            return await w.body(k, who)

        if form in ("fn_async", "smart_sem", "prio_sem"):
            return dual(default="async", **mods)(fn)
        if form == "fn_sync":
            d = dual(default="sync", **mods)(fn)
            return lambda who: d(who, sync=False)
        if form == "fn_bare":
            d = dual(**mods)(fn)
            return lambda who: d(who, asynchronous=True)
        if form == "raw_fn":
            from a_sync.a_sync.function import ASyncFunction

            return ASyncFunction(fn, default="async", **mods)
        if form == "stacked":
            # the settings split over a decorator of its own
            sem = mods.pop("semaphore", None)
            d = dual(default="async", **mods)(fn)
            if sem is None:
                return d

            async def outer(who):
                return await d(who)

            return dual(default="async", semaphore=sem)(outer)

        async def method(self, who):
            return await w.body(k, who)

        async def prop(self):
            return await w.body(k, w.current)

        ns = {}

        def init(self):
            self.sync = form != "class_async" and form != "prop" and form != "amethod"
            ASyncGenericBase.__init__(self)

        if form in ("prop", "hidden"):
            # properties take no modifiers of their own here: each read is one call of an inner method
            inner = dual(default="async", **mods)(fn)

            async def prop(self):
                # who: the reader is identified by the task
                who = w.ids.pop(asyncio.current_task())
                return await inner(who)

            T = type("T", (ASyncGenericBase,), {"__init__": init, "prop": a_sync_property(prop)})
            t = T()

            async def read(who):
                w.ids[asyncio.current_task()] = who
                return await (t.prop if form == "prop" else t.__prop__(sync=False))

            return read
        if form == "plain_method":
            P = type("P", (), {"m": ASyncMethodDescriptor(method, **mods)})
            p = P()
            return lambda who: p.m(who, sync=False)
        if form == "method_dual":
            ns["m"] = dual(default="async", **mods)(method)
        elif form == "class_async":
            ns.update(mods)
            ns["m"] = method
        else:
            ns["m"] = dual(**mods)(method) if mods else method
        T = type("T", (ASyncGenericBase,), {"__init__": init, **ns})
        t = T()
        if form in ("amethod", "class_async", "method_dual"):
            return lambda who: t.m(who)
        return lambda who: t.m(who, sync=False)

    def call(self, k, who):
        return self.entries[k](who)

    # the callers

    async def caller(self, c, n):
        who = (n,)
        k = c["fn"]
        if c["via"] == "wait_for":
            return await asyncio.wait_for(self.call(k, who), c["limit"] / 1000)
        if c["via"] == "timeout":
            async with asyncio.timeout(c["limit"] / 1000):
                return await self.call(k, who)
        if c["via"] == "group":
            async with asyncio.TaskGroup() as g:
                g.create_task(self.call_coro(k, who))
                g.create_task(asyncio.sleep(c["limit"] / 1000))
            return "group done"
        if c["via"] == "gather":
            return await asyncio.gather(self.call(k, who), self.call(k, who + ("too",)), return_exceptions=n % 2 == 0)
        return await self.call(k, who)

    async def call_coro(self, k, who):
        return await self.call(k, who)

    def run(self):
        loop = self.loop
        asyncio.set_event_loop(loop)
        if self.case["smart"] and self.lib:
            from a_sync._smart import set_smart_task_factory

            set_smart_task_factory(loop)
        tasks = {}

        def start(n, c):
            if c["via"] == "create_task" and self.lib:
                t = a_sync.create_task(self.caller(c, n), name=f"caller-{n}")
            else:
                t = loop.create_task(self.caller(c, n))
            tasks[n] = t

            def done(t):
                out = ("cancelled",) if t.cancelled() else ("err", describe(t.exception())) if t.exception() else ("ok", str(t.result()))
                self.outcomes[n] = (round((loop.time() - self.t0) * 1000, 3), out)

            t.add_done_callback(done)

        def cancel(n, msg):
            t = tasks[n]
            self.note(("cancel", n), t.cancel(msg) if msg else t.cancel())

        async def main():
            self.build()
            for n, c in enumerate(self.case["calls"]):
                loop.call_at(self.t0 + c["at"] / 1000, start, n, c)
                for at, msg in c["cancels"]:
                    loop.call_at(self.t0 + at / 1000 + 1e-6, cancel, n, msg)
            await asyncio.sleep(7)
            while any(not t.done() for t in [*tasks.values(), *self.background]):
                await asyncio.sleep(1)
            await asyncio.sleep(1)

        VirtualLoop.stable = True
        try:
            loop.run_until_complete(asyncio.Task(main(), loop=loop))
            self.ended = True
            gc_tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
            self.left = [repr(t)[:200] for t in gc_tasks]
            for t in self.background:
                if not t.cancelled():
                    t.exception()
            tasks.clear()
        except Quiescent:
            self.ended, self.left = False, []
        finally:
            VirtualLoop.stable = False
            dispose(loop)


def describe(e):
    if isinstance(e, BaseExceptionGroup):
        return [describe(x) for x in e.exceptions]
    return repr(e)


def run(case, ctx):
    ref = World(case, False)
    ref.run()
    if not ref.ended:
        raise h.Inconclusive("the plain coroutines do not come to an end")
    lib = World(case, True)
    lib.run()
    check(lib.ended, "with the library the callers never come to an end, the plain coroutines do", "hang")
    for n, c in enumerate(case["calls"]):
        check(lib.outcomes.get(n) == ref.outcomes.get(n), lambda: f"caller {n} of {case['fns'][c['fn']]['form']}: {lib.outcomes.get(n)}, a plain coroutine: {ref.outcomes.get(n)}", "outcome")
    for who in sorted({*ref.log, *lib.log}, key=str):
        a, b = lib.log.get(who), ref.log.get(who)
        check(a == b, lambda: f"body {who}: {a}, as a plain coroutine: {b}", "body")
    check(lib.left == ref.left, lambda: f"tasks left behind: {lib.left}", "left")
    check(len(lib.loop.unhandled) <= len(ref.loop.unhandled), lambda: f"the loop's exception handler heard of {lib.loop.unhandled}", "unhandled")
    text = str(ref.log)
    for key, mark in (("bodies_cancelled", "cancelled at"), ("cleaned_up", "has cleaned up"), ("suppressed", "'suppress'"), ("converted", "'convert'"), ("outlasted", "outlasted"), ("uncancelled", "uncancelled"), ("did_again", "did it again"), ("timeouts", "timeout")):
        ctx.count(key, text.count(mark))
    ctx.count("bodies", sum(1 for v in ref.log.values() for x in v if x[1] == "starts"))
    started = {w[0] for w, v in ref.log.items() if any(x[1] == "starts" for x in v)}
    cancelled = [n for n, o in ref.outcomes.items() if o[1] == ("cancelled",)]
    ctx.count("callers_cancelled", len(cancelled))
    ctx.count("cancelled_before_start", sum(1 for n in cancelled if n not in started))
    ctx.count("callers_ok", sum(1 for o in ref.outcomes.values() if o[1][0] == "ok"))
    for f in case["fns"]:
        ctx.count("form_" + f["form"])
    if cancelled or "cancelled at" in text:
        ctx.nontrivial(case["fns"], sorted(ref.log.items(), key=str))
