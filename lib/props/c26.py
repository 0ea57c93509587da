"""Dual iterables: the same items in every way of iterating."""
import asyncio
import copy
import gc
import threading

import a_sync
from a_sync.iter import ASyncGeneratorFunction, ASyncIterable, ASyncIterator
from a_sync.exceptions import SyncModeInAsyncContextError

from h import Boom, check, boom, big
from vloop import VirtualLoop, dispose

ITEMS = [None, 0, 1, "", "x", False, (), [], 2.5, "stop", "exc"]


def gen(rng, i, tier):
    n = big(rng, rng.choice([0, 1, 2, 3, 5, 8] if tier == "quick" else [0, 1, 3, 8, 30]))
    sites = rng.choice([["main"], ["main", "main"], ["main", "thread"], ["thread"], ["run", "main"], ["main", "run", "thread"], ["run", "thread"]])
    return {
        "items": [rng.choice(ITEMS) for _ in range(n)],
        "err": rng.choice([None, None, rng.randrange(n + 1)]),
        "pace": rng.choice(["none", "zero", "sleep", "mixed"]),
        "source": rng.choice(["agen", "iterator", "iterable", "falsy_iterable", "falsy_iterator"]),
        "wrap": rng.choice(["direct", "direct", "subclass", "function", "method", "method", "factory", "mangled", "super", "classmethod_wrap"]),
        "instances": rng.choice([1, 2, 3]),
        "drop": rng.random() < 0.3,
        "sites": [
            {"site": s, "steps": [rng.choice(["next", "anext", "for", "afor", "await", "materialized", "list", "next_in_async", "concurrent", "switch", "afor", "for"]) for _ in range(rng.randrange(1, 7))], "take": [rng.choice([0, 1, 2, 99]) for _ in range(7)]}
            for s in sites
        ],
        "copied": rng.random() < 0.4,
    }


def item(x, i):
    if x == "stop" and type(x) is str:
        return StopIteration(i)
    if x == "exc" and type(x) is str:
        return boom(i)
    return x


class Model:
    """What a pass over the source gives."""

    def __init__(self, events, closes):
        self.events, self.closes, self.pos = events, closes, 0

    def step(self):
        if self.pos >= len(self.events):
            return ("stop", None)
        ev = self.events[self.pos]
        self.pos += 1
        if ev[0] == "raise" and self.closes:
            self.pos = len(self.events)
        return ev


def run(case, ctx):
    items = [item(x, i) for i, x in enumerate(case["items"])]
    exc = boom("source")
    pace = case["pace"]
    seen = {"steps": 0, "errors": 0, "refused": 0, "passes": 0}

    async def beat(i):
        if pace == "zero" or pace == "mixed" and i % 3 == 1:
            await asyncio.sleep(0)
        elif pace == "sleep" or pace == "mixed" and i % 3 == 2:
            await asyncio.sleep(0.0002)

    def events_of(tag):
        evs = []
        for i, x in enumerate(items):
            if case["err"] == i:
                evs.append(("raise", exc))
            evs.append(("item", x if tag is None else (tag, x)))
        if case["err"] == len(items):
            evs.append(("raise", exc))
        return evs

    async def agen(tag=None):
        for i, (k, v) in enumerate(events_of(tag)):
            await beat(i)
            if k == "raise":
                raise v
            yield v

    class It:
        falsy = False

        def __init__(self, tag=None):
            self.ev, self.i = events_of(tag), 0

        def __aiter__(self):
            return self

        async def __anext__(self):
            if self.i >= len(self.ev):
                raise StopAsyncIteration
            i, self.i = self.i, self.i + 1
            await beat(i)
            k, v = self.ev[i]
            if k == "raise":
                raise v
            return v

    class FalsyIt(It):
        def __bool__(self):
            return False

    class Able:
        def __init__(self, make):
            self.make = make

        def __aiter__(self):
            return self.make()

    class FalsyAble(Able):
        def __len__(self):
            return 0

    wrap = case["wrap"]
    src = case["source"]
    passes = []  # (object, model factory): independent iterations that may be taken in turns

    class SubIterable(ASyncIterable):
        def __aiter__(self):
            return ASyncIterator(super().__aiter__())

    class SubIterator(ASyncIterator):
        async def __anext__(self):
            return await super().__anext__()

    if wrap in ("direct", "subclass", "classmethod_wrap"):
        A, I = (SubIterable, SubIterator) if wrap == "subclass" else (ASyncIterable, ASyncIterator)
        if wrap == "classmethod_wrap":
            A, I = ASyncIterable.wrap, ASyncIterator.wrap
        if src == "agen":
            g = agen()
            objs = [(I(g), lambda: Model(events_of(None), True), "it")]
        elif src in ("iterator", "falsy_iterator"):
            objs = [(I(It() if src == "iterator" else FalsyIt()), lambda: Model(events_of(None), False), "it")]
        elif src == "iterable":
            objs = [(A(Able(agen)), lambda: Model(events_of(None), True), "able")]
        else:
            objs = [(A(FalsyAble(FalsyIt)), lambda: Model(events_of(None), False), "able")]
    elif wrap == "function":
        fn = ASyncIterator.wrap(agen) if src == "agen" else ASyncGeneratorFunction(agen)
        objs = [(fn(t) if src != "iterator" else fn(tag=t), (lambda t=t: Model(events_of(t), True)), "it") for t in range(case["instances"])]
    else:

        def make(attr):
            async def gen(self, extra, *, kw=None):
                async for x in agen((self.tag, attr, extra, kw)):
                    yield x

            return ASyncGeneratorFunction(gen)

        class Base:
            def __init__(self, tag):
                self.tag = tag

            x = make("x")
            y = make("y")

            @ASyncGeneratorFunction
            async def m(self, extra, *, kw=None):
                async for x in agen((self.tag, "base.m", extra, kw)):
                    yield x

            @ASyncGeneratorFunction
            async def __p(self, extra, *, kw=None):
                async for x in agen((self.tag, "base.p", extra, kw)):
                    yield x

            def base_p(self, *a, **k):
                return self.__p(*a, **k)

        class Derived(Base):
            @ASyncGeneratorFunction
            async def m(self, extra, *, kw=None):
                async for x in agen((self.tag, "derived.m", extra, kw)):
                    yield x

            @ASyncGeneratorFunction
            async def __p(self, extra, *, kw=None):
                async for x in agen((self.tag, "derived.p", extra, kw)):
                    yield x

            def derived_p(self, *a, **k):
                return self.__p(*a, **k)

            def super_m(self, *a, **k):
                return super().m(*a, **k)

            def __len__(self):
                return 0

        insts = [(Derived if k % 2 or wrap != "method" else Base)(k) for k in range(case["instances"])]
        objs = []

        def obj(bound, tag, attr, k):
            t = (tag, attr, k, "kw" if k else None)
            objs.append((bound(k, kw="kw") if k else bound(k), lambda: Model(events_of(t), True), "it"))

        copies = 0
        for k, inst in enumerate(insts):
            if case.get("copied") and k < case["instances"]:
                # a copy of an instance whose generators were used before is an instance of its own
                twin = copy.copy(inst)
                if wrap in ("method", "super", "factory"):
                    inst.x, inst.y, inst.m
                    twin = copy.copy(inst)
                twin.tag = ("twin", k)
                insts.append(twin)
                copies += 1
                del twin
            if wrap == "method":
                obj(inst.m, inst.tag, "derived.m" if isinstance(inst, Derived) else "base.m", k)
                obj(inst.m, inst.tag, "derived.m" if isinstance(inst, Derived) else "base.m", k + 10)
            elif wrap == "factory":
                obj(inst.x, inst.tag, "x", k)
                obj(inst.y, inst.tag, "y", k)
                obj(inst.x, inst.tag, "x", k + 1)
            elif wrap == "mangled":
                obj(inst.base_p, inst.tag, "base.p", k)
                obj(inst.derived_p, inst.tag, "derived.p", k)
            elif wrap == "super":
                obj(inst.super_m, inst.tag, "base.m", k)
                obj(inst.m, inst.tag, "derived.m", k)
                obj(inst.super_m, inst.tag, "base.m", k + 1)
        ctx.count("copies", copies)
        if case["drop"]:
            del insts, inst
            gc.collect() if case["instances"] == 3 else None

    class State:
        def __init__(self, obj, factory, kind):
            self.obj, self.factory, self.kind = obj, factory, kind
            self.model = factory()
            self.cached = None

    states = [State(*o) for o in objs]
    cur = [0]

    def expect(model, got, what):
        want = model.step()
        seen["steps"] += 1
        if want[0] == "raise":
            seen["errors"] += 1
        check(
            got[0] == want[0] and (got[1] is want[1] or type(got[1]) is tuple and got[1] == want[1] and got[1][1] is want[1][1]),
            f"{what}: got {got}, the source gives {want} (position {model.pos})",
            "items",
        )
        return want[0]

    def attempt(fn):
        try:
            return ("item", fn())
        except StopIteration:
            return ("stop", None)
        except Boom as e:
            return ("raise", e)

    async def aattempt(fn):
        try:
            return ("item", await fn())
        except StopAsyncIteration:
            return ("stop", None)
        except Boom as e:
            return ("raise", e)

    def fresh(st):
        if st.kind == "able":
            seen["passes"] += 1
            return st.factory()
        return st.model

    def check_list(st, fn, what):
        """The whole rest at once: the list, or the error."""
        if st.cached is not None:
            check(fn() is st.cached, f"{what} gave another list the second time", "materialized")
            return
        m = fresh(st)
        want = []
        while True:
            ev = m.step()
            if ev[0] == "stop":
                break
            if ev[0] == "raise":
                want = ev[1]
                break
            want.append(ev[1])
        try:
            got = fn()
        except Boom as e:
            check(e is want, f"{what} raised {e!r}, expected {want!r}", "items")
            seen["errors"] += 1
            return
        check(type(got) is list and type(want) is list and len(got) == len(want) and all(a is b or a == b for a, b in zip(got, want)), f"{what} gave {got}, expected {want}", "items")
        seen["steps"] += len(want) + 1
        st.cached = got

    def do_sync(step, take, loop):
        st = states[cur[0] % len(states)]
        o = st.obj
        if step == "switch":
            cur[0] += 1
        elif step == "next":
            if st.kind == "able":
                m, it = fresh(st), iter(o)
                for _ in range(take + 1):
                    if expect(m, attempt(lambda: next(it)), "next(iter())") != "item":
                        break
            else:
                check(iter(o) is o, "an iterator is not its own iterator", "protocol")
                expect(st.model, attempt(lambda: next(o)), "next()")
        elif step == "for":
            m = fresh(st)
            n = 0
            try:
                if take:
                    for x in o:
                        expect(m, ("item", x), "for")
                        n += 1
                        if n >= take:
                            break
                    else:
                        expect(m, ("stop", None), "for")
            except Boom as e:
                expect(m, ("raise", e), "for")
        elif step == "list":
            m = fresh(st)
            got = []
            try:
                for x in o:
                    got.append(x)
            except Boom as e:
                for x in got:
                    expect(m, ("item", x), "list()")
                expect(m, ("raise", e), "list()")
            else:
                for x in got:
                    expect(m, ("item", x), "list()")
                expect(m, ("stop", None), "list()")
        elif step == "materialized":
            check_list(st, lambda: o.materialized, "materialized")
        else:
            return False
        return True

    async def do_async(step, take):
        st = states[cur[0] % len(states)]
        o = st.obj
        if step == "anext":
            if st.kind == "able":
                m, it = fresh(st), o.__aiter__()
                for _ in range(take + 1):
                    if expect(m, await aattempt(lambda: it.__anext__()), "anext(aiter())") != "item":
                        break
            else:
                expect(st.model, await aattempt(lambda: o.__anext__()), "anext()")
        elif step == "afor":
            m = fresh(st)
            n = 0
            try:
                if take:
                    async for x in o:
                        expect(m, ("item", x), "async for")
                        n += 1
                        if n >= take:
                            break
                    else:
                        expect(m, ("stop", None), "async for")
            except Boom as e:
                expect(m, ("raise", e), "async for")
        elif step == "next_in_async":
            try:
                for x in o:
                    check(False, f"for inside a running loop gave {x!r}", "refusal")
                check(False, "for inside a running loop ended quietly", "refusal")
            except SyncModeInAsyncContextError:
                seen["refused"] += 1
        elif step == "concurrent":
            # several passes interleaved: over the same iterable, or over different instances' iterators
            async def one(s):
                m = fresh(s)
                n = 0
                try:
                    async for x in s.obj:
                        expect(m, ("item", x), "interleaved async for")
                        n += 1
                        await asyncio.sleep(0)
                    expect(m, ("stop", None), "interleaved async for")
                except Boom as e:
                    expect(m, ("raise", e), "interleaved async for")

            await asyncio.gather(*(one(s) for s in (states if st.kind == "it" else [st, st, st])))

    async def do_await(st):
        return await st.obj

    def drive(site, loop, runner):
        for step, take in zip(site["steps"], site["take"]):
            if not do_sync(step, take, loop):
                st = states[cur[0] % len(states)]
                if step == "await":
                    check_list(st, lambda: runner(do_await(st)), "await")
                else:
                    runner(do_async(step, take))

    def on_loop(site, cls):
        loop = cls()
        asyncio.set_event_loop(loop)
        try:
            drive(site, loop, loop.run_until_complete)
        finally:
            dispose(loop) if isinstance(loop, VirtualLoop) else (asyncio.set_event_loop(None), loop.close())

    problems = []

    def in_thread(site):
        def body():
            try:
                # no loop set: the library finds or makes one
                from a_sync.a_sync._helpers import get_event_loop

                loop = get_event_loop()
                drive(site, loop, loop.run_until_complete)
                loop.close()
            except BaseException as e:
                problems.append(e)

        t = threading.Thread(target=body)
        t.start()
        t.join(60)
        if problems:
            raise problems[0]

    for site in case["sites"]:
        if site["site"] == "main":
            on_loop(site, VirtualLoop)
        elif site["site"] == "thread":
            in_thread(site)
        else:

            async def nothing():
                await asyncio.sleep(0)

            asyncio.run(nothing())  # leaves no current loop behind
            from a_sync.a_sync._helpers import get_event_loop

            drive(site, None, lambda co: get_event_loop().run_until_complete(co))
            get_event_loop().close()
            asyncio.set_event_loop(None)
    for k, v in seen.items():
        ctx.count(k, v)
    for s in case["sites"]:
        ctx.count("site_" + s["site"])
    if len(items) and seen["steps"] > 1:
        ctx.nontrivial(case["wrap"], case["source"], case["err"], [(s["site"], s["steps"], s["take"]) for s in case["sites"]])
    ctx.sample({"wrap": case["wrap"], "source": case["source"], "sites": [s["site"] for s in case["sites"]], "seen": seen})
