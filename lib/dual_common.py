"""Dual-mode functions with a known body, and the places from which they are called."""
import asyncio
import contextvars
import inspect
import threading

import a_sync

from h import Boom, BoomBase, Violation, check, rng_of, boom

SIGS = {
    "none": ("()", []),
    "pos": ("(a, b)", ["a", "b"]),
    "default": ("(a, b='dflt')", ["a", "b"]),
    "var": ("(a, *args)", ["a", "args"]),
    "kwonly": ("(a, *, k='dflt', **kw)", ["a", "k", "kw"]),
    "posonly": ("(a, /, b='dflt')", ["a", "b"]),
    "all": ("(a, b='dflt', *args, k=None, **kwargs)", ["a", "b", "args", "k", "kwargs"]),
}
ENDS = ["value", "value", "value", "none", "falsy", "boom", "boom", "type", "runtime", "loopmsg", "threadmsg", "key", "attr", "stopasync", "timeout", "oserror", "self", "assert", "notimpl"]
EXCS = {
    "type": lambda: TypeError("from the body"),
    "runtime": lambda: RuntimeError("from the body"),
    "loopmsg": lambda: RuntimeError("This event loop is already running"),
    "threadmsg": lambda: RuntimeError("There is no current event loop in thread 'x'"),
    "key": lambda: KeyError("sync"),
    "attr": lambda: AttributeError("done"),
    "stopasync": lambda: StopAsyncIteration("x"),
    "timeout": lambda: asyncio.TimeoutError("x"),
    "oserror": lambda: OSError(2, "x"),
    "assert": lambda: AssertionError("x"),
    "notimpl": lambda: NotImplementedError("x"),
}
VAR = contextvars.ContextVar("dual", default="unset")
LOOP_SITES = ["loop", "loop_thread", "loop_task"]
PLAIN_SITES = ["plain", "fresh", "after_run", "closed", "thread", "thread_closed", "to_thread"]
SITES = LOOP_SITES + PLAIN_SITES


def gen_args(rng, sig):
    """Positional and keyword arguments the signature accepts, as codes."""
    v = lambda: rng.choice([0, 1, "x", None, True, [1], "sync_", 2.5])
    if sig == "none":
        return [], {}
    if sig == "pos":
        return rng.choice([([v(), v()], {}), ([v()], {"b": v()}), ([], {"a": v(), "b": v()})])
    if sig == "default":
        return rng.choice([([v()], {}), ([v(), v()], {}), ([v()], {"b": v()}), ([], {"a": v()})])
    if sig == "var":
        return [v() for _ in range(rng.randrange(1, 5))], {}
    if sig == "kwonly":
        kw = {}
        if rng.random() < 0.5:
            kw["k"] = v()
        for n in rng.sample(["x", "syn", "async_", "instance", "self_", "func", "fn", "args", "kwargs", "Sync"], rng.randrange(3)):
            kw[n] = v()
        return [v()], kw
    if sig == "posonly":
        return rng.choice([([v()], {}), ([v(), v()], {}), ([v()], {"b": v()})])
    args = [v() for _ in range(rng.randrange(1, 5))]
    kw = {"k": v()} if rng.random() < 0.5 else {}
    if rng.random() < 0.4:
        kw["other"] = v()
    return args, kw


def bound(sig, args, kwargs):
    """What a body with this signature must see."""
    ns = {}
    exec(f"def f{SIGS[sig][0]}: return locals()", ns)
    return ns["f"](*args, **kwargs)


class Fn:
    """One function under test: its body records every run."""

    def __init__(self, spec, book, name="fn", method=False):
        self.spec, self.book, self.name = spec, book, name
        self.runs = []
        sig, names = SIGS[spec["sig"]]
        if method:
            sig = "(self" + (", " if sig != "()" else "") + sig[1:]
        recv = "self" if method else "None"
        pre = "async def" if spec["async_def"] else "def"
        call = "return await _fn.abody(" if spec["async_def"] else "return _fn.sbody("
        src = f"{pre} {name}{sig}:\n    'doc of {name}'\n    {call}{recv}, dict({', '.join(f'{n}={n}' for n in names)}))\n"
        ns = {"_fn": self}
        exec(src, ns)
        self.plain = ns[name]
        self.dual = None

    def _start(self, recv, seen):
        e = self.spec["end"]
        run = {"seen": seen, "recv": recv, "thread": threading.get_ident(), "ctx": VAR.get(), "ended": False}
        try:
            run["loop"] = asyncio.get_running_loop()
        except RuntimeError:
            run["loop"] = None
        self.runs.append(run)
        if e == "value":
            run["out"] = ("ok", object() if self.spec.get("fresh", True) else "v")
        elif e == "none":
            run["out"] = ("ok", None)
        elif e == "falsy":
            run["out"] = ("ok", [0, "", False, (), 0.0][len(self.runs) % 5])
        elif e == "boom":
            run["out"] = ("err", boom((self.name, len(self.runs))))
        elif e == "self":
            run["out"] = ("ok", self)
        else:
            run["out"] = ("err", EXCS[e]())
        return run

    def _end(self, run):
        run["ended"] = True
        k, v = run["out"]
        if k == "err":
            raise v
        return v

    def sbody(self, recv, seen):
        run = self._start(recv, seen)
        for s in self.spec["steps"]:
            if s == "inner" and self.book.inner is not None and (run["loop"] is None or not self.book.inner.async_def):
                check(self.book.inner.dual(5, sync=True) == ("inner", 5), "an inner call in a body gave something else", "inner")
        return self._end(run)

    async def abody(self, recv, seen):
        run = self._start(recv, seen)
        for s in self.spec["steps"]:
            if s == "spin":
                await asyncio.sleep(0)
            elif s == "sleep":
                await asyncio.sleep(0.0005)
            elif s == "inner" and self.book.inner is not None:
                check(await self.book.inner.dual(5, sync=False) == ("inner", 5), "an inner call in a body gave something else", "inner")
            elif s == "task":
                t = asyncio.ensure_future(asyncio.sleep(0, "t"))
                check(await t == "t", "a task in a body gave something else", "inner")
        return self._end(run)


class Inner:
    def __init__(self, async_def):
        self.async_def = async_def
        if async_def:

            @a_sync.a_sync
            async def inner(x):
                await asyncio.sleep(0)
                return ("inner", x)

        else:

            @a_sync.a_sync
            def inner(x):
                return ("inner", x)

        self.dual = inner


class Book:
    def __init__(self, inner=None):
        self.inner = Inner(inner == "async") if inner else None


def gen_fn(rng, async_def=None):
    return {
        "sig": rng.choice(list(SIGS)),
        "async_def": rng.random() < 0.6 if async_def is None else async_def,
        "end": rng.choice(ENDS),
        "steps": [rng.choice(["spin", "spin", "sleep", "inner", "task"]) for _ in range(rng.choice([0, 0, 1, 2, 3]))],
        "default": rng.choice([None, None, "sync", "async"]),
        "form": rng.choice(["bare", "call", "direct", "kw", "pos", "alias"]),
    }


def decorate(fn, spec, **modifiers):
    """Every way of writing the decorator."""
    d, form = spec["default"], spec["form"]
    if d is not None:
        modifiers["default"] = d
    if form == "alias" and d is None:
        form = "bare"
    if form == "alias":
        return {"sync": a_sync.apply if False else a_sync.a_sync("sync"), "async": a_sync.a_sync("async")}[d](fn) if not modifiers.keys() - {"default"} else a_sync.a_sync(**modifiers)(fn)
    if form == "bare" and not modifiers:
        return a_sync.a_sync(fn)
    if form == "call":
        return a_sync.a_sync(**modifiers)(fn)
    if form == "pos" and d is not None:
        modifiers.pop("default")
        return a_sync.a_sync(fn, d, **modifiers)
    if form == "kw":
        return a_sync.a_sync(coro_fn=fn, **modifiers)
    return a_sync.a_sync(fn, **modifiers)


FLAGS = [None, None, ["sync", True], ["sync", False], ["asynchronous", True], ["asynchronous", False]]


def wants_sync(flag, default, async_def):
    """The documented rule: own flag, else the default, else how it was written."""
    if flag:
        return flag[1] if flag[0] == "sync" else not flag[1]
    if default:
        return default == "sync"
    return not async_def


class Sync:
    """Result of a call made at a site: a value, an exception or an awaitable still to be awaited."""


def at_site(site, fn, how="run"):
    """Calls fn() at the site; an awaitable result is awaited there.  Returns (kind, value, was_awaitable)."""
    box = []

    def settle(x):
        """Outside a loop: awaits it in a new one."""

        async def main():
            return await x

        if how == "ruc":
            loop = asyncio.new_event_loop()
            try:
                return loop.run_until_complete(main())
            finally:
                loop.close()
        return asyncio.run(main())

    def plain():
        aw = False
        try:
            x = fn()
            if inspect.isawaitable(x):
                aw = True
                x = settle(x)
            return ("ok", x, aw)
        except Violation:
            raise
        except BaseException as e:
            return ("err", e, aw)

    async def inside():
        aw = False
        try:
            x = fn()
            if inspect.isawaitable(x):
                aw = True
                if how == "ruc":
                    x = await asyncio.ensure_future(x)
                else:
                    x = await x
            return ("ok", x, aw)
        except Violation:
            raise
        except BaseException as e:
            return ("err", e, aw)

    def threaded(f):
        def body():
            try:
                box.append(("ok", f()))
            except BaseException as e:
                box.append(("err", e))
            finally:
                drop_loop()

        t = threading.Thread(target=body)
        t.start()
        t.join()
        if box[0][0] == "err":
            raise box[0][1]
        return box[0][1]

    def with_closed():
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        loop.close()
        return plain()

    async def nothing():
        pass

    if site == "plain":
        asyncio.set_event_loop(None)
        r = plain()
        drop_loop()
        return r
    if site == "fresh":
        asyncio.set_event_loop(asyncio.new_event_loop())
        r = plain()
        drop_loop()
        return r
    if site == "after_run":
        asyncio.run(nothing())
        r = plain()
        drop_loop()
        return r
    if site == "closed":
        r = with_closed()
        drop_loop()
        return r
    if site == "thread":
        return threaded(plain)
    if site == "thread_closed":
        return threaded(with_closed)
    if site == "to_thread":

        async def main():
            def f():
                try:
                    return plain()
                finally:
                    drop_loop()

            return await asyncio.to_thread(f)

        return asyncio.run(main())
    if site == "loop":
        return asyncio.run(inside())
    if site == "loop_task":

        async def main():
            return await asyncio.ensure_future(inside())

        return asyncio.run(main())
    if site == "loop_thread":
        return threaded(lambda: asyncio.run(inside()))
    raise AssertionError(site)


def drop_loop():
    """Forgets and closes the thread's current loop, if it has one."""
    p = asyncio.get_event_loop_policy()
    loop = getattr(p._local, "_loop", None)
    asyncio.set_event_loop(None)
    if loop is not None and not loop.is_running():
        loop.close()
