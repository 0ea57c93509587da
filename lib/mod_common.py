"""Functions, methods and properties carrying modifiers (limit, rate, cache), driven on a virtual clock."""
import asyncio
import concurrent.futures
import contextvars

import a_sync
from a_sync import aliases

from h import Boom, Violation, check, spin, boom

CALL = contextvars.ContextVar("call")  # the call a body runs for

FN_FORMS = ["bare", "direct", "call", "pos", "str", "alias_str"]
TARGETS = ["fn", "fn", "plain_fn", "method", "plain_method", "class", "plain_class_method", "other_class", "prop", "cached_none"]


class FakeExecutor(concurrent.futures.Executor):
    """Runs a plain function on the virtual loop: it is in progress from submission to its end."""

    def __init__(self, book):
        self.book = book

    def submit(self, fn, *args, **kwargs):
        loop = asyncio.get_running_loop()
        fut = concurrent.futures.Future()
        call = CALL.get(None)
        if call is not None:
            self.book.begin(call)

        def fire():
            if not fut.set_running_or_notify_cancel():
                return
            try:
                r = fn(*args, **kwargs)
            except BaseException as e:
                fut.set_exception(e)
            else:
                fut.set_result(r)

        def gone(f):
            if f.cancelled() and call is not None:
                self.book.end(call, "cancelled")

        fut.add_done_callback(gone)
        loop.call_later(self.book.duration(call), fire)
        return fut


class Book:
    """What the bodies saw: `begin` and `end` per call, number in progress per scope."""

    def __init__(self):
        self.log = []
        self.active = {}
        self.peak = {}
        self.on_begin = None

    def duration(self, call):
        return (call or {}).get("dur") or 0

    def begin(self, call, **seen):
        call["runs"] = call.get("runs", 0) + 1
        call["begun"] = True
        call["live"] = call.get("live", 0) + 1
        call["t_begin"] = asyncio.get_running_loop().time()
        call.setdefault("begins", []).append(call["t_begin"])
        s = call.get("scope")
        self.active[s] = self.active.get(s, 0) + 1
        self.peak[s] = max(self.peak.get(s, 0), self.active[s])
        self.log.append(("b", call["id"]))
        if self.on_begin:
            self.on_begin(call)

    def end(self, call, how):
        call["live"] -= 1
        call["ended"] = how
        s = call.get("scope")
        self.active[s] -= 1
        self.log.append(("e", call["id"], how))

    def finish(self, call):
        """The outcome of a body, decided by its call."""
        e = call.get("end")
        if e == "err":
            call["exc"] = boom(call["id"])
            raise call["exc"]
        if e == "type":
            call["exc"] = TypeError(call["id"])
            raise call["exc"]
        if e == "cancel":
            raise asyncio.CancelledError(call["id"])
        call["value"] = {"none": None, "falsy": 0}.get(e, ("result", call["id"], object()))
        return call["value"]

    async def abody(self, recv, args):
        call = CALL.get()
        call["recv"], call["args_seen"] = recv, args
        self.begin(call)
        how = "done"
        try:
            await spin(call.get("spin_in", 0))
            if call.get("dur") is not None:
                await asyncio.sleep(call["dur"])
            if call.get("gate") is not None:
                await call["gate"].wait()
            return self.finish(call)
        except BaseException as e:
            how = "cancelled" if isinstance(e, asyncio.CancelledError) else "failed"
            raise
        finally:
            self.end(call, how)

    def sbody(self, recv, args):
        call = CALL.get()
        call["recv"], call["args_seen"] = recv, args
        if not call.get("live"):  # a plain synchronous call
            self.begin(call)
        how = "done"
        try:
            return self.finish(call)
        except BaseException:
            how = "failed"
            raise
        finally:
            self.end(call, how)


def raw(book, kind, async_def, name="f"):
    """The undecorated function."""
    if kind == "fn":
        if async_def:

            async def f(*args, **kwargs):
                return await book.abody(None, (args, kwargs))

        else:

            def f(*args, **kwargs):
                return book.sbody(None, (args, kwargs))

    elif kind == "method":
        if async_def:

            async def f(self, *args, **kwargs):
                return await book.abody(self, (args, kwargs))

        else:

            def f(self, *args, **kwargs):
                return book.sbody(self, (args, kwargs))

    else:
        if async_def:

            async def f(self):
                return await book.abody(self, ((), {}))

        else:

            def f(self):
                return book.sbody(self, ((), {}))

    f.__name__ = f.__qualname__ = name
    return f


def decorate(f, form, mods):
    """The decorator with these modifiers, written in one of its forms."""
    mods = dict(mods)
    default = mods.get("default")
    if form in ("str", "alias_str", "pos") and default is None:
        form = "direct"
    if form == "direct":
        return a_sync.a_sync(f, **mods)
    if form == "bare":
        return a_sync.a_sync(**mods)(f) if mods else a_sync.a_sync(f)
    if form == "call":
        return a_sync.a_sync(**mods)(f)
    mods.pop("default", None)
    if form == "pos":
        return a_sync.a_sync(f, default, **mods)
    if form == "str":
        return a_sync.a_sync(default, **mods)(f)
    return a_sync.a_sync(coro_fn=None, default=default, **mods)(f)


def prop(f, form, mods, cached=False):
    p = aliases.cached_property if cached else aliases.property
    mods = dict(mods)
    default = mods.pop("default", None)
    if form in ("bare", "call"):
        return p(**({"default": default} if default else {}), **mods)(f)
    if form == "direct" or default is None:
        return p(f, **({"default": default} if default else {}), **mods)
    return p(default, **mods)(f)


def aflag(call):
    """Flags that ask for an awaitable."""
    return {"s": {"sync": False}, "a": {"asynchronous": True}}[call.get("flag", "s")]


async def await_(x):
    return await x
