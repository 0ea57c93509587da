"""Hostile call sequences into every compiled module: nothing may crash, read freed memory or lose references."""
import asyncio
import copy
import functools
import gc
import importlib
import inspect
import os
import pickle
import pkgutil
import random
import signal
import subprocess
import sys
import threading
import types
import weakref

import a_sync
from a_sync.iter import _AwaitableAsyncIterableMixin

from h import check
from vloop import VirtualLoop, dispose


class Guard(BaseException):
    """A case used up its time."""


def discover_all():
    classes, functions, modules = [], [], []
    for m in pkgutil.walk_packages(a_sync.__path__, "a_sync."):
        if "sphinx" in m.name:
            continue
        mod = importlib.import_module(m.name)
        compiled = getattr(mod, "__file__", "").endswith(".so")
        if compiled:
            modules.append(mod.__name__)
        for name, x in sorted(vars(mod).items(), key=lambda kv: kv[0]):
            if name.startswith("__"):
                continue
            if isinstance(x, type) and x.__module__ == mod.__name__:
                if compiled or any(b.__module__.startswith("a_sync") for b in x.__mro__[1:]):
                    classes.append(x)
            elif compiled and type(x).__name__ in ("cython_function_or_method", "builtin_function_or_method") and getattr(x, "__module__", None) == mod.__name__:
                functions.append(x)
    # their effects reach outside the process or this interpreter's loops
    skip = {"AsyncProcessPoolExecutor"}
    return [c for c in classes if c.__name__ not in skip], functions, modules


CLASSES, FUNCTIONS, MODULES = discover_all()
# calls that take asyncio's own native futures and tasks apart (CPython does not survive them)
NOT_ON_FUTURES = {"__init__", "__del__", "__setstate__", "__new__", "_make_cancelled_error", "__dict__", "_source_traceback"}
CYFUNC = type(a_sync.asyncio.create_task)
BOXES = (list, tuple, dict, set, frozenset, BaseException)
# an object's own dict is not handed out: what is written there by hand can make it part of itself
METHOD_SKIP = {"__dict__", "__class__", "__subclasses__", "__init_subclass__", "__abstractmethods__", "mro", "__bases__", "__mro__"}
STR_ATTRS = ["_value", "_name", "_waiters", "_loop", "value", "sync", "asynchronous", "modifiers", "field_name", "_fget", "__dict__", "_is_async_def", "default", "_potential_lost_waiters"]


def is_future(x):
    return isinstance(x, asyncio.Future) or isinstance(x, type) and issubclass(x, asyncio.Future)


def outer(x):
    """Nothing of the library's: an object made part of itself recurses through native code without end."""
    xs = list(x.values()) if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else [x]
    return None if any(c.__module__.startswith("a_sync") for y in xs for c in (*type(y).__mro__, type(type(y)))) else x


def gen(rng, i, tier):
    return {
        "seed": rng.randrange(2**60),
        "ops": rng.choice([20, 40, 80] if tier == "quick" else [40, 100, 200]),
        "threads": rng.choice([0, 0, 0, 2, 3]),
        "focus": rng.choice([None, "locks", "iter", "fn", "prop", "queue", "tasks"]),
        "evil": rng.choice([0.0, 0.1, 0.3]),
    }


FOCUS = {
    "locks": ("Semaphore", "Event", "Counter", "_Priority", "_Debug", "_Logger", "Dummy"),
    "iter": ("ASyncI", "ASyncG", "ASyncF", "ASyncS", "_A", "_AsyncIter"),
    "fn": ("ASyncFunction", "ASyncDecorator", "ASyncBound", "ASyncMethod", "Modifier", "HiddenMethod"),
    "prop": ("Property", "HiddenMethod", "ASyncGenericBase", "ASyncABC"),
    "queue": ("Queue", "Smart", "Priority"),
    "tasks": ("TaskMapping", "ASyncFuture", "Smart"),
}


def small(cls, a, kw):
    if "Processing" in cls.__name__:  # a thousand million workers would take a while to start
        a = [min(x, 9) if isinstance(x, int) else x for x in a]
        kw = {k: min(x, 9) if isinstance(x, int) else x for k, x in kw.items()}
    return a, kw


TRACE = os.open(os.environ["C33_TRACE"], os.O_CREAT | os.O_RDWR) if "C33_TRACE" in os.environ else 0


class World:
    __slots__ = ("rng", "pool", "evil_rate", "calls", "made", "sentinels", "depth")

    def __init__(self, seed, evil):
        self.rng = random.Random(seed)
        self.pool = []
        self.evil_rate = evil
        self.calls = 0
        self.made = 0
        self.sentinels = [Sentinel() for _ in range(8)]
        self.depth = 0

    def evil(self):
        return Evil(self)

    def value(self, depth=0):
        r = self.rng
        x = r.random()
        if self.pool and x < 0.3:
            x = r.choice(self.pool)
            # iterating a priority semaphore (it has __getitem__) makes a context manager for every number there is
            return None if depth and isinstance(x, BOXES) or isinstance(x, a_sync.PrioritySemaphore) else x
        if x < 0.3 + self.evil_rate:
            return self.evil()
        if x < 0.5 and depth < 2:
            k = r.randrange(5)
            items = [self.value(depth + 1) for _ in range(r.randrange(4))]
            if k == 0:
                return items
            if k == 1:
                return tuple(items)
            if k == 2:
                return {n: v for n, v in zip(("sync", "asynchronous", "x", "self", "a"), items)}
            if k == 3:
                return iter(items)
            return (v for v in items)
        pick = r.randrange(24)
        if pick < 10:
            return r.choice([None, True, False, 0, 1, 2, -1, 2**15, 2**16, 2**31, 2**32, 2**63, 2**64, 2**70, -(2**63) - 1, 1.5, float("nan"), float("inf"), "", "x", "sync", "async", "memory", "x" * 3000, "\u20ac", b"\x00\xff"])
        if pick < 13:
            return r.choice(self.sentinels)
        return r.choice(
            [
                lambda: (lambda *a, **k: None),
                lambda: coro_fn,
                lambda: boom_fn,
                lambda: agen_fn,
                lambda: slow_fn,
                lambda: plain_fn,
                lambda: agen_fn(),
                lambda: asyncio.Event(),
                lambda: threading.Lock(),
                lambda: r.choice(CLASSES),
                lambda: r.choice(FUNCTIONS),
                lambda: functools.partial(plain_fn, 1),
                lambda: self.future(),
                lambda: self.coro(),
                lambda: Holder,
                lambda: IntSub(3),
                lambda: StrSub("sync"),
            ]
        )()

    def future(self):
        try:
            f = asyncio.get_event_loop().create_future()
        except RuntimeError:
            return None
        k = self.rng.randrange(4)
        if k == 0:
            f.set_result(self.rng.choice(self.sentinels))
        elif k == 1:
            f.set_exception(ValueError("x"))
            f.exception()
        elif k == 2:
            f.cancel()
        return f

    def coro(self):
        return self.rng.choice([coro_fn, slow_fn, boom_fn])()

    def args(self):
        r = self.rng
        return [self.value() for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3]))], {r.choice(["sync", "asynchronous", "name", "value", "pop", "default", "semaphore", "cache_type", "key", "function", "fut", "loop", "x"]): self.value() for _ in range(r.choice([0, 0, 0, 1, 1, 2]))}

    def outer_args(self, owner):
        a, kw = self.args()
        a, kw = [outer(x) for x in a], {k: outer(x) for k, x in kw.items()}
        return small(owner, a, kw)

    def keep(self, x):
        if x is None or isinstance(x, (bool, int, float, str, bytes, types.ModuleType, types.FrameType, types.CodeType, types.TracebackType, World)):
            return x
        if isinstance(x, dict) and "__builtins__" in x or type(x).__name__ in ("Logger", "RootLogger"):
            return x
        if getattr(type(x), "__name__", "") in ("method", "method-wrapper") and x.__name__ == "__init__":
            return x
        if isinstance(x, CYFUNC) and "." in x.__qualname__:
            return x  # called with a receiver of another type these crash: a known finding
        if isinstance(x, BOXES):
            # no boxes in boxes in boxes: printing those takes forever
            xs = list(x.values()) if isinstance(x, dict) else list(x) if isinstance(x, (list, tuple, set, frozenset)) else []
            if len(xs) > 20 or any(isinstance(y, BOXES) for y in xs):
                return x
        self.pool.append(x)
        if len(self.pool) > 40:
            self.pool.pop(self.rng.randrange(len(self.pool)))
        return x

    def disturb(self):
        """What a hostile callback does in the middle of a native call."""
        r = self.rng
        if self.depth > 3:
            return
        self.depth += 1
        try:
            k = r.randrange(7)
            if k == 0 and self.pool:
                self.pool.pop(r.randrange(len(self.pool)))
            elif k == 1:
                gc.collect()
            elif k == 2:
                raise r.choice([ValueError, KeyError, TypeError, StopIteration, StopAsyncIteration, AttributeError, RecursionError, MemoryError, asyncio.CancelledError])("evil")
            elif k == 3 and self.pool:
                self.method(r.choice(self.pool))
            elif k == 4 and self.pool:
                x = r.choice(self.pool)
                d = getattr(x, "__dict__", None)
                if isinstance(d, dict):
                    d.clear()
            elif k == 5 and self.pool:
                x = r.choice(self.pool)
                if not is_future(x) and not isinstance(x, _AwaitableAsyncIterableMixin) and type(x).__module__.startswith("a_sync"):
                    a, kw = self.outer_args(type(x))
                    x.__init__(*a, **kw)
        finally:
            self.depth -= 1

    # operations ------------------------------------------------------------

    def construct(self, classes):
        r = self.rng
        cls = r.choice(classes)
        k = r.random()
        if k < 0.15 and not issubclass(cls, (asyncio.Future, asyncio.Task)):
            return cls.__new__(cls)
        if k < 0.25:
            ns = {}
            for n in r.sample(["__eq__", "__hash__", "__lt__", "__repr__", "__bool__", "__len__", "__getattr__", "__del__", "acquire", "wait", "__anext__", "__aiter__", "__iter__", "m", "p"], 3):
                ns[n] = evil_method(self, n)
            try:
                cls = type("Sub" + cls.__name__, (cls,), ns)
            except TypeError:
                return None
        a, kw = self.args()
        k = r.random()
        if k < 0.35:
            a = [r.choice([coro_fn, plain_fn, agen_fn, slow_fn, agen_fn()])] + a[:1]
        elif k < 0.5:
            a, kw = [r.choice([0, 1, 2, 3])], {}
        elif k < 0.6:
            a, kw = [], {}
        a, kw = small(cls, a, kw)
        if TRACE:
            os.pwrite(TRACE, f"{cls} {[type(x) for x in a]} {[x for x in a if isinstance(x, int)]} {kw.keys()}".ljust(800).encode(), 0)
        return cls(*a, **kw)

    def method(self, x):
        r = self.rng
        names = [n for n in dir(x) if n not in METHOD_SKIP]
        if isinstance(x, _AwaitableAsyncIterableMixin):
            # an iterator made to iterate itself recurses through native code without end
            names = [n for n in names if n != "__init__"]
        if is_future(x):
            names = [n for n in names if n not in NOT_ON_FUTURES]
        if not names:
            return
        public = [n for n in names if not n.startswith("__")]
        n = r.choice(public if public and r.random() < 0.7 else names)
        f = getattr(x, n)
        if isinstance(f, CYFUNC) and "." in f.__qualname__:
            return  # the plain function of a method: see keep()
        if isinstance(f, type) and f.__module__ == "builtins":
            return
        if callable(f) and r.random() < 0.85 and type(f).__module__ != "builtins" or type(f).__name__ in ("method-wrapper", "builtin_function_or_method", "method", "cython_function_or_method"):
            a, kw = self.outer_args(type(x)) if n == "__init__" else self.args()
            if n in ("__reduce_ex__",):
                a, kw = [r.randrange(5)], {}
            self.calls += 1
            self.keep(f(*a, **kw))
        else:
            self.keep(f)

    def attribute(self, x):
        r = self.rng
        # private parts that only native code writes keep their types: tampering with those is no call
        names = [n for n in dir(x) if n not in METHOD_SKIP and not n.startswith("_")] + STR_ATTRS
        n = r.choice(names)
        k = r.random()
        if isinstance(x, type):
            if not x.__module__.startswith("props"):
                return
        if k < 0.5 and n != "num_workers":
            setattr(x, n, outer(self.value()))
        elif k < 0.6:
            delattr(x, n)
        elif n != "__dict__":
            self.keep(getattr(x, n))

    def generic(self, x):
        r = self.rng
        k = r.randrange(14)
        if k == 0:
            repr(x)
        elif k == 1:
            str(x)
        elif k == 2:
            hash(x)
        elif k == 3:
            bool(x)
        elif k == 4:
            self.keep(copy.copy(x))
        elif k == 5:
            self.keep(copy.deepcopy(x))
        elif k == 6:
            self.keep(pickle.loads(pickle.dumps(x)))
        elif k == 7:
            x == self.value()
            x < self.value()
        elif k == 8:
            it = iter(x)
            for _ in range(r.randrange(3)):
                self.keep(next(it))
        elif k == 9:
            self.keep(weakref.ref(x, lambda _: self.safe(self.disturb)))
        elif k == 10:
            len(x)
        elif k == 11:
            dir(x)
        elif k == 12:
            self.keep(x[self.value()])
        else:
            a, kw = self.args()
            self.calls += 1
            self.keep(x(*a, **kw))

    def safe(self, f, *a):
        try:
            return f(*a)
        except Guard:
            raise
        except BaseException:
            return None

    def step(self, classes):
        r = self.rng
        k = r.random()
        if k < 0.3 or not self.pool:
            self.made += 1
            self.keep(self.construct(classes))
        elif k < 0.6:
            self.method(r.choice(self.pool))
        elif k < 0.68:
            self.attribute(r.choice(self.pool))
        elif k < 0.8:
            self.generic(r.choice(self.pool))
        elif k < 0.85:
            f = r.choice(FUNCTIONS)
            a, kw = self.args()
            self.calls += 1
            self.keep(f(*a, **kw))
        elif k < 0.93:
            self.pool.pop(r.randrange(len(self.pool)))
        elif k < 0.96:
            gc.collect()
        else:
            self.keep(make_user_class(self))


class Sentinel:
    pass


class IntSub(int):
    pass


class StrSub(str):
    __slots__ = ()


class Holder:
    """An ordinary class whose attributes native descriptors may end in."""


async def coro_fn(*a, **k):
    await asyncio.sleep(0)
    return a


async def slow_fn(*a, **k):
    await asyncio.sleep(3)
    return 1


async def boom_fn(*a, **k):
    await asyncio.sleep(0)
    raise ValueError("boom")


def plain_fn(*a, **k):
    return a


async def agen_fn(*a, **k):
    for i in range(5):
        yield i
        await asyncio.sleep(0)


def evil_method(world, name):
    def m(self, *a, **k):
        world.disturb()
        r = world.rng.random()
        if name == "__hash__":
            return world.rng.choice([0, 1, "x"]) if r < 0.8 else object.__hash__(self)
        if name == "__repr__":
            return world.rng.choice(["evil", 3])
        if name in ("__len__", "__bool__"):
            return world.rng.choice([0, 1, True, -1, "x"])
        if name == "__getattr__":
            raise AttributeError(a)
        return world.rng.choice([NotImplemented, True, False, None, self, 3, "x"])

    return m


class Evil:
    """Every special method may disturb the world around the native call that uses it."""

    def __init__(self, world):
        self.world = world


for _n in "__eq__ __hash__ __lt__ __gt__ __repr__ __str__ __bool__ __len__ __iter__ __next__ __aiter__ __anext__ __await__ __call__ __getitem__ __contains__ __index__ __int__ __float__ __enter__ __exit__ __aenter__ __aexit__ __get__ __set__ __set_name__ __del__ __add__ __radd__ __format__".split():

    def _make(n):
        def m(self, *a, **k):
            w = self.__dict__.get("world")
            if w is None:
                raise AttributeError(n)
            if n == "__del__":
                return w.safe(w.disturb)
            w.disturb()
            r = w.rng
            if n == "__hash__":
                return r.choice([1, 2, hash(id(self))])
            if n in ("__repr__", "__str__", "__format__"):
                return "evil"
            if n in ("__bool__", "__eq__", "__lt__", "__gt__", "__contains__"):
                return r.choice([True, False, NotImplemented]) if n != "__bool__" else r.random() < 0.5
            if n in ("__len__", "__index__", "__int__"):
                return r.choice([0, 1, 2**65, -1])
            if n == "__float__":
                return r.choice([0.5, float("inf")])
            if n in ("__iter__", "__await__"):
                return iter(r.choice([[], [None], [None, 1], [self]]))
            if n == "__next__":
                if r.random() < 0.5:
                    raise StopIteration
                return self
            if n == "__aiter__":
                return r.choice([self, agen_fn(), None])
            if n == "__anext__":
                return r.choice([coro_fn(), None, self])
            return r.choice([None, self, 1])

        return m

    setattr(Evil, _n, _make(_n))


def make_user_class(w):
    r = w.rng
    mods = {}
    if r.random() < 0.3:
        mods["semaphore"] = r.choice([1, 2])
    if r.random() < 0.3:
        mods["cache_type"] = "memory"
    base = r.choice([a_sync.ASyncGenericBase, a_sync.ASyncGenericSingleton, object])
    deco = lambda f: a_sync.a_sync(**mods)(f)

    async def am(self, *a):
        await asyncio.sleep(0)
        w.safe(w.disturb) if r.random() < 0.3 else None
        return a

    def m(self, *a):
        return a

    async def g(self):
        for i in range(3):
            yield i

    async def p(self):
        w.safe(w.disturb) if r.random() < 0.3 else None
        return self

    ns = {"am": deco(am) if base is not object and r.random() < 0.5 else am, "m": m, "g": g}
    ns["p"] = a_sync.aliases.property(p, **mods)
    ns["c"] = a_sync.aliases.cached_property(p, **mods)
    if base is object:
        from a_sync.a_sync.method import ASyncMethodDescriptor

        ns["am"] = ASyncMethodDescriptor(am, **mods)
        ns["g"] = a_sync.iter.ASyncGeneratorFunction(g)
    else:

        def __init__(self, sync=True):
            self.sync = sync
            super(cls, self).__init__()

        ns["__init__"] = __init__
    if r.random() < 0.3:
        ns["__eq__"] = evil_method(w, "__eq__")
        ns["__hash__"] = evil_method(w, "__hash__")
    cls = type("User", (base,), ns)
    w.keep(cls)
    return cls(*([r.random() < 0.5] if base is not object else []))


async def drive(world, classes, ops):
    r = world.rng
    tasks = []
    for _ in range(ops):
        world.safe(world.step, classes)
        k = r.random()
        if k < 0.35 and world.pool:
            x = r.choice(world.pool)
            if inspect.isawaitable(x) and not isinstance(x, Evil):
                how = r.random()

                async def wait(x=x):
                    try:
                        world.keep(await asyncio.wait_for(x, r.choice([0, 0.5, 50])) if how < 0.5 else await x)
                    except asyncio.CancelledError:
                        raise
                    except Guard:
                        raise
                    except BaseException:
                        pass

                t = asyncio.ensure_future(wait())
                tasks.append(t)
                if r.random() < 0.3:
                    t.cancel()
            elif hasattr(type(x), "__aiter__") and not isinstance(x, Evil):

                async def walk(x=x):
                    n = 0
                    try:
                        async for v in x:
                            world.keep(v)
                            n += 1
                            if n > 3:
                                break
                    except asyncio.CancelledError:
                        raise
                    except Guard:
                        raise
                    except BaseException:
                        pass

                tasks.append(asyncio.ensure_future(walk()))
            elif hasattr(type(x), "__aenter__") and not isinstance(x, Evil):

                async def enter(x=x):
                    try:
                        async with x as y:
                            world.keep(y)
                            await asyncio.sleep(r.choice([0, 1]))
                            world.safe(world.step, classes)
                    except asyncio.CancelledError:
                        raise
                    except Guard:
                        raise
                    except BaseException:
                        pass

                tasks.append(asyncio.ensure_future(enter()))
        elif k < 0.6:
            await asyncio.sleep(r.choice([0, 0, 0.5]))
        if tasks and r.random() < 0.15:
            r.choice(tasks).cancel()
    await asyncio.wait([asyncio.ensure_future(asyncio.sleep(5)), *tasks], timeout=r.choice([0, 1, 60]))
    for t in tasks:
        t.cancel()


def in_loop(world, classes, ops):
    loop = VirtualLoop(20000)
    asyncio.set_event_loop(loop)
    try:
        if world.rng.random() < 0.3:
            for _ in range(ops):
                world.safe(world.step, classes)  # with no loop running
        world.safe(loop.run_until_complete, drive(world, classes, ops))
        for _ in range(3):
            world.safe(world.step, classes)
    finally:
        if world.rng.random() < 0.8:
            world.safe(dispose, loop)
        else:
            asyncio.set_event_loop(None)
            world.safe(loop.close)


def run(case, ctx):
    classes = CLASSES
    if case["focus"]:
        classes = [c for c in CLASSES if any(p in c.__name__ for p in FOCUS[case["focus"]])] or CLASSES
    world = World(case["seed"], case["evil"])
    mortal = [Sentinel, IntSub, coro_fn, plain_fn, agen_fn, slow_fn, boom_fn, *CLASSES[:40]]
    base = [sys.getrefcount(x) for x in mortal]
    held = [sys.getrefcount(x) for x in world.sentinels]

    def alarm(*_):
        raise Guard()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, 30)
    hook = threading.excepthook
    threading.excepthook = lambda *a: None
    sys.unraisablehook = lambda *a: None
    try:
        ts = []
        for k in range(case["threads"]):
            w = World(case["seed"] + k + 1, case["evil"])
            w.pool = world.pool  # shared between the threads
            w.sentinels = world.sentinels
            t = threading.Thread(target=lambda w=w: w.safe(in_loop, w, classes, case["ops"] // 2), daemon=True)
            ts.append(t)
        for t in ts:
            t.start()
        in_loop(world, classes, case["ops"])
        for t in ts:
            t.join(20)
        if any(t.is_alive() for t in ts):
            ctx.count("threads_left")
    except Guard:
        ctx.count("guarded")
    except Exception:
        # whatever the hostile calls did to the loop, only memory is judged here
        ctx.count("ended_otherwise")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        threading.excepthook = hook
    ctx.count("calls", world.calls)
    ctx.count("objects", world.made)
    world.pool.clear()
    gc.collect()
    for x, n in zip(world.sentinels, held):
        check(sys.getrefcount(x) >= n, lambda: f"a sentinel's reference count fell from {n} to {sys.getrefcount(x)}", "refcount")
    for x, n in zip(mortal, base):
        # the references the library's own modules hold are never given away; what a case took it may give back
        check(sys.getrefcount(x) >= min(n, 3), lambda: f"the reference count of {x} fell from {n} to {sys.getrefcount(x)}", "refcount")
    ctx.nontrivial(case["seed"])


DEEP = """
import asyncio
from a_sync import ASyncIterator
async def g():
    for i in range(3): yield i
async def main():
    it = ASyncIterator(g())
    for _ in range(50000): it = it.filter(lambda x: True)
    print([x async for x in it])
try: asyncio.run(main())
except RecursionError: pass
"""
RECEIVER = """
import a_sync
try: a_sync.Semaphore.locked(0)
except TypeError: pass
"""


def crashes(source):
    env = dict(os.environ, PYTHONFAULTHANDLER="0")
    if "ASAN_OPTIONS" in env:
        env["ASAN_OPTIONS"] = ":".join(o for o in env["ASAN_OPTIONS"].split(":") if not o.startswith("log_path"))
        env.pop("UBSAN_OPTIONS", None)
    return subprocess.run([sys.executable, "-W", "ignore", "-c", source], capture_output=True, env=env, timeout=120).returncode in (-11, -6, 99, 139)


def probes():
    return {"deep-chain": lambda: crashes(DEEP), "wrong-receiver": lambda: crashes(RECEIVER)}
