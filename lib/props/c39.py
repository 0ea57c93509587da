"""Settings and modes that cannot be honoured are refused: with an error, every time, with nothing run and nothing left waiting."""
import asyncio
import concurrent.futures
import threading

import a_sync
from a_sync.a_sync.method import ASyncMethodDescriptor
from a_sync.a_sync.modifiers.cache import apply_async_cache
from a_sync.a_sync.modifiers.cache.memory import apply_async_memory_cache
from a_sync.a_sync.modifiers.limiter import apply_rate_limit
from a_sync.a_sync.modifiers.semaphores import apply_semaphore
from a_sync.exceptions import ASyncFlagException

import mod_common as M
from h import check
from vloop import VirtualLoop, dispose

BAD = {
    "semaphore": ["'x'", "1.5", "True", "False", "-1", "object()", "[]", "threading.Lock()", "asyncio.Lock()", "(1,)", "b'1'"],
    "runs_per_minute": ["'x'", "-1", "object()", "asyncio.Semaphore(1)", "[1]", "'60'"],
    "cache_type": ["'disk'", "'ram'", "'MEMORY'", "True", "1", "object()"],
    "ram_cache_maxsize": ["'x'", "1.5", "-5", "0", "object()", "'8'"],
    "ram_cache_ttl": ["'x'", "object()", "[]", "'10'", "1j"],
    "default": ["'foo'", "'SYNC'", "'Async'", "True", "1", "object()"],
    "executor": ["'x'", "5", "object()"],
    None: ["1", "None", "'x'"],
}
GOOD = {"semaphore": ["2", "'counted'"], "runs_per_minute": ["50"], "cache_type": ["'memory'"], "ram_cache_maxsize": ["8"], "ram_cache_ttl": ["5", "2.5"], "cache_typed": ["True"], "default": ["'sync'", "'async'"]}
CHANNELS = ["fn", "fn", "method", "class", "prop", "cprop", "descriptor", "sub", "apply"]
FLAGS = ("sync", "asynchronous")
PLACES = ["class", "base", "instance", "init", "property"]
VALS = ["True", "False", "1", "0", "None", "'yes'", "''", "[]", "object()"]


def gen(rng, i, tier):
    if rng.random() < 0.5:
        key = rng.choice(sorted(BAD, key=str))
        return {
            "what": "setting",
            "key": key,
            "name": key or rng.choice(["semaphor", "cache", "ttl", "x", "sync_", "maxsize", "runs_per_second"]),
            "value": rng.choice(BAD[key]),
            "good": {k: rng.choice(v) for k, v in GOOD.items() if k != key and rng.random() < 0.25},
            "channel": rng.choice(CHANNELS),
            "form": rng.choice(M.FN_FORMS),
            "async_def": key != "executor" and rng.random() < 0.6,
            "calls": [rng.choice(["await", "await", "sync", "gather"]) for _ in range(rng.choice([1, 2, 4]))],
            "sync_inst": rng.random() < 0.5,
        }
    placed = [
        {"flag": rng.choice(FLAGS), "place": rng.choice(PLACES), "value": rng.choice(VALS[:2]) if rng.random() < 0.5 else rng.choice(VALS)}
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))
    ]
    return {
        "what": "mode",
        "placed": placed,
        "base": rng.choice(["generic", "generic", "singleton"]),
        "ops": [rng.choice(["m", "m", "p", "cp", "call_twice", "ml", "in_loop"]) for _ in range(rng.choice([1, 3, 5]))],
        "repair": rng.choice(FLAGS),
        "repair_to": rng.random() < 0.5,
        "debug": rng.random() < 0.1,
    }


class Refusals:
    def __init__(self, ctx):
        self.ctx = ctx
        self.kinds = []

    def of(self, f, what, types=Exception):
        """f must raise, within bounded virtual time."""
        try:
            r = f()
        except asyncio.TimeoutError:
            check(False, f"{what}: neither refused nor done, the caller waits forever", "stuck")
        except types as e:
            self.kinds.append(type(e).__name__)
            self.ctx.count("refused")
            return e
        except Exception as e:
            check(False, f"{what}: {e!r} instead of {types}", "refusal")
        check(False, f"{what}: accepted, gave {r!r}", "refusal")


class Inline(concurrent.futures.Executor):
    """Runs what it is given at once (the clock is virtual: nothing may take real time)."""

    def submit(self, fn, *a, **kw):
        f = concurrent.futures.Future()
        try:
            f.set_result(fn(*a, **kw))
        except Exception as e:
            f.set_exception(e)
        return f


class Counted(asyncio.Semaphore):
    def __init__(self):
        super().__init__(2)


def run(case, ctx):
    (setting if case["what"] == "setting" else mode)(case, ctx)


def setting(case, ctx):
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    ran, ref = [], Refusals(ctx)
    try:
        bad = eval(case["value"])
        made = []

        def good_value(k):
            v = eval(case["good"][k])
            if v == "counted":
                v = Counted()
                made.append(v)
            return v

        good = {k: good_value(k) for k in case["good"]}
        ch, ad = case["channel"], case["async_def"]
        if ch == "apply":
            ad = True
        keyed = ch not in ("prop", "cprop")

        def body(bound):
            if ad:
                if bound:

                    async def f(self, *a):
                        ran.append(a)
                        return ("result", a)

                else:

                    async def f(*a):
                        ran.append(a)
                        return ("result", a)

            elif bound:

                def f(self, *a):
                    ran.append(a)
                    return ("result", a)

            else:

                def f(*a):
                    ran.append(a)
                    return ("result", a)

            if not keyed:  # a getter takes the instance alone
                if ad:

                    async def f(self):
                        ran.append(())
                        return ("result", ())

                else:

                    def f(self):
                        ran.append(())
                        return ("result", ())

            f.__name__ = f.__qualname__ = "m"
            return f

        class Base(a_sync.ASyncGenericBase):
            def __init__(self):
                self.sync = case["sync_inst"]
                super().__init__()

        def build(settings):
            """A function of the flags giving what a call gives; whatever can be refused is refused in here or in it."""
            if ch == "fn":
                g = M.decorate(body(False), case["form"], settings)
                return lambda *a, **kw: g(*a, **kw)
            if ch == "apply":
                return direct(settings)
            if ch in ("method", "descriptor"):
                f = M.decorate(body(True), case["form"], settings) if ch == "method" else ASyncMethodDescriptor(body(True), **settings)
                C = type("C", (Base,) if ch == "method" else (object,), {"m": f})
            elif ch in ("prop", "cprop"):
                C = type("C", (Base,), {"m": M.prop(body(True), case["form"], settings, ch == "cprop")})
                inst = C()
                return lambda *a, **kw: inst.__m__(**kw)
            elif ch == "class":
                C = type("C", (Base,), {"m": body(True), **settings})
            else:
                P = type("P", (Base,), {**settings, "other": body(True)})
                C = type("C", (P,), {**settings, "m": body(True)})
            inst = C()
            return lambda *a, **kw: inst.m(*a, **kw)

        def direct(settings):
            f = body(False)
            for k, v in settings.items():
                if k == "semaphore":
                    f = apply_semaphore(f, v) if case["sync_inst"] else apply_semaphore(semaphore=v)(f)
                elif k == "runs_per_minute":
                    f = apply_rate_limit(f, v) if case["sync_inst"] else apply_rate_limit(runs_per_minute=v)(f)
                elif k == "cache_type":
                    f = apply_async_cache(f, cache_type=v)
                elif k == "ram_cache_maxsize":
                    f = apply_async_memory_cache(maxsize=v)(f)
                elif k == "ram_cache_ttl":
                    f = apply_async_memory_cache(f, ttl=v)

            def call(*a, sync=False):
                return loop.run_until_complete(f(*a)) if sync else f(*a)

            return call

        def attempt(g, how, a):
            async def one(k=0):
                return await g(*(a + (k,) if keyed else ()), sync=False)

            async def several():
                rs = await asyncio.gather(*(one(k) for k in range(3)), return_exceptions=True)
                es = [r for r in rs if isinstance(r, Exception)]
                if len(es) == 3:
                    raise es[0]
                return rs

            if how == "sync":
                return g(*(a if keyed else ()), sync=True)
            return loop.run_until_complete(asyncio.wait_for(one() if how == "await" else several(), 500))

        name, what = case["name"], f"{case['name']}={case['value']} on {ch} ({'async' if ad else 'plain'}), with {case['good']}"
        applies = True
        if (ch in ("class", "sub") and case["key"] in (None, "default")) or (ch in ("descriptor", "prop", "cprop") and case["key"] == "default"):
            applies = False  # an attribute the class does not know is an ordinary attribute; a method's mode is the instance's first
        if ch == "apply" and case["key"] not in ("semaphore", "runs_per_minute", "cache_type", "ram_cache_maxsize", "ram_cache_ttl"):
            applies = False
        if not applies:
            return
        executor = {} if ad else {"executor": Inline()}
        settings = {**good, **executor, name: bad}
        if case["sync_inst"]:
            settings = {name: bad, **good, **({} if name == "executor" else executor)}
        calls = [h for h in case["calls"] if ad or h != "sync" or case["key"] is None]  # settings of awaited calls play no part in a plain call
        g = None
        try:
            g = build(settings)
        except Exception as e:
            ref.kinds.append("decorating " + type(e).__name__)
            ctx.count("refused")
            ctx.count("refused_decorating")
        if g is not None:
            for k, h in enumerate(calls or ["await"]):
                ref.of(lambda: attempt(g, h, (k,)), f"{what}, call {k} ({h})")
                ctx.count("refused_calling")
        check(not ran, f"{what}: the body ran {len(ran)} times", "refusal")
        for s in made:
            check(s._value == 2, f"{what}: {2 - s._value} permits of the semaphore given with it are gone", "permits")
        # the same without it works
        g = build({**good, **executor})
        check(loop.run_until_complete(asyncio.wait_for(_await(g, (7,) if keyed else ()), 500)) == ("result", (7,) if keyed else ()), f"without {what}: wrong result", "sibling")
        check(len(ran) == 1, f"without {what}: the body ran {len(ran)} times", "sibling")
        check(not loop.unhandled, lambda: f"{what}: unhandled {loop.unhandled}", "unhandled")
        ctx.count("setting_" + str(case["key"]))
        ctx.count("channel_" + ch)
        ctx.nontrivial(case["key"], case["value"], ch, sorted(case["good"].items()), ad, ref.kinds)
        ctx.sample({"what": what, "refusals": ref.kinds})
    finally:
        dispose(loop)


async def _await(g, a):
    return await g(*a, sync=False)


def mode(case, ctx):
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    ran, ref = [], Refusals(ctx)
    try:
        # later places shadow earlier ones of the same flag; a property cannot be shadowed, nor assigned
        places, values = {}, {}
        for p in case["placed"]:
            if p["flag"] not in places:
                places[p["flag"]] = p["place"]
                values[p["flag"]] = eval(p["value"])
        on = lambda where: {f: values[f] for f in places if places[f] == where}
        B = a_sync.ASyncGenericBase if case["base"] == "generic" else a_sync.ASyncGenericSingleton
        init = on("init")

        def set_all(self, given):
            for f, v in {**given, **on("instance")}.items():
                setattr(self, f, v)
            B.__init__(self)

        if set(init) == {"sync", "asynchronous"}:

            def __init__(self, sync, asynchronous):
                set_all(self, {"sync": sync, "asynchronous": asynchronous})

        elif "sync" in init:

            def __init__(self, sync):
                set_all(self, {"sync": sync})

        elif init:

            def __init__(self, asynchronous):
                set_all(self, {"asynchronous": asynchronous})

        else:

            def __init__(self):
                set_all(self, {})

        async def m(self, *a):
            ran.append("m")
            return ("m", a)

        async def p(self):
            ran.append("p")
            return "p"

        async def cp(self):
            ran.append("cp")
            return "cp"

        @a_sync.a_sync(semaphore=1)
        async def ml(self):
            ran.append("ml")
            return "ml"

        ns = {"m": m, "ml": ml, "p": a_sync.aka.property(p), "cp": a_sync.aka.cached_property(cp)}
        Root = type("Root", (B,), {"__init__": __init__, **on("base")})
        C = type("C", (Root,), {**ns, **on("class"), **{f: property(lambda self, v=v: v) for f, v in on("property").items()}})
        n = len(places)
        if n == 2 and len(init) == 1:
            return  # the constructor's flag decides
        refuse = n != 1 or not isinstance(values[next(iter(places))], bool)
        what = f"{case['base']} with {[(f, w, values[f]) for f, w in places.items()]}"

        def op(o, name):
            if name == "m":
                return o.m(1)
            if name == "call_twice":
                f = o.m
                f(1)
                return f(1)
            if name == "in_loop":

                async def inside():
                    r = o.m(1)
                    return await r

                return loop.run_until_complete(inside())
            return getattr(o, name) if name != "ml" else o.ml()

        def works(o, sync, label):
            for name in ("m", "ml", "p", "cp"):
                r = op(o, name)
                check(asyncio.iscoroutine(r) or hasattr(r, "__await__") if not sync else not hasattr(r, "__await__"), lambda: f"{label}: {name} gave {r!r}, sync is {sync}", "mode")
                if not sync:
                    r = loop.run_until_complete(asyncio.wait_for(_just(r), 50))
                check(r == (("m", (1,)) if name == "m" else name), lambda: f"{label}: {name} gave {r!r}", "sibling")

        args = list(init.values())
        if set(init) == {"sync", "asynchronous"}:
            args = [init["sync"], init["asynchronous"]]
        try:
            o = C(*args)
        except ASyncFlagException as e:
            check(refuse or places[next(iter(places))] in ("instance", "property"), f"{what}: construction refused with {e!r}", "refusal")
            check(case["base"] == "singleton", f"{what}: construction refused with {e!r}", "refusal")
            ctx.count("refused")
            ctx.count("refused_constructing")
            ctx.nontrivial(what, "constructing")
            return
        flag = next(iter(places), None)
        if refuse:
            for name in case["ops"]:
                ref.of(lambda: op(o, name), f"{what}: {name}", ASyncFlagException)
            check(not ran, f"{what}: {ran} ran", "refusal")
            ctx.count("no_flag" if n == 0 else "many_flags" if n == 2 else "bad_value")
            # once what is wrong is put right, the instance works
            good = case["repair_to"]
            if n == 0:
                setattr(o, case["repair"], good)
                flag = case["repair"]
            elif n == 1 and places[flag] != "property":
                setattr(o, flag, good)
            elif n == 2:
                flag = case["repair"]
                other = FLAGS[1 - FLAGS.index(flag)]
                if places[other] not in ("instance", "init") or places[flag] == "property" or len(init) == 2:
                    return
                delattr(o, other)
                setattr(o, flag, good)
            else:
                return
            works(o, good == (flag == "sync"), f"{what}, then {flag}={good}")
            ctx.count("repaired")
        else:
            works(o, values[flag] == (flag == "sync"), what)
            ctx.count("worked")
        ctx.nontrivial(what, case["ops"], ref.kinds)
        ctx.sample({"what": what, "refusals": ref.kinds[:5]})
    finally:
        dispose(loop)


async def _just(r):
    return await r
