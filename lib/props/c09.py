"""Settings: the same effect through every channel, each applied exactly once."""
import asyncio
import functools
import inspect
import os

import a_sync
from a_sync.a_sync.method import ASyncMethodDescriptor, ASyncMethodDescriptorAsyncDefault, ASyncMethodDescriptorSyncDefault
from a_sync.primitives import Semaphore, ThreadsafeSemaphore
from aiolimiter import AsyncLimiter

import mod_common as M
from h import Violation, check
from vloop import VirtualLoop, dispose

NULL = {"default": None, "cache_type": None, "cache_typed": False, "ram_cache_maxsize": -1, "ram_cache_ttl": None, "runs_per_minute": None, "semaphore": None}
VALUES = {
    "default": ["sync", "async"],
    "cache_type": ["memory", "memory", None],
    "cache_typed": [True, False],
    "ram_cache_maxsize": [1, 2, 3, 64, None, -1],
    "ram_cache_ttl": [3.25, 11.5, None, 7],
    "runs_per_minute": [2, 3, 6, 20, None, "obj"],
    "semaphore": [1, 1, 2, 3, None, "asyncio", "a_sync", "threadsafe"],
}
OBJ_N = {"runs_per_minute": 4, "semaphore": 2}


def env_settings():
    e, out = os.environ, {}
    for name, key, conv in (
        ("A_SYNC_DEFAULT_MODE", "default", str),
        ("A_SYNC_CACHE_TYPE", "cache_type", str.lower),
        ("A_SYNC_CACHE_TYPED", "cache_typed", bool),
        ("A_SYNC_RAM_CACHE_MAXSIZE", "ram_cache_maxsize", int),
        ("A_SYNC_RAM_CACHE_TTL", "ram_cache_ttl", float),
        ("A_SYNC_RUNS_PER_MINUTE", "runs_per_minute", int),
        ("A_SYNC_SEMAPHORE", "semaphore", int),
    ):
        if name in e:
            out[key] = conv(e[name])
    return out


ENV = env_settings()


def gen(rng, i, tier):
    big = tier != "quick"
    o = {}
    for k in rng.sample(sorted(VALUES), rng.choice([0, 1, 1, 2, 3, 5] if ENV else [1, 1, 2, 2, 3, 4, 6])):
        o[k] = rng.choice(VALUES[k])
    horizon = rng.choice([5, 20, 60])
    calls = []
    for _ in range(rng.choice([4, 8, 12] if not big else [8, 16, 24])):
        calls.append(
            {
                "at": rng.random() * horizon,
                "key": rng.choice(["1", "1", "1.0", "True", "2", "3", "4"]),
                "dur": rng.random() * rng.choice([0.5, 6]),
                "end": rng.choice(["ok", "ok", "ok", "err", "none"]),
                "flag": rng.choice("sa"),
                "how": rng.choice(["flag", "flag", "bare"]),
            }
        )
    variants = []
    for _ in range(rng.choice([3, 4, 5])):
        t = rng.choice(["fn", "fn", "method", "method", "class", "class", "split", "split", "sub", "prop", "cached_fn", "descriptor", "mode_descriptor"])
        v = {"t": t, "form": rng.choice(M.FN_FORMS), "sync_inst": rng.random() < 0.5}
        if t == "split":
            v["to_class"] = {k: rng.random() < 0.5 for k in VALUES}
            v["decoys"] = {k: rng.choice(VALUES[k]) for k in VALUES if rng.random() < 0.3}
        if t in ("method", "class", "split", "sub", "prop"):
            # other methods of the class, with settings of their own
            v["sibs"] = [{k: rng.choice(VALUES[k]) for k in VALUES if rng.random() < 0.4} for _ in range(rng.choice([0, 1, 1, 2]))]
            v["sibs_after"] = rng.random() < 0.3
        if t == "sub":
            v["decoys"] = {k: rng.choice(VALUES[k]) for k in VALUES if rng.random() < 0.5}
        variants.append(v)
    return {
        "o": o,
        "async_def": rng.random() < 0.7,
        "calls": calls,
        "variants": variants,
        "before": [dict(rng.choice(calls), sync=rng.random() < 0.6) for _ in range(rng.choice([0, 0, 2, 4]))],
    }


def effective(case):
    return {**NULL, **ENV, **case["o"]}


def real_value(k, v, made):
    """The object to hand to the library for a setting."""
    if v == "obj":
        v = CountingLimiter(OBJ_N[k])
        made.append(v)
    elif v == "asyncio":
        v = CountingSemaphore(OBJ_N[k])
        made.append(v)
    elif v == "a_sync":
        v = Semaphore(OBJ_N[k])
    elif v == "threadsafe":
        v = ThreadsafeSemaphore(OBJ_N[k])
    return v


class CountingSemaphore(asyncio.Semaphore):
    taken = 0
    given = 0

    async def acquire(self):
        self.taken += 1
        return await super().acquire()

    def release(self):
        self.given += 1
        super().release()


class CountingLimiter(AsyncLimiter):
    taken = 0

    async def acquire(self, amount=1):
        self.taken += amount
        await super().acquire(amount)


class CountingExecutor(M.FakeExecutor):
    submitted = 0

    def submit(self, fn, *args, **kwargs):
        self.submitted += 1
        return super().submit(fn, *args, **kwargs)


# what the settings mean, written down independently of the library's modifiers


def with_limit(f, limiter):
    async def limited(*a):
        async with limiter:
            return await f(*a)

    return limited


def with_cache(f, maxsize, ttl, typed):
    entries = {}
    bound = None if maxsize in (-1, None) else maxsize

    async def cached(*a):
        loop = asyncio.get_running_loop()
        key = functools._make_key(a, {}, typed)
        if key in entries:
            task, _ = entries[key]
            entries[key] = entries.pop(key)
            return await asyncio.shield(task)
        task = loop.create_task(f(*a))
        entry = [task, None]
        entries[key] = entry

        def done(t):
            if entries.get(key) is not entry:
                return
            if t.cancelled() or t.exception() is not None:
                del entries[key]
            elif ttl is not None:
                loop.call_later(ttl, lambda: entries.pop(key) if entries.get(key) is entry else None)

        task.add_done_callback(done)
        if bound is not None and len(entries) > bound:
            del entries[next(iter(entries))]
        return await asyncio.shield(task)

    return cached


def reference(case, book, order):
    s = effective(case)
    ex = CountingExecutor(book)
    f = M.raw(book, "fn", case["async_def"])
    if case["async_def"]:
        run_one = f
    else:

        async def run_one(*a):
            return await asyncio.wrap_future(ex.submit(f, *a))

    x = run_one
    sem = None if s["semaphore"] is None else asyncio.Semaphore(OBJ_N["semaphore"] if isinstance(s["semaphore"], str) else s["semaphore"])
    rate = None if s["runs_per_minute"] is None else AsyncLimiter(OBJ_N["runs_per_minute"] if s["runs_per_minute"] == "obj" else s["runs_per_minute"])
    for which in order:
        lim = rate if which == "rate" else sem
        if lim is not None:
            x = with_limit(x, lim)
    if s["cache_type"] or s["cache_typed"] or s["ram_cache_maxsize"] != -1 or s["ram_cache_ttl"] is not None:
        x = with_cache(x, s["ram_cache_maxsize"], s["ram_cache_ttl"], s["cache_typed"])

    def call(c, kw, sync):
        args = (eval(c["key"]),) if case["takes_key"] else ()
        if not sync:
            return x(*args)
        return f(*args) if not case["async_def"] and case["takes_key"] else asyncio.get_event_loop().run_until_complete(x(*args))

    return call


def variant(case, v, book):
    """(call, default mode or None when the instance decides, whether a bare call's mode is specified, audit)"""
    made = []
    o, ad = case["o"], case["async_def"]
    ex = CountingExecutor(book)
    real = lambda d: {k: real_value(k, x, made) for k, x in d.items()}
    t = v["t"]
    args = lambda c: (eval(c["key"]),)

    class Base(a_sync.ASyncGenericBase):
        def __init__(self, sync):
            self.sync = sync
            super().__init__()

    mode = effective(case)["default"]

    def audit(runs, async_runs):
        for m in made:
            what = "semaphore" if isinstance(m, CountingSemaphore) else "limiter"
            check(m.taken == async_runs, lambda: f"{async_runs} executions took {m.taken} from the {what}", "once")
            if what == "semaphore":
                check(m.given == m.taken and m._value == OBJ_N["semaphore"], lambda: f"{m.taken} taken, {m.given} given back, {m._value} free", "once")
        if not ad:
            check(ex.submitted == async_runs, lambda: f"{async_runs} awaited executions, {ex.submitted} ran on the executor given", "executor")

    if t in ("fn", "cached_fn"):
        fn = M.decorate(M.raw(book, "fn", ad), v["form"], dict(real(o), executor=ex))
        return (lambda c, kw, sync: fn(*args(c), **kw)), (mode or ("async" if ad else "sync")), audit
    if t in ("descriptor", "mode_descriptor"):
        r = dict(real(o), executor=ex)
        cls = ASyncMethodDescriptor
        if t == "mode_descriptor":
            r.pop("default", None)
            mode = "sync" if v["sync_inst"] else "async"
            cls = ASyncMethodDescriptorSyncDefault if v["sync_inst"] else ASyncMethodDescriptorAsyncDefault
        C = type("C", (object,), {"m": cls(M.raw(book, "method", ad, "m"), **r)})
        inst = C()
        return (lambda c, kw, sync: inst.m(*args(c), **kw)), mode, audit
    sibs = {}
    for k, settings in enumerate(v.get("sibs", ())):
        d = dict({kk: real_value(kk, x, []) for kk, x in settings.items()}, executor=CountingExecutor(book))
        sibs[f"sib{k}"] = M.decorate(M.raw(book, "method", k % 2 == 0, f"sib{k}"), v["form"], d)
    if t == "prop":
        C = type("C", (Base,), {**sibs, "p": M.prop(M.raw(book, "prop", ad, "p"), v["form"], dict(real(o), executor=ex))})
        inst = C(v["sync_inst"])
        return (lambda c, kw, sync: inst.__p__(**kw) if kw else inst.p), (mode or ("sync" if v["sync_inst"] else "async")), audit
    ns = {}
    if t == "method":
        deco, cls = o, {}
    elif t in ("class", "sub"):
        deco, cls = {}, o
    else:
        deco = {k: x for k, x in o.items() if not v["to_class"][k]}
        cls = {k: x for k, x in o.items() if v["to_class"][k]}
        if "default" in ENV and "default" in cls:
            deco["default"] = cls.pop("default")  # the known finding below
        # settings the method's own decorator overrides
        cls.update({k: x for k, x in v["decoys"].items() if k in deco and not (k == "default" and deco[k] is None)})
    f = M.raw(book, "method", ad, "m")
    cls_real = {k: real_value(k, x, made if k not in deco else []) for k, x in cls.items()}
    ns.update(cls_real)
    if deco or t == "method":
        d = real(deco)
        if t == "split" and v["sync_inst"]:
            ns["executor"] = ex
        else:
            d["executor"] = ex
        f = M.decorate(f, v["form"], d)
    else:
        ns["executor"] = ex
    if not v.get("sibs_after"):
        ns.update(sibs)
    ns["m"] = f
    ns.update(sibs)
    C = type("C", (Base,), ns)
    if t == "sub":
        C = type("D", (C,), {**{k: real_value(k, x, []) for k, x in v["decoys"].items()}, "other": M.raw(book, "method", True, "other")})
    inst = C(v["sync_inst"])
    return (lambda c, kw, sync: inst.m(*args(c), **kw)), (mode or (("sync" if v["sync_inst"] else "async") if ad else None)), audit


def play(case, call, mode, label, count=lambda *a: None):
    """Runs the script; what each call observed, in virtual time."""
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    calls = [dict(c, id=("b", k)) for k, c in enumerate(case["before"])] + [dict(c, id=("c", k)) for k, c in enumerate(case["calls"])]
    for c in calls:
        c["end"] = "ok" if c["end"] == "none" else c["end"]
    t0 = loop.time()
    want_sync = lambda c: {"s": {"sync": True}, "a": {"asynchronous": False}}[c["flag"]]

    def settle(c, kind, v):
        c["obs"] = (kind, v[1] if kind == "ok" and isinstance(v, tuple) and v[:1] == ("result",) else getattr(v, "tag", repr(v)), loop.time())

    try:
        for c in calls[: len(case["before"])]:
            loop.run_until_complete(asyncio.sleep(0.3))
            M.CALL.set(c)
            if label is None:  # the reference
                kw, sync = {}, c["sync"]
            elif c["how"] == "bare" and mode is not None and c["sync"] == (mode == "sync"):
                kw, sync = {}, c["sync"]
                count("bare_plain")
            else:
                kw, sync = (want_sync(c) if c["sync"] else M.aflag(c)), c["sync"]
            try:
                x = call(c, kw, sync)
                if not sync:
                    check(inspect.isawaitable(x), lambda: f"{label}: {kw or 'a bare call'} (default mode {mode}) gave {x!r}", "mode")

                    async def go(x=x):
                        return await x

                    x = loop.run_until_complete(go())
                else:
                    check(not inspect.isawaitable(x), lambda: f"{label}: {kw or 'a bare call'} (default mode {mode}) gave {x!r}", "mode")
                settle(c, "ok", x)
            except Violation:
                raise
            except Exception as e:
                settle(c, "err", e)

        async def client(c):
            await asyncio.sleep(c["at"])
            M.CALL.set(c)
            kw = M.aflag(c)
            if label is None or (c["how"] == "bare" and mode == "async"):
                kw = {}
            try:
                x = call(c, kw, False)
                check(inspect.isawaitable(x), lambda: f"{label}: {kw or 'a bare call'} (default mode {mode}) gave {x!r} inside the loop", "mode")
                settle(c, "ok", await x)
                if kw == {}:
                    count("bare_awaited")
            except Violation:
                raise
            except Exception as e:
                settle(c, "err", e)

        async def main():
            await asyncio.gather(*(client(c) for c in calls[len(case["before"]) :]))

        loop.run_until_complete(asyncio.wait_for(main(), 10000))
        check(not loop.unhandled, lambda: f"{label}: unhandled {loop.unhandled}", "unhandled")
    finally:
        dispose(loop)
    return {c["id"]: (*c["obs"][:2], round(c["obs"][2] - t0, 6), c.get("runs", 0), round(c["t_begin"] - t0, 6) if c.get("runs") else None) for c in calls}


class Book(M.Book):
    """Also begins and ends bodies that run with no event loop."""

    def begin(self, call, **seen):
        try:
            asyncio.get_running_loop()
        except RuntimeError:
            call["t_begin"] = asyncio.get_event_loop().time()
            call["runs"] = call.get("runs", 0) + 1
            call["live"] = call.get("live", 0) + 1
            call["direct"] = True
            self.active[None] = self.active.get(None, 0) + 1
            return
        super().begin(call, **seen)


def observed(case, book_to_call, label, count=lambda *a: None):
    book = Book()
    call, mode, audit = book_to_call(book)
    seen = play(case, call, mode, label, count)
    return seen, audit


def run(case, ctx):
    case = dict(case)
    s = effective(case)
    if not s["cache_typed"]:
        # whether 1 and 1.0 share an entry is left open then (as with functools.lru_cache)
        for k in ("calls", "before"):
            case[k] = [dict(c, key="1" if c["key"] in ("1.0", "True") else c["key"]) for c in case[k]]
    refs = {}
    for takes_key in (True, False):
        case["takes_key"] = takes_key
        both = [s["semaphore"] is not None and s["runs_per_minute"] is not None]
        orders = [("rate", "sem"), ("sem", "rate")] if both[0] else [("rate", "sem")]
        refs[takes_key] = [observed(case, lambda b, o=o: (reference(case, b, o), None, None), None)[0] for o in orders]
    chosen = set(range(max(map(len, refs.values()))))
    for v in case["variants"]:
        case["takes_key"] = v["t"] != "prop"
        label = f"{ENV or ''}{case['o']} on {'async def' if case['async_def'] else 'def'} through {v}"
        try:
            seen, audit = observed(case, lambda b: variant(case, v, b), label, ctx.count)
        except (Violation, asyncio.TimeoutError) as e:
            if isinstance(e, asyncio.TimeoutError):
                raise Violation(f"{label}: calls never finished", "stuck")
            raise
        want = refs[case["takes_key"]]
        fits = {k for k in chosen if want[k] == seen}
        if not fits:
            k = min(chosen)
            diff = [(i, {"call": next(iter([c for c in [*({**c, "id": ("b", n)} for n, c in enumerate(case["before"])), *({**c, "id": ("c", n)} for n, c in enumerate(case["calls"]))] if c["id"] == i])), "expected": want[k][i], "seen": seen[i]}) for i in seen if seen[i] != want[k][i]]
            raise Violation(f"{label}: {len(diff)} of {len(seen)} calls differ from what these settings mean, first: {diff[:2]} (outcome, whose execution, finished, runs, began)", "effect")
        chosen = fits
        direct = sum(1 for k, x in seen.items() if x[3] and k[0] == "b" and case["before"][k[1]]["sync"]) if not case["async_def"] and case["takes_key"] else 0
        runs = sum(x[3] for x in seen.values())
        check(all(x[3] <= 1 for x in seen.values()), lambda: f"{label}: a call ran several times: {seen}", "once")
        audit(runs, runs - direct)
        ctx.count("calls", len(seen))
        ctx.count("executions", runs)
        ctx.count("hits", len(seen) - runs)
        ctx.count("v_" + v["t"])
    for k in s:
        if s[k] != NULL[k]:
            ctx.count("set_" + k)
    if len([k for k in s if s[k] != NULL[k] and k != "default"]):
        ctx.nontrivial(sorted(s.items(), key=repr), sorted(refs[True][0].items()))
    ctx.sample({"settings": {k: x for k, x in s.items() if x != NULL[k]}, "variants": [v["t"] for v in case["variants"]]})


def probes():
    if "default" not in ENV:
        return {}

    def env_beats_class():
        other = "async" if ENV["default"] == "sync" else "sync"

        class C(a_sync.ASyncGenericBase):
            default = other

            def __init__(self):
                self.sync = True
                super().__init__()

            @a_sync.a_sync(ram_cache_maxsize=-1)
            async def m(self):
                return 1

        inst = C()
        asyncio.set_event_loop(asyncio.new_event_loop())
        x = inst.m()
        bad = inspect.isawaitable(x) != (other == "async")
        if inspect.iscoroutine(x):
            x.close()
        return bad

    return {"env-beats-class": env_beats_class}
