"""Result caches."""
import asyncio
import collections
import functools
import gc
import threading
import time
import weakref

import a_sync
from a_sync.a_sync.method import ASyncMethodDescriptor
from a_sync.a_sync.modifiers.cache import apply_async_cache
from a_sync.a_sync.modifiers.cache.memory import apply_async_memory_cache

import dual_common as D
import mod_common as M
from h import Boom, Violation, check, spin, boom
from vloop import VirtualLoop, dispose

KINDS = ["fn", "fn", "fn", "method", "method", "class", "plain_method", "apply", "apply_memory", "prop"]
POOL = [0, 1, 1.0, True, "a", "1", (1,), (1.0,), None, -1, False, 0.0, ("a", 1), frozenset([1]), 2, 3, 4, 5]
SHAPES = ["x", "x", "x", "xy", "xk", "k", "kj", "jk", "none"]
SELF = object()


class Value:
    """A result, followed by weak reference."""

    def __init__(self, of):
        self.of = of

    def __repr__(self):
        return f"<value of call {self.of}>"


def gen_args(rng, wide):
    n = len(POOL) if wide else 4
    shape = rng.choice(SHAPES) if wide else "x"
    return [shape, rng.randrange(n), rng.randrange(n)]


def args_of(spec):
    shape, a, b = spec
    if shape == "n":  # one of many
        return (1000 + a,), {}
    a, b = POOL[a], POOL[b]
    return {
        "x": ((a,), {}),
        "xy": ((a, b), {}),
        "xk": ((a,), {"k": b}),
        "k": ((), {"k": a}),
        "kj": ((), {"k": a, "j": b}),
        "jk": ((), {"j": b, "k": a}),
        "none": ((), {}),
    }[shape]


def gen(rng, i, tier):
    big = tier != "quick"
    if rng.random() < 0.03:
        return {
            "threads": rng.choice([2, 3, 4]),
            "async_def": rng.random() < 0.7,
            "maxsize": rng.choice([None, 1, 2]),
            "ttl": rng.choice([None, 0.003, 100]),
            "ops": [[[rng.randrange(3), rng.choice([0, 0, 1, 2]), rng.choice(["sync", "async"])] for _ in range(8)] for _ in range(4)],
            "fail": rng.random() < 0.3,
        }
    wide = rng.random() < 0.3
    ttl = rng.choice([None, None, None, 3.5, 10.5, 40.5])
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        horizon = rng.choice([6, 15, 40])
        calls = []
        for _ in range(rng.choice([3, 6, 10, 16] if not big else [6, 12, 24, 40])):
            calls.append(
                {
                    "t": rng.choice([0, 0, 0, 1]),
                    "i": rng.choice([0, 0, 1]),
                    "args": gen_args(rng, wide),
                    "at": rng.randrange(horizon),
                    "spin": rng.choice([0, 0, 1, 3]),
                    "dur": rng.choice([None, 0.25, 1.25, 3.25, 8.25]),
                    "spin_in": rng.randrange(3),
                    "end": rng.choice(["ok", "ok", "ok", "ok", "err", "type", "cancel"]),
                    "cancel": rng.choice([None, None, None, None, rng.randrange(horizon + 6) + 0.75]),
                    "flag": rng.choice("sa"),
                    "how": rng.choice(["await", "await", "task", "wait_for"]),
                }
            )
        phases.append(
            {
                "calls": calls,
                "how": rng.choice(["async", "async", "async", "sync"]),
                "abort": rng.choice([None, None, None, rng.randrange(1, horizon) + 0.6]),
                "gap": rng.choice([0.1, 1.1, 20.1, 400.1]),
            }
        )
    many = rng.random() < 0.008
    if many:
        # more keys than any bound somebody might have in mind, then some of them again
        n = rng.choice([100, 140, 200, 400])
        again = rng.sample(range(n), 20)
        template = dict(phases[0]["calls"][0], cancel=None, end="ok", how="await", dur=0.25, t=0, i=0)
        calls = [dict(template, args=["n", k, 0], at=rng.randrange(6)) for k in range(n)] + [dict(template, args=["n", k, 0], at=10 + rng.randrange(3)) for k in again]
        phases = [{"calls": calls, "how": "async", "abort": None, "gap": 0.1}]
        ttl = None
    return {
        "kind": rng.choice(KINDS),
        "maxsize": rng.choice([None, None, -1, -1, 64, 128, 130, 300] if many else [None, None, -1, 1, 2, 3, 5]),
        "ttl": ttl,
        "typed": rng.random() < 0.4,
        "given": rng.choice(["type", "type", "implied"]),
        "async_def": [rng.random() < 0.7 for _ in range(2)],
        "form": rng.choice(M.FN_FORMS),
        "default": rng.choice([None, "sync", "async"]),
        "eq": rng.random() < 0.3,
        "sync_inst": [rng.random() < 0.5 for _ in range(2)],
        "phases": phases,
    }


def build(case, book):
    kind = case["kind"]
    mods = {"executor": M.FakeExecutor(book)}
    if case["maxsize"] is not None:
        mods["ram_cache_maxsize"] = case["maxsize"]
    if case["ttl"] is not None:
        mods["ram_cache_ttl"] = case["ttl"]
    if case["typed"]:
        mods["cache_typed"] = True
    if case["given"] == "type" or len(mods) == 1 or mods == {"executor": mods["executor"], "ram_cache_maxsize": -1}:
        mods["cache_type"] = "memory"
    if case["default"]:
        mods["default"] = case["default"]
    ad = case["async_def"]

    class Base(a_sync.ASyncGenericBase):
        def __init__(self, sync):
            self.sync = sync
            super().__init__()

        if case["eq"] and kind != "prop":

            def __eq__(self, other):
                return isinstance(other, Base)

            def __hash__(self):
                return 5

    if kind in ("apply", "apply_memory"):
        fns = []
        for k in range(2):
            f = M.raw(book, "fn", True, f"f{k}")
            size = case["maxsize"] if case["maxsize"] != -1 or k else None
            if kind == "apply":
                kw = dict(cache_typed=case["typed"], ram_cache_ttl=case["ttl"])
                d = apply_async_cache(size, **kw)(f) if size and case["form"] in ("bare", "direct") else apply_async_cache(ram_cache_maxsize=size, **kw)(f) if case["form"] == "call" else apply_async_cache(f, ram_cache_maxsize=size, **kw)
            else:
                kw = dict(typed=case["typed"], ttl=case["ttl"])
                d = apply_async_memory_cache(size, **kw)(f) if size and case["form"] in ("bare", "direct") else apply_async_memory_cache(maxsize=size, **kw)(f) if case["form"] == "call" else apply_async_memory_cache(f, maxsize=size, **kw)
            fns.append(d)
        return (lambda c, kw: fns[c["t"]](*args_of(c["args"])[0], **args_of(c["args"])[1])), (lambda c: c["t"]), []
    if kind == "fn":
        fns = [M.decorate(M.raw(book, "fn", ad[k], f"f{k}"), case["form"], mods) for k in range(2)]

        def call(c, kw):
            a, k = args_of(c["args"])
            return fns[c["t"]](*a, **k, **kw)

        return call, (lambda c: c["t"]), []
    if kind == "class":
        ns = {f"m{k}": M.raw(book, "method", ad[k], f"m{k}") for k in range(2)}
        ns.update(mods)
        C = type("C", (Base,), ns)
    elif kind == "plain_method":
        C = type("C", (object,), {f"m{k}": ASyncMethodDescriptor(M.raw(book, "method", ad[k], f"m{k}"), **mods) for k in range(2)})
    elif kind == "prop":
        C = type("C", (Base,), {f"p{k}": M.prop(M.raw(book, "prop", ad[k], f"p{k}"), case["form"], mods) for k in range(2)})
    else:
        C = type("C", (Base,), {f"m{k}": M.decorate(M.raw(book, "method", ad[k], f"m{k}"), case["form"], mods) for k in range(2)})
    insts = [C() if kind == "plain_method" else C(case["sync_inst"][k]) for k in range(2)]

    def call(c, kw):
        if kind == "prop":
            return getattr(insts[c["i"]], f"__p{c['t']}__")(**kw)
        a, k = args_of(c["args"])
        return getattr(insts[c["i"]], f"m{c['t']}")(*a, **k, **kw)

    return call, (lambda c: (c["i"], c["t"]) if kind != "prop" else c["t"]), insts


def key_of(case, c):
    if case["kind"] == "prop":
        return ("inst", c["i"])
    a, k = args_of(c["args"])
    if case["kind"] in ("method", "class", "plain_method"):
        a = (SELF, *a)
    return functools._make_key(a, k, case["typed"])


class Book(M.Book):
    def finish(self, call):
        e = call["end"]
        if e == "ok":
            v = Value(call["id"])
            call["wvalue"] = weakref.ref(v)
            return v
        return super().finish(call)

    def end(self, call, how):
        super().end(call, how)
        call["t_end"] = asyncio.get_running_loop().time()


def run(case, ctx):
    if "threads" in case:
        return threads(case, ctx)
    book = Book()
    call, scope, insts = build(case, book)
    arrivals = []
    calls = {}
    now = 1000.0
    ids = 0
    unhandled = []
    for ph in case["phases"]:
        loop = VirtualLoop()
        loop._vnow = now
        asyncio.set_event_loop(loop)
        phase_calls = []
        for c in ph["calls"]:
            c = dict(c, id=ids, phase=id(ph))
            ids += 1
            c["scope"] = scope(c)
            if not case["async_def"][c["t"]] and case["kind"] not in ("apply", "apply_memory"):
                c["dur"] = c["dur"] or 0.25
                c["end"] = "err" if c["end"] == "cancel" else c["end"]
            calls[c["id"]] = c
            phase_calls.append(c)
        try:
            sync = ph["how"] == "sync" and case["kind"] not in ("apply", "apply_memory")
            if sync:
                sync_phase(case, book, call, arrivals, phase_calls, loop)
            else:
                loop.run_until_complete(phase(case, book, call, arrivals, phase_calls, ph, loop))
            unhandled.append(loop.unhandled)
        finally:
            dispose(loop)
        for c in calls.values():
            if c.get("live"):
                c["ended"] = "cancelled"
                c["t_end"] = loop.time()
                c["live"] = 0
        now = loop.time() + ph["gap"]
    stats = judge(case, arrivals, calls)
    for u in unhandled:
        for x in u:
            seen = [c["id"] for c in calls.values() if c.get("out") and c["out"][1] is x.get("exception")]
            check(not seen and isinstance(x.get("exception"), (Boom, TypeError)), lambda: f"unhandled: {x} (received by calls {seen})", "unhandled")
    kept(case, calls, ctx, now)
    ctx.count("calls", len(arrivals))
    for k, v in stats.items():
        ctx.count(k, v)
    ctx.count("kind_" + case["kind"])
    if stats["hits"] and stats["misses"]:
        ctx.nontrivial(case["kind"], case["maxsize"], case["ttl"], case["typed"], book.log, [(c["id"], c["out"][0] if c.get("out") else None) for c in arrivals])
    ctx.sample({"kind": case["kind"], "maxsize": case["maxsize"], "ttl": case["ttl"], "typed": case["typed"], **stats})


def note(c, out):
    """Keeps the outcome without keeping the result alive."""
    kind, v = out
    if isinstance(v, Value):
        v = ("value", v.of)
    c["out"] = (kind, v)


def sync_phase(case, book, call, arrivals, phase_calls, loop):
    """Calls one after another from outside of the loop."""
    for c in phase_calls:
        if case["kind"] != "prop" and not case["async_def"][c["t"]]:
            continue  # a plain function called synchronously is not cached
        loop._vnow += 1
        M.CALL.set(c)
        c["t_arr"] = loop.time()
        arrivals.append(c)
        try:
            note(c, ("ok", call(c, {"s": {"sync": True}, "a": {"asynchronous": False}}[c["flag"]])))
        except asyncio.CancelledError:
            note(c, ("cancelled", None))
        except Violation:
            raise
        except Exception as e:
            note(c, ("err", e.with_traceback(None)))
        c["t_out"] = loop.time()
        c["sync"] = True


async def phase(case, book, call, arrivals, phase_calls, ph, loop):
    async def client(c):
        async def inner():
            c["t_arr"] = loop.time()
            arrivals.append(c)
            return await x

        await asyncio.sleep(c["at"])
        await spin(c["spin"])
        M.CALL.set(c)
        try:
            x = call(c, M.aflag(c) if case["kind"] not in ("apply", "apply_memory") else {})
            if c["how"] == "task":
                v = await asyncio.ensure_future(inner())
            elif c["how"] == "wait_for":
                v = await asyncio.wait_for(inner(), 1e9)
            else:
                v = await inner()
            out = ("ok", v)
            del v
        except asyncio.CancelledError as e:
            out = ("cancelled", None)
        except Violation:
            raise
        except Exception as e:
            out = ("err", e.with_traceback(None))
        note(c, out)
        c["t_out"] = loop.time()

    tasks, cancels = [], []
    for c in phase_calls:
        t = asyncio.ensure_future(client(c))
        tasks.append(t)

        def cancel(t=t, c=c):
            if not t.done():
                c["cancel_sent"] = True
                t.cancel()

        cancels.append(cancel)
        if c["cancel"] is not None:
            loop.call_later(c["cancel"], cancel)
    if ph["abort"]:
        await asyncio.wait(tasks, timeout=ph["abort"])
        for f in cancels:
            f()
    for r in await asyncio.gather(*tasks, return_exceptions=True):
        if isinstance(r, BaseException) and not isinstance(r, asyncio.CancelledError):
            raise r
    if ph["abort"]:
        return  # with computations still running, which the end of the loop cancels
    left = [c["id"] for c in phase_calls if c.get("live")]
    if left:
        await asyncio.sleep(10)


def judge(case, arrivals, calls):
    """Replays the calls, in the order they reached the cache, against a model of it."""
    maxsize = case["maxsize"] if case["maxsize"] not in (None, -1) else None
    ttl = case["ttl"]
    caches = {}
    unsure, ghosts = set(), set()
    stats = {"hits": 0, "misses": 0, "joined": 0, "evictions": 0, "expired": 0, "failed": 0, "unsure": 0}
    for c in arrivals:
        s, key, t = c["scope"], key_of(case, c), c["t_arr"]
        cache = caches.setdefault(s, collections.OrderedDict())
        what = f"call {c['id']} ({case['kind']}, scope {s}, arguments {args_of(c['args'])}) at {t}"
        runs = c.get("runs", 0)
        check(runs <= 1, f"{what} ran the body {runs} times", "once")
        missed = runs == 1
        if missed and case["kind"] != "prop" and "args_seen" in c:
            check(repr(c["args_seen"]) == repr(args_of(c["args"])), lambda: f"{what}: the body saw {c['args_seen']}", "args")
        # entries that are over by now
        amb = False
        for k in list(cache):
            e = cache[k]
            over = e.get("ended")
            if over and over != "done":
                if e["t_end"] < t:
                    del cache[k]
                    stats["failed"] += 1
                elif e["t_end"] == t:
                    amb = True
            elif over and ttl is not None:
                if e["t_end"] + ttl < t:
                    del cache[k]
                    if c.get("sync") or e["phase"] != c["phase"]:
                        ghosts.add(s)  # no loop was running to drop it: it may still count
                    stats["expired"] += 1
                elif e["t_end"] + ttl == t:
                    amb = True
        if not c.get("out") and not missed:
            continue  # never got that far
        if amb:
            unsure.add(s)
        e = cache.get(key)
        if missed:
            stats["misses"] += 1
            if s not in unsure:
                check(
                    e is None,
                    lambda: f"{what} computed anew although the result of call {e['id']} ({'begun' if e.get('begun') else 'asked for'} at {e['t_arr']}, "
                    f"ended {e.get('ended')} at {e.get('t_end')}) was there (maxsize {maxsize}, ttl {ttl}, {len(cache)} kept)",
                    "recomputed",
                )
            cache.pop(key, None)
            cache[key] = c
            if maxsize is not None and s in ghosts:
                unsure.add(s)
            if maxsize is not None and len(cache) > maxsize:
                cache.popitem(last=False)
                stats["evictions"] += 1
        kind, v = c["out"] if c.get("out") else (None, None)
        if kind is None or kind == "cancelled" and c.get("cancel_sent"):
            if not missed and e is not None:
                cache.move_to_end(key)
            continue
        src = c if missed else e
        if not missed:
            stats["hits"] += 1
            if kind == "ok" and isinstance(v, tuple) and v[0] == "value" and (s in unsure or e is None):
                src = calls[v[1]]
                check(src["scope"] == s, f"{what} got the result of call {src['id']} of scope {src['scope']}", "scope")
                check(key_of(case, src) == key, lambda: f"{what} got the result for arguments {args_of(src['args'])}", "key")
                if s not in unsure:
                    raise Violation(f"{what} got the result of call {src['id']}, which ended {src.get('ended')} at {src.get('t_end')} and is no longer valid (maxsize {maxsize}, ttl {ttl})", "stale")
            check(src is not None or s in unsure, f"{what} ended {kind} {v!r} without computing anything", "no-source")
            if src is None:
                continue
            if e is not None:
                cache.move_to_end(key)
            if not src.get("ended") or src["t_end"] > t:
                stats["joined"] += 1
        # the outcome is that of the execution
        if src.get("ended") == "done":
            check(kind == "ok" and v == ("value", src["id"]), lambda: f"{what} ended {kind} {v!r}; it should have the result of call {src['id']}", "value")
        elif src.get("ended") == "failed":
            check(kind == "err" and v is src.get("exc"), lambda: f"{what} ended {kind} {v!r}; the computation of call {src['id']} raised {src.get('exc')!r}", "value")
        else:
            check(kind == "cancelled", lambda: f"{what} ended {kind} {v!r}; the computation of call {src['id']} was cancelled", "value")
        # and arrives with it
        if c.get("t_out") is not None and not c.get("sync"):
            check(c["t_out"] == max(t, src["t_end"]), lambda: f"{what} ended at {c['t_out']}, the computation at {src['t_end']}", "late")
    stats["unsure"] = len(unsure)
    # a computation is cancelled by nobody but itself (or the end of its loop)
    for c in calls.values():
        if c.get("ended") == "cancelled" and c["end"] != "cancel" and not any(p["abort"] for p in case["phases"]):
            raise Violation(f"the computation of call {c['id']} was cancelled", "cancelled")
    return stats


def kept(case, calls, ctx, now):
    """How many results are still kept, now that nobody else has them."""
    maxsize = case["maxsize"] if case["maxsize"] not in (None, -1) else None
    alive = collections.Counter(c["scope"] for c in calls.values() if c.get("wvalue") and c["wvalue"]() is not None)
    for c in calls.values():
        if c.get("exc"):
            c["exc"].__traceback__ = None
    if maxsize is not None and any(v > maxsize for v in alive.values()):
        gc.collect()
        alive = collections.Counter(c["scope"] for c in calls.values() if c.get("wvalue") and c["wvalue"]() is not None)
        check(all(v <= maxsize for v in alive.values()), lambda: f"{alive} results kept with a maximum of {maxsize}", "kept")
    ctx.count("kept_checked", len(alive))


def threads(case, ctx):
    """Threads with loops of their own sharing one cached function: right results for all, whatever is shared."""
    log = []
    fails = [0]

    def body_result(x):
        v = Value(x)
        log.append((x, v))
        return v

    if case["async_def"]:

        async def f(x, d):
            await asyncio.sleep(d / 1000)
            if case["fail"] and fails[0] % 3 == 0:
                fails[0] += 1
                raise boom(x)
            fails[0] += 1
            return body_result(x)

    else:

        def f(x, d):
            time.sleep(d / 1000)
            return body_result(x)

    dual = a_sync.a_sync(default="async", cache_type="memory", **({"ram_cache_maxsize": case["maxsize"]} if case["maxsize"] else {}), **({"ram_cache_ttl": case["ttl"]} if case["ttl"] else {}))(f)
    errors = []
    n = [0]

    def one(ops):
        try:
            for x, d, how in ops:
                try:
                    if how == "sync" and case["async_def"]:
                        got = [dual(x, d, sync=True)]
                    else:

                        async def main():
                            return await asyncio.gather(dual(x, d), dual(x, d), dual(x + 10, d))

                        got = asyncio.run(main())[:2]
                except Boom as e:
                    check(e.tag in (x, x + 10), f"call with {x} raised {e!r}", "key")
                    continue
                for v in got:
                    check(isinstance(v, Value) and v.of == x, f"call with {x} got {v!r}", "key")
                n[0] += 1
        except BaseException as e:
            errors.append(e)
        finally:
            D.drop_loop()

    ts = [threading.Thread(target=one, args=(case["ops"][k],), daemon=True) for k in range(case["threads"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join(40)
        check(not t.is_alive(), "a thread is stuck in a cached call", "stuck")
    if errors:
        raise errors[0]
    ctx.count("threaded_calls", n[0])
