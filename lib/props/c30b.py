"""The mapping operations of functions, bound methods, methods named on the class, and properties."""
import asyncio

import a_sync
from a_sync.a_sync.function import ASyncFunction

from h import Boom, big, boom, check, outcome, spin
from vloop import VirtualLoop, dispose, vrun

OPS = ["any", "all", "min", "max", "sum", "map", "map_items"]
FORMS = ["fn", "fn", "fn_sync", "fn_syncdef", "fn_limited", "bound", "bound_sync", "descr", "descr", "descr_sync", "descr_async", "descr_limited", "prop", "prop_sync", "cprop", "method_of_plain"]


def gen(rng, i, tier):
    n = big(rng, rng.choice([0, 1, 2, 3, 5, 8]), 300)
    nit = rng.choice([1, 1, 1, 2, 3])
    its = [[] for _ in range(nit)]
    for k in range(n):
        its[rng.randrange(nit)].append(k)
    for _ in range(rng.choice([0, 0, 1, 3]) if n else 0):
        its[rng.randrange(nit)].append(rng.randrange(n))
    return {
        "n": n,
        "form": rng.choice(FORMS),
        "op": rng.choice(OPS),
        "iterables": [{"keys": ks, "kind": rng.choice(["list", "tuple", "gen", "agen", "dict", "aw", "map"]), "pace": rng.choice([0, 0, 1])} for ks in its],
        "values": [rng.randrange(-3, 4) for _ in range(n)] if rng.random() < 0.8 else [rng.choice([0, 0, 0, 1]) for _ in range(n)],
        "kind": rng.choice(["int", "int", "float", "str", "none", "bool", "tuple"]),
        "delays": [rng.choice([None, 0, 1, 2, 5]) for _ in range(n)],
        "fails": [rng.random() < 0.15 for _ in range(n)] if rng.random() < 0.3 else [False] * n,
        "concurrency": rng.choice([None, None, 1, 2, 3]),
        "name": rng.choice([None, None, "nm"]),
        "kwargs": rng.choice([{}, {}, {"x": 1}, {"x": None, "y": [0]}]),
        "where": rng.choice(["loop", "loop", "loop", "sync", "twice"]),
        "insync": [rng.random() < 0.5 for _ in range(n)],
    }


def run(case, ctx):
    n, form, op, conc = case["n"], case["form"], case["op"], case["concurrency"]
    over_instances = form.startswith("descr") or "prop" in form
    kw = {} if "prop" in form else dict(case["kwargs"])
    excs = [boom(("key", k)) for k in range(n)]
    results = [{"int": int, "float": lambda v: v / 4, "str": lambda v: f"s{v}", "none": lambda v: None, "bool": lambda v: v > 0, "tuple": lambda v: (v, v)}[case["kind"]](case["values"][k]) for k in range(n)]
    started, state = [], {"busy": 0, "peak": 0}

    def enter(k, kwargs):
        check(kwargs == kw, f"called with {kwargs}, expected {kw}", "args")
        started.append(k)
        state["busy"] += 1
        state["peak"] = max(state["peak"], state["busy"])

    def leave(k):
        if case["fails"][k]:
            raise excs[k]
        return results[k]

    async def body(k, kwargs):
        enter(k, kwargs)
        try:
            if case["delays"][k] is not None:
                await asyncio.sleep(case["delays"][k] / 1000)
        finally:
            state["busy"] -= 1
        return leave(k)

    def sbody(k, kwargs):
        enter(k, kwargs)
        state["busy"] -= 1
        return leave(k)

    async def fn(k, **kwargs):
        return await body(k, kwargs)

    def fsync(k, **kwargs):
        return sbody(k, kwargs)

    class Host(a_sync.ASyncGenericBase):
        def __init__(self, n, sync):
            self.n = n
            self.sync = sync
            super().__init__()

        async def bound(self, k, **kwargs):
            return await body(k, kwargs)

        bound_sync = None

        async def descr(self, **kwargs):
            return await body(self.n, kwargs)

        @a_sync.a_sync("sync")
        async def descr_sync(self, **kwargs):
            return await body(self.n, kwargs)

        @a_sync.a_sync("async")
        async def descr_async(self, **kwargs):
            return await body(self.n, kwargs)

        @a_sync.a_sync(semaphore=2)
        async def descr_limited(self, **kwargs):
            return await body(self.n, kwargs)

        @a_sync.aka.property
        async def prop(self):
            return await body(self.n, {})

        @a_sync.aka.property("sync")
        async def prop_sync(self):
            return await body(self.n, {})

        @a_sync.aka.cached_property
        async def cprop(self):
            return await body(self.n, {})

    class Plain:
        @a_sync.a_sync("async")
        async def method(self, **kwargs):
            return await body(self.n, kwargs)

    pool = [Host(k, case["insync"][k]) for k in range(n)] if over_instances else list(range(n))
    host = None
    if form.startswith("bound"):
        host = Host("host", form == "bound_sync")
        f = host.bound
    elif over_instances:
        f = getattr(Host, form)
    elif form == "fn_sync":
        f = a_sync.a_sync("sync")(fn)
    elif form == "fn_syncdef":
        f = a_sync.a_sync(fsync)
    elif form == "fn_limited":
        f = a_sync.a_sync(fn, semaphore=2)
    elif form == "method_of_plain":
        f = a_sync.a_sync("async")(fn)
    else:
        f = a_sync.a_sync(fn)

    def iterable(s):
        ks = [pool[k] for k in s["keys"]]

        async def agen():
            for k in ks:
                if s["pace"]:
                    await asyncio.sleep(s["pace"] / 1000)
                yield k

        async def aw():
            await spin(s["pace"])
            return ks

        return {
            "list": lambda: list(ks), "tuple": lambda: tuple(ks), "gen": lambda: (k for k in ks), "agen": agen, "dict": lambda: dict.fromkeys(ks),
            "aw": aw, "map": lambda: map(lambda k: k, ks),
        }[s["kind"]]()

    kwargs = dict(kw)
    if conc is not None:
        kwargs["concurrency"] = conc
    if case["name"]:
        kwargs["name" if over_instances and not isinstance(f, ASyncFunction) else "task_name"] = case["name"]
    if over_instances and op in ("map", "map_items"):
        pass
    given = [k for s in case["iterables"] for k in s["keys"]]
    fails = {k for k in given if case["fails"][k]}
    keys = list(dict.fromkeys(given))
    vals = [results[k] for k in keys]

    def expected():
        try:
            return ("ok", {"any": any, "all": all, "min": min, "max": max, "sum": sum}[op](vals))
        except (TypeError, ValueError) as e:
            return ("err", type(e))

    def judge(out):
        if out[0] == "err" and isinstance(out[1], Boom):
            check(any(out[1] is excs[k] for k in fails), f"raised {out[1]!r}, failing are {fails}", "failure")
            ctx.count("failures")
            return
        if not keys and op in ("map", "map_items"):
            check(out[0] == "err" and isinstance(out[1], (ValueError, a_sync.exceptions.MappingIsEmptyError)) or out == ("ok", {}), f"over nothing: {out}", "aggregate")
            return
        if op in ("map", "map_items"):
            check(not fails, f"hid the failures of {fails}: {out}", "failure")
            check(out[0] == "ok", f"{op} ended with {out}", "aggregate")
            got = out[1]
            check(len(got) == len(keys) and all(got.get(pool[k], got) is results[k] for k in keys), f"{op} gave {got}, expected {dict(zip(keys, vals))}", "aggregate")
        elif op in ("any", "all"):
            check(out[0] == "ok" and type(out[1]) is bool, f"{op} gave {out}", "aggregate")
            decide = op == "any"
            if fails:
                check(out[1] is decide and any(bool(results[k]) is decide for k in keys if k not in fails), f"{op} gave {out} over {vals} with failures {fails}", "aggregate")
            else:
                check(out == expected(), f"{op} gave {out} over {vals}", "aggregate")
        else:
            want = expected()
            if fails and want[0] == "err" and out[0] == "err" and isinstance(out[1], TypeError):
                return
            check(not fails, f"{op} hid the failures of {fails}: {out}", "failure")
            if want[0] == "err":
                check(out[0] == "err" and isinstance(out[1], want[1]), f"{op} over {vals} gave {out}, the builtin raises {want[1]}", "aggregate")
            else:
                check(out == want, f"{op} over {vals} gave {out}, the builtin {want}", "aggregate")
        if not fails and out[0] == "ok" and op not in ("any", "all"):
            check(set(started) == set(keys), f"ran for {started}, given {keys}", "once")

    def after():
        # the aggregates take each result out of the mapping, and a key that comes up again after that counts as new
        most = 1 if op == "map_items" else None
        check(all(started.count(k) <= (most or given.count(k)) for k in set(started)), f"ran for {started}, given {given}", "once")
        check(set(started) <= set(keys), f"ran for {started}, given {keys}", "args")
        limit = min([x for x in (conc, 2 if form == "fn_limited" else None) if x] or [n + 1])
        check(state["peak"] <= limit, f"{state['peak']} calls at once, the limit is {limit}", "limit")
        if state["peak"] == limit:
            ctx.count("saturated")
        ctx.count("calls", len(started))
        ctx.count("form_" + form)

    args = [iterable(s) for s in case["iterables"]]
    default_sync = form in ("descr_sync", "prop_sync")

    async def one(args):
        if op == "map":
            return await f.map(*args, **kwargs)
        if op == "map_items":
            return {k: v async for k, v in f.map(*args, **kwargs).items()}
        fl = {"sync": False} if default_sync else {}
        return await getattr(f, op)(*args, **kwargs, **fl)

    async def main():
        base = asyncio.all_tasks()
        t = asyncio.ensure_future(outcome(one(args)))
        done, _ = await asyncio.wait([t], timeout=5 + n)
        check(done, f"{op} never ended", "stuck")
        judge(t.result())
        del t
        await asyncio.sleep(0.05)
        if op in ("any", "all", "min", "max", "sum"):
            check(state["busy"] == 0, f"{state['busy']} calls go on after {op} gave its answer", "left")
            left = asyncio.all_tasks() - base
            check(not left or conc, lambda: f"tasks left behind by {op}: {left}", "left")
        after()
        if case["where"] == "twice" and form != "cprop":
            started.clear()
            state["peak"] = 0
            t = asyncio.ensure_future(outcome(one([iterable(s) for s in case["iterables"]])))
            done, _ = await asyncio.wait([t], timeout=5 + n)
            check(done, f"{op} never ended", "stuck")
            judge(t.result())
            await asyncio.sleep(0.05)
            after()

    if case["where"] == "sync" and form != "fn_syncdef":
        # outside a running loop: what is asynchronous by default is told to be synchronous
        loop = VirtualLoop()
        asyncio.set_event_loop(loop)
        try:
            try:
                if op == "map":
                    m = f.map(*args, **kwargs)
                    out = ("ok", m.gather())
                elif op == "map_items":
                    out = ("ok", dict(f.map(*args, **kwargs).map(pop=False)))
                elif over_instances:
                    out = ("ok", getattr(f, op)(*args, **kwargs, sync=True))
                else:
                    out = ("ok", loop.run_until_complete(getattr(f, op)(*args, **kwargs)))
            except Exception as e:
                out = ("err", e)
            m = None
            judge(out)
            after()
            ctx.count("sync")
        finally:
            dispose(loop)
    elif form == "fn_syncdef":
        asyncio.run(main())
    else:
        vrun(main)
    if len(keys) > 1:
        ctx.nontrivial(form, op, case["where"], conc, started[:60])
    ctx.sample({"form": form, "op": op, "where": case["where"], "calls": started[:20]})
