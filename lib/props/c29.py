"""TaskMapping: one call per key, every view reports each key with its own result."""
import asyncio
import functools

import a_sync
from a_sync import TaskMapping

from h import Boom, check, spin
from vloop import VirtualLoop, dispose, vrun

KEYS = [0, 1, 2, 3, 7, "a", "b", "", None, (), (1, 2), True, False, 1.0, 2.5, frozenset({1}), -1]
READERS = ["await", "gather", "gather_exc", "aiter", "keys", "values", "items", "await_keys", "await_values", "await_items", "map", "map_keys", "index", "iter", "bykeys", "byvalues", "yield_completed"]


class BoomType(Boom, TypeError):
    pass


class BoomRuntime(Boom, RuntimeError):
    pass


class BoomKey(Boom, KeyError):
    pass


class BoomValue(Boom, ValueError):
    pass


HOOK = []


async def named(kw, key):
    return await HOOK[0](key, {"kw": kw})


def gen(rng, i, tier):
    pool = rng.choice([list(range(12)), KEYS, ["a", "b", "c"], [0, 1, True, 1.0], list(range(5))])
    n = rng.choice([0, 1, 2, 3, 5, 8] if tier == "quick" else [0, 1, 3, 8, 30])
    pop = rng.random() < 0.3
    how = rng.choice(["init", "init", "init", "index", "map", "init+index"])
    nit = rng.choice([1, 1, 1, 2, 3]) if how in ("init", "init+index", "map") else 0
    keys = [rng.randrange(len(pool)) for _ in range(n)]
    if pop:
        keys = list(dict.fromkeys(keys))
    its = [[] for _ in range(nit)]
    for k in keys:
        if nit:
            its[rng.randrange(nit)].append(k)
    if pop:
        # 1 == True: equal keys count as repeats
        seen = []
        for it in its:
            it[:] = [k for k in it if pool[k] not in seen and not seen.append(pool[k])]
    index = [{"key": rng.randrange(len(pool)), "at": rng.randrange(6)} for _ in range(rng.randrange(1, 6))] if "index" in how else []
    if pop:
        index = [dict(s, at=0) for s in index if pool[s["key"]] not in seen and not seen.append(pool[s["key"]])]
    return {
        "pool": KEYS.index(pool[0]) if False else {12: "range", len(KEYS): "mixed", 3: "str", 4: "equal", 5: "hosts"}[len(pool)],
        "how": how,
        "iterables": [{"kind": rng.choice(["list", "tuple", "gen", "agen", "aiter", "falsy", "awaitable", "awaitable_agen", "view", "chain", "task", "asyncfuture", "odd"]), "keys": ks, "pace": rng.choice([0, 0, 1, 3])} for ks in its],
        "index": index,
        "fn": rng.choice(["descr", "descr_sync", "prop", "cprop", "async"] if len(pool) == 5 else ["async", "async", "dual", "partial", "bound", "method", "kwonly", "named_like_kw", "limited"]),
        "kwargs": rng.choice([{}, {}, {"x": 1}, {"x": None, "y": "k"}]),
        "delays": [rng.choice([None, 0, 1, 2, 4]) for _ in pool],
        "fails": [rng.random() < rng.choice([0, 0, 0.15]) for _ in pool],
        "concurrency": rng.choice([None, None, None, 1, 2, 5]),
        "name": rng.choice(["", "n"]),
        "readers": [{"how": rng.choice(READERS), "at": rng.choice([0, 0, 1, 3, 9])} for _ in range(1 if pop else rng.choice([1, 1, 2, 3]))],
        "pop": pop,
        "source_err": rng.random() < 0.05,
        "sync": rng.random() < 0.12,
        "reverse": rng.random() < 0.3,
        "exc": rng.randrange(5),
    }


def run(case, ctx):
    class Key(a_sync.ASyncGenericBase):
        """Keys that are instances: the mapped function is their own method or property, named on the class."""

        def __init__(self, n, sync):
            self.n = n
            self.sync = sync
            super().__init__()

        def __lt__(self, other):
            return self.n < other.n

        async def descr(self, **kwargs):
            return await work(self, kwargs)

        @a_sync.a_sync("sync")
        async def descr_sync(self, **kwargs):
            return await work(self, kwargs)

        @a_sync.aka.property
        async def prop(self):
            return await work(self, {})

        @a_sync.aka.cached_property
        async def cprop(self):
            return await work(self, {})

    pool = {"range": list(range(12)), "mixed": KEYS, "str": ["a", "b", "c"], "equal": [0, 1, True, 1.0], "hosts": []}[case["pool"]]
    if case["pool"] == "hosts":
        pool = [Key(n, n % 2 == case["exc"] % 2) for n in range(5)]
    seen = {"reads": 0, "failures": 0, "calls": 0, "over_descriptors": case["fn"] in ("descr", "descr_sync", "prop", "cprop")}
    calls = []
    source_exc = Boom("source")

    def idx(key):
        """dict semantics: the first of the equal keys in the pool stands for all."""
        for i, k in enumerate(pool):
            if k is key or k == key:
                return i
        check(False, f"called with the key {key!r} nobody gave", "args")

    results = [["result", i] for i in range(len(pool))]
    excs = [(Boom, BoomType, BoomRuntime, BoomKey, BoomValue)[(i + case["exc"]) % 5](("key", i)) for i in range(len(pool))]
    kw = dict(case["kwargs"])
    if case["fn"] == "named_like_kw":
        kw = {"kw": "kw"}
    elif case["fn"] in ("prop", "cprop"):
        kw = {}
    busy = [0]

    async def work(key, kwargs):
        i = idx(key)
        calls.append((key, i))
        check(kwargs == kw, f"called with {kwargs}, expected {kw}", "args")
        d = case["delays"][i]
        busy[0] += 1
        check(case["fn"] != "limited" or busy[0] <= 2, f"{busy[0]} calls of a function limited to 2", "modifiers")
        try:
            if d is not None:
                await asyncio.sleep(d / 1000)
        finally:
            busy[0] -= 1
        if case["fails"][i]:
            raise excs[i]
        return results[i]

    class Host(a_sync.ASyncGenericBase):
        def __init__(self, sync):
            self.sync = sync
            super().__init__()

        async def meth(self, key, **kwargs):
            check(self is host, "called on another instance", "args")
            return await work(key, kwargs)

    host = Host(False)

    def make_fn():
        f = case["fn"]

        async def fn(key, **kwargs):
            return await work(key, kwargs)

        if f in ("async", "kwonly"):
            return fn
        if f == "dual":
            return a_sync.a_sync(fn)
        if f == "limited":
            return a_sync.a_sync(fn, semaphore=2)
        if case["pool"] == "hosts":
            return getattr(Key, f)
        if f == "partial":
            async def g(extra, key, **kwargs):
                check(extra == "p", "partial's argument got lost", "args")
                return await work(key, kwargs)

            return functools.partial(g, "p")
        if f == "bound":
            return host.meth
        if f == "named_like_kw":
            HOOK[:] = [work]
            return named

        class Plain:
            async def meth(self, key, **kwargs):
                return await work(key, kwargs)

        return Plain().meth

    if case["fn"] == "named_like_kw" and (case["how"] not in ("init",) or case["concurrency"]):
        # keyword arguments that come before the key are only sorted out for constructor iterables
        kw.clear()
        case = dict(case, fn="async")

    def iterable(spec, err):
        ks = [pool[k] for k in spec["keys"]]
        kind = spec["kind"]

        def sgen():
            yield from ks
            if err:
                raise source_exc

        async def agen():
            for k in ks:
                if spec["pace"]:
                    await asyncio.sleep(spec["pace"] / 1000)
                yield k
            if err:
                raise source_exc

        class It:
            def __aiter__(self):
                return agen()

        class Falsy(It):
            def __len__(self):
                return 0

        class Odd(list):
            __hash__ = None

            def __eq__(self, other):
                raise TypeError("cannot be compared")

        async def aw():
            await asyncio.sleep(spec["pace"] / 1000)
            if err:
                raise source_exc
            return ks

        async def awagen():
            return agen()

        async def ident(k):
            await asyncio.sleep(0.001)
            return k

        if kind == "list" and not err:
            return list(ks)
        if kind == "tuple" and not err:
            return tuple(ks)
        if kind in ("list", "tuple", "gen"):
            return sgen()
        if kind == "agen":
            return agen()
        if kind == "aiter":
            return It()
        if kind == "falsy":
            return Falsy()
        if kind == "odd":
            return Odd(ks) if not err else sgen()
        if kind == "task" and asyncio._get_running_loop() is not None:
            ctx.count("future_sources")
            return asyncio.ensure_future(aw())
        if kind == "asyncfuture":
            ctx.count("future_sources")
            return a_sync.ASyncFuture(aw())
        if kind in ("awaitable", "task"):
            return aw()
        if kind == "awaitable_agen":
            return awagen()
        other = TaskMapping(ident, agen())
        hold.append(other)
        return other.keys()

    hold = []
    given = []  # keys (pool index) that must be there
    its = case["iterables"]
    for spec in its:
        given += [idx(pool[k]) for k in spec["keys"]]

    def make(sync):
        args = [iterable(s, case["source_err"] and j == len(its) - 1) for j, s in enumerate(its)]
        opts = dict(kw)
        if case["name"]:
            opts["name"] = case["name"]
        if case["concurrency"]:
            opts["concurrency"] = case["concurrency"]
        if case["how"] == "map":
            return TaskMapping(make_fn(), **opts), args
        return TaskMapping(make_fn(), *args, **opts), ()

    failing = {i for i in range(len(pool)) if case["fails"][i]}

    def judge(kind, got, exc, expected, complete=True, first=True):
        src_err = case["source_err"] and its and kind not in ("index", "iter") and (first or case["how"] != "map")
        seen["reads"] += 1
        exp_fail = expected & failing
        if exc is not None:
            seen["failures"] += 1
            may = failing & (set(given) | {idx(pool[s["key"]]) for s in case["index"]})
            ok = any(exc is excs[i] for i in may) or src_err and exc is source_exc
            check(ok, f"{kind} raised {exc!r}; failing keys {sorted(exp_fail)}", "failure")
            return
        if kind in ("keys", "await_keys", "iter", "map_keys"):
            if kind == "map_keys":
                check(not exp_fail and not src_err, f"{kind} hid the failure", "failure")
            idxs = [idx(k) for k in got]
        elif kind in ("values", "await_values", "byvalues"):
            check(not exp_fail and not src_err, f"{kind} hid the failure of {sorted(exp_fail)}", "failure")
            idxs = [next((i for i, r in enumerate(results) if r is v), None) for v in got]
        else:
            pairs = list(got.items()) if isinstance(got, dict) else list(got)
            idxs = []
            for k, v in pairs:
                i = idx(k)
                idxs.append(i)
                if kind == "gather_exc" and i in failing:
                    check(v is excs[i], f"{k!r} came with {v!r}", "results")
                else:
                    check(v is results[i], f"{kind}: {k!r} came with {v!r}, expected {results[i]!r}", "results")
            if kind not in ("gather_exc", "yield_completed"):
                check(not exp_fail and not src_err, f"{kind} hid the failure of {sorted(exp_fail)}", "failure")
        check(None not in idxs and len(idxs) == len(set(idxs)), f"{kind} reported {got}", "once")
        if complete:
            check(set(idxs) >= expected, f"{kind} left out {sorted(expected - set(idxs))}", "all")
        extra = set(idxs) - set(given) - {idx(pool[s["key"]]) for s in case["index"]}
        check(not extra, f"{kind} reported keys nobody gave: {extra}", "all")

    async def main():
        m, map_args = make(False)
        loop = asyncio.get_running_loop()
        tasks = []
        handed = {}

        async def indexer(s):
            await asyncio.sleep(s["at"] / 1000)
            i = idx(pool[s["key"]])
            t = m[pool[s["key"]]]
            if i in handed:
                check(handed[i] is t, "two tasks for one key", "once")
            handed[i] = t

        pop = case["pop"]

        async def reader(r, first):
            await asyncio.sleep(r["at"] / 1000)
            how = r["how"]
            got, exc = [], None
            expected = set(given) if case["how"] != "map" or first else set()
            complete = True
            try:
                if case["how"] == "map" and first:
                    how = "map" if not how.endswith("keys") else "map_keys"
                    async for x in m.map(*map_args, pop=pop, **({"yields": "keys"} if how == "map_keys" else {})):
                        got.append(x)
                elif how == "await":
                    got = await m
                elif how == "gather":
                    got = await m.gather(sync=False)
                elif how == "gather_exc":
                    got = await m.gather(return_exceptions=True, sync=False)
                elif how == "aiter":
                    async for x in m.__aiter__(pop=pop):
                        got.append(x)
                elif how in ("keys", "values", "items"):
                    async for x in getattr(m, how)(pop=pop):
                        got.append(x)
                elif how.startswith("await_"):
                    got = await getattr(m, how[6:])(pop=pop)
                    check(type(got) is list, f"{how} gave a {type(got)}", "shape")
                elif how in ("map", "map_keys"):
                    async for x in m.map(pop=pop, **({"yields": "keys"} if how == "map_keys" else {})):
                        got.append(x)
                elif how == "bykeys":
                    async for x in m.items(pop=pop).aiterbykeys(reverse=case["reverse"]):
                        got.append(x)
                    ks = [k for k, _ in got]
                    check(ks == sorted(ks, reverse=case["reverse"]), f"keys came as {ks}", "sorted")
                elif how == "byvalues":
                    async for x in m.values(pop=pop).aiterbyvalues(reverse=case["reverse"]):
                        got.append(x)
                    check(got == sorted(got, reverse=case["reverse"]), f"values came as {got}", "sorted")
                elif how == "iter":
                    complete = False
                    got = list(m.keys())
                    check(len(m.keys()) == len(got) == len(m), "lengths", "shape")
                elif how == "yield_completed":
                    complete = False
                    async for x in m.yield_completed(pop=pop):
                        got.append(x)
                else:
                    got = []
                    for k in list(m):
                        got.append((k, await m[k]))
                    complete = False
                    expected &= {idx(k) for k, _ in got}
            except Boom as e:
                exc = e
            except TypeError as e:
                if how == "bykeys" and case["pool"] == "mixed":
                    return  # keys that cannot be compared
                raise
            except (a_sync.exceptions.MappingIsEmptyError, ValueError) as e:
                if "map" in how and case["how"].startswith("init") is False and case["how"] == "index":
                    check(not handed or not len(m), f"{how}: {e!r} with {len(m)} keys", "failure")
                check(not expected and (its or not len(m)), f"{how} says it is empty: {e!r}, expected keys {expected}", "all")
                return
            if not complete:
                expected = expected & {i for i in expected if False} if how in ("iter", "yield_completed") else expected
            judge(how, got, exc, expected, complete, first)

        for s in case["index"]:
            tasks.append(asyncio.ensure_future(indexer(s)))
        if case["index"]:
            await spin(2)
        readers = [asyncio.ensure_future(reader(r, j == 0)) for j, r in enumerate(case["readers"])]
        done, pending = await asyncio.wait(tasks + readers, timeout=5)
        check(not pending, lambda: f"a reader never ended: {[p.get_coro() for p in pending]}", "stuck")
        for t in done:
            t.result()
        await asyncio.sleep(0.1)
        if case["how"] != "map" and not case["source_err"] and not pop:
            # whatever was read, in the end every key was called
            for i in set(given):
                check(any(c[1] == i for c in calls), f"{pool[i]!r} was never called", "all")
        for t in list(dict.values(m)):
            if t.done() and not t.cancelled():
                t.exception()
        if m._init_loader is not None and m._init_loader.done() and not m._init_loader.cancelled():
            m._init_loader.exception()
        await m.close()
        await asyncio.sleep(0.01)
        left = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
        check(not left or case["concurrency"], lambda: f"still running after the mapping was closed: {left}", "left")

    def run_sync():
        """Outside a running loop."""
        loop = VirtualLoop()
        asyncio.set_event_loop(loop)
        try:
            m, map_args = make(True)
            got, exc, how = [], None, "gather"
            expected = set(given)
            try:
                if case["how"] == "map":
                    how = "map"
                    for x in m.map(*map_args, pop=case["pop"]):
                        got.append(x)
                elif case["readers"][0]["how"] in ("map", "aiter", "items"):
                    how = "map"
                    for x in m.map(pop=case["pop"]):
                        got.append(x)
                else:
                    got = m.gather()
            except Boom as e:
                exc = e
            except (a_sync.exceptions.MappingIsEmptyError, ValueError) as e:
                check(not expected and (its or not len(m)), f"{how} says it is empty: {e!r}, expected keys {expected}", "all")
                return
            judge(how, got, exc, expected)
            seen["sync"] = 1
        finally:
            dispose(loop)

    if case["sync"] and case["how"] in ("init", "map") and all(s["kind"] != "view" and s["kind"] != "chain" for s in its):
        run_sync()
    else:
        vrun(main)
    idxs = [c[1] for c in calls]
    check(len(idxs) == len(set(idxs)), f"calls {[c[0] for c in calls]}", "once")
    seen["calls"] = len(calls)
    for k, v in seen.items():
        ctx.count(k, v)
    for r in case["readers"]:
        ctx.count("reader_" + r["how"])
    if len(calls) > 1:
        ctx.nontrivial(case["how"], [s["kind"] for s in its], [r["how"] for r in case["readers"]], idxs, case["concurrency"])
    ctx.sample({"how": case["how"], "iterables": [(s["kind"], s["keys"]) for s in its], "readers": [r["how"] for r in case["readers"]], "calls": repr([c[0] for c in calls]), "saw": seen})
