"""Filter and sort views against filter() and sorted()."""
import asyncio
import functools

import a_sync
from a_sync.iter import ASyncFilter, ASyncGeneratorFunction, ASyncIterable, ASyncIterator, ASyncSorter

from h import Boom, check, big
from vloop import VirtualLoop, dispose, vrun


def gen(rng, i, tier):
    n = big(rng, rng.choice([0, 1, 2, 3, 5, 8, 13] if tier == "quick" else [0, 1, 3, 8, 30, 100]))
    kinds = rng.choice([["int"], ["int"], ["str"], ["float"], ["tuple"], ["int", "bool", "float"], ["int", "str"], ["nan", "float"], ["none"], ["fussy"]])
    chain = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if rng.random() < 0.5:
            chain.append({"op": "filter", "fn": rng.choice(["truth", "even", "small", "all", "nothing", "obj", "empty"]), "mode": rng.choice(["sync", "async", "awaitable", "dual", "slow"]), "fail": rng.choice([None, None, None, rng.randrange(max(1, n))])})
        else:
            chain.append({"op": "sort", "key": rng.choice([None, "neg", "const", "str", "mod", "second", "partial", "nan", "wrapped"]), "mode": rng.choice(["sync", "async", "slow"]), "reverse": rng.choice([False, False, True, None]), "fail": rng.choice([None, None, None, rng.randrange(max(1, n))])})
    return {
        "items": [(rng.choice(kinds), rng.randrange(-3, 5)) for _ in range(n)],
        "source": rng.choice(["agen", "aiter", "able", "falsy", "list", "tuple", "gen", "iter", "falsy_sync", "method"]),
        "source_err": rng.choice([None] * 5 + [rng.randrange(n + 1)]),
        "pace": rng.choice([0, 0, 1]),
        "chain": chain,
        "direct": rng.random() < 0.4,
        "use": rng.choice(["for", "afor", "await", "materialized", "next", "anext", "mixed", "resume", "gather"]),
    }


class Fussy:
    """Compares by value; refuses to compare with some."""

    def __init__(self, v):
        self.v = v

    def __lt__(self, other):
        if self.v == 3 or other.v == 3:
            raise Boom("comparison")
        return self.v < other.v

    def __eq__(self, other):
        raise Boom("equality is not for sorting")

    __hash__ = object.__hash__


def item(kind, v, i):
    if kind == "nan":
        return float("nan") if v % 2 else float(v)
    return {"int": lambda: v, "str": lambda: f"s{v}", "float": lambda: v / 2, "tuple": lambda: (v, i), "bool": lambda: bool(v), "none": lambda: None, "fussy": lambda: Fussy(v)}[kind]()


class FalsyBool:
    def __init__(self, truth):
        self.truth = truth

    def __bool__(self):
        return self.truth


def run(case, ctx):
    items = [item(k, v, i) for i, (k, v) in enumerate(case["items"])]
    ident = {}

    def num(x):
        return x.v if isinstance(x, Fussy) else x[0] if isinstance(x, tuple) else len(x) if isinstance(x, str) else 0 if x is None else x

    def pred_of(st):
        fn = st["fn"]

        def p(x):
            if fn == "truth":
                return num(x)
            if fn == "even":
                return num(x) % 2 == 0
            if fn == "small":
                return num(x) < 1
            if fn == "all":
                return True
            if fn == "nothing":
                return None
            if fn == "empty":
                return [] if num(x) < 0 else [0]
            return FalsyBool(num(x) > 0)

        return p

    def key_of(st):
        k = st["key"]
        if k is None and st["fail"] is None:
            return None

        def f(x, m=3):
            if k is None:
                return x
            if k == "neg":
                return -num(x)
            if k == "const":
                return 0
            if k == "str":
                return str(num(x))
            if k == "second":
                return x[1] if isinstance(x, tuple) else num(x)
            if k == "nan":
                return float("nan") if num(x) % 2 == 1 else num(x)
            if k == "wrapped":
                return Fussy(num(x))
            return num(x) % m

        return f

    def counted(fn, st, calls, exc):
        """fn, counting its calls and failing at its own call number."""

        def g(x, *a, **k):
            n = len(calls)
            calls.append(x)
            if st["fail"] is not None and n == st["fail"]:
                raise exc
            return fn(x, *a, **k)

        return g

    # the expectation, with the builtins
    src_exc = Boom("source")

    def ref_source():
        for i, x in enumerate(items):
            if case["source_err"] == i:
                raise src_exc
            yield x
        if case["source_err"] == len(items):
            raise src_exc

    excs = [Boom(f"stage{i}") for i in range(len(case["chain"]))]
    ref_calls = [[] for _ in case["chain"]]
    it = ref_source()
    for i, st in enumerate(case["chain"]):
        if st["op"] == "filter":
            it = filter(counted(pred_of(st), st, ref_calls[i], excs[i]), it)
        else:

            def sort_stage(it=it, st=st, i=i):
                key = key_of(st)
                if key is not None:
                    key = functools.partial(key, m=2) if st["key"] == "partial" else key
                    key = counted(key, st, ref_calls[i], excs[i])
                yield from sorted(it, key=key, reverse=bool(st["reverse"]))

            it = sort_stage()
    want, want_exc = [], None
    try:
        for x in it:
            want.append(x)
    except Exception as e:
        want_exc = e

    calls = [[] for _ in case["chain"]]

    def build():
        async def agen():
            for x in ref_source():
                if case["pace"]:
                    await asyncio.sleep(0)
                yield x

        class It:
            def __init__(self):
                self.g = ref_source()

            def __aiter__(self):
                return self

            async def __anext__(self):
                try:
                    x = next(self.g)
                except StopIteration:
                    raise StopAsyncIteration
                if case["pace"]:
                    await asyncio.sleep(0.001)
                return x

        class Falsy(It):
            def __bool__(self):
                return False

        class Able:
            def __aiter__(self):
                return agen()

        class FalsySync:
            def __iter__(self):
                return self

            def __init__(self):
                self.g = ref_source()

            def __next__(self):
                return next(self.g)

            def __len__(self):
                return 0

        s = case["source"]
        if case["source_err"] is not None and s in ("list", "tuple", "iter"):
            s = "gen"
        raw = {"agen": agen, "aiter": It, "able": Able, "falsy": Falsy, "list": lambda: list(items), "tuple": lambda: tuple(items), "gen": ref_source, "iter": lambda: iter(list(items)), "falsy_sync": FalsySync, "method": lambda: ASyncGeneratorFunction(agen)()}[s]()
        cur = raw
        if not (case["direct"] or s in ("list", "tuple", "gen", "iter", "falsy_sync", "method")):
            cur = ASyncIterable(raw) if s == "able" else ASyncIterator(raw)
        for i, st in enumerate(case["chain"]):
            if st["op"] == "filter":
                p = counted(pred_of(st), st, calls[i], excs[i])
                if st["mode"] in ("async", "slow", "dual"):

                    async def fn(x, p=p, st=st):
                        r = p(x)
                        if st["mode"] == "slow":
                            await asyncio.sleep(0.001)
                        return r

                    if st["mode"] == "dual":
                        fn = a_sync.a_sync(fn)
                elif st["mode"] == "awaitable":

                    def fn(x, p=p):
                        fut = asyncio.get_running_loop().create_future()
                        fut.set_result(p(x))
                        return fut

                else:
                    fn = p
                cur = cur.filter(fn) if hasattr(cur, "filter") and not (case["direct"] and i == 0) else ASyncFilter(fn, cur)
            else:
                key = key_of(st)
                if key is not None:
                    key = functools.partial(key, m=2) if st["key"] == "partial" else key
                    key = counted(key, st, calls[i], excs[i])
                    if st["mode"] != "sync":

                        async def akey(x, key=key, st=st):
                            r = key(x)
                            if st["mode"] == "slow":
                                # items finish in an order of their own
                                await asyncio.sleep((hash(str(num(x))) % 5) / 1000)
                            return r

                        key = akey
                kw = {} if st["reverse"] is None else {"reverse": st["reverse"]}
                if key is not None:
                    kw["key"] = key
                cur = cur.sort(**kw) if hasattr(cur, "sort") and not isinstance(cur, list) and not (case["direct"] and i == 0) else ASyncSorter(cur, **kw)
        return cur

    got, got_exc, again = [], None, []
    use = case["use"]

    def sync_use(loop):
        nonlocal got_exc
        view = build()
        try:
            if use == "for":
                for x in view:
                    got.append(x)
            elif use == "materialized":
                got.extend(view.materialized)
            elif use == "next":
                while True:
                    try:
                        got.append(next(view))
                    except StopIteration:
                        break
            else:
                # mixed: next and anext in turns, then the rest
                turn = 0
                while turn < 4:
                    turn += 1
                    try:
                        got.append(next(view) if turn % 2 else loop.run_until_complete(_anext(view)))
                    except (StopIteration, StopAsyncIteration):
                        return view
                got.extend(loop.run_until_complete(_await(view)))
        except Exception as e:
            got_exc = e
        return view

    async def _anext(v):
        return await v.__anext__()

    async def _await(v):
        return await v

    async def async_use():
        nonlocal got_exc
        view = build()
        try:
            if use == "afor":
                async for x in view:
                    got.append(x)
            elif use == "await":
                got.extend(await view)
                check(await view == got or any(x != x or isinstance(x, Fussy) for x in got), "awaited twice, two lists", "await")
            elif use == "anext":
                while True:
                    try:
                        got.append(await view.__anext__())
                    except StopAsyncIteration:
                        break
            elif use == "resume":
                n = 0
                async for x in view:
                    got.append(x)
                    n += 1
                    if n == 2:
                        break
                else:
                    return
                async for x in view:
                    got.append(x)
            else:
                other = build()
                del other
                for c in calls:
                    c.clear()
                got.extend((await asyncio.gather(view))[0])
        except Exception as e:
            got_exc = e
        else:
            if use in ("afor", "anext") and case["chain"] and case["chain"][-1]["op"] == "sort":
                # a sorter can be consumed once, and says so
                try:
                    more = [x async for x in view]
                except RuntimeError as e:
                    check("consumed" in str(e), f"{e!r}", "second-pass")
                    again.append(1)
                else:
                    check(False, f"a second pass over {view} gave {more} instead of an error", "second-pass")

    if use in ("for", "materialized", "next", "mixed"):
        loop = VirtualLoop()
        asyncio.set_event_loop(loop)
        try:
            sync_use(loop)
        except Boom as e:
            raise
        finally:
            dispose(loop)
    else:
        _, loop = vrun(async_use)

    lists = use in ("await", "materialized", "gather")
    show = lambda xs: [x.v if isinstance(x, Fussy) else x for x in xs]

    def matches():
        if want_exc is None:
            return got_exc is None and len(got) == len(want) and all(a is b or type(a) is type(b) and a == b for a, b in zip(got, want))
        if got_exc is None:
            return False
        # several failures may compete where keys are awaited concurrently
        concurrent = any(st["op"] == "sort" and st["mode"] != "sync" for st in case["chain"])
        if not (got_exc is want_exc or type(got_exc) is type(want_exc) and str(got_exc) == str(want_exc) or concurrent and isinstance(got_exc, (Boom, TypeError))):
            return False
        if lists:
            return not got
        if use == "mixed":
            return len(got) <= len(want) and all(a is b or a == b for a, b in zip(got, want))
        return len(got) == len(want) and all(a is b or type(a) is type(b) and a == b for a, b in zip(got, want))

    check(matches(), lambda: f"{show(got)} then {got_exc!r}; the builtins give {show(want)} then {want_exc!r}", "result")
    if want_exc is None:
        for i, st in enumerate(case["chain"]):
            if st["op"] == "sort" and key_of(st) is None:
                continue
            check(len(calls[i]) == len(ref_calls[i]), f"stage {i} ({st['op']}) called {len(calls[i])} times, the builtin {len(ref_calls[i])}", "calls")
    else:
        ctx.count("errors")
    ctx.count("views")
    ctx.count("second_passes_refused", len(again))
    ctx.count("items", len(got))
    for st in case["chain"]:
        ctx.count(st["op"] + "_" + st["mode"])
    if len(items) > 1:
        ctx.nontrivial(case["items"], case["source"], case["chain"], use)
    ctx.sample({"items": show(items), "chain": case["chain"], "use": use, "got": repr(show(got))[:200]})
