"""Dual functions: one outcome, whichever way they are called."""
import asyncio

import a_sync

import dual_common as D
from h import Boom, Violation, check

BAD_SYNC = a_sync.exceptions.SyncModeInAsyncContextError


def gen(rng, i, tier):
    fns = [D.gen_fn(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    calls = []
    for _ in range(rng.choice([2, 4, 6] if tier == "quick" else [4, 8, 16])):
        f = rng.randrange(len(fns))
        args, kw = D.gen_args(rng, fns[f]["sig"])
        flag = rng.choice(D.FLAGS)
        site = rng.choice(D.SITES)
        if site in D.LOOP_SITES and fns[f]["async_def"] and D.wants_sync(flag, fns[f]["default"], True):
            flag = rng.choice([["sync", False], ["asynchronous", True]])
        calls.append({"f": f, "args": args, "kw": kw, "flag": flag, "site": site, "how": rng.choice(["run", "ruc"]), "where": rng.choice(["end", "start", "mid"])})
    return {"fns": fns, "calls": calls, "inner": rng.choice([None, "async", "sync"]), "many": rng.random() < 0.15}


def kwargs_with(flag, kw, where):
    if not flag:
        return dict(kw)
    items = list(kw.items())
    k = {"end": len(items), "start": 0, "mid": len(items) // 2}[where]
    items.insert(k, (flag[0], flag[1]))
    return dict(items)


def run(case, ctx):
    book = D.Book(case["inner"])
    fns = [D.Fn(s, book, f"fn{i}") for i, s in enumerate(case["fns"])]
    for f in fns:
        f.dual = D.decorate(f.plain, f.spec)
    if case["many"]:
        return many(case, ctx, fns)
    sigs = []
    for c in case["calls"]:
        f = fns[c["f"]]
        before = len(f.runs)
        kw = kwargs_with(c["flag"], c["kw"], c["where"])
        args = list(c["args"])
        kind, got, aw = D.at_site(c["site"], lambda: f.dual(*args, **kw), c["how"])
        what = f"{f.name} ({'async def' if f.spec['async_def'] else 'def'}, default {f.spec['default']}) called at {c['site']} with {args} {kw}"
        runs = f.runs[before:]
        check(len(runs) == 1, lambda: f"{what}: the body ran {len(runs)} times; got {got!r}", "once")
        r = runs[0]
        same_outcome(r, kind, got, what)
        want = D.bound(f.spec["sig"], c["args"], c["kw"])
        check(seen_equal(r["seen"], want), lambda: f"{what}: the body saw {r['seen']}", "arguments")
        for v in list(c["args"]) + list(c["kw"].values()):
            if isinstance(v, list):
                check(any(v is x for x in flat(r["seen"])), f"{what}: an argument is another object", "arguments")
        ctx.count("calls")
        ctx.count("site_" + c["site"])
        ctx.count("awaited" if aw else "sync")
        ctx.count("raised" if kind == "err" else "returned")
        sigs.append((c["site"], c["flag"], f.spec["async_def"], f.spec["default"], kind))
    ctx.nontrivial(sigs, [f.spec["sig"] for f in fns], [f.spec["end"] for f in fns])
    ctx.sample({"calls": [repr(s) for s in sigs]})


def flat(seen):
    for v in seen.values():
        yield v
        if isinstance(v, tuple):
            yield from v
        if isinstance(v, dict):
            yield from v.values()


def seen_equal(a, b):
    return a.keys() == b.keys() and all(repr(a[k]) == repr(b[k]) for k in a)


def copied(got, v):
    """asyncio makes a new TimeoutError of one that comes out of an executor."""
    return type(v) is TimeoutError and type(got) is TimeoutError and got.args == v.args


def same_outcome(r, kind, got, what):
    k, v = r["out"]
    if k == "err" and isinstance(v, (StopAsyncIteration, StopIteration)) and kind == "err" and type(got) is RuntimeError:
        # Python itself turns one that leaves a coroutine into a RuntimeError
        check(got.__cause__ is v, lambda: f"{what}: raised {got!r}, the body raised {v!r}", "outcome")
        return
    check(kind == k and (got is v or copied(got, v)), lambda: f"{what}: {kind} {got!r}, the body {'raised' if k == 'err' else 'returned'} {v!r}", "outcome")


def many(case, ctx, fns):
    """All calls at once on one loop, and from threads beside it."""

    async def main():
        async def one(c):
            f = fns[c["f"]]
            kw = kwargs_with(c["flag"], c["kw"], c["where"])
            try:
                x = f.dual(*c["args"], **kw)
                aw = hasattr(x, "__await__")
                if aw:
                    x = await x
                return ("ok", x)
            except Violation:
                raise
            except BaseException as e:
                return ("err", e)

        def threaded(c):
            f = fns[c["f"]]
            kw = kwargs_with(c["flag"], c["kw"], c["where"])
            try:
                x = f.dual(*c["args"], **kw)
                if hasattr(x, "__await__"):

                    async def m():
                        return await x

                    x = asyncio.run(m())
                return ("ok", x)
            except Violation:
                raise
            except BaseException as e:
                return ("err", e)
            finally:
                D.drop_loop()

        jobs = []
        for c in case["calls"]:
            f = fns[c["f"]]
            if c["site"] in D.LOOP_SITES or not f.spec["async_def"]:
                if c["site"] in D.LOOP_SITES or f.spec["async_def"] or not D.wants_sync(c["flag"], f.spec["default"], False):
                    jobs.append(one(c))
                    continue
            jobs.append(asyncio.to_thread(threaded, c))
        return await asyncio.gather(*jobs)

    outs = asyncio.run(main())
    total = sum(len(f.runs) for f in fns)
    check(total == len(outs), f"{len(outs)} calls ran bodies {total} times", "once")
    left = [r for f in fns for r in f.runs]
    for kind, got in outs:
        for i, r in enumerate(left):
            k, v = r["out"]
            if kind == k and (got is v or copied(got, v) or kind == "err" and got.__cause__ is v and isinstance(v, StopAsyncIteration)):
                del left[i]
                break
        else:
            raise Violation(f"a concurrent call ended {kind} {got!r}, which no body produced (once)", "outcome")
    ctx.count("concurrent_calls", len(outs))
    ctx.count("calls", len(outs))
