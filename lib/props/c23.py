"""gather: against asyncio.gather on the same program."""
import asyncio
import collections
import types

import a_sync

import aw_common as A
from h import Boom, BoomBase, Violation, check, outcome, same, big
from vloop import vrun


def gen(rng, i, tier):
    n = big(rng, rng.choice([0, 1, 2, 3, 4, 6, 9] if tier == "quick" else [0, 1, 3, 9, 20, 40]))
    return {
        "specs": A.gen(rng, n, ends=rng.choice([["ok"], ["ok", "ok", "err"], ["ok", "err", "cancel"]])),
        "return_exceptions": rng.random() < 0.5,
        "exclude": rng.choice([None, None, "falsy", "all", "exc", "odd"]),
        "form": rng.choice(["list", "list", "map", "map", "omap", "proxy"]),
        "dup": rng.random() < 0.15,
        "cancel": rng.choice([None, None, None, rng.randrange(6)]),
        "keys": rng.choice(["int", "str", "mixed"]),
        "extra": rng.choice(["none", "await", "nested"]),
        "tqdm": rng.random() < 0.08,
    }


def key(kind, i):
    return {"int": i, "str": f"k{i}", "mixed": (i, None, f"s{i}")[i % 3] if i > 2 else ("a", 1, None)[i]}[kind] if kind != "mixed" else ("m", i)


def excluder(kind, calls):
    def ex(r):
        calls.append(r)
        if kind == "falsy":
            return not r
        if kind == "all":
            return True
        if kind == "exc":
            return isinstance(r, BaseException)
        return isinstance(r, int) and r % 2 == 1

    return ex


def run(case, ctx):
    specs = case["specs"]

    def program(use_lib):
        """Runs the program with our gather or asyncio's; returns what can be observed."""

        async def main():
            book = A.Book(specs)
            aws = [r.make() for r in book.recs]
            if case["dup"] and aws and case["form"] == "list" and asyncio.isfuture(aws[0]):
                aws.append(aws[0])
            keys = [key(case["keys"], i) for i in range(len(aws))]
            calls = []
            form = case["form"]
            if form == "list":
                args = aws
            else:
                m = dict(zip(keys, aws))
                args = [collections.OrderedDict(m) if form == "omap" else types.MappingProxyType(m) if form == "proxy" else m]
            if use_lib:
                kw = {}
                if case["exclude"]:
                    kw["exclude_if"] = excluder(case["exclude"], calls)
                if case["return_exceptions"]:
                    kw["return_exceptions"] = True
                if case["tqdm"]:
                    kw.update(tqdm=True, disable=True)
                co = a_sync.gather(*args, **kw)
            else:

                async def ref():
                    # asyncio.gather() itself, inside a coroutine like ours
                    return await asyncio.gather(*aws, return_exceptions=case["return_exceptions"])

                co = ref()
            t = asyncio.ensure_future(co)
            if case["cancel"] is not None:
                await asyncio.sleep(case["cancel"] / 1000)
                t.cancel()
            out = await outcome(t)
            at = book.clock()
            done = [r.done_at is not None for r in book.recs]
            await asyncio.sleep(0.1)
            await asyncio.gather(*book.keep, return_exceptions=True)
            for x in aws:
                if asyncio.isfuture(x):
                    x.cancelled() or x.exception()
            return book, keys, out, at, calls, done

        (book, keys, out, at, calls, done), loop = vrun(main)
        return book, keys, out, at, calls, done, loop

    if case["tqdm"] and (case["cancel"] is not None or (not case["return_exceptions"] and any(s["end"] != "ok" for s in specs))):
        # tqdm's gather goes by as_completed: among simultaneous failures another one may come first, and it leaves its awaitables
        # alone when it is cancelled
        case = dict(case, tqdm=False)
    lb, lkeys, lout, lat, lcalls, ldone, loop = program(True)
    rb, _, rout, rat, _, rdone, _ = program(False)
    check(all(r.runs <= 1 for r in lb.recs), "an awaitable was run twice", "once")
    tag = lambda x: (type(x).__name__, x.tag) if isinstance(x, (Boom, BoomBase)) else (type(x).__name__, None if isinstance(x, asyncio.CancelledError) else repr(x))
    check(lout[0] == rout[0], lambda: f"gather ended {lout}, asyncio.gather {rout}", "outcome")
    if lout[0] == "err":
        check(tag(lout[1]) == tag(rout[1]), lambda: f"gather raised {lout[1]!r}, asyncio.gather {rout[1]!r}", "outcome")
        check(any(lout[1] is r.exc for r in lb.recs), "another exception object", "outcome")
    elif lout[0] == "ok":
        ref = rout[1]
        exp_keys = lkeys
        pairs = list(zip(exp_keys, ref))
        if case["exclude"]:
            ex = excluder(case["exclude"], [])
            pairs = [(k, v) for k, v in pairs if not ex(v)]
            check(len(lcalls) == len(ref), f"exclude_if called {len(lcalls)} times for {len(ref)} results", "exclude")
        if case["form"] == "list":
            check(type(lout[1]) is list, f"gather gave a {type(lout[1])}", "shape")
            got = [(None, v) for v in lout[1]]
            pairs = [(None, v) for _, v in pairs]
        else:
            check(type(lout[1]) is dict, f"gather gave a {type(lout[1])}", "shape")
            got = list(lout[1].items())
        check(
            [(k, tag(v)) for k, v in got] == [(k, tag(v)) for k, v in pairs],
            lambda: f"gather gave {got}, expected {pairs}",
            "results",
        )
        values = [r.exc if r.exc is not None else r.value for r in lb.recs]
        for _, v in got:
            check(isinstance(v, asyncio.CancelledError) or any(v is w for w in values), f"{v!r} is nobody's result", "results")
    check(abs(lat - rat) < 1e-6, f"gather ended at {lat}, asyncio.gather at {rat}", "time")
    if not case["tqdm"] and not (lout[0] == "err"):
        check([r.cancelled for r in lb.recs] == [r.cancelled for r in rb.recs], "children were cancelled differently", "cancel")
    ctx.count("gathers")
    ctx.count("form_" + case["form"])
    ctx.count("ended_" + lout[0])
    if case["tqdm"] and any(s["end"] == "cancel" for s in specs):
        ctx.count("tqdm_cancelled")
    if case["exclude"]:
        ctx.count("excluded", len(lcalls))
    if len(specs) > 1:
        ctx.nontrivial(case["form"], lb.order, lout[0], case["return_exceptions"], case["exclude"])
    ctx.sample({"form": case["form"], "completion_order": lb.order, "outcome": repr(lout)[:200]})
