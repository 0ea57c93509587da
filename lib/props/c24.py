"""as_completed."""
import asyncio

import a_sync

import aw_common as A
from h import Boom, Violation, check, same, big
from vloop import vrun


def gen(rng, i, tier):
    n = big(rng, rng.choice([0, 1, 2, 3, 5, 8] if tier == "quick" else [0, 1, 3, 8, 20]))
    return {
        "specs": A.gen(rng, n, ends=rng.choice([["ok"], ["ok", "ok", "err"], ["ok", "err", "cancel"]]), distinct=rng.random() < 0.6, unique=True),
        "return_exceptions": rng.random() < 0.5,
        "form": rng.choice(["list", "list", "map", "map", "set", "gen"]),
        "aiter": rng.random() < 0.5,
        "timeout": rng.choice([None, None, None, 0.0005, 0.0025, 0.0045, 0.02, 1, 0]),
        "pace": rng.choice([0, 0, 0, 1, 3]),
        "stop": rng.choice([None, None, None, rng.randrange(1, 5)]),
        "tqdm": rng.random() < 0.08,
        "keys": rng.choice(["int", "str", "none"]),
        "lazy": rng.choice([0, 0, 2]),
    }


def run(case, ctx):
    stats = {"yielded": 0, "raised": 0, "timeouts": 0, "cancelled": 0}
    log = []

    async def main():
        book = A.Book(case["specs"])
        aws = [r.make() for r in book.recs]
        keys = [{"int": i, "str": f"k{i}", "none": (None, i)}[case["keys"]] for i in range(len(aws))]
        form = case["form"]
        mapping = form == "map"
        arg = dict(zip(keys, aws)) if mapping else set(aws) if form == "set" else aws
        if form == "set":
            arg = set(aws)
        elif form == "gen":
            arg = iter(aws) if not case["return_exceptions"] and case["timeout"] is None else aws
        kw = {}
        if case["timeout"] is not None:
            kw["timeout"] = case["timeout"]
        if case["return_exceptions"]:
            kw["return_exceptions"] = True
        if case["aiter"]:
            kw["aiter"] = True
        if case["tqdm"] and form != "gen":
            kw.update(tqdm=True, disable=True)
            ctx.count("with_tqdm")
        it = a_sync.as_completed(arg, **kw)
        loop = asyncio.get_running_loop()
        if case["lazy"]:
            await asyncio.sleep(case["lazy"] / 1000)
        t_start = loop.time()
        got = []  # (when, key, outcome)
        timed_out = None
        stopped = False

        def note(key, kind, v):
            got.append((book.clock(), key, kind, v))

        async def pace():
            if case["pace"]:
                await asyncio.sleep(case["pace"] / 1000)

        def unpack(x):
            if mapping:
                check(type(x) is tuple and len(x) == 2, f"a mapping yielded {x!r}", "shape")
                return x
            return (None, x)

        if case["aiter"]:
            ait = it.__aiter__()
            while True:
                try:
                    x = await ait.__anext__()
                except StopAsyncIteration:
                    break
                except (Boom, asyncio.CancelledError) as e:
                    note(None, "raised", e)
                    break
                except asyncio.TimeoutError:
                    timed_out = loop.time()
                    break
                k, v = unpack(x)
                note(k, "value", v)
                if case["stop"] is not None and len(got) >= case["stop"]:
                    stopped = True
                    break
                await pace()
            if stopped:
                del ait, it
        else:
            started = False
            n = 0
            for co in it:
                n += 1
                try:
                    x = await co
                except (Boom, asyncio.CancelledError) as e:
                    note(None, "raised", e)
                except asyncio.TimeoutError:
                    timed_out = loop.time()
                    break
                else:
                    k, v = unpack(x)
                    note(k, "value", v)
                if case["stop"] is not None and len(got) >= case["stop"]:
                    stopped = True
                    break
                await pace()
        ended = loop.time()
        await asyncio.sleep(0.2)
        recs = book.recs
        exp_exc = {id(r.exc): r for r in recs if r.exc is not None}
        seen = set()
        prev = -1
        for when, k, kind, v in got:
            if isinstance(v, Boom):
                check(kind == ("value" if case["return_exceptions"] else "raised"), f"failure {v!r} was {kind}", "failure-form")
                check(id(v) in exp_exc, f"{v!r} is nobody's exception", "results")
                r = exp_exc[id(v)]
                stats["raised"] += 1
            elif kind == "raised" or isinstance(v, asyncio.CancelledError):
                check(kind == ("value" if case["return_exceptions"] else "raised"), f"cancelled awaitable was {kind}", "failure-form")
                if mapping and kind == "value":
                    r = recs[keys.index(k)]
                else:
                    cands = [q for q in recs if q.spec["end"] == "cancel" and q.i not in seen and q.done_at is not None]
                    check(cands, f"{v!r} came once too often or is nobody's", "results")
                    r = min(cands, key=lambda q: q.done_at)
                check(r.spec["end"] == "cancel", f"{k!r} was not cancelled, but came so", "results")
                stats["cancelled"] += 1
            elif mapping:
                r = recs[keys.index(k)]
                check(r.exc is None and r.spec["end"] == "ok" and v is r.value, f"{k!r} came with {v!r}", "results")
            else:
                cands = [q for q in recs if q.spec["end"] == "ok" and q.value is v and q.i not in seen and q.done_at is not None]
                check(cands, f"{v!r} came once too often or is nobody's result", "results")
                r = min(cands, key=lambda q: q.done_at)
            if mapping and kind == "value":
                check(k == keys[r.i], f"result of {keys[r.i]!r} came with key {k!r}", "results")
            check(r.i not in seen, f"{r.i} came twice", "once")
            seen.add(r.i)
            stats["yielded"] += 1
            check(r.done_at is not None and r.done_at <= when + 1e-9, "yielded before it completed", "order")
            # what was complete before the iteration began is all equally early
            eff = max(r.done_at, t_start)
            check(eff >= prev - 1e-9, f"completion order {[x[1:] for x in got]} against {book.order}", "order")
            prev = eff
        check(all(r.runs <= 1 for r in recs), "an awaitable was run twice", "once")
        full = not stopped and timed_out is None and not (case["aiter"] and not case["return_exceptions"] and any(g[2] == "raised" for g in got))
        if full:
            check(seen == set(range(len(recs))), f"only {sorted(seen)} of {len(recs)} came", "all")
        if not case["pace"] and not stopped and recs and full:
            last = max(r.done_at for r in recs)
            check(abs(max(ended, t_start) - max(last, t_start)) < 1e-6, f"ended at {ended}, the last completed at {last}", "late")
        if timed_out is not None:
            stats["timeouts"] += 1
            check(case["timeout"] is not None, "a timeout nobody asked for", "timeout")
            created = t_start - case["lazy"] / 1000
            lo = min(created, t_start) + case["timeout"]
            check(timed_out >= lo - 1e-6, f"timed out at {timed_out - t_start} after the start, limit {case['timeout']}", "timeout")
            if not case["pace"]:
                check(timed_out <= t_start + case["timeout"] + 1e-6, f"timed out at {timed_out - t_start}, limit {case['timeout']}", "timeout")
        elif case["timeout"] is not None and full and not case["pace"] and not case["lazy"]:
            check(ended - t_start <= case["timeout"] + 1e-6, f"no timeout after {ended - t_start}, limit {case['timeout']}", "timeout")
        log.extend(sorted(seen) if stopped else book.order)

    _, loop = vrun(main)
    for k, v in stats.items():
        ctx.count(k, v)
    ctx.count("runs_" + ("async" if case["aiter"] else "sync"))
    if len(case["specs"]) > 1 and stats["yielded"]:
        ctx.nontrivial(case["form"], case["aiter"], case["return_exceptions"], log, stats)
    ctx.sample({"form": case["form"], "aiter": case["aiter"], "completion_order": log, "stats": stats})
