"""Which mode a call runs in, and which calls are refused."""
import asyncio
import gc
import inspect
import warnings

import a_sync
from a_sync import exceptions as X

import dual_common as D
from h import Violation, check


def gen(rng, i, tier):
    fn = D.gen_fn(rng)
    fn["end"] = rng.choice(["value", "none", "boom"])
    calls = []
    for _ in range(rng.choice([3, 6, 10] if tier == "quick" else [6, 12, 24])):
        args, kw = D.gen_args(rng, fn["sig"])
        flags = rng.choice([[], [], [0], [1], [0], [1], [0, 1], [1, 0]])
        calls.append(
            {
                "args": args,
                "kw": kw,
                "flags": [[["sync", "asynchronous"][k], rng.random() < 0.5] for k in flags],
                "site": rng.choice(D.SITES),
                "how": rng.choice(["run", "ruc"]),
            }
        )
    return {"fn": fn, "calls": calls, "inner": rng.choice([None, "async", "sync"])}


def run(case, ctx):
    book = D.Book(case["inner"])
    f = D.Fn(case["fn"], book)
    f.dual = D.decorate(f.plain, f.spec)
    s = f.spec
    sigs = []
    for c in case["calls"]:
        before = len(f.runs)
        flags = c["flags"]
        kw = {**c["kw"], **dict(map(tuple, flags))}
        seen = {}

        def call():
            try:
                x = f.dual(*c["args"], **kw)
            except BaseException as e:
                seen["raised"] = e
                raise
            seen["value"] = x
            seen["ran"] = len(f.runs) - before
            return x

        async def alive():
            return await asyncio.sleep(0, "alive")

        def around():
            """The call, then proof that the loop it was made in is still fine."""
            try:
                loop = asyncio.get_running_loop()
            except RuntimeError:
                return call()
            try:
                return call()
            finally:
                check(asyncio.get_running_loop() is loop and loop.is_running(), "another loop is running after the call", "loop")
                seen["task"] = loop.create_task(alive())

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kind, got, aw = D.at_site(c["site"], around, c["how"])
        what = f"{'async def' if s['async_def'] else 'def'} with default {s['default']}, flags {flags}, at {c['site']}"
        ran = len(f.runs) - before
        in_loop = c["site"] in D.LOOP_SITES
        if len(flags) == 2:
            check(kind == "err" and isinstance(got, X.TooManyFlags), lambda: f"{what}: two flags gave {kind} {got!r}", "refusal")
            check(ran == 0, f"{what}: a refused call ran its body", "refusal")
            ctx.count("refused_flags")
            continue
        sync = D.wants_sync(flags[0] if flags else None, s["default"], s["async_def"])
        if sync and s["async_def"] and in_loop:
            check(kind == "err" and isinstance(got, X.SyncModeInAsyncContextError), lambda: f"{what}: gave {kind} {got!r} instead of being refused", "refusal")
            check(ran == 0, f"{what}: a refused call ran its body", "refusal")
            ctx.count("refused_sync")
        elif sync:
            check("raised" in seen or not inspect.isawaitable(seen["value"]), lambda: f"{what}: a synchronous call gave {seen['value']!r}", "mode")
            check(ran == 1 and not aw, f"{what}: the body ran {ran} times by the time the call returned", "mode")
            check(kind == ("err" if s["end"] == "boom" else "ok"), lambda: f"{what}: {kind} {got!r}", "mode")
            check("value" not in seen or seen["ran"] == 1, f"{what}: a synchronous call returned before its body was done", "mode")
            check((f.runs[-1]["loop"] is None) == (c["site"] not in D.LOOP_SITES and not s["async_def"]), f"{what}: the body ran with loop {f.runs[-1]['loop']}", "mode")
            ctx.count("sync")
        else:
            check("value" in seen, lambda: f"{what}: an asynchronous call raised {seen['raised']!r} at the call", "mode")
            check(inspect.isawaitable(seen["value"]), lambda: f"{what}: an asynchronous call gave {seen['value']!r}", "mode")
            check(ran == 1 and seen["ran"] == 0, f"{what}: the body ran {seen['ran']} times before anything was awaited, {ran} times in all", "mode")
            check(kind == ("err" if s["end"] == "boom" else "ok"), lambda: f"{what}: {kind} {got!r}", "mode")
            ctx.count("async")
        if ran:
            check("sync" not in f.runs[-1]["seen"].get("kw", {}) and "asynchronous" not in f.runs[-1]["seen"].get("kw", {}), "a mode flag reached the body", "flag")
            check(not {"sync", "asynchronous"} & f.runs[-1]["seen"].get("kwargs", {}).keys(), "a mode flag reached the body", "flag")
        ctx.count("site_" + c["site"])
        sigs.append((c["site"], tuple(map(tuple, flags)), kind))
    ctx.count("calls", len(case["calls"]))
    ctx.nontrivial(s["async_def"], s["default"], s["form"], sigs)
    ctx.sample({"async_def": s["async_def"], "default": s["default"], "calls": [repr(x) for x in sigs]})
