"""TaskMapping: concurrency limit, aggregates, removals, closing."""
import asyncio
import gc

import a_sync
from a_sync import TaskMapping

from h import Boom, check, outcome, spin, boom, big
from vloop import VirtualLoop, dispose, vrun

OPS = ["sum", "min", "max", "any", "all", "gather", "await", "iter", "close", "drop"]


def gen(rng, i, tier):
    n = big(rng, rng.choice([0, 1, 2, 4, 6, 10] if tier == "quick" else [0, 1, 6, 12, 40]))
    op = rng.choice(OPS + ["sum", "min", "max"])
    kind = rng.choice(["int", "int", "float", "str", "none", "bool", "acc", "list", "mixed"] if op not in ("min", "max") else ["int", "int", "float", "str", "none", "bool", "tuple"])
    return {
        "n": n,
        "values": [rng.randrange(-3, 4) for _ in range(n)],
        "kind": kind,
        "delays": [rng.choice([None, 0, 1, 2, 5]) for _ in range(n)],
        "fails": [rng.random() < rng.choice([0, 0, 0, 0.2]) for _ in range(n)],
        "conc": rng.choice([None, 1, 2, 3, 50]),
        "source": rng.choice(["index", "list", "agen", "slow"]),
        "op": op,
        "pop": rng.choice([None, None, True, False]),
        "at": rng.choice([0, 0, 1, 3, 20]),
        "remove": [{"key": rng.randrange(max(1, n)), "how": rng.choice(["pop", "pop", "pop_cancel", "del", "pop_default"]), "at": rng.choice([0, 1, 2, 6])} for _ in range(rng.choice([0, 0, 0, 1, 2]))],
        "return_exceptions": rng.random() < 0.4,
        "exclude": rng.random() < 0.2,
        "again": rng.random() < 0.4,
        "stubborn": rng.random() < 0.1,
        "sync": rng.random() < 0.15,
        "wait_popped": rng.random() < 0.7,
    }


class Acc:
    """Adds up like numbers do; sum() must not change the operands."""

    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        return Acc(self.v + (o.v if isinstance(o, Acc) else o))

    def __radd__(self, o):
        return self if not isinstance(o, Acc) and o == 0 else Acc(self.v + o)

    def __iadd__(self, o):
        self.v += o.v
        return self

    def __eq__(self, o):
        return isinstance(o, Acc) and o.v == self.v

    def __repr__(self):
        return f"Acc({self.v})"


def run(case, ctx):
    n = case["n"]
    kind = case["kind"]

    def value(k):
        v = case["values"][k]
        return {
            "int": lambda: v, "float": lambda: v / 4, "str": lambda: f"s{v}", "none": lambda: None, "bool": lambda: v > 0, "acc": lambda: Acc(v), "list": lambda: [v], "tuple": lambda: (v, k),
            "mixed": lambda: v if k % 2 else v / 2,
        }[kind]()

    seen = {"calls": 0, "saturated": 0, "removed": 0, "errors": 0, "stopped": 0, "aggregated": 0}
    log = []

    class W:
        running = peak = 0

    w = W()
    excs = [boom(k) for k in range(n)]
    started, finished, cancelled = [], [], []
    results = {}

    async def fn(k):
        started.append(k)
        w.running += 1
        w.peak = max(w.peak, w.running)
        try:
            d = case["delays"][k]
            if d is not None:
                try:
                    await asyncio.sleep(d / 1000)
                except asyncio.CancelledError:
                    if not case["stubborn"]:
                        raise
                    cancelled.append(k)
                    return None
            if case["fails"][k]:
                raise excs[k]
            results[k] = value(k)
            finished.append(k)
            return results[k]
        except asyncio.CancelledError:
            cancelled.append(k)
            raise
        finally:
            w.running -= 1

    conc = case["conc"]
    opts = {"concurrency": conc} if conc else {}
    op = case["op"]
    keys = list(range(n))

    def make():
        async def agen():
            for k in keys:
                yield k
                if case["source"] == "slow":
                    await asyncio.sleep(0.002)

        if case["source"] == "index":
            return TaskMapping(fn, **opts)
        return TaskMapping(fn, keys if case["source"] == "list" else agen(), **opts)

    empty_refusal = (a_sync.exceptions.MappingIsEmptyError, ValueError)

    def expected(op, vals):
        """('ok', value) or ('err', class) on the finished results."""
        try:
            if op == "sum":
                return ("ok", sum(vals))
            if op == "min":
                return ("ok", min(vals))
            if op == "max":
                return ("ok", max(vals))
            if op == "any":
                return ("ok", any(vals))
            if op == "all":
                return ("ok", all(vals))
        except (TypeError, ValueError) as e:
            return ("err", type(e))

    def judge(op, out, present, removed):
        vals = [value(k) for k in present]
        fails = [k for k in present if case["fails"][k]]
        if op == "close" or op == "drop":
            return
        if out[0] == "err" and isinstance(out[1], Boom):
            check(any(out[1] is excs[k] for k in fails), f"{op} raised {out[1]!r}", "failure")
            seen["errors"] += 1
            if op in ("any", "all", "sum", "min", "max", "await", "iter") or op == "gather" and not case["return_exceptions"]:
                return
            check(False, f"{op} raised {out[1]!r} though it was to return it", "failure")
        if not present:
            ok = out[0] == "err" and isinstance(out[1], empty_refusal) or op in ("sum", "any", "all") and out == ("ok", expected(op, [])[1]) or op == "iter" and out == ("ok", {})
            check(ok, f"{op} of nothing: {out}", "aggregate")
            return
        if op in ("any", "all") and out[0] == "ok":
            good = [bool(value(k)) for k in present if not case["fails"][k]]
            decide = op == "any"
            if fails:
                check(out[1] is decide and decide in good, f"{op} gave {out} over {vals} with failures {fails}", "aggregate")
            else:
                check(out == expected(op, vals), f"{op} gave {out} over {vals}", "aggregate")
        elif op in ("gather", "await", "iter"):
            if fails and not (op == "gather" and case["return_exceptions"]):
                check(False, f"{op} hid failures {fails}: {out}", "failure")
            want = {k: excs[k] if case["fails"][k] else value(k) for k in present}
            if op == "gather" and case["exclude"]:
                want = {k: v for k, v in want.items() if v}
            check(out[0] == "ok" and type(out[1]) is dict and set(out[1]) == set(want), f"{op} gave {out}, expected {want}", "aggregate")
            for k, v in want.items():
                check(out[1][k] is excs[k] if case["fails"][k] else out[1][k] is results[k], f"{op} gave {out}", "aggregate")
        else:
            want = expected(op, vals)
            # results that cannot be compared or added may be met before a failure
            if fails and out[0] == "err" and isinstance(out[1], TypeError) and want[0] == "err":
                return
            check(not fails, f"{op} hid failures {fails}: {out}", "failure")
            if want[0] == "err":
                check(out[0] == "err" and isinstance(out[1], want[1]), f"{op} over {vals} gave {out}, the builtin raises {want[1]}", "aggregate")
            else:
                check(out[0] == "ok" and out[1] == want[1], f"{op} over {vals} gave {out}, the builtin {want}", "aggregate")
        for k, v in results.items():
            check(v == value(k), f"{op} changed the result {value(k)!r} of {k} to {v!r}", "aggregate")
        seen["aggregated"] += 1

    def call(m, op, sync):
        kw = {} if case["pop"] is None else {"pop": case["pop"]}
        fl = {} if sync else {"sync": False}
        if op in ("sum", "min", "max", "any", "all"):
            return getattr(m, op)(**kw, **fl)
        if op == "gather":
            kw = {"return_exceptions": case["return_exceptions"]}
            if case["exclude"]:
                kw["exclude_if"] = lambda v: not v
            return m.gather(**kw, **fl)
        if op == "await":
            return m

    def check_limit():
        if conc:
            check(w.peak <= conc, f"{w.peak} calls at once, the limit is {conc}", "limit")

    async def main():
        loop = asyncio.get_running_loop()
        m = make()
        if case["source"] == "index":
            for k in keys:
                m[k]
        state = {"over": False}

        def idle():
            check_limit()
            if state["over"] or m is None:
                return
            asked = [k for k in m if k not in started and not m[k].done()]
            if asked:
                check(conc is not None and w.running >= conc, f"{asked} wait while only {w.running} of {conc} run", "progress")
            if conc and w.running == conc:
                seen["saturated"] += 1

        loop.on_idle.append(idle)
        removed, popped = {}, {}
        start_op = case["at"] / 1000

        async def remover(r):
            # removals come before the aggregate begins
            await asyncio.sleep(min(r["at"] / 1000, start_op))
            k = r["key"]
            if k not in m or k in removed:
                if r["how"] == "pop_default":
                    check(m.pop(k, "dflt") == "dflt", "pop's default", "remove")
                return
            fut = m[k]
            removed[k] = r["how"]
            seen["removed"] += 1
            if r["how"] in ("pop", "pop_default"):
                check(m.pop(k) is fut, "pop gave another task", "remove")
                popped[k] = fut
            elif r["how"] == "pop_cancel":
                open_ = not fut.done() and not case["stubborn"]
                check(m.pop(k, cancel=True) is fut, "pop gave another task", "remove")
                await asyncio.wait([fut])
                check(fut.cancelled() or not open_, "the popped task was not cancelled", "remove")
            else:
                open_ = not fut.done() and not case["stubborn"]
                del m[k]
                await asyncio.wait([fut])
                check(fut.cancelled() or not open_, "the call for a deleted key goes on", "remove")
            check(k not in m and k not in list(m.keys()), "a removed key is still there", "remove")

        rem = [asyncio.ensure_future(remover(r)) for r in case["remove"]] if case["source"] in ("index", "list") else []
        await asyncio.sleep(start_op)
        await spin(1)
        if rem:
            await asyncio.wait(rem)
            for t in rem:
                t.result()
        if case["source"] == "list" and start_op == 0:
            await spin(5)
        present = [k for k in keys if k not in removed]
        # the aggregate
        if op == "close":
            await m.close()
            out = None
        elif op == "drop":
            tasks = list(dict.values(m))
            m = None
            state["over"] = True
            gc.collect()
            out = None
        elif op == "iter":
            async def it():
                return {k: v async for k, v in m.__aiter__(pop=bool(case["pop"]))}

            t = asyncio.ensure_future(outcome(it()))
            done, _ = await asyncio.wait([t], timeout=3 + n / 100)
            check(done, "iterating never ended", "stuck")
            out = t.result()
        else:

            async def agg():
                return await call(m, op, False)

            t = asyncio.ensure_future(outcome(agg()))
            done, _ = await asyncio.wait([t], timeout=3 + n / 100)
            check(done, f"{op} never ended", "stuck")
            out = t.result()
        judge(op, out, present, removed)
        pops = op == "close" or op in ("min", "max", "any", "all") and case["pop"] is not False or op in ("sum", "iter") and case["pop"] is True
        if popped and case["wait_popped"]:
            # what was taken out still gets its result, whatever happens to the mapping
            done, pending = await asyncio.wait(list(popped.values()), timeout=3 + n / 100)
            check(not pending, f"popped {[k for k, f in popped.items() if f in pending]} never got a result", "remove")
            for k, f in popped.items():
                check(not f.cancelled(), f"popped {k} was cancelled", "remove")
                got = ("err", f.exception()) if f.exception() else ("ok", f.result())
                check(got == (("err", excs[k]) if case["fails"][k] else ("ok", results.get(k))) and (case["fails"][k] or f.result() is results[k]), f"popped {k} gave {got}", "remove")
        if op != "drop":
            if pops:
                check(len(m) == 0, f"{len(m)} left after popping all", "pop")
                state["over"] = True
                await spin(6)
                alive = w.running - len([k for k, f in popped.items() if not f.done()])
                if not popped and not removed:
                    check(w.running == 0, f"{w.running} calls still run after {op} closed the mapping", "closed")
                    before = len(started)
                    await asyncio.sleep(0.2 + n / 100)
                    check(len(started) == before, f"{started[before:]} were started after {op} closed the mapping", "closed")
                    seen["stopped"] += 1
            else:
                if out is None or out[0] == "ok" or op in ("gather", "await"):
                    check(set(m) == set(present) or case["source"] == "slow" or out[0] == "err", f"{op} left {list(m)}", "pop")
                if case["again"] and op not in ("iter",):
                    async def agg():
                        return await call(m, op, False)

                    o2 = await outcome(agg())
                    judge(op, o2, present, removed)
                await asyncio.sleep(0.2 + n / 100)
                if conc and not case["remove"] and out is not None and out[0] == "ok":
                    check(set(started) == set(present), f"only {started} ran", "progress")
                for f in dict.values(m):
                    f.cancelled() or f.done() and f.exception()
                state["over"] = True
                await m.close()
        else:
            await asyncio.sleep(0.2 + n / 100)
            for f in tasks:
                check(f.done(), "a task of a discarded mapping never finished", "drop")
                f.cancelled() or f.exception()
            tasks = f = None
        for f in popped.values():
            f.cancelled() or f.done() and f.exception()
        check_limit()
        check(len(started) == len(set(started)), f"{started}", "once")
        if m is not None and m._init_loader is not None and m._init_loader.done() and not m._init_loader.cancelled():
            m._init_loader.exception()
        removed.clear()
        popped.clear()
        loop.on_idle.clear()
        m = fut = f = rem = t = tasks = None
        if op == "drop" or case["at"] == 1:
            await spin(5)
            gc.collect()
            await spin(5)
            left = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
            check(not left or conc or case["remove"], lambda: f"still running when all is over: {left}", "left")
        await asyncio.sleep(0.1)

    if case["sync"] and case["source"] != "index" and op in ("sum", "min", "max", "any", "all", "gather"):
        loop = VirtualLoop()
        asyncio.set_event_loop(loop)
        try:
            m = make()
            try:
                out = ("ok", call(m, op, True))
            except Exception as e:
                out = ("err", e)
            check_limit()
            judge(op, out, keys, {})
            ctx.count("sync")
        finally:
            dispose(loop)
    else:
        vrun(main)
    seen["calls"] = len(started)
    for k, v in seen.items():
        ctx.count(k, v)
    ctx.count("op_" + op)
    if len(started) > 1:
        ctx.nontrivial(op, case["source"], case["kind"], conc, started, finished, [r["how"] for r in case["remove"]])
    ctx.sample({"op": op, "source": case["source"], "limit": conc, "peak": w.peak, "started": started, "finished": finished, "cancelled": cancelled, "saw": seen})
