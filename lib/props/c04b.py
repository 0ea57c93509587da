"""Cached properties under many readers: one computation at a time, one successful one ever, failures not remembered."""
import asyncio

import a_sync
from a_sync import aliases

import cls_common as K
from h import Boom, Violation, check, spin, boom
from vloop import vrun

FORMS = ["attr", "hidden", "hidden_await", "get"]


def gen(rng, i, tier):
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        horizon = rng.choice([6, 12, 20])
        readers = []
        for _ in range(rng.choice([1, 2, 4, 7] if tier == "quick" else [2, 5, 10, 16])):
            readers.append(
                {
                    "i": rng.randrange(2),
                    "p": rng.randrange(2),
                    "at": rng.randrange(horizon),
                    "spin": rng.randrange(4),
                    "form": rng.choice(FORMS),
                    "cancel": rng.choice([None, None, None, rng.randrange(horizon + 4), "spin"]),
                    "again": rng.random() < 0.3,
                    "how": rng.choice(["await", "await", "wait_for", "shield", "twice"]),
                }
            )
        phases.append({"readers": readers, "leave": rng.choice([None, None, rng.randrange(1, horizon)])})
    script = [[rng.choice(["ok", "err", "err", "cancel", "type"]) for _ in range(4)] for _ in range(4)]
    return {
        "kind": rng.choice(["async", "async", "plain"]),
        "phases": phases,
        "delays": [rng.choice([None, 0, 1, 3, 7]) for _ in range(2)],
        "script": script,
        "sync": [rng.random() < 0.5, rng.random() < 0.5],
        "eq": rng.random() < 0.3,
        "value": rng.choice(["object", "none", "falsy"]),
    }


class Run:
    start = end = None
    out = None


class Book:
    def __init__(self):
        self.runs = {}
        self.clock = lambda: 0
        self.seq = 0

    def tick(self):
        self.seq += 1
        return self.seq


def build(case, book):
    def getter(p):
        async def get(self):
            key = (self.idx, p)
            runs = book.runs.setdefault(key, [])
            r = Run()
            r.phase = book.phase
            r.start = book.tick()
            live = [x for x in runs if x.end is None]
            check(not live, f"two computations of property {p} of instance {self.idx} at once", "overlap")
            check(not any(x.out[0] == "ok" for x in runs), f"property {p} of instance {self.idx} was computed again after a success", "again")
            n = len(runs)
            runs.append(r)
            try:
                d = case["delays"][p]
                if d is not None:
                    await asyncio.sleep(d)
                end = case["script"][self.idx * 2 + p][n] if n < 4 else "ok"
                if end == "err":
                    raise boom((key, n))
                if end == "type":
                    raise TypeError((key, n))
                if end == "cancel":
                    raise asyncio.CancelledError((key, n))
                v = {"object": object(), "none": None, "falsy": 0}[case["value"]]
                r.out = ("ok", v)
                return v
            except BaseException as e:
                r.out = ("cancelled" if isinstance(e, asyncio.CancelledError) else "err", e)
                r.byitself = isinstance(e, asyncio.CancelledError) and e.args == ((key, n),)
                raise
            finally:
                r.end = book.tick()
                r.when = book.clock()

        get.__name__ = f"p{p}"
        return get

    if case["kind"] == "async":

        class C(a_sync.ASyncGenericBase):
            def __init__(self, idx, sync):
                self.idx = idx
                self.sync = sync
                super().__init__()

            p0 = aliases.cached_property(getter(0))
            p1 = aliases.cached_property("async")(getter(1))

    else:

        class C:
            def __init__(self, idx, sync):
                self.idx = idx

            p0 = aliases.cached_property(getter(0))
            p1 = aliases.cached_property("async")(getter(1))

    if case["eq"]:
        C.__eq__ = lambda a, b: True
        C.__hash__ = lambda a: 3
    return C


def run(case, ctx):
    book = Book()
    C = build(case, book)
    insts = [C(i, case["sync"][i]) for i in range(2)]
    shared = failed = 0
    sigs = []
    for ph, phase in enumerate(case["phases"]):
        book.phase = ph
        stop = [False]
        results = []

        def access(r):
            inst, p = insts[r["i"]], f"p{r['p']}"
            form = r["form"]
            if case["kind"] == "plain" and form.startswith("hidden"):
                form = "get"
            if form == "attr" and case["kind"] == "async" and case["sync"][r["i"]] and r["p"] == 0:
                form = "hidden"
            if form == "attr":
                return getattr(inst, p)
            if form == "hidden":
                return getattr(inst, f"__{p}__")()
            if form == "hidden_await":
                return getattr(inst, f"__{p}__")
            return getattr(C, p).get(inst)

        async def reader(r, rec):
            loop = asyncio.get_running_loop()
            await asyncio.sleep(r["at"])
            await spin(r["spin"])
            for _ in range(2 if r["again"] else 1):
                rec["start"] = book.tick()
                rec["t0"] = loop.time()
                rec["out"] = None
                try:
                    x = access(r)
                    if r["how"] == "wait_for":
                        v = await asyncio.wait_for(x, 1e6)
                    elif r["how"] == "shield":
                        v = await asyncio.shield(asyncio.ensure_future(wrap(x)))
                    elif r["how"] == "twice" and r["form"] != "get":
                        v = (await asyncio.gather(wrap(x), wrap(access(r))))[0]
                    else:
                        v = await x
                    out = ("ok", v)
                except asyncio.CancelledError as e:
                    out = ("cancelled", e)
                except Exception as e:
                    if isinstance(e, Violation):
                        raise
                    out = ("err", e)
                if stop[0]:
                    return
                rec["end"] = book.tick()
                rec["t1"] = loop.time()
                judge(case, book, r, rec, out, ph)
                results.append((r["i"], r["p"], out[0]))
                if rec.get("cancel_sent") and out[0] == "cancelled":
                    return

        async def wrap(x):
            return await x

        async def main():
            loop = asyncio.get_running_loop()
            book.clock = loop.time
            tasks = []
            for r in phase["readers"]:
                rec = {"cancel_sent": False}
                t = asyncio.ensure_future(reader(r, rec))
                tasks.append(t)

                def cancel(t=t, rec=rec):
                    if not t.done():
                        rec["cancel_sent"] = True
                        t.cancel()

                if r["cancel"] == "spin":
                    loop.call_later(r["at"], lambda c=cancel: loop.call_soon(lambda: loop.call_soon(lambda: loop.call_soon(c))))
                elif r["cancel"] is not None:
                    loop.call_later(r["cancel"] + 0.5 * (r["spin"] % 2), cancel)
            if phase["leave"] is not None:
                await asyncio.wait(tasks, timeout=phase["leave"])
                stop[0] = True
            else:
                await asyncio.wait(tasks)
            for t in tasks:
                if t.done() and not t.cancelled() and t.exception() is not None:
                    raise t.exception()
            if phase["leave"] is None:
                live = [k for k, runs in book.runs.items() for x in runs if x.end is None]
                # cancelled readers may leave a computation running, which must end by itself
                await asyncio.sleep(30)
                check(not [1 for k, runs in book.runs.items() for x in runs if x.end is None], f"computations {live} never ended", "stuck")

        vrun(main)
        for runs in book.runs.values():
            for x in runs:
                if x.end is None:  # its loop is gone
                    x.end = book.tick()
                    x.out = ("cancelled", None)
                if x.out[0] == "cancelled" and not getattr(x, "byitself", False) and phase["leave"] is None and x.phase == ph:
                    raise Violation(f"a computation was cancelled from outside: {x.out}", "cancelled")
        sigs.append(results)
        ctx.count("phases")
    for runs in book.runs.values():
        ctx.count("computations", len(runs))
        ctx.count("failed", sum(x.out[0] != "ok" for x in runs))
    reads = [x for s in sigs for x in s]
    ctx.count("shared_reads", len(reads))
    ctx.count("shared_cancelled", sum(x[2] == "cancelled" for x in reads))
    if len(reads) > sum(len(x) for x in book.runs.values()):
        ctx.count("sharing_cases")
    ctx.nontrivial(sigs, {k: [x.out[0] for x in v] for k, v in book.runs.items()})


def judge(case, book, r, rec, out, ph):
    key = (r["i"], r["p"])
    runs = book.runs.get(key, [])
    what = f"phase {ph}: reader of property {r['p']} of instance {r['i']} by {r['form']} from {rec['t0']} to {rec['t1']}"
    kind, v = out
    if kind == "cancelled" and rec["cancel_sent"]:
        return
    if kind == "ok":
        check(any(x.out and x.out[0] == "ok" and x.out[1] is v for x in runs), lambda: f"{what} got {v!r}; computations gave {[x.out for x in runs]}", "value")
        won = next(x for x in runs if x.out and x.out[0] == "ok")
    else:
        own = [x for x in runs if x.out and x.out[0] == kind and (kind == "cancelled" or x.out[1] is v)]
        check(own, lambda: f"{what} ended {kind} {v!r}; computations gave {[x.out for x in runs]}", "value")
        won = own[-1]
        check(won.end > rec["start"], lambda: f"{what} got {v!r} of a computation that had ended before", "remembered")
    t = max(won.when, rec["t0"]) if won.phase == ph else rec["t0"]
    check(rec["t1"] == t, f"{what} could have ended at {t}", "late")
