"""any() and all() over awaitables and task mappings."""
import asyncio

import a_sync
from a_sync.utils import all as lib_all
from a_sync.utils import any as lib_any

import aw_common as A
from h import Boom, check, outcome, boom, big
from vloop import vrun


class Truth:
    def __init__(self, t, exc=None):
        self.t, self.exc = t, exc

    def __bool__(self):
        if self.exc:
            raise self.exc
        return self.t


class Len:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


VALUES = {
    "True": True, "False": False, "1": 1, "0": 0, "none": None, "str": "x", "empty": "", "nan": float("nan"), "zero": 0.0, "list": [0], "nolist": [],
    "t": Truth(True), "f": Truth(False), "l": Len(2), "l0": Len(0), "exc": boom("a value"),
}


def gen(rng, i, tier):
    n = big(rng, rng.choice([0, 1, 2, 3, 5, 8] if tier == "quick" else [0, 1, 3, 8, 25]))
    bias = rng.choice([list(VALUES), ["True", "1", "str", "t", "list", "l", "nan", "exc"], ["False", "0", "none", "empty", "f", "zero", "nolist", "l0"], ["False", "none", "f", "0", "t"]])
    specs = A.gen(rng, n, ends=rng.choice([["ok"], ["ok", "ok", "ok", "err"]]), distinct=rng.random() < 0.7)
    return {
        "op": rng.choice(["any", "all"]),
        "over": rng.choice(["utils", "utils", "mapping", "mapping_iter", "mapping_aiter", "mapping_slow", "mapping_conc"]),
        "specs": specs,
        "values": [rng.choice(bias) for _ in specs],
        "never": [rng.random() < 0.12 for _ in specs],
        "badbool": rng.choice([None] * 8 + [rng.randrange(n + 1)]),
        "dup": rng.random() < 0.1,
        "pop": rng.choice([None, True, False]),
        "second": rng.random() < 0.3,
    }


def run(case, ctx):
    op, specs = case["op"], case["specs"]
    builtin = {"any": any, "all": all}[op]
    seen = {}

    async def main():
        book = A.Book(specs)
        badbool = boom("bool")
        for r in book.recs:
            r.value = VALUES[case["values"][r.i]]
            if case["badbool"] == r.i:
                r.value = Truth(True, badbool)
        forever = []

        def body(r):
            if case["never"][r.i]:

                async def never():
                    r.runs += 1
                    try:
                        await asyncio.Event().wait()
                    except asyncio.CancelledError:
                        r.cancelled += 1
                        raise

                forever.append(r)
                return never()
            return r.make() if case["over"] == "utils" else r.body()

        m = None
        if case["over"] == "utils":
            aws = [body(r) for r in book.recs]
            if case["dup"] and aws and asyncio.isfuture(aws[0]):
                aws.append(aws[0])
            co = {"any": lib_any, "all": lib_all}[op](*aws)
        else:

            async def fn(k):
                return await body(book.recs[k])

            keys = list(range(len(specs)))
            if case["over"] == "mapping":
                m = a_sync.TaskMapping(fn)
                for k in keys:
                    m[k]
            elif case["over"] == "mapping_iter":
                m = a_sync.TaskMapping(fn, keys)
            elif case["over"] == "mapping_conc":
                m = a_sync.TaskMapping(fn, keys, concurrency=max(1, len(keys)))
            else:

                async def source():
                    for k in keys:
                        yield k
                        if case["over"] == "mapping_slow" and k == keys[-1]:
                            # no more keys, but nobody can know yet
                            await asyncio.sleep(0.3)

                m = a_sync.TaskMapping(fn, source())
            kw = {} if case["pop"] is None else {"pop": case["pop"]}
            co = getattr(m, op)(sync=False, **kw)
        t0 = asyncio.get_running_loop().time()
        t2 = None
        if case["second"] and m is not None and case["pop"] is False:
            # another reader of the same mapping comes first
            async def reader():
                async for _ in m:
                    pass

            t2 = asyncio.ensure_future(outcome(reader()))
            seen["second_reader"] = 1
        t = asyncio.ensure_future(co)
        done, _ = await asyncio.wait([t], timeout=1)
        at = asyncio.get_running_loop().time()
        recs = [r for r in book.recs if not case["never"][r.i]]

        def verdict(r):
            """What this one says: 'decides', 'fails' or None."""
            if r.exc is not None:
                return "fails"
            if isinstance(r.value, Truth) and r.value.exc:
                return "fails"
            return "decides" if bool(r.value) == (op == "any") else None

        # when does each deciding or failing one complete? (times are virtual and exact; equal times may go either way)
        when = lambda r: round(t0 + (r.spec["delay"] or 0) / 1000, 9)
        ends = [(when(r), verdict(r), r) for r in recs if verdict(r)]
        never = any(case["never"])
        if not ends:
            if never and not (m is None and not specs):
                check(not t.done(), f"{op} decided {t.done() and (t.exception() or t.result())} though nothing decides and one is still pending", "decision")
                t.cancel()
                await asyncio.wait([t])
                seen["undecided"] = 1
            else:
                check(t.done(), f"{op} never decided", "decision")
                out = await outcome(t)
                if case["over"] == "mapping" and not specs:
                    # a mapping with neither keys nor a source of keys says so
                    check(out[0] == "err" and isinstance(out[1], a_sync.exceptions.MappingIsEmptyError), f"{out}", "decision")
                    return
                check(out == ("ok", op == "all"), f"{op} over nothing that decides gave {out}", "decision")
                seen["exhausted"] = 1
        else:
            first = min(e[0] for e in ends)
            cands = [e for e in ends if e[0] <= first + 1e-9]
            check(t.done(), f"{op} withheld its decision: {ends[0][1:]} was there at {first - t0}", "withheld")
            out = await outcome(t)
            kinds = {e[1] for e in cands}
            if out[0] == "ok":
                check("decides" in kinds and out[1] is (op == "any"), f"{op} gave {out[1]} where the first to matter {kinds}", "decision")
                seen["decided"] = 1
            else:
                fails = [e[2] for e in cands if e[1] == "fails"]
                check(fails and any(out[1] is (r.exc if r.exc is not None else badbool) for r in fails), f"{op} ended {out}, the first to matter {kinds}", "failure")
                seen["failed"] = 1
            check(abs(at - first) < 1e-6 or at <= first, f"{op} decided at {at - t0}, could at {first - t0}", "withheld")
            if any(case["never"]) or len(book.order) < len(specs):
                seen["early"] = 1
        check(all(r.runs <= 1 for r in book.recs), "one was run twice", "once")
        if t2 is not None:
            t2.cancel()
        if m is not None:
            await m.close()
        for k in book.keep:
            k.cancel()
        return None

    _, loop = vrun(main)
    for k in seen:
        ctx.count(k)
    ctx.count("over_" + case["over"])
    if len(specs) > 1:
        ctx.nontrivial(op, case["over"], case["values"], [s["delay"] for s in specs], case["never"])
    ctx.sample({"op": op, "over": case["over"], "values": case["values"], "saw": seen})
