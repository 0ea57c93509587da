"""PriorityProcessingQueue, VariablePriorityQueue and the demand order of SmartProcessingQueue."""
import asyncio
import functools

from a_sync._smart import shield
from a_sync.primitives.queue import PriorityProcessingQueue, SmartProcessingQueue, VariablePriorityQueue

import queue_common as Q
from h import Violation, check, outcome, spin
from vloop import vrun

PRIOS = [[0, 1], [1, 2, 3], [-3, 0, 2.5, 7], list(range(20)), [5], ["a", "b", "c"]]


def gen(rng, i, tier):
    kind = rng.choice(["prio", "prio", "prio", "variable", "smart"])
    if kind == "prio":
        return dict(Q.gen(rng, i, tier, rng.choice(PRIOS)), kind=kind)
    if kind == "variable":
        return {
            "kind": kind,
            "ops": [
                [rng.choice(["put", "put", "get", "get_nowait", "change", "wait_get"]), rng.randrange(10), rng.randrange(10)]
                for _ in range(rng.randrange(4, 40))
            ],
        }
    keys = rng.randrange(2, 6)
    return {
        "kind": kind,
        "workers": rng.choice([1, 1, 2]),
        "callers": [
            {
                "key": rng.randrange(keys),
                "at": rng.choice([0, 1, 1, 2, rng.randrange(12)]),
                "spin": rng.randrange(3),
                "shield": rng.random() < 0.4,
                "leave": rng.choice([None, None, None, rng.randrange(12)]),
            }
            for _ in range(rng.randrange(3, 16))
        ],
        "work": [rng.choice([1, 2, 5, 9]) for _ in range(keys)],
    }


def make(func, workers, return_data, name):
    return PriorityProcessingQueue(func, workers, return_data=return_data, name=name)


def run(case, ctx):
    if case["kind"] == "prio":
        log = Q.run(case, ctx, make, lambda pending: min(pending, key=pending.get), lambda j: (j["prio"],))
        ctx.count("priority_choices", log.choices)
    elif case["kind"] == "variable":
        run_variable(case, ctx)
    else:
        run_smart(case, ctx)


@functools.total_ordering
class Item:
    def __init__(self, n, rank):
        self.n, self.rank = n, rank

    def __lt__(self, other):
        return self.rank < other.rank

    def __eq__(self, other):
        return self is other

    __hash__ = None

    def __repr__(self):
        return f"Item{self.n}({self.rank})"


def run_variable(case, ctx):
    out = []

    async def main():
        q = VariablePriorityQueue()
        live = []
        waiting = []
        n = 0
        for op, a, b in case["ops"]:
            if op == "put":
                item = Item(n, a)
                n += 1
                live.append(item)
                await q.put(item)
                await spin(3)
            elif op in ("get", "get_nowait") and live:
                got = q.get_nowait() if op == "get_nowait" else await q.get()
                check(any(got is x for x in live), f"{got} came out twice", "exactly-once")
                best = min(x.rank for x in live)
                check(got.rank == best, f"got {got} although one of rank {best} is in the queue", "order")
                live = [x for x in live if x is not got]
                out.append(got.n)
                ctx.count("variable_gets")
            elif op == "change" and live:
                live[a % len(live)].rank = b
            elif op == "wait_get" and not live:
                t = asyncio.ensure_future(q.get())
                await spin(2)
                items = [Item(n, a), Item(n + 1, b)]
                n += 2
                for x in items:
                    q.put_nowait(x)
                got = await t
                check(got.rank == min(a, b), f"a waiting get got {got} of {items}", "order")
                live = [x for x in items if x is not got]
        rest = [q.get_nowait() for _ in range(q.qsize())]
        check(sorted(x.n for x in rest) == sorted(x.n for x in live), "items lost or repeated", "exactly-once")
        check([x.rank for x in rest] == sorted(x.rank for x in live), "order at the end", "order")
        check(not waiting, "harness")

    vrun(main)
    if len(out) > 2:
        ctx.nontrivial("v", out)


def run_smart(case, ctx):
    started = []
    stats = {"demand_choices": 0}

    async def main():
        pending = {}  # key -> future (strong: a caller holds it all the time)
        running = set()
        problems = []

        async def body(key):
            try:
                check(key in pending and key not in running, f"{key} started twice or without a caller", "exactly-once")
                fut = pending.pop(key)
                for k, other in pending.items():
                    if other.num_waiters != fut.num_waiters:
                        stats["demand_choices"] += 1
                    check(
                        other.num_waiters <= fut.num_waiters,
                        f"{key} with {fut.num_waiters} waiters started before {k} with {other.num_waiters}",
                        "demand-order",
                    )
            except Violation as e:
                problems.append(e)
            running.add(key)
            started.append(key)
            await asyncio.sleep(case["work"][key] / 1000)
            running.discard(key)
            return ("r", key)

        q = SmartProcessingQueue(body, case["workers"])
        loop = asyncio.get_running_loop()

        def idle():
            if problems:
                raise problems[0]
            for k, f in pending.items():
                if len(running) < case["workers"]:
                    raise Violation(f"{k} waits while a worker is free", "stuck")

        loop.on_idle.append(idle)

        async def caller(c):
            await asyncio.sleep(c["at"] / 1000)
            await spin(c["spin"])
            key = c["key"]
            fut = q(key)
            if key not in running and not fut.done():
                pending.setdefault(key, fut)
                check(pending[key] is fut, "identical pending job did not join", "join")
            if c["shield"]:
                r = await shield(fut)
            else:
                r = await fut
            check(r == ("r", key), f"{key} got {r}", "result")

        async def leave(t, at):
            await asyncio.sleep(at / 1000)
            t.cancel()

        ts, aux = [], []
        for c in case["callers"]:
            t = asyncio.ensure_future(caller(c))
            ts.append(t)
            if c["leave"] is not None and c["shield"]:
                aux.append(asyncio.ensure_future(leave(t, c["leave"])))
        res = await asyncio.gather(*ts, return_exceptions=True)
        await asyncio.gather(*aux)
        await q.join()
        if problems:
            raise problems[0]
        for c, r in zip(case["callers"], res):
            if isinstance(r, asyncio.CancelledError):
                check(c["shield"] and c["leave"] is not None, "a caller that nobody cancelled was cancelled", "cancelled")
            elif isinstance(r, BaseException):
                raise r

    vrun(main)
    ctx.count("demand_choices", stats["demand_choices"])
    if stats["demand_choices"]:
        ctx.nontrivial("s", started)
    ctx.sample({"demand_started": started})
