"""Workload and monitor for processing queues (C17, C19)."""
import asyncio
import gc

from h import Boom, Violation, check, outcome, spin, boom
from vloop import vrun

VALUES = [None, 0, False, "", 7, "x", [1], {"a": 1}]


def gen_jobs(rng, tier, prios=None):
    horizon = rng.choice([3, 10, 30])
    many = tier != "quick" and rng.random() < 0.3
    jobs = []
    for j in range(rng.randrange(1, 40 if many else 12)):
        jobs.append(
            {
                "at": rng.choice([0, 0, 0, rng.randrange(horizon)]),
                "spin": rng.randrange(4),
                "way": rng.choice(["call", "put_nowait", "put"]),
                "args": [rng.choice([None, j, "a", [j]]) for _ in range(rng.randrange(3))],
                "kwargs": {k: j for k in rng.sample(["k", "x", "priority", "func", "item"], rng.choice([0, 0, 1, 2]))},
                "work": rng.choice([["spin", rng.randrange(4)], ["sleep", rng.choice([0, 1, 2, 5])]]),
                "end": rng.choice(["ok", "ok", "ok", "ok", "err", "err", "cancel", "stop"]),
                "value": rng.randrange(len(VALUES)),
                "caller": rng.choice(["await", "await", "await", "drop", "cancel", "fut_cancel", "wait_for"]),
                "patience": rng.randrange(0, horizon),
                "prio": rng.choice(prios) if prios else None,
            }
        )
        if prios:
            jobs[-1]["kwargs"].pop("priority", None)
    return jobs


def gen(rng, i, tier, prios=None):
    return {
        "workers": rng.choice([1, 1, 2, 3, 5]),
        "name": rng.choice(["", "", "q"]),
        "no_data": rng.random() < 0.15,
        "made": rng.choice(["inside", "outside"]),
        "drop_queue": rng.random() < 0.15,
        "joins": [rng.randrange(12) for _ in range(rng.randrange(3))],
        "close": rng.random() < 0.25,
        "rounds": rng.choice([1, 1, 2]),
        "jobs": gen_jobs(rng, tier, prios),
    }


class Log:
    def __init__(self):
        self.put, self.started, self.finished = [], [], []
        self.running = set()
        self.pending = {}  # job -> order key; put and not started
        self.peak = 0
        self.choices = 0


def run(case, ctx, make, best, put_args=lambda j: ()):
    """make(func, num_workers, return_data, name) -> queue; best(pending) -> the job that must start next."""
    log = Log()
    stats = {"jobs": 0, "failed": 0, "cancelled_futures": 0, "dropped": 0, "joins": 0, "waited_in_queue": 0, "job_cancelled_itself": 0}
    jobs = case["jobs"]
    rets = {}
    errs = {}

    async def body(*args, **kwargs):
        who = kwargs.pop("_who")
        j = jobs[who[1]]
        check(who in log.pending, f"job {who} was started twice or never put: {log.started}", "exactly-once")
        check(list(args) == j["args"] and kwargs == j["kwargs"], f"job {who} ran with {args} {kwargs}", "arguments")
        want = best(log.pending)
        check(who == want, f"job {who} was started while {want} was due (pending {log.pending})", "order")
        if len(log.pending) > 1:
            log.choices += 1
        del log.pending[who]
        log.started.append(who)
        log.running.add(who)
        log.peak = max(log.peak, len(log.running))
        check(len(log.running) <= case["workers"], f"{len(log.running)} jobs at a time with {case['workers']} workers", "too-many-workers")
        try:
            kind, n = j["work"]
            if kind == "spin":
                await spin(n)
            else:
                await asyncio.sleep(n / 1000)
            if j["end"] == "err":
                errs[who] = boom(who)
                raise errs[who]
            if j["end"] == "stop":
                errs[who] = StopAsyncIteration(who)
                raise errs[who]
            if j["end"] == "cancel":
                stats["job_cancelled_itself"] += 1
                raise asyncio.CancelledError("by the job itself")
            rets[who] = VALUES[j["value"]]
            return rets[who]
        finally:
            log.running.discard(who)
            log.finished.append(who)

    problems = []

    async def guarded(*args, **kwargs):
        try:
            return await body(*args, **kwargs)
        except Violation as e:
            problems.append(e)
            raise

    box = {}
    if case["made"] == "outside":
        box["q"] = make(guarded, case["workers"], not case["no_data"], case["name"])

    async def main():
        if "q" not in box:
            box["q"] = make(guarded, case["workers"], not case["no_data"], case["name"])
        loop = asyncio.get_running_loop()
        joining = {}
        st = {"zero": 0}

        def unfinished():
            return len(log.put) - len(log.finished)

        def idle():
            if problems:
                raise problems[0]
            if log.pending and len(log.running) < case["workers"]:
                raise Violation(
                    f"jobs {sorted(log.pending)} wait while {len(log.running)} of {case['workers']} workers are busy", "stuck"
                )
            if log.pending:
                stats["waited_in_queue"] += 1
            if not unfinished():
                st["zero"] += 1
                check(not joining, "join() still waits although all jobs are done", "join-late")

        loop.on_idle.append(idle)

        async def caller(who, j):
            if j["at"]:
                await asyncio.sleep(j["at"] / 1000)
            await spin(j["spin"])
            q = box["q"]
            log.put.append(who)
            key = (j["prio"], len(log.put)) if j["prio"] is not None else len(log.put)
            log.pending[who] = key
            stats["jobs"] += 1
            a = (*put_args(j), *j["args"])
            kw = dict(j["kwargs"], _who=who)
            if j["way"] == "call":
                fut = q(*a, **kw)
            elif j["way"] == "put_nowait":
                fut = q.put_nowait(*a, **kw)
            else:
                fut = await q.put(*a, **kw)
            del q
            if case["no_data"]:
                check(fut is None, f"put returned {fut!r}", "return-data")
                return
            check(asyncio.isfuture(fut), f"put returned {fut!r}", "return-data")
            mode = j["caller"]
            if mode == "drop":
                stats["dropped"] += 1
                del fut
                if j["at"] % 2:
                    gc.collect()
                return
            if mode == "fut_cancel":
                await asyncio.sleep(j["patience"] / 1000)
                gave_up = fut.cancel()
            elif mode == "cancel":
                t = asyncio.ensure_future(outcome(fut))
                await asyncio.sleep(j["patience"] / 1000)
                gave_up = not fut.done() and t.cancel()
                await asyncio.wait([t])
            elif mode == "wait_for":
                gave_up = False
                try:
                    await asyncio.wait_for(fut, j["patience"] / 1000)
                except asyncio.TimeoutError:
                    gave_up = True
                except (asyncio.CancelledError, Exception):
                    pass
            else:
                gave_up = False
                await outcome(fut)
            check(fut.done(), "the future is pending after it was awaited", "result")
            if gave_up:
                stats["cancelled_futures"] += 1
                check(fut.cancelled(), f"a cancelled future ended as {fut!r}", "result")
                return
            check(who in log.finished, f"the future of job {who} was done before the job", "result")
            if j["end"] == "cancel":
                check(fut.cancelled(), f"job {who} cancelled itself, its future says {fut!r}", "result")
            elif fut.cancelled():
                raise Violation(f"the future of job {who} was cancelled by nobody", "result")
            elif j["end"] == "ok":
                check(fut.exception() is None and fut.result() is rets[who], f"job {who} returned {rets[who]!r}, its future {fut!r}", "result")
            else:
                stats["failed"] += 1
                check(fut.exception() is errs[who], f"job {who} raised {errs[who]!r}, its future has {fut!r}", "result")

        async def joiner(at):
            await asyncio.sleep(at / 1000)
            zero, was = st["zero"], unfinished()
            me = object()
            joining[me] = True
            todo = set(log.put) - set(log.finished)
            try:
                await box["q"].join()
            finally:
                del joining[me]
            check(todo <= set(log.finished), f"join() returned before {todo - set(log.finished)} were done", "join-early")
            stats["joins"] += 1

        for rnd in range(case["rounds"]):
            last = rnd == case["rounds"] - 1
            ts = [asyncio.ensure_future(caller((rnd, k), j)) for k, j in enumerate(jobs)]
            if not (case["drop_queue"] and last):
                ts += [asyncio.ensure_future(joiner(at)) for at in case["joins"]]
            else:
                await asyncio.sleep(max(j["at"] for j in jobs) / 1000)
                await spin(6)
                box.pop("q")
                gc.collect()
            done, _ = await asyncio.wait(ts)
            if problems:
                raise problems[0]
            for t in done:
                t.result()
            await asyncio.sleep(1)
            check(not log.pending, f"jobs {sorted(log.pending)} were never started", "stuck")
            await asyncio.sleep(1)
            check(not log.running and sorted(log.finished) == sorted(log.put), "not every job ran exactly once", "exactly-once")
        q = box.pop("q", None)
        if q is not None:
            await asyncio.wait_for(q.join(), 5)
            if case["close"]:
                q.close()
                for fn in (q.put_nowait, q):
                    try:
                        fn(*put_args({"prio": 0}), _who=None)
                    except RuntimeError:
                        pass
                    else:
                        raise Violation("a closed queue accepted a job", "closed")
        loop.on_idle.remove(idle)

    _, loop = vrun(main)
    noise = [u for u in loop.unhandled if "never retrieved" not in str(u.get("message"))]
    if problems:
        raise problems[0]
    check(not noise, lambda: f"unhandled: {noise}", "unhandled")
    for k, v in stats.items():
        ctx.count(k, v)
    ctx.count("start_choices", log.choices)
    if stats["waited_in_queue"]:
        ctx.nontrivial(case["workers"], log.started, log.finished)
    ctx.sample({"workers": case["workers"], "started": [str(w) for w in log.started][:30], "stats": stats})
    return log
