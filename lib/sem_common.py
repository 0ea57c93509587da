"""Workload and monitor for anything that hands out permits (used by C06, C11, C12, C13).

A case is a list of client programs. Each client: waits `at` (virtual ms), then runs its steps. A step takes a permit in one
way (acquire/release, async with, decorated call), keeps it for `hold`, and ends normally or with an exception. The task
is cancelled at each time in `cancel`. The monitor sits at the client boundary: `holding` counts clients inside."""

import asyncio

from h import Boom, Violation, check, outcome, spin, boom
from vloop import vrun


def gen_clients(rng, n, ways, max_prio=None, horizon=40):
    clients = []
    for i in range(n):
        steps = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            steps.append(
                {
                    "way": rng.choice(ways),
                    "hold": rng.choice([["spin", rng.randrange(0, 5)], ["sleep", rng.choice([0, 1, 1, 2, 3, 5, 10])]]),
                    "end": rng.choice(["ok", "ok", "ok", "err"]),
                    "prio": None if max_prio is None or rng.random() < 0.1 else rng.choice(max_prio),
                    "gap": rng.choice([None, 0, 0, 1, 3]),
                }
            )
        cancel = []
        if rng.random() < 0.35:
            cancel.append(rng.choice([0, 0, rng.randrange(0, horizon), rng.randrange(0, horizon)]))
        clients.append(
            {
                "at": rng.choice([0, 0, 0, rng.randrange(0, horizon)]),
                "pre": rng.randrange(0, 4),
                "steps": steps,
                "cancel": cancel,
                "cspin": rng.randrange(0, 4),
                "co_cancel": rng.random() < 0.25,
            }
        )
    return clients


class Monitor:
    def __init__(self, n, name=""):
        self.n = n
        self.limit = n
        self.holding = {}
        self.waiting = {}
        self.peak = 0
        self.grants = 0
        self.blocked = 0
        self.seq = 0
        self.log = []

    def ask(self, who, prio=0):
        self.seq += 1
        self.waiting[who] = (prio, self.seq)

    def got(self, who):
        self.seq += 1
        prio, since = self.waiting.pop(who)
        self.holding[who] = (prio, since, self.seq)
        self.peak = max(self.peak, len(self.holding))
        self.grants += 1
        self.log.append(who)
        check(
            len(self.holding) <= self.limit,
            lambda: f"{len(self.holding)} holders of a {self.limit}-permit semaphore: {sorted(map(str, self.holding))}",
            "too-many-holders",
        )

    def gave_up(self, who):
        self.waiting.pop(who, None)

    def left(self, who):
        self.seq += 1
        self.holding.pop(who, None)

    def idle(self):
        """Nothing is ready to run: a free permit next to a waiter is a permit nobody will hand out."""
        if self.waiting and len(self.holding) < self.limit:
            raise Violation(
                f"{self.limit - len(self.holding)} permits free while {sorted(map(str, self.waiting))} wait "
                f"(holding: {sorted(map(str, self.holding))})",
                "waiter-not-served",
            )
        if self.waiting:
            self.blocked += 1


async def hold(h):
    if h[0] == "spin":
        await spin(h[1])
    else:
        await asyncio.sleep(h[1] / 1000)


async def client(i, c, sem, mon, decorated, on_grant=None):
    """Runs one client's program; returns its outcomes."""
    out = []
    if c["at"]:
        await asyncio.sleep(c["at"] / 1000)
    await spin(c["pre"])
    for k, st in enumerate(c["steps"]):
        who = (i, k)
        prio = st["prio"]
        s = sem if prio is None else sem[prio]
        tag = f"{i}.{k}"
        mon.ask(who, -1 if prio is None else prio)
        entered = False
        try:
            if st["way"] == "dec":
                got = await outcome_keep_cancel(decorated(who, st, tag))
            else:
                if st["way"] == "ctx":
                    async with s:
                        mon.got(who)
                        entered = True
                        try:
                            await hold(st["hold"])
                            if st["end"] == "err":
                                raise boom(tag)
                        finally:
                            mon.left(who)
                else:
                    r = await s.acquire()
                    check(r is True, f"acquire() returned {r!r}")
                    mon.got(who)
                    entered = True
                    try:
                        await hold(st["hold"])
                        if st["end"] == "err":
                            raise boom(tag)
                    finally:
                        mon.left(who)
                        s.release()
                got = ("ok", tag)
        except Boom as e:
            got = ("err", e)
        except asyncio.CancelledError:
            mon.gave_up(who)
            raise
        want = "ok" if st["end"] == "ok" else "err"
        check(got[0] == want, f"step {who} ended {got}, expected {want}")
        check((got[1] if want == "ok" else got[1].tag) == tag, f"step {who} got another call's outcome {got}")
        out.append(tag)
        if st["gap"] is not None:
            await asyncio.sleep(st["gap"] / 1000)
    return out


async def outcome_keep_cancel(aw):
    try:
        return ("ok", await aw)
    except Boom as e:
        return ("err", e)


def make_body(mon):
    async def body(who, st, tag):
        mon.got(who)
        try:
            await hold(st["hold"])
            if st["end"] == "err":
                raise boom(tag)
            return tag
        finally:
            mon.left(who)

    return body


async def drive(clients, sem, mon, decorated, extra=(), loop=None):
    """Runs all clients with their cancellations; returns stats. `extra`: times of additional releases."""
    loop = asyncio.get_running_loop()
    loop.on_idle.append(mon.idle)
    tasks = []

    async def canceller(t, c):
        for at in c["cancel"]:
            await asyncio.sleep(at / 1000)
            await spin(c["cspin"])
            t.cancel()

    aux = []
    for i, c in enumerate(clients):
        t = asyncio.ensure_future(client(i, c, sem, mon, decorated))
        tasks.append(t)
        if c["cancel"]:
            if c["cancel"][0] == 0 and c["cspin"] == 0 and c["co_cancel"]:
                t.cancel()  # before its first step
            else:
                aux.append(asyncio.ensure_future(canceller(t, c)))

    async def releaser(at):
        await asyncio.sleep(at / 1000)
        mon.limit += 1
        sem.release()

    aux += [asyncio.ensure_future(releaser(at)) for at in extra]
    res = await asyncio.gather(*tasks, return_exceptions=True)
    await asyncio.gather(*aux)
    cancelled = 0
    for c, r in zip(clients, res):
        if isinstance(r, asyncio.CancelledError):
            check(c["cancel"], "a client that nobody cancelled ended cancelled")
            cancelled += 1
        elif isinstance(r, BaseException):
            raise r
    loop.on_idle.remove(mon.idle)
    return cancelled


async def capacity(sem, n, release=True):
    """After everything settled: exactly n permits are there. Returns how many could be taken without waiting."""
    got = 0
    pend = []
    for _ in range(n + 1):
        t = asyncio.ensure_future(sem.acquire())
        await spin(12)
        if t.done():
            t.result()
            got += 1
        else:
            pend.append(t)
    for t in pend:
        t.cancel()
    await asyncio.gather(*pend, return_exceptions=True)
    for _ in range(got):
        sem.release()
    await spin(4)
    return got
