"""PrioritySemaphore."""
import asyncio

from a_sync.primitives import PrioritySemaphore

import sem_common as S
from h import Violation, check, big
from vloop import vrun


class PrioMonitor(S.Monitor):
    """Additionally: nobody is granted while a strictly better one was already waiting.

    At an idle point all permits are taken (checked), so whoever is granted in the burst that follows got a permit released in
    that burst.  Anybody who was waiting at that idle point and still waits at the next one was in line at each of these
    releases; and grants become visible in the order in which they were made."""

    def __init__(self, n):
        super().__init__(n)
        self.in_line = set()
        self.granted = []
        self.order_checks = 0
        self.newcomers = 0
        self.real_choices = 0

    def idle(self):
        super().idle()
        for who, prio in self.granted:
            for o in self.in_line & set(self.waiting):
                if self.waiting[o][0] < prio:
                    raise Violation(
                        f"task {who} (priority {prio}) was granted while {o} (priority {self.waiting[o][0]}) was waiting before and after",
                        "overtaken",
                    )
        self.in_line = set(self.waiting)
        self.granted = []

    def got(self, who):
        prio, since = self.waiting[who]
        self.granted.append((who, prio))
        if who not in self.in_line:
            if self.in_line:
                self.newcomers += 1
        else:
            rivals = [o for o in self.waiting if o != who and o in self.in_line]
            for o in rivals:
                if self.waiting[o][0] < prio:
                    raise Violation(
                        f"task {who} (priority {prio}) was granted while {o} (priority {self.waiting[o][0]}) "
                        f"was already waiting",
                        "overtaken",
                    )
            self.order_checks += 1
            if any(self.waiting[o][0] > prio for o in rivals):
                self.real_choices += 1
        super().got(who)


def gen(rng, i, tier):
    n = rng.choice([1, 1, 1, 2, 3])
    if i % 8 == 7:
        prio = rng.choice([-1, 0, 5])
        return {
            "n": n,
            "loopers": [[rng.randrange(0, 3), rng.choice([["spin", rng.randrange(1, 4)], ["sleep", rng.choice([1, 2])]])] for _ in range(n + rng.choice([0, 0, 1, 2]))],
            "prio": prio,
            "rounds": rng.choice([20, 50]),
            "waiters": [[rng.randrange(0, 10), prio - rng.choice([0, 0, 1, 3]), rng.random() < 0.2] for _ in range(rng.randrange(1, 5))],
            "way": rng.choice(["acq", "ctx", "dec"]),
        }
    k = big(rng, rng.randrange(2, 10 if tier == "quick" else 18))
    prios = rng.choice([[0, 1], [1, 2, 3], [-1, 0, 1], [-5, -1, 0, 3, 9], list(range(20)), [7]])
    return {
        "n": n,
        "clients": S.gen_clients(rng, k, rng.choice([["acq"], ["ctx"], ["acq", "ctx"], ["acq", "ctx", "dec"]]), prios),
        "mixed_none": rng.random() < 0.3,
    }


def starving(case, ctx):
    """Holders that take the permit again as soon as they have given it back, and others that wait meanwhile."""
    n, prio = case["n"], case["prio"]
    log, seen = [], []

    async def main():
        sem = PrioritySemaphore(n)
        body = sem(S.hold) if case["way"] == "dec" else None
        busy = [True]

        async def looper(k, spins, hold):
            await S.spin(spins)
            for _ in range(case["rounds"]):
                if body is not None and prio == -1:
                    log.append(k)
                    await body(hold)
                elif case["way"] == "acq":
                    await sem[prio].acquire()
                    log.append(k)
                    await S.hold(hold)
                    sem[prio].release()
                else:
                    async with sem[prio]:
                        log.append(k)
                        await S.hold(hold)
                if not busy[0]:
                    break

        async def waiter(j, at, p, cancelled):
            await asyncio.sleep(at / 1000)
            before = len(log)
            async with sem[p]:
                seen.append((j, len(log) - before))
                await asyncio.sleep(0.0005)

        loopers = [asyncio.ensure_future(looper(k, *l)) for k, l in enumerate(case["loopers"])]
        waiters = [asyncio.ensure_future(waiter(j, *w)) for j, w in enumerate(case["waiters"])]
        await S.spin(2)
        for j, (_, _, cancelled) in enumerate(case["waiters"]):
            if cancelled:
                await asyncio.sleep(0.0003)
                waiters[j].cancel()
        await asyncio.wait(waiters)
        busy[0] = False
        await asyncio.gather(*loopers)
        check(await S.capacity(sem, n) == n, "permits are not all there afterwards", "permit-count")

    vrun(main)
    # those that asked before, and those the holders of now leave behind; never one after the other of those that asked later
    bound = 2 * (len(case["loopers"]) + len(case["waiters"])) + 2
    for j, k in seen:
        check(k <= bound, lambda: f"waiter {j} (priority {case['waiters'][j][1]}, the others' is {prio}) was passed over {k} times", "starved")
        ctx.count("grants")
    ctx.count("starvation_checks", len(seen))
    ctx.nontrivial(case)


def run(case, ctx):
    n = case["n"]
    if "loopers" in case:
        return starving(case, ctx)
    mon = PrioMonitor(n)

    async def main():
        sem = PrioritySemaphore(n, name="p")
        dec = sem(S.make_body(mon))
        for c in case["clients"]:
            for st in c["steps"]:
                if st["way"] == "dec" or (st["prio"] == -1 and case["mixed_none"]):
                    st["prio"] = None  # no priority given: the top priority, -1
        loop = asyncio.get_running_loop()

        def locked_idle():
            check(
                sem.locked() == (len(mon.holding) >= n),
                lambda: f"locked() is {sem.locked()} with {len(mon.holding)} of {n} permits taken",
                "locked",
            )

        loop.on_idle.append(locked_idle)
        cancelled = await S.drive(case["clients"], sem, mon, dec)
        loop.on_idle.remove(locked_idle)
        got = await S.capacity(sem, n)
        check(got == n, f"{got} permits can be taken after everybody left, {n} expected", "permit-count")
        return cancelled

    cancelled, loop = vrun(main)
    check(not loop.unhandled, lambda: f"unhandled: {loop.unhandled}", "unhandled")
    ctx.count("grants", mon.grants)
    ctx.count("order_checks", mon.order_checks)
    ctx.count("choices_between_priorities", mon.real_choices)
    ctx.count("newcomers_past_a_line", mon.newcomers)
    ctx.count("cancelled_clients", cancelled)
    if mon.real_choices:
        ctx.nontrivial(n, mon.log, cancelled)
    ctx.sample({"n": n, "grant_order": [f"{a}.{b}" for a, b in mon.log], "cancelled": cancelled})
