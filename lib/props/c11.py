"""Semaphore."""
import asyncio

import a_sync
from a_sync.primitives import Semaphore

import sem_common as S
from h import check, big
from vloop import vrun


def gen(rng, i, tier):
    n = rng.choice([1, 1, 2, 2, 3, 5])
    k = big(rng, rng.randrange(2, 9 if tier == "quick" else 16))
    return {
        "n": n,
        "clients": S.gen_clients(rng, k, rng.choice([["acq"], ["ctx"], ["dec"], ["acq", "ctx", "dec"]])),
        "extra": [rng.randrange(0, 30) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
        "made": rng.choice(["inside", "outside"]),
        "name": rng.choice(["", "x", "sem" * 20, "ünïcode"]),
        "zero": rng.random() < 0.1,
    }


def run(case, ctx):
    n = case["n"]
    mon = S.Monitor(n)
    state = {}

    def make():
        if case["zero"]:
            sem = Semaphore(0, case["name"])
            for _ in range(n):
                sem.release()
        else:
            sem = Semaphore(n, case["name"])
        check(sem.name == case["name"], f"name {sem.name!r}")
        return sem

    if case["made"] == "outside":
        state["sem"] = make()

    async def main():
        sem = state.get("sem") or make()
        dec = sem(S.make_body(mon))
        loop = asyncio.get_running_loop()

        def locked_idle():
            # locked(): cannot be acquired immediately
            check(
                sem.locked() == (len(mon.holding) >= mon.limit),
                lambda: f"locked() is {sem.locked()} with {len(mon.holding)} of {mon.limit} permits taken",
                "locked",
            )
            check(len(sem) == len(mon.waiting), lambda: f"len {len(sem)} with {len(mon.waiting)} waiting", "len")

        loop.on_idle.append(locked_idle)
        cancelled = await S.drive(case["clients"], sem, mon, dec, case["extra"])
        loop.on_idle.remove(locked_idle)
        got = await S.capacity(sem, mon.limit)
        check(got == mon.limit, f"{got} permits can be taken after everybody left, {mon.limit} expected", "permit-count")
        check(not sem.locked(), "locked although all permits are free", "locked")
        return cancelled

    cancelled, loop = vrun(main)
    check(not loop.unhandled, lambda: f"unhandled: {loop.unhandled}", "unhandled")
    ctx.count("grants", mon.grants)
    ctx.count("cancelled_clients", cancelled)
    ctx.count("idle_points_with_waiters", mon.blocked)
    if mon.peak == mon.limit and mon.blocked:
        ctx.count("saturated_runs")
        ctx.nontrivial(mon.limit, mon.log, cancelled)
    ctx.sample({"n": n, "clients": len(case["clients"]), "grant_order": [f"{a}.{b}" for a, b in mon.log], "cancelled": cancelled})
