"""Event."""
import asyncio
import threading

from a_sync.primitives import Event

from h import Violation, check, spin, big
from vloop import vrun


def gen(rng, i, tier):
    k = big(rng, rng.randrange(1, 8 if tier == "quick" else 20))
    horizon = 20
    return {
        "made": rng.choice(["inside", "outside", "thread"]),
        "name": rng.choice(["", "e", "ünïcode", "n" * 300]),
        "interval": rng.choice([None, 1, 65535]),
        "waiters": [
            {
                "at": rng.choice([0, 0, rng.randrange(horizon)]),
                "pre": rng.randrange(3),
                "mode": rng.choice(["await", "await", "task", "late", "wait_for", "unstarted"]),
                "late": rng.randrange(0, 4),
                "timeout": rng.randrange(1, horizon),
                "cancel": rng.choice([None, None, [rng.randrange(horizon), rng.randrange(3)]]),
                "again": rng.choice([0, 0, 0, 1, 3]),
            }
            for _ in range(k)
        ],
        "script": [
            [
                rng.choice([0, 0, 0, 1, 2, 5]),
                rng.randrange(3),
                rng.choice(["set", "set", "clear", "pulse", "set set", "clear set clear"]),
            ]
            for _ in range(rng.randrange(1, 9))
        ],
    }


def run(case, ctx):
    log = []
    made = {}

    def make():
        kw = {} if case["interval"] is None else {"debug_daemon_interval": case["interval"]}
        made["ev"] = Event(case["name"], **kw)

    if case["made"] == "outside":
        make()
    elif case["made"] == "thread":
        t = threading.Thread(target=make)
        t.start()
        t.join(20)
        check("ev" in made, "an event could not be created in a thread without an event loop", "created-anywhere")

    state = {"value": False, "sets": 0}
    waiting = {}
    stats = {"woken": 0, "blocked": 0, "cancelled": 0, "pulsed": 0}

    async def main():
        if "ev" not in made:
            make()
        ev = made["ev"]
        loop = asyncio.get_running_loop()

        def idle():
            check(ev.is_set() == state["value"], lambda: f"is_set() is {ev.is_set()}, expected {state['value']}", "is-set")
            for who, (val, sets) in waiting.items():
                if val or state["sets"] != sets:
                    raise Violation(
                        f"waiter {who} called wait() with value {val} after {sets} sets, there have been {state['sets']}, and it "
                        "still waits",
                        "not-woken",
                    )
            if waiting:
                stats["blocked"] += 1

        loop.on_idle.append(idle)

        def do(op):
            if op == "set":
                ev.set()
                if not state["value"]:
                    state["value"] = True
                    state["sets"] += 1
            elif op == "clear":
                ev.clear()
                state["value"] = False
            else:
                do("set")
                do("clear")
                stats["pulsed"] += 1
            check(ev.is_set() == state["value"], "is_set() right after " + op, "is-set")

        async def waiter(i, w):
            if w["at"]:
                await asyncio.sleep(w["at"] / 1000)
            await spin(w["pre"])
            for rep in range(w["again"] + 1):
                who = (i, rep)
                called = (state["value"], state["sets"])
                mode = w["mode"]
                if mode == "unstarted":
                    c = ev.wait()
                    c.close()
                    return
                waiting[who] = called
                try:
                    if mode == "task":
                        t = asyncio.ensure_future(ev.wait())
                        try:
                            r = await t
                        finally:
                            t.cancel()
                    elif mode == "late":
                        c = ev.wait()
                        await spin(w["late"])
                        r = await c
                    elif mode == "wait_for":
                        try:
                            r = await asyncio.wait_for(ev.wait(), w["timeout"] / 1000)
                        except asyncio.TimeoutError:
                            continue
                    else:
                        r = await ev.wait()
                finally:
                    del waiting[who]
                check(r is True, f"wait() returned {r!r}", "returns-true")
                check(
                    called[0] or state["sets"] > called[1],
                    f"waiter {who} returned although the event was not set since it called wait()",
                    "early-wake",
                )
                log.append((who, state["sets"]))
                stats["woken"] += 1
                await asyncio.sleep(0.001)

        async def controller():
            for at, sp, ops in case["script"]:
                if at:
                    await asyncio.sleep(at / 1000)
                await spin(sp)
                for op in ops.split():
                    do(op)

        async def canceller(t, at, sp):
            await asyncio.sleep(at / 1000)
            await spin(sp)
            t.cancel()

        tasks, aux = [], [asyncio.ensure_future(controller())]
        for i, w in enumerate(case["waiters"]):
            t = asyncio.ensure_future(waiter(i, w))
            tasks.append(t)
            if w["cancel"]:
                aux.append(asyncio.ensure_future(canceller(t, *w["cancel"])))
        await asyncio.gather(*aux)
        await asyncio.sleep(1)  # lets the idle monitor see who is still waiting
        do("set")
        await asyncio.sleep(1)
        do("clear")
        for rest in range(60):
            live = [t for t in tasks if not t.done()]
            if not live:
                break
            do("pulse")
            await asyncio.sleep(1)
        loop.on_idle.remove(idle)
        for i, (t, w) in enumerate(zip(tasks, case["waiters"])):
            check(t.done(), f"waiter {i} never returned", "not-woken")
            if t.cancelled():
                check(w["cancel"], "a waiter nobody cancelled ended cancelled", "cancelled")
                stats["cancelled"] += 1
            else:
                t.result()
        await spin(3)
        text = repr(ev)
        check("waiters" not in text, f"nobody waits any more but the event says {text}", "waiter-left-behind")
        if case["name"]:
            check(case["name"] in text, f"name missing from {text}", "name")

    _, loop = vrun(main)
    check(not loop.unhandled, lambda: f"unhandled: {loop.unhandled}", "unhandled")
    for k, v in stats.items():
        ctx.count(k, v)
    if stats["blocked"] and stats["woken"]:
        ctx.nontrivial(log, stats["cancelled"])
    ctx.sample({"wakes": [f"{a}.{b}@set{s}" for (a, b), s in log], "stats": stats})
