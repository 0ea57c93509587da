"""Concurrency limits on functions, methods, classes and properties."""
import asyncio

import a_sync
from a_sync.a_sync.modifiers.semaphores import apply_semaphore
from a_sync.a_sync.method import ASyncMethodDescriptor
from a_sync.primitives import Semaphore, ThreadsafeSemaphore

import mod_common as M
from h import Violation, check, spin
from vloop import vrun

KINDS = ["fn_int", "fn_obj", "fn_obj", "method_int", "method_obj", "plain_method_int", "class_int", "class_int", "class_obj", "apply", "prop", "sub"]


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    obj = rng.choice(["asyncio", "a_sync", "threadsafe", "named"])
    one_loop = kind.endswith("_obj") and obj in ("asyncio", "a_sync")  # these belong to one event loop
    n = rng.choice([1, 1, 2, 2, 3, 4])
    big = tier != "quick"
    scale = rng.choice([1, 1, 1, 60])
    horizon = rng.choice([4, 10, 20])
    phases = []
    for _ in range(1 if one_loop else rng.choice([1, 1, 1, 2, 3])):
        calls = []
        for _ in range(rng.choice([2, 4, 8, 12] if not big else [4, 8, 16, 30])):
            calls.append(
                {
                    "t": rng.randrange(3),  # which function or method
                    "i": rng.randrange(2),  # which instance
                    "at": rng.randrange(horizon) * scale,
                    "spin": rng.randrange(3),
                    "dur": rng.choice([None, 0, 1, 2, 5, 9]),
                    "spin_in": rng.randrange(3),
                    "end": rng.choice(["ok", "ok", "ok", "err", "type", "none", "cancel"]),
                    "cancel": rng.choice([None, None, None, rng.randrange(horizon + 8) * scale, "spin", "self"]),
                    "flag": rng.choice("sa"),
                    "how": rng.choice(["await", "await", "task", "gather", "wait_for"]),
                }
            )
            if calls[-1]["dur"]:
                calls[-1]["dur"] *= scale
        phases.append({"calls": calls, "abort": rng.choice([None, None, None, rng.randrange(1, horizon) * scale])})
    return {
        "kind": kind,
        "n": n,
        "obj": obj,
        "async_def": [rng.random() < 0.65 for _ in range(3)],
        "form": rng.choice(M.FN_FORMS),
        "default": rng.choice([None, "sync", "async"]),
        "style": rng.choice(["attr", "abc"]),
        "sync_inst": [rng.random() < 0.5 for _ in range(2)],
        "phases": phases,
    }


def build(case, book):
    """Returns call(c) -> awaitable, scope(c), and the limit."""
    kind, n = case["kind"], case["n"]
    ex = M.FakeExecutor(book)

    def obj():
        if case["obj"] == "asyncio":
            return asyncio.Semaphore(n)
        if case["obj"] == "a_sync":
            return Semaphore(n)
        return ThreadsafeSemaphore(n, **({"name": "x"} if case["obj"] == "named" else {}))

    mods = {"executor": ex}
    if case["default"]:
        mods["default"] = case["default"]
    ad = case["async_def"]

    class Base(a_sync.ASyncGenericBase):
        def __init__(self, sync):
            self.sync = sync
            super().__init__()

    if kind in ("fn_int", "fn_obj", "apply"):
        if kind == "apply":
            deco = [apply_semaphore(M.raw(book, "fn", True), n) if case["form"] != "call" else apply_semaphore(n)(M.raw(book, "fn", True)) for _ in range(3)]
            return (lambda c: deco[c["t"]](c["id"])), (lambda c: c["t"]), n
        if kind == "fn_obj":
            mods["semaphore"] = obj()
        else:
            mods["semaphore"] = n
        fns = [M.decorate(M.raw(book, "fn", ad[k], f"f{k}"), case["form"], mods) for k in range(3)]
        return (lambda c: fns[c["t"]](c["id"], **M.aflag(c))), (lambda c: "all" if kind == "fn_obj" else c["t"]), n
    if kind in ("method_int", "method_obj", "plain_method_int"):
        mods["semaphore"] = obj() if kind == "method_obj" else n
        if kind == "plain_method_int":  # in an ordinary class the library's method descriptor does it
            ns = {f"m{k}": ASyncMethodDescriptor(M.raw(book, "method", ad[k], f"m{k}"), **mods) for k in range(3)}
        else:
            ns = {f"m{k}": M.decorate(M.raw(book, "method", ad[k], f"m{k}"), case["form"], mods) for k in range(3)}
        C = type("C", (object,) if kind == "plain_method_int" else (Base,), ns)
        insts = [C() if kind == "plain_method_int" else C(case["sync_inst"][k]) for k in range(2)]
        return (lambda c: getattr(insts[c["i"]], f"m{c['t']}")(c["id"], **M.aflag(c))), (lambda c: "all" if kind == "method_obj" else (c["i"], c["t"])), n
    if kind in ("class_int", "class_obj", "sub"):
        ns = {f"m{k}": M.raw(book, "method", ad[k], f"m{k}") for k in range(3)}
        ns.update(executor=ex, semaphore=obj() if kind == "class_obj" else n)
        if case["default"]:
            ns["default"] = case["default"]
        C = type("C", (Base,), ns)
        if kind == "sub":
            # a subclass inherits the methods, and with them the limit
            C = type("D", (C,), {"other": M.raw(book, "method", True, "other")})
        insts = [C(case["sync_inst"][k]) for k in range(2)]
        return (lambda c: getattr(insts[c["i"]], f"m{c['t']}")(c["id"], **M.aflag(c))), (lambda c: "all"), n
    # properties
    mods["semaphore"] = n
    ns = {f"p{k}": M.prop(M.raw(book, "prop", ad[k], f"p{k}"), case["form"], mods) for k in range(3)}
    C = type("C", (Base,), ns)
    insts = [C(case["sync_inst"][k]) for k in range(2)]
    return (lambda c: getattr(insts[c["i"]], f"__p{c['t']}__")(**M.aflag(c))), (lambda c: c["t"]), n


def run(case, ctx):
    book = M.Book()
    call, scope, n = build(case, book)
    state = {"waiting": {}, "blocked": 0}

    def on_begin(c):
        s = c["scope"]
        check(book.active[s] <= n, lambda: f"{book.active[s]} executions in progress under a limit of {n} ({case['kind']}, scope {s})", "limit")
        check(not c.get("gone"), f"the body of call {c['id']} began after its caller had ended", "gone")
        state["waiting"][s].discard(c["id"])

    book.on_begin = on_begin

    def idle():
        for s, w in state["waiting"].items():
            if w:
                state["blocked"] += 1
                check(book.active.get(s, 0) >= n, lambda: f"calls {sorted(w)} wait while only {book.active.get(s, 0)} of {n} are in progress ({case['kind']}, scope {s})", "idle-permit")

    async def client(c):
        await asyncio.sleep(c["at"])
        await spin(c["spin"])
        M.CALL.set(c)
        state["waiting"].setdefault(c["scope"], set()).add(c["id"])
        try:
            x = call(c)
            if c["how"] == "task":
                v = await asyncio.ensure_future(x)
            elif c["how"] == "gather":
                v = (await asyncio.gather(x))[0]
            elif c["how"] == "wait_for":
                v = await asyncio.wait_for(x, 1e9)
            else:
                v = await x
            out = ("ok", v)
        except asyncio.CancelledError as e:
            out = ("cancelled", e)
        except Violation:
            raise
        except Exception as e:
            out = ("err", e)
        finally:
            c["gone"] = True
            state["waiting"][c["scope"]].discard(c["id"])
        judge(c, out)

    def judge(c, out):
        kind, v = out
        runs = c.get("runs", 0)
        check(runs <= 1, f"call {c['id']} ran {runs} times", "once")
        if kind == "ok":
            check(runs == 1 and "value" in c and c["value"] is v, lambda: f"call {c['id']} got {v!r}, its body gave {c.get('value')!r}", "value")
            check(case["kind"] == "prop" or c["args_seen"] == ((c["id"],), {}), lambda: f"call {c['id']} saw arguments {c['args_seen']}", "args")
        elif kind == "err":
            check(c.get("exc") is v, lambda: f"call {c['id']} raised {v!r}, its body {c.get('exc')!r}", "value")
        else:
            check(c.get("cancel_sent") or c["end"] == "cancel" and runs, f"call {c['id']} was cancelled by nobody", "cancelled")

    cancelled = 0
    ids = 0
    for ph in case["phases"]:

        async def main():
            nonlocal cancelled, ids
            loop = asyncio.get_running_loop()
            loop.on_idle.append(idle)
            state["waiting"] = {}
            tasks, cancels = [], []
            for c in ph["calls"]:
                c = dict(c, id=ids)
                ids += 1
                c["scope"] = scope(c)
                if case["async_def"][c["t"]] is False and case["kind"] != "apply":
                    c["dur"] = c["dur"] or 0
                    c["end"] = "err" if c["end"] == "cancel" else c["end"]
                t = asyncio.ensure_future(client(c))
                tasks.append(t)

                def cancel(t=t, c=c):
                    if not t.done():
                        c["cancel_sent"] = True
                        t.cancel()

                cancels.append(cancel)
                if c["cancel"] == "spin":
                    loop.call_later(c["at"], lambda c=cancel: loop.call_soon(lambda: loop.call_soon(lambda: loop.call_soon(c))))
                elif c["cancel"] == "self":
                    loop.call_later(c["at"] + (c["dur"] or 0), cancel)
                elif c["cancel"] is not None:
                    loop.call_later(c["cancel"], cancel)
                c["cancelled_by"] = c["cancel"]
                cancelled += c["cancel"] is not None
            if ph["abort"]:
                await asyncio.wait(tasks, timeout=ph["abort"])
                for f in cancels:  # all of them at once, as at the end of asyncio.run
                    f()
            for r in await asyncio.gather(*tasks, return_exceptions=True):
                if isinstance(r, BaseException) and not isinstance(r, asyncio.CancelledError):
                    raise r
            check(all(v == 0 for v in book.active.values()), lambda: f"in progress after all calls have ended: {book.active}", "left")
            # the limit in force afterwards
            probes = []
            gate = asyncio.Event()
            extra = [{"t": k, "i": j, "flag": "s", "how": "await", "at": 0, "spin": 0, "dur": 3, "end": "ok", "gate": gate} for k in range(3) for j in range(2)]
            seen = {}
            for c in extra:
                for _ in range(n + 1):
                    c = dict(c, id=ids)
                    ids += 1
                    c["scope"] = scope(c)
                    probes.append(asyncio.ensure_future(client(c)))
            loop.call_later(2, lambda: seen.update(book.active))
            loop.call_later(3, gate.set)
            await asyncio.gather(*probes)
            for s in {scope(c) for c in extra}:
                check(seen[s] == n, f"{seen[s]} can be in progress afterwards, the limit is {n} ({case['kind']}, scope {s})", "limit-after")
            loop.on_idle.remove(idle)

        _, loop = vrun(main)
        check(not loop.unhandled, lambda: f"unhandled: {loop.unhandled}", "unhandled")
    ctx.count("calls", ids)
    ctx.count("kind_" + case["kind"])
    ctx.count("idle_points_with_waiters", state["blocked"])
    ctx.count("cancelled", cancelled)
    if max(book.peak.values()) == n and state["blocked"]:
        ctx.count("saturated_runs")
        ctx.nontrivial(case["kind"], n, book.log)
    ctx.sample({"kind": case["kind"], "n": n, "log": [list(x) for x in book.log[:12]]})
