"""Rate limits."""
import asyncio

import a_sync
from a_sync.a_sync.method import ASyncMethodDescriptor
from a_sync.a_sync.modifiers.limiter import apply_rate_limit
from aiolimiter import AsyncLimiter

import mod_common as M
from h import Violation, check, spin
from vloop import VirtualLoop, dispose

KINDS = ["fn_int", "fn_int", "fn_obj", "method_int", "method_obj", "plain_method_int", "class_int", "class_int", "class_obj", "apply", "prop", "sub"]
EPS = 1e-6


def gen(rng, i, tier):
    n = rng.choice([1, 2, 3, 5, 10, 60, 600])
    step = 60 / n
    big = tier != "quick"
    phases = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        horizon = rng.choice([2, 5, 12, 30])
        calls = []
        for _ in range(rng.choice([3, 6, 12, 24] if not big else [6, 16, 32, 64])):
            calls.append(
                {
                    "t": rng.choice([0, 0, 0, 1]),
                    "i": rng.choice([0, 0, 0, 1]),
                    "at": rng.choice([0, rng.randrange(horizon), rng.randrange(horizon), rng.random() * horizon]) * rng.choice([step, 1]),
                    "spin": rng.randrange(3),
                    "dur": rng.choice([None, 0, step / 2, step * 3]),
                    "spin_in": rng.randrange(3),
                    "end": rng.choice(["ok", "ok", "ok", "err", "type", "none", "cancel"]),
                    "cancel": rng.choice([None, None, None, None, rng.random() * horizon * step]),
                    "flag": rng.choice("sa"),
                    "how": rng.choice(["await", "await", "task", "wait_for"]),
                }
            )
        phases.append({"calls": calls, "abort": rng.choice([None, None, None, rng.random() * horizon * step]), "gap": rng.choice([0, 0.1, 1.0, 30, 100]), "how": rng.choice(["async", "async", "async", "sync"])})
    return {
        "kind": rng.choice(KINDS),
        "n": n,
        "async_def": [rng.random() < 0.7 for _ in range(2)],
        "form": rng.choice(M.FN_FORMS),
        "default": rng.choice([None, "sync", "async"]),
        "sync_inst": [rng.random() < 0.5 for _ in range(2)],
        "phases": phases,
    }


def build(case, book):
    kind, n = case["kind"], case["n"]
    ad = case["async_def"]
    mods = {"executor": M.FakeExecutor(book)}
    if case["default"]:
        mods["default"] = case["default"]
    obj = lambda: AsyncLimiter(n)

    class Base(a_sync.ASyncGenericBase):
        def __init__(self, sync):
            self.sync = sync
            super().__init__()

    if kind == "apply":
        deco = [apply_rate_limit(n)(M.raw(book, "fn", True)) if case["form"] == "call" else apply_rate_limit(M.raw(book, "fn", True), n if case["form"] != "pos" else obj()) for _ in range(2)]
        return (lambda c, kw: deco[c["t"]](c["id"])), (lambda c: c["t"])
    if kind in ("fn_int", "fn_obj"):
        mods["runs_per_minute"] = obj() if kind == "fn_obj" else n
        fns = [M.decorate(M.raw(book, "fn", ad[k], f"f{k}"), case["form"], mods) for k in range(2)]
        return (lambda c, kw: fns[c["t"]](c["id"], **kw)), (lambda c: "all" if kind == "fn_obj" else c["t"])
    if kind == "prop":
        mods["runs_per_minute"] = n
        C = type("C", (Base,), {f"p{k}": M.prop(M.raw(book, "prop", ad[k], f"p{k}"), case["form"], mods) for k in range(2)})
        insts = [C(case["sync_inst"][k]) for k in range(2)]
        return (lambda c, kw: getattr(insts[c["i"]], f"__p{c['t']}__")(**kw)), (lambda c: c["t"])
    if kind in ("class_int", "class_obj", "sub"):
        ns = {f"m{k}": M.raw(book, "method", ad[k], f"m{k}") for k in range(2)}
        ns.update(mods, runs_per_minute=obj() if kind == "class_obj" else n)
        C = type("C", (Base,), ns)
        if kind == "sub":
            C = type("D", (C,), {"other": M.raw(book, "method", True, "other")})
        scope = lambda c: "all"
    else:
        mods["runs_per_minute"] = obj() if kind == "method_obj" else n
        if kind == "plain_method_int":
            C = type("C", (object,), {f"m{k}": ASyncMethodDescriptor(M.raw(book, "method", ad[k], f"m{k}"), **mods) for k in range(2)})
        else:
            C = type("C", (Base,), {f"m{k}": M.decorate(M.raw(book, "method", ad[k], f"m{k}"), case["form"], mods) for k in range(2)})
        scope = lambda c: "all" if kind == "method_obj" else (c["i"], c["t"])
    insts = [C() if kind == "plain_method_int" else C(case["sync_inst"][k]) for k in range(2)]
    return (lambda c, kw: getattr(insts[c["i"]], f"m{c['t']}")(c["id"], **kw)), scope


class Bucket:
    """The leaky bucket as the starts observed fill it."""

    def __init__(self, n):
        self.n = n
        self.level, self.at = 0.0, None
        self.starts = []

    def look(self, t):
        if self.at is not None:
            self.level = max(0.0, self.level - (t - self.at) * self.n / 60)
        self.at = t
        return self.level

    def start(self, t):
        self.look(t)
        self.level += 1
        self.starts.append(t)


def run(case, ctx):
    n = case["n"]
    book = M.Book()
    call, scope = build(case, book)
    buckets, waiting = {}, {}
    stats = {"delayed": 0, "prompt": 0, "cancelled": 0, "sync": 0, "bursts": 0}

    def on_begin(c):
        s, t = c["scope"], c["t_begin"]
        b = buckets.setdefault(s, Bucket(n))
        waiting[s].discard(c["id"])
        check(not c.get("gone"), f"the body of call {c['id']} began after its caller had ended", "gone")
        b.start(t)
        check(
            b.level <= n + EPS,
            lambda: f"{case['kind']}, scope {s}: the start at {t} is one too many for {n} per minute (last starts {b.starts[-min(len(b.starts), n + 3):][-20:]})",
            "rate",
        )
        if t > c["t_arr"] + EPS:
            stats["delayed"] += 1
            check(not c.get("must"), lambda: f"{case['kind']}, scope {s}: call {c['id']} arrived at {c['t_arr']} with the bucket at {c['level']} of {n} and nobody waiting, and started only at {t}", "needless-delay")
        else:
            stats["prompt"] += 1

    book.on_begin = on_begin

    def arrive(c, t):
        s = c["scope"]
        c["t_arr"] = t
        b = buckets.setdefault(s, Bucket(n))
        w = waiting.setdefault(s, set())
        c["level"] = b.look(t)
        c["must"] = not w and c["level"] + 1 <= n - EPS
        c["ahead"] = len(w)
        w.add(c["id"])

    def judge(c, out):
        kind, v = out
        runs = c.get("runs", 0)
        check(runs <= 1, f"call {c['id']} ran {runs} times", "once")
        if kind == "ok":
            check(runs == 1 and "value" in c and c["value"] is v, lambda: f"call {c['id']} got {v!r}, its body gave {c.get('value')!r}", "value")
            check(case["kind"] == "prop" or c["args_seen"] == ((c["id"],), {}), lambda: f"call {c['id']} saw arguments {c['args_seen']}", "args")
        elif kind == "err":
            check(c.get("exc") is v, lambda: f"call {c['id']} raised {v!r}, its body {c.get('exc')!r}", "value")
        else:
            check(c.get("cancel_sent") or c["end"] == "cancel" and runs, f"call {c['id']} was cancelled by nobody", "cancelled")
            stats["cancelled"] += 1

    now = 1000.0
    ids = 0
    for ph in case["phases"]:
        loop = VirtualLoop()
        loop._vnow = now
        asyncio.set_event_loop(loop)
        mine = []
        for c in ph["calls"]:
            c = dict(c, id=ids)
            ids += 1
            c["scope"] = scope(c)
            if not case["async_def"][c["t"]] and case["kind"] != "apply":
                c["dur"] = c["dur"] or 0
                c["end"] = "err" if c["end"] == "cancel" else c["end"]
            mine.append(c)
        try:
            if ph["how"] == "sync" and case["kind"] != "apply":
                for c in mine:
                    if case["kind"] != "prop" and not case["async_def"][c["t"]]:
                        continue  # not limited
                    loop._vnow += c["at"]
                    M.CALL.set(c)
                    arrive(c, loop.time())
                    try:
                        out = ("ok", call(c, {"s": {"sync": True}, "a": {"asynchronous": False}}[c["flag"]]))
                    except asyncio.CancelledError as e:
                        out = ("cancelled", e)
                    except Violation:
                        raise
                    except Exception as e:
                        out = ("err", e)
                    judge(c, out)
                    stats["sync"] += 1
            else:
                loop.run_until_complete(phase(case, call, mine, ph, loop, arrive, judge, waiting))
            check(not loop.unhandled, lambda: f"unhandled: {loop.unhandled}", "unhandled")
        finally:
            dispose(loop)
        waiting.clear()
        now = loop.time() + ph["gap"]
    for b in buckets.values():
        if len(b.starts) >= n and n > 1 and b.starts[n - 1] - b.starts[0] < EPS:
            stats["bursts"] += 1
    ctx.count("calls", ids)
    ctx.count("kind_" + case["kind"])
    for k, v in stats.items():
        ctx.count(k, v)
    if stats["delayed"]:
        ctx.nontrivial(case["kind"], n, [(s, [round(t, 4) for t in b.starts]) for s, b in sorted(buckets.items(), key=repr)])
    ctx.sample({"kind": case["kind"], "n": n, **stats})


async def phase(case, call, mine, ph, loop, arrive, judge, waiting):
    n = case["n"]

    async def client(c):
        async def inner():
            arrive(c, loop.time())
            return await x

        await asyncio.sleep(c["at"])
        await spin(c["spin"])
        M.CALL.set(c)
        try:
            x = call(c, M.aflag(c) if case["kind"] != "apply" else {})
            if c["how"] == "task":
                v = await asyncio.ensure_future(inner())
            elif c["how"] == "wait_for":
                v = await asyncio.wait_for(inner(), 1e9)
            else:
                v = await inner()
            out = ("ok", v)
        except asyncio.CancelledError as e:
            out = ("cancelled", e)
        except Violation:
            raise
        except Exception as e:
            out = ("err", e)
        finally:
            c["gone"] = True
            if c["scope"] in waiting:
                waiting[c["scope"]].discard(c["id"])
        judge(c, out)

    tasks, cancels = [], []
    for c in mine:
        t = asyncio.ensure_future(client(c))
        tasks.append(t)

        def cancel(t=t, c=c):
            if not t.done():
                c["cancel_sent"] = True
                t.cancel()

        cancels.append(cancel)
        if c["cancel"] is not None:
            loop.call_later(c["cancel"], cancel)
    longest = max(c["at"] for c in mine) + max(c["dur"] or 0 for c in mine) + (len(mine) + 3) * 2 * 60 / n
    if ph["abort"]:
        await asyncio.wait(tasks, timeout=ph["abort"])
        for f in cancels:
            f()
    else:
        done, pending = await asyncio.wait(tasks, timeout=longest)
        stuck = [c["id"] for c, t in zip(mine, tasks) if t in pending]
        check(not stuck, lambda: f"calls {stuck} of {len(mine)} have not started after {longest} s at {n} per minute", "starved")
    for r in await asyncio.gather(*tasks, return_exceptions=True):
        if isinstance(r, BaseException) and not isinstance(r, asyncio.CancelledError):
            raise r
