"""Deferred results: random expression graphs against the same expressions on the plain results."""
import asyncio
import decimal
import fractions
import operator
import threading

import a_sync
from a_sync.future import ASyncFuture, future

from h import Boom, Violation, check, outcome, same, spin, boom
from vloop import VirtualLoop, dispose, vrun

ARITH = ["add", "sub", "mul", "truediv", "floordiv", "pow"]
CMP = ["gt", "ge", "lt", "le"]


class Sym:
    """Records the expression it went through: any swapped, dropped or repeated operand shows."""

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Sym) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return f"Sym({self.s})"

    def __bool__(self):
        return len(self.s) % 2 == 0


def _binary(op, sign):
    def fwd(self, o):
        if not isinstance(o, (Sym, int, float, str)):
            return NotImplemented
        return Sym(f"({self.s}{sign}{o.s if isinstance(o, Sym) else repr(o)})")

    def rev(self, o):
        if not isinstance(o, (Sym, int, float, str)):
            return NotImplemented
        return Sym(f"({o.s if isinstance(o, Sym) else repr(o)}{sign}{self.s})")

    setattr(Sym, f"__{op}__", fwd)
    setattr(Sym, f"__r{op}__", rev)


for _op, _sign in [("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("pow", "**")]:
    _binary(_op, _sign)


def _compare(op, a, b, sign):
    def f(self, o):
        if not isinstance(o, (Sym, int, float, str)):
            return NotImplemented
        x, y = (self, o) if a else (o, self)
        r = lambda v: v.s if isinstance(v, Sym) else repr(v)
        return Sym(f"({r(x)}{sign}{r(y)})")

    setattr(Sym, f"__{op}__", f)


_compare("lt", True, False, "<")
_compare("gt", False, True, "<")
_compare("le", True, False, "<=")
_compare("ge", False, True, "<=")


def value(code):
    k, v = code
    return {
        "int": lambda: v,
        "bool": lambda: bool(v),
        "float": lambda: float(v),
        "dec": lambda: decimal.Decimal(v) / 4,
        "frac": lambda: fractions.Fraction(v, 3),
        "complex": lambda: complex(v, 1),
        "str": lambda: "s" * (abs(v) % 4) + str(v),
        "list": lambda: [v, str(v)],
        "tuple": lambda: (v,),
        "set": lambda: {v, v + 1},
        "none": lambda: None,
        "sym": lambda: Sym(f"x{v}"),
    }[k]()


NUM = ["int", "int", "int", "bool", "float", "dec", "frac", "complex"]
ANY = NUM + ["sym", "sym", "sym", "str", "list", "tuple", "set", "none"]


def too_big(v):
    if isinstance(v, bool):
        return False
    if isinstance(v, int):
        return abs(v) > 1 << 40
    if isinstance(v, (float, complex)):
        return abs(v) > 1e12 or abs(v) != abs(v)
    if isinstance(v, fractions.Fraction):
        return v.numerator.bit_length() + v.denominator.bit_length() > 100
    if isinstance(v, decimal.Decimal):
        return not v.is_finite() or abs(v.adjusted()) > 30
    if isinstance(v, (str, list, tuple)):
        return len(v) > 200
    if isinstance(v, Sym):
        return len(v.s) > 3000
    return False


def safe(op, a, b):
    """Whether a op b may be computed at all (no huge powers or repetitions)."""
    if too_big(a) or too_big(b):
        return False
    if op == "pow":
        try:
            if abs(b) > 6 or abs(a) > 1e6:
                return isinstance(a, Sym) or isinstance(b, Sym)
        except TypeError:
            pass
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (str, list, tuple)) and isinstance(y, int) and abs(y) > 20:
                return False
    return True


FUTURE_LEAVES = ["lazy", "lazy", "lazytask", "lazycustom", "fn", "fnplain", "method", "nested"]
OTHER_LEAVES = ["plain", "plain", "coro", "task", "dual", "plainfuture"]


def gen(rng, i, tier):
    n_ops = rng.choice([1, 1, 2, 3, 5, 8, 14] if tier == "quick" else [1, 3, 6, 14, 30, 60])
    where = rng.choice(["async"] * 6 + ["sync", "sync_after", "sync_thread"])
    kinds = rng.choice([NUM, NUM, ["sym"], ["int"], ["int", "float"], ANY, ["sym", "int", "str"]])
    errs = rng.choice([0, 0, 0, 0.1, 0.3])
    ops = rng.choice([ARITH, ARITH, ARITH + CMP, ["sub"], ["add"], ["truediv", "floordiv", "pow"]])
    nodes, vals, isfut, used = [], [], [], []

    def leaf(must_future):
        k = rng.choice(FUTURE_LEAVES if must_future or rng.random() < 0.5 else OTHER_LEAVES)
        if where != "async" and k in ("lazytask", "task", "plainfuture", "coro", "dual", "nested"):
            k = "lazy"
        if k == "fnplain" and where == "async":
            k = "fn"
        code = [rng.choice(kinds), rng.randrange(-4, 12)]
        err = k != "plain" and rng.random() < errs
        nodes.append(["leaf", k, code, rng.choice([None, 0, 1, 2, 3, 4, 5]), rng.randrange(3), err])
        vals.append(None if err else (value(code),))
        isfut.append(k in FUTURE_LEAVES)
        used.append(0)
        return len(nodes) - 1

    shape = rng.choice(["tree", "chain", "dag", "dag"])

    def operand(must_future):
        pool = [j for j in range(len(nodes)) if (isfut[j] or not must_future) and (shape == "dag" or not used[j])]
        pool = [j for j in pool if nodes[j][0] == "op" or nodes[j][1] not in ("coro", "dual") or not used[j]]
        if pool and rng.random() < (0.9 if shape == "chain" and must_future else 0.6):
            j = pool[-1] if shape == "chain" else rng.choice(pool)
        else:
            j = leaf(must_future)
        used[j] += 1
        return j

    while sum(1 for x in nodes if x[0] == "op") < n_ops:
        a = operand(True)
        b = a if rng.random() < 0.05 else operand(rng.random() < 0.3)
        if rng.random() < 0.5 and not (nodes[b][0] == "leaf" and nodes[b][1] == "plain" and False):
            a, b = b, a
        op = rng.choice(ops)
        if op == "pow" and nodes[a][:2] == ["leaf", "plain"] and nodes[a][2][0] == "frac":
            op = "sub"  # Fraction.__pow__ turns itself into a float for any operand it does not know
        if vals[a] is not None and vals[b] is not None:
            if not safe(op, vals[a][0], vals[b][0]):
                op = "sub"
            try:
                v = (getattr(operator, op)(vals[a][0], vals[b][0]),)
            except Exception:
                v = None
        else:
            v = None
        if v is not None and too_big(v[0]) and rng.random() < 0.9:
            op = "sub"
            try:
                v = (vals[a][0] - vals[b][0],)
            except Exception:
                v = None
        nodes.append(["op", op, a, b, rng.random() < 0.1])
        vals.append(v)
        isfut.append(True)
        used.append(0)
    futs = [j for j in range(len(nodes)) if isfut[j]]
    roots = [[len(nodes) - 1, 0]]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        roots.append([rng.choice(futs), rng.choice([0, 0, 0, 1, 3, 7, 20])])
    if rng.random() < 0.5:
        roots.insert(0, [len(nodes) - 1, rng.choice([0, 2, 30])])
    return {"nodes": nodes, "roots": roots, "where": where, "order": rng.random() < 0.5, "read": rng.choice(["result", "convert", "op"])}


class Leaf:
    def __init__(self, spec):
        _, self.kind, self.code, self.delay, self.spins, self.err = spec
        self.value = value(self.code)
        self.exc = boom(repr(spec)) if self.err else None
        self.runs = 0
        self.args = None

    async def body(self, *args):
        self.runs += 1
        if self.delay is not None:
            await asyncio.sleep(self.delay / 1000)
        await spin(self.spins)
        if self.exc:
            raise self.exc
        return self.value

    def make(self, keep):
        k = self.kind
        if k == "plain":
            return self.value
        if k == "coro":
            return self.body()
        if k == "dual":
            return a_sync.a_sync(self.body)()
        if k == "task":
            return asyncio.ensure_future(self.body())
        if k == "plainfuture":
            fut = asyncio.get_running_loop().create_future()

            async def setter():
                try:
                    v = await self.body()
                except Boom as e:
                    fut.set_exception(e)
                else:
                    fut.set_result(v)

            keep.append(asyncio.ensure_future(setter()))
            return fut
        if k == "lazy":
            return ASyncFuture(self.body())
        if k == "lazytask":
            return ASyncFuture(asyncio.ensure_future(self.body()))
        if k == "nested":
            return ASyncFuture(ASyncFuture(self.body()))
        if k == "lazycustom":
            leaf = self

            class Aw:
                def __await__(self):
                    return leaf.body().__await__()

            return ASyncFuture(Aw())
        if k == "fn":

            @future
            async def fn(a, b=None):
                check((a, b) == (1, 2), f"a deferred function got {(a, b)}", "arguments")
                return await self.body()

            return fn(1, b=2)
        if k == "fnplain":

            @future
            def fnplain(a, b=None):
                check((a, b) == (1, 2), f"a deferred function got {(a, b)}", "arguments")
                self.runs += 1
                if self.exc:
                    raise self.exc
                return self.value

            return fnplain(1, b=2)
        leaf = self

        class C:
            @future
            async def meth(this, a):
                check(type(this) is C and a == 3, f"a deferred method got {(this, a)}", "arguments")
                return await leaf.body()

        keep.append(C())
        return keep[-1].meth(3)


def build(case, keep):
    objs, leaves = [], {}
    for i, n in enumerate(case["nodes"]):
        if n[0] == "leaf":
            leaves[i] = Leaf(n)
            objs.append(leaves[i].make(keep))
        else:
            _, op, a, b, inplace = n
            fn = getattr(operator, "i" + op if inplace and op in ARITH and isinstance(objs[a], ASyncFuture) else op)
            objs.append(fn(objs[a], objs[b]))
            check(type(objs[-1]) is ASyncFuture, f"{op} of nodes {a} and {b} gave a {type(objs[-1])}", "deferred")
    return objs, leaves


def reference(case, leaves, start, loose=False):
    """(ok, value, time) or (err, acceptable errors, time) for every node."""
    out = []
    for i, n in enumerate(case["nodes"]):
        if n[0] == "leaf":
            lf = leaves[i]
            t = start.get(i, 0) + (lf.delay or 0 if lf.kind != "plain" else 0)
            out.append(("err", [lf.exc], t) if lf.exc else ("ok", lf.value, t))
            continue
        _, op, a, b, _ = n
        ra, rb = out[a], out[b]
        bad = [r for r in (ra, rb) if r[0] == "err"]
        t0 = start.get(i, 0)
        if bad:
            t = min(max(r[2], t0) for r in bad)
            out.append(("err", [e for r in bad if loose or max(r[2], t0) == t for e in r[1]], t))
            continue
        t = max(ra[2], rb[2], t0)
        try:
            out.append(("ok", getattr(operator, op)(ra[1], rb[1]), t))
        except Exception as e:
            out.append(("err", [type(e)], t))
    return out


def verdict(got, ref, what):
    if ref[0] == "ok":
        check(got[0] == "ok", lambda: f"{what} ended {got!r}, the plain expression gives {ref[1]!r}", "result")
        check(same(got[1], ref[1]), lambda: f"{what} gave {got[1]!r}, the plain expression gives {ref[1]!r}", "result")
    else:
        check(got[0] == "err", lambda: f"{what} gave {got!r}, the plain expression raises {ref[1]!r}", "error")
        check(
            any(got[1] is e or isinstance(e, type) and type(got[1]) is e for e in ref[1]),
            lambda: f"{what} raised {got[1]!r}, the plain expression raises {ref[1]!r}",
            "error",
        )


def below(case, i, seen):
    if i not in seen:
        seen.add(i)
        n = case["nodes"][i]
        if n[0] == "op":
            below(case, n[2], seen)
            below(case, n[3], seen)
    return seen


def run_async(case, ctx):
    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        keep = []
        objs, leaves = build(case, keep)
        now = lambda: round((loop.time() - t0) * 1000)
        got = []

        async def reader(root, at):
            if at:
                await asyncio.sleep(at / 1000)
            r = await outcome(objs[root])
            got.append((root, at, r, now()))

        await asyncio.gather(*(asyncio.ensure_future(reader(*r)) for r in case["roots"]))
        await asyncio.sleep(0.1)
        start = {}
        for root, at in case["roots"]:
            for j in below(case, root, set()):
                start[j] = min(at, start.get(j, at))
        for j, lf in leaves.items():
            if lf.kind in ("task", "lazytask", "plainfuture"):
                start[j] = 0
        ref = reference(case, leaves, start)
        firsts = {}
        for root, at, r, t in got:
            what = f"awaiting node {root}"
            verdict(r, ref[root], what)
            check(t == max(at, ref[root][2]), f"{what} took until {t} ms, its parts were done by {ref[root][2]} ms", "concurrent")
            if root in firsts:
                check(r[1] is firsts[root], "two waiters of one deferred result saw different objects", "result")
            firsts[root] = r[1]
            if r[0] == "ok":
                accessors(objs[root], r[1], ctx)
        for j, lf in leaves.items():
            if lf.kind != "plain":
                want = 1 if j in start else 0
                check(lf.runs == want, f"leaf {j} ({lf.kind}) ran {lf.runs} times instead of {want}", "once")
                ctx.count("computations")
        for r in firsts:
            n = case["nodes"][r]
            ctx.count("op_" + n[1] if n[0] == "op" else "leaf")
        for o in objs:
            if asyncio.iscoroutine(o):
                o.close()
            elif isinstance(o, asyncio.Future) and o.done():
                o.exception()
        return got

    got, loop = vrun(main)
    ctx.count("awaited", len(got))
    ctx.count("errors", sum(r[0] == "err" for _, _, r, _ in got))
    if len(case["roots"]) > 1:
        ctx.count("several_waiters")
    return [(g[0], repr(g[2])[:60]) for g in got]


def accessors(f, v, ctx):
    """What else a finished deferred result can be asked."""
    check(f.done() and f.result() is v, "result() of a finished deferred result is another object", "accessor")
    for fn in (bool, str):
        check(fn(f) == fn(v), f"{fn.__name__} of a deferred {v!r} gives {fn(f)!r}", "accessor")
    for fn in (int, float) + (() if not hasattr(v, "__iter__") else (list,)):
        try:
            exp = fn(v)
        except Exception as e:
            exp = type(e)
        try:
            got = fn(f)
        except Exception as e:
            got = type(e)
        check(same(exp, got), f"{fn.__name__} of a deferred {v!r} gives {got!r}", "accessor")
    if isinstance(v, (list, tuple, str)) and v:
        check(f[0] == v[0] and f[-1:] == v[-1:], "indexing a deferred sequence", "accessor")
    if isinstance(v, (int, float)):
        check(f.real == v.real, "an attribute of a deferred number", "accessor")
    ctx.count("accessors")


def run_sync(case, ctx):
    """Outside a running loop every read materializes."""
    keep = []

    def work(virtual):
        objs, leaves = build(case, keep)
        ref = reference(case, leaves, {}, loose=True)  # no exact times with real threads
        got = []
        for root, _ in case["roots"]:
            f, r = objs[root], ref[root]
            how = case["read"]
            what = f"{how} of node {root}"
            if how == "convert" and r[0] == "ok":
                v = r[1]
                for fn in (int, str, bool, float):
                    try:
                        exp = fn(v)
                    except Exception as e:
                        exp = type(e)
                    try:
                        g = fn(f)
                    except Exception as e:
                        g = type(e)
                    check(same(exp, g), f"{fn.__name__}() of a deferred {v!r} gave {g!r}", "result")
            elif how == "op" and r[0] == "ok":
                v = r[1]
                check((f == v) is bool(v == v), f"a deferred {v!r} is not equal to {v!r}", "result")
                check((f == object()) is False, f"a deferred {v!r} equals anything", "result")
                check((f != v) is bool(v != v), f"a deferred {v!r} != {v!r}", "result")
                if isinstance(v, (list, tuple, set, str)) and v:
                    x = next(iter(v))
                    check(x in f, f"{x!r} is not in a deferred {v!r}", "result")
                    check(ASyncFuture(Leaf(["leaf", "lazy", ["none", 0], None, 0, False]).body()) not in f if not isinstance(v, str) else True, "None found in a deferred sequence", "result")
                    check(list(f) == list(v), f"iterating a deferred {v!r}", "result")
            try:
                g = ("ok", f.result())
            except Exception as e:
                g = ("err", e)
            verdict(g, r, what)
            got.append((root, repr(g)[:60]))
        for j, lf in leaves.items():
            if lf.kind != "plain":
                used = any(j in below(case, root, set()) for root, _ in case["roots"])
                # after a failure the loop may have stopped before the other parts ran
                failed = any(ref[root][0] == "err" for root, _ in case["roots"])
                check(lf.runs == used or failed and not lf.runs, f"leaf {j} ran {lf.runs} times", "once")
                ctx.count("computations")
        for j, o in enumerate(objs):
            lf = leaves.get(j)
            if lf is not None and not lf.runs and isinstance(o, ASyncFuture) and asyncio.iscoroutine(o.__awaitable__):
                o.__awaitable__.close()
        ctx.count("materialized", len(got))
        ctx.count("errors", sum("err" in g[1][:6] for g in got))
        return got

    if case["where"] == "sync":
        # functions written without async run in a thread: only then is the clock real
        real = any(n[0] == "leaf" and n[1] == "fnplain" for n in case["nodes"])
        loop = asyncio.new_event_loop() if real else VirtualLoop()
        asyncio.set_event_loop(loop)
        try:
            return work(True)
        finally:
            dispose(loop) if not real else (asyncio.set_event_loop(None), loop.close())
    if case["where"] == "sync_after":

        async def nothing():
            pass

        asyncio.run(nothing())
        try:
            return work(False)
        finally:
            close_current()
    out = []

    def thread():
        try:
            out.append(("ok", work(False)))
        except BaseException as e:
            out.append(("err", e))
        finally:
            close_current()

    t = threading.Thread(target=thread)
    t.start()
    t.join()
    if out[0][0] == "err":
        raise out[0][1]
    return out[0][1]


def close_current():
    try:
        loop = asyncio.get_event_loop_policy().get_event_loop()
    except RuntimeError:
        return
    asyncio.set_event_loop(None)
    loop.close()


def run(case, ctx):
    got = run_async(case, ctx) if case["where"] == "async" else run_sync(case, ctx)
    ctx.count("where_" + case["where"])
    ops = [n for n in case["nodes"] if n[0] == "op"]
    ctx.count("operations", len(ops))
    if len(ops) > 1:
        ctx.nontrivial([n[1:4] for n in case["nodes"]], case["roots"], case["where"])
    ctx.sample({"where": case["where"], "ops": [n[1] for n in ops], "read": got[:5]})
