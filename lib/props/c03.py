"""Dual-mode methods: the right mode, the right instance, the right body, the plain method's outcome."""
import asyncio
import copy
import functools
import gc
import inspect
import weakref

import a_sync

import cls_common as K
import dual_common as D
from h import Violation, check
from props.c01 import copied, kwargs_with, same_outcome, seen_equal

NAMES = ["alpha", "beta", "gamma"]
EXTRAS = ["class", "error", "object", "partial", "builtin", "type", "static", "async_static", "classmethod", "bound", "future_type"]


class Callable_:
    def __call__(self, *a, **k):
        return (a, k)


def extra(kind):
    """Something a class holds that is no method of its instances. -> (what the class body has, the call through an instance that it must be equal to)"""

    def plain(*a, **k):
        return (a, tuple(k.items()))

    async def aplain(*a, **k):
        await asyncio.sleep(0)
        return (a, tuple(k.items()))

    if kind == "class":

        class Inner:
            def __init__(self, *a, **k):
                self.a = (a, tuple(k.items()))

            def __eq__(self, other):
                return type(self) is type(other) and self.a == other.a

        return Inner, Inner
    if kind == "error":
        return type("Err", (Exception,), {"__eq__": lambda a, b: type(a) is type(b) and a.args == b.args, "__init__": lambda self, *a, **k: Exception.__init__(self, a, tuple(k.items()))}), None
    if kind == "object":
        o = Callable_()
        return o, o
    if kind == "partial":
        o = functools.partial(plain, 1, z=2)
        return o, o
    if kind == "builtin":
        return len, None
    if kind == "type":
        return dict, None
    if kind == "future_type":
        return a_sync.Semaphore, None
    if kind == "static":
        return staticmethod(plain), plain
    if kind == "async_static":
        return staticmethod(aplain), lambda *a, **k: (a, tuple(k.items()))
    if kind == "classmethod":
        return classmethod(plain), None
    if kind == "bound":
        o = Callable_().__call__
        return o, o


def check_extras(classes, inst, k, ctx):
    cls = type(inst)
    for c in classes:
        if c["extra"] is None or not issubclass(cls, c["cls"]):
            continue
        kind, body, same = c["extra"]
        n = f"extra_{kind}"
        got = getattr(inst, n)
        what = f"attribute {n} ({body!r}), which is no method, of an instance of {cls.__name__}"
        owner = next(x for x in classes if x["extra"] and x["extra"][0] == kind and x["cls"] in cls.__mro__ and n in vars(x["cls"]) and next(m for m in cls.__mro__ if n in vars(m)) is x["cls"])
        kind, body, same = owner["extra"]
        if kind in ("static", "async_static"):
            check(got is body.__func__ and getattr(cls, n) is body.__func__, lambda: f"{what} is {got!r}", "attribute")
        elif kind == "classmethod":
            check(got(1, b=2) == ((cls, 1), (("b", 2),)) and getattr(cls, n)() == ((cls,), ()), lambda: f"{what} gave {got(1, b=2)!r}", "attribute")
        else:
            check(got is body and getattr(cls, n) is body, lambda: f"{what} is {got!r}", "attribute")
        if same is not None:
            x = got(1, 2, c=3)
            if inspect.isawaitable(x):
                x = asyncio.run(_await(x))
            check(x == same(1, 2, c=3), lambda: f"{what} gave {x!r}", "attribute")
        ctx.count("extras")


async def _await(x):
    return await x



def gen(rng, i, tier):
    style = rng.choice(K.STYLES)
    depth = rng.choice([1, 2, 2, 3])
    classes = []
    for d in range(depth):
        methods = {}
        for n in NAMES:
            if d == 0 or rng.random() < 0.5:
                m = D.gen_fn(rng, async_def=rng.random() < 0.75)
                if d:
                    m["sig"] = classes[0]["methods"][n]["sig"]
                m["steps"] = [rng.choice(["spin", "spin", "sleep", "task", "sibling"]) for _ in range(rng.choice([0, 1, 2]))]
                if rng.random() < 0.5:
                    m["default"] = None
                m["decorated"] = m["default"] is not None or rng.random() < 0.2
                m["super"] = d > 0 and rng.random() < 0.4
                methods[n] = m
        classes.append({"methods": methods, "parent": d - 1 if rng.random() < 0.7 else rng.randrange(-1, d)} if d else {"methods": methods, "parent": -1})
    ops = []
    live = 0
    insts = rng.choice([1, 2, 3, 5])
    for k in range(insts):
        ops.append({"op": "new", "i": k, "cls": rng.randrange(depth), "sync": rng.random() < 0.5, "explicit": rng.random() < 0.5})
    for _ in range(rng.choice([3, 6, 10] if tier == "quick" else [8, 16, 30])):
        x = rng.random()
        if x < 0.12:
            ops.append({"op": "new", "i": rng.randrange(insts), "cls": rng.randrange(depth), "sync": rng.random() < 0.5, "explicit": rng.random() < 0.5})
        elif x < 0.16:
            ops.append({"op": "gc"})
        elif x < 0.2 and insts > 1:
            ops.append({"op": "copy", "of": rng.randrange(insts), "i": rng.randrange(insts)})
        elif x < 0.34:
            ops.append({"op": "many", "calls": [gen_call(rng, classes, insts) for _ in range(rng.choice([2, 4, 7]))]})
        else:
            ops.append({"op": "call", **gen_call(rng, classes, insts)})
    extras = [rng.choice([None, None] + EXTRAS) for _ in range(depth)]
    return {"extras": extras, "style": style, "default": rng.random() < 0.5, "eq": rng.choice([None, None, "same", "unhashable", "falsy"]), "classes": classes, "ops": ops}


def gen_call(rng, classes, insts):
    n = rng.choice(NAMES)
    args, kw = D.gen_args(rng, classes[0]["methods"][n]["sig"])
    return {
        "i": rng.randrange(insts),
        "m": n,
        "args": args,
        "kw": kw,
        "flag": rng.choice(D.FLAGS + [None, None]),
        "site": rng.choice(D.SITES),
        "how": rng.choice(["run", "ruc"]),
        "where": rng.choice(["end", "start", "mid"]),
        "access": rng.choice(["attr", "attr", "attr", "getattr", "held", "class", "super"]),
    }


class Method(D.Fn):
    """A recorded method; may call its sibling `ping` and the version it overrides."""

    cls = None

    async def abody(self, recv, seen):
        run = self._start(recv, seen)
        for s in self.spec["steps"]:
            if s == "spin":
                await asyncio.sleep(0)
            elif s == "sleep":
                await asyncio.sleep(0.0005)
            elif s == "task":
                check(await asyncio.ensure_future(asyncio.sleep(0, "t")) == "t", "a task in a body gave something else", "inner")
            elif s == "sibling":
                got = await recv.ping(7, sync=False)
                check(got == (recv.tag, 7), lambda: f"self.ping(7) in the body for {recv.tag} gave {got!r}", "instance")
        if self.spec["super"] and self.parent is not None:
            run["super"] = True
            a, k = positional(self.spec["sig"], seen)
            x = getattr(super(self.cls, recv), self.name)(*a, **k, sync=False)
            run["super_out"] = await D_outcome(x)
        return self._end(run)

    def sbody(self, recv, seen):
        run = self._start(recv, seen)
        if self.spec["super"] and self.parent is not None and not self.parent.spec["async_def"]:
            run["super"] = True
            a, k = positional(self.spec["sig"], seen)
            try:
                run["super_out"] = ("ok", getattr(super(self.cls, recv), self.name)(*a, **k, sync=True))
            except Exception as e:
                run["super_out"] = ("err", e)
        return self._end(run)


async def D_outcome(x):
    try:
        return ("ok", await x)
    except Violation:
        raise
    except Exception as e:
        return ("err", e)


def positional(sig, seen):
    """Arguments that make a body with this signature see `seen`."""
    seen = dict(seen)
    args, kw = [], {}
    for n in D.SIGS[sig][1]:
        v = seen[n]
        if n == "args":
            args += v
        elif n in ("kw", "kwargs"):
            kw.update(v)
        elif n == "k":
            kw["k"] = v
        else:
            args.append(v)
    return args, kw


def build(case, book):
    classes = []
    root = K.root_class(case["style"], default=case["default"])
    if case["eq"] == "same":  # instances that compare equal are different objects still
        root.__eq__ = lambda a, b: True
        root.__hash__ = lambda a: 1
    elif case["eq"] == "unhashable":
        root.__eq__ = lambda a, b: True
        root.__hash__ = None
    elif case["eq"] == "falsy":
        root.__bool__ = lambda a: False
    for d, spec in enumerate(case["classes"]):
        ns, recs = {}, {}
        parent = classes[spec["parent"]] if spec["parent"] >= 0 else None
        for n, m in spec["methods"].items():
            f = Method(m, book, n, method=True)
            recs[n] = f
            ns[n] = D.decorate(f.plain, m) if m["decorated"] else f.plain
        if d == 0 or parent is None:

            async def ping(self, x):
                await asyncio.sleep(0)
                return (self.tag, x)

            ns["ping"] = ping
        held = None
        if case["extras"][d]:
            held = (case["extras"][d], *extra(case["extras"][d]))
            ns["extra_" + held[0]] = held[1]
        cls = type(f"K{d}", (parent["cls"] if parent else root,), ns)
        # what lookup finds: own first, then the parent's
        found = {**(parent["found"] if parent else {}), **recs}
        for n, f in recs.items():
            f.cls = cls
            f.parent = parent["found"].get(n) if parent else None
        classes.append({"cls": cls, "found": found, "recs": recs, "extra": held})
    # a class that does not extend K0 may lack some methods
    return classes


class State:
    pass


def run(case, ctx):
    book = D.Book(None)
    classes = build(case, book)
    live, held, dead = {}, {}, []
    mode_of_class = case["style"].startswith("attr_")
    sigs = []
    serial = 0
    for op in case["ops"]:
        if op["op"] == "new":
            old = live.pop(op["i"], None)
            if old is not None:
                for key in [k for k in held if k[0] == op["i"]]:
                    del held[key]
                dead.append(weakref.ref(old[0]))
                del old
            serial += 1
            sync = case["default"] if mode_of_class else op["sync"]
            c = classes[op["cls"]]
            inst = K.make(c["cls"], case["style"], sync, ("tag", serial), case["default"], op["explicit"])
            live[op["i"]] = (inst, op["cls"], sync)
            check_extras(classes, inst, op["cls"], ctx)
            del inst
            ctx.count("instances")
        elif op["op"] == "copy":
            # a copy is an instance of its own, also if the original's methods were used before
            inst, k, sync = live[op["of"]]
            serial += 1
            inst = copy.copy(inst)
            inst.tag = ("tag", serial)
            for key in [x for x in held if x[0] == op["i"]]:
                del held[key]
            live[op["i"]] = (inst, k, sync)
            del inst
            ctx.count("copies")
        elif op["op"] == "gc":
            gc.collect()
        elif op["op"] == "many":
            many(case, ctx, classes, live, op["calls"])
        else:
            one(case, ctx, classes, live, held, op, sigs)
    ctx.nontrivial(case["style"], [sorted(c["methods"]) for c in case["classes"]], sigs)
    ctx.sample({"style": case["style"], "calls": [repr(s) for s in sigs[:4]]})


def plan_call(case, classes, live, c, in_loop_only=False):
    inst, k, sync = live[c["i"]]
    f = classes[k]["found"].get(c["m"])
    if f is None:
        return None
    s = f.spec
    flag = c["flag"]
    site = c["site"]

    def result_is_sync(flag):
        if flag:
            return D.wants_sync(flag, None, True)
        if s["default"]:
            return s["default"] == "sync"
        return sync if s["async_def"] else True

    in_loop = in_loop_only or site in D.LOOP_SITES
    if in_loop and s["async_def"] and result_is_sync(flag):
        flag = ["sync", False] if len(c["args"]) % 2 else ["asynchronous", True]
    access = c["access"]
    if access == "class" and (not flag or result_is_sync(flag)):
        access = "attr"
    if access == "super" and (f.parent is None or k == 0 or f.cls is not classes[k]["cls"]):
        access = "attr"
    if access == "super":
        p = f.parent
        sub = plan_parent(p, sync, flag, in_loop)
        return inst, k, sync, p, sub[0], access, sub[1], f
    return inst, k, sync, f, flag, access, result_is_sync(flag), f


def plan_parent(p, sync, flag, in_loop):
    s = p.spec

    def rs(flag):
        if flag:
            return D.wants_sync(flag, None, True)
        if s["default"]:
            return s["default"] == "sync"
        return sync if s["async_def"] else True

    if in_loop and s["async_def"] and rs(flag):
        flag = ["sync", False]
    return flag, rs(flag)


def callee(inst, k, classes, f, first, c, access, held):
    if access == "getattr":
        return getattr(inst, c["m"])
    if access == "held":
        key = (c["i"], c["m"])
        if key not in held:
            held[key] = getattr(inst, c["m"])
        return held[key]
    if access == "class":
        m = getattr(type(inst), c["m"])
        return lambda *a, **kw: m(inst, *a, **kw)
    if access == "super":
        return getattr(super(first.cls, inst), c["m"])
    return getattr(inst, c["m"])


def one(case, ctx, classes, live, held, c, sigs):
    p = plan_call(case, classes, live, c)
    if p is None:
        return
    inst, k, sync, f, flag, access, want_sync, first = p
    if case["eq"]:
        ctx.count("odd_instances")
    before = {id(r): len(r.runs) for cl in classes for r in cl["recs"].values()}
    kw = kwargs_with(flag, c["kw"], c["where"])
    kind, got, aw = D.at_site(c["site"], lambda: callee(inst, k, classes, f, first, c, access, held)(*c["args"], **kw), c["how"])
    what = (
        f"{'sync' if sync else 'async'} instance {inst.tag} of K{k} ({case['style']}): {'async def' if f.spec['async_def'] else 'def'} {c['m']} (default {f.spec['default']}) "
        f"through {access} at {c['site']} with {c['args']} {kw}"
    )
    new = [r for r in f.runs[before[id(f)]:]]
    check(len(new) >= 1 and new[0]["recv"] is inst, lambda: f"{what}: ran {[(r['recv'].tag, r['seen']) for r in new]}; got {got!r}", "instance")
    runs_check(classes, before, f, what)
    r = new[0]
    same_outcome(r, kind, got, what)
    want = D.bound(f.spec["sig"], c["args"], c["kw"])
    check(seen_equal(r["seen"], want), lambda: f"{what}: the body saw {r['seen']}", "arguments")
    check(aw == (not want_sync) or kind == "err" and not aw and want_sync, f"{what}: {'an awaitable' if aw else 'no awaitable'}", "mode")
    check_super(f, r, what)
    ctx.count("calls")
    ctx.count("access_" + access)
    ctx.count("plain_result" if want_sync else "awaitable_result")
    ctx.count("super_runs", int("super" in r))
    if f.parent is not None:
        ctx.count("overriding")
    sigs.append((k, sync, c["m"], flag, c["site"], access, kind))


def runs_check(classes, before, f, what):
    """Exactly the chosen body ran once, and versions it called through super once each."""
    expect, g = {}, f
    expect[id(f)] = 1
    while g.runs and g.runs[-1].get("super"):
        g = g.parent
        expect[id(g)] = expect.get(id(g), 0) + 1
    for cl in classes:
        for r in cl["recs"].values():
            n = len(r.runs) - before[id(r)]
            check(n == expect.get(id(r), 0), f"{what}: the body of {r.name} of {r.cls.__name__} ran {n} times", "bodies")


def check_super(f, r, what):
    if "super" in r:
        kind, got = r["super_out"]
        pr = next((x for x in reversed(f.parent.runs) if x["recv"] is r["recv"]), None)
        check(pr is not None, f"{what}: the overridden body did not run", "super")
        same_outcome(pr, kind, got, what + " (super)")


def many(case, ctx, classes, live, calls):
    plans = []
    for c in calls:
        p = plan_call(case, classes, live, c, in_loop_only=True)
        if p is not None:
            plans.append((c, p))
    if not plans:
        return
    before = sum(len(r.runs) for cl in classes for r in cl["recs"].values())

    async def main():
        async def go(c, p):
            inst, k, sync, f, flag, access, want_sync, first = p
            try:
                x = callee(inst, k, classes, f, first, c, access if access != "held" else "attr", {})(*c["args"], **kwargs_with(flag, c["kw"], c["where"]))
                aw = inspect.isawaitable(x)
                if aw:
                    x = await x
                return ("ok", x, aw)
            except Violation:
                raise
            except BaseException as e:
                return ("err", e, None)

        return await asyncio.gather(*[go(c, p) for c, p in plans])

    outs = asyncio.run(main())
    used = set()
    for (c, p), (kind, got, aw) in zip(plans, outs):
        inst, k, sync, f, flag, access, want_sync, first = p
        what = f"concurrent calls: {c['m']} of K{k} on {inst.tag} with {c['args']} {c['kw']}"
        want = D.bound(f.spec["sig"], c["args"], c["kw"])
        for r in f.runs:
            if id(r) in used or r["recv"] is not inst or not seen_equal(r["seen"], want):
                continue
            ek, ev = r["out"]
            if ek == kind and (ev is got or copied(got, ev) or kind == "err" and isinstance(ev, StopAsyncIteration) and got.__cause__ is ev):
                used.add(id(r))
                break
        else:
            raise Violation(f"{what}: {kind} {got!r} is not what a body run for this instance and these arguments produced", "outcome")
        if aw is not None:
            check(aw == (not want_sync), f"{what}: {'an awaitable' if aw else 'no awaitable'}", "mode")
        ctx.count("concurrent_calls")
    after = sum(len(r.runs) for cl in classes for r in cl["recs"].values())
    extra = sum(1 for cl in classes for f in cl["recs"].values() for r in f.runs if "super" in r)
    ctx.count("calls", len(plans))
    check(after - before >= len(plans), f"{len(plans)} concurrent calls ran {after - before} bodies", "bodies")


def probes():
    def temp_instance():
        class Temp(a_sync.ASyncGenericBase):
            def __init__(self, sync):
                self.sync = sync
                super().__init__()

            async def one(self):
                return 1

        try:
            return Temp(True).one() != 1
        except ReferenceError:
            return True

    return {"temp-instance": temp_instance}
