"""Dual-mode properties: every access form gives the getter's own outcome for its own instance."""
import asyncio
import copy
import gc
import inspect

import a_sync
from a_sync import aliases
from a_sync.exceptions import SyncModeInAsyncContextError

import cls_common as K
import dual_common as D
from h import Violation, check

NAMES = ["p0", "p1", "p2"]
FORMS = ["attr", "attr", "attr", "hidden", "hidden_await", "get", "map"]


def gen_prop(rng, cached):
    p = D.gen_fn(rng, async_def=rng.random() < 0.7)
    p["sig"] = "none"
    p["steps"] = [rng.choice(["spin", "sleep", "task"]) for _ in range(rng.choice([0, 0, 1, 2]))]
    p["end"] = rng.choice(["value", "value", "value", "none", "falsy"] + D.ENDS)
    p["cached"] = cached
    p["form"] = rng.choice(["bare", "call", "kw", "pos"])
    p["setter"] = cached and rng.random() < 0.3
    p["super"] = False
    return p


def gen(rng, i, tier):
    kind = rng.choice(["async", "async", "async", "plain"])
    cached = {n: rng.random() < 0.5 for n in NAMES}
    depth = rng.choice([1, 1, 2, 3])
    classes = []
    for d in range(depth):
        props = {}
        for n in NAMES:
            if d == 0 or rng.random() < 0.5:
                props[n] = gen_prop(rng, cached[n])
                props[n]["super"] = d > 0 and rng.random() < 0.4
        classes.append(props)
    insts = rng.choice([1, 2, 3])
    new = lambda k: {"op": "new", "i": k, "cls": rng.randrange(depth), "sync": rng.random() < 0.5, "explicit": rng.random() < 0.5}
    ops = [new(k) for k in range(insts)]
    for _ in range(rng.choice([4, 8, 12] if tier == "quick" else [8, 16, 30])):
        x = rng.random()
        if x < 0.08:
            ops.append(new(rng.randrange(insts)))
        elif x < 0.12:
            ops.append({"op": "gc"})
        elif x < 0.16 and insts > 1:
            ops.append({"op": "copy", "of": rng.randrange(insts), "i": rng.randrange(insts)})
        elif x < 0.2:
            ops.append({"op": "set", "i": rng.randrange(insts), "p": rng.choice(NAMES)})
        elif x < 0.28:
            ops.append({"op": "del", "i": rng.randrange(insts), "p": rng.choice(NAMES)})
        else:
            ops.append(
                {
                    "op": "read",
                    "i": rng.randrange(insts),
                    "p": rng.choice(NAMES),
                    "form": rng.choice(FORMS),
                    "flag": rng.choice(D.FLAGS),
                    "site": rng.choice(D.SITES),
                    "how": rng.choice(["run", "ruc"]),
                }
            )
    return {"kind": kind, "style": rng.choice(K.STYLES), "default": rng.random() < 0.5, "classes": classes, "ops": ops}


class Getter(D.Fn):
    cls = parent = None
    supers = 0

    async def abody(self, recv, seen):
        run = self._start(recv, seen)
        for s in self.spec["steps"]:
            await asyncio.sleep(0.0005 if s == "sleep" else 0)
        if self.spec["super"] and self.parent is not None:
            run["super"] = await getattr(super(self.cls, recv), f"__{self.name}__")(sync=False) if self.hidden else None
        return self._end(run)

    hidden = False


def declare(p, g):
    deco = aliases.cached_property if p["cached"] else aliases.property
    d, form = p["default"], p["form"]
    if d is None:
        return deco(g.plain) if form in ("bare", "pos") else deco()(g.plain)
    if form == "pos":
        return deco(d)(g.plain)
    if form == "bare":
        return deco(g.plain, default=d)
    return deco(default=d)(g.plain)


class PlainRoot:
    def __init__(self, tag):
        self.tag = tag


def build(case, book):
    classes = []
    for d, props in enumerate(case["classes"]):
        parent = classes[-1] if classes else None
        ns, recs = {}, {}
        for n, p in props.items():
            g = Getter(p, book, n, method=True)
            g.hidden = case["kind"] == "async"
            g.sets, g.dels = [], []
            desc = declare(p, g)
            if p["setter"]:

                def fset(self, v, g=g):
                    g.sets.append((self, v))

                def fdel(self, g=g):
                    g.dels.append(self)

                fset.__name__ = fdel.__name__ = n
                desc = desc.setter(fset).deleter(fdel)
            ns[n] = desc
            recs[n] = g
        base = parent["cls"] if parent else K.root_class(case["style"], default=case["default"]) if case["kind"] == "async" else PlainRoot
        cls = type(f"P{d}", (base,), ns)
        for n, g in recs.items():
            g.cls = cls
            # overriding getters may read the overridden property only where that cannot fail
            g.parent = parent["found"].get(n) if parent else None
            if g.parent is not None and (g.parent.spec["end"] not in ("value", "none", "falsy", "self") or g.parent.spec["cached"]):
                g.parent = None
        classes.append({"cls": cls, "found": {**(parent["found"] if parent else {}), **recs}, "recs": recs})
    return classes


def run(case, ctx):
    book = D.Book(None)
    classes = build(case, book)
    live, sigs, serial = {}, [], 0
    fixed = case["style"].startswith("attr_")
    for op in case["ops"]:
        if op["op"] == "new":
            live.pop(op["i"], None)
            serial += 1
            if case["kind"] == "async":
                sync = case["default"] if fixed else op["sync"]
                inst = K.make(classes[op["cls"]]["cls"], case["style"], sync, ("tag", serial), case["default"], op["explicit"])
            else:
                sync, inst = None, classes[op["cls"]]["cls"](("tag", serial))
            live[op["i"]] = [inst, op["cls"], sync, {}]
            del inst
            ctx.count("instances")
        elif op["op"] == "copy":
            # a copy keeps the cached values and shares nothing with the original from then on
            inst, k, sync, state = live[op["of"]]
            serial += 1
            inst = copy.copy(inst)
            inst.tag = ("tag", serial)
            live[op["i"]] = [inst, k, sync, dict(state)]
            del inst, state
            ctx.count("copies")
        elif op["op"] == "gc":
            gc.collect()
        else:
            inst, k, sync, state = live[op["i"]]
            g = classes[k]["found"][op["p"]]
            if op["op"] == "read":
                read(case, ctx, classes, inst, k, sync, state, g, op, sigs)
            elif op["op"] == "set":
                set_(ctx, inst, state, g, op["p"])
            else:
                del_(ctx, inst, state, g, op["p"])
    ctx.nontrivial(case["kind"], case["style"], [sorted(c) for c in case["classes"]], sigs)
    ctx.sample({"kind": case["kind"], "style": case["style"], "reads": [repr(s) for s in sigs[:5]]})


def set_(ctx, inst, state, g, n):
    if not g.spec["cached"]:
        try:
            setattr(inst, n, 1)
        except ValueError:
            return
        raise Violation("a property that is not cached could be set", "set")
    v = object()
    before = len(g.sets)
    setattr(inst, n, v)
    state[n] = v
    if g.spec["setter"]:
        check(g.sets[before:] == [(inst, v)], lambda: f"setting {n} called its setter with {g.sets[before:]}", "set")
    ctx.count("sets")


def del_(ctx, inst, state, g, n):
    if not g.spec["cached"] or n not in state:
        return
    before = len(g.dels)
    delattr(inst, n)
    del state[n]
    if g.spec["setter"]:
        check(g.dels[before:] == [inst], f"deleting {n} called its deleter {len(g.dels) - before} times", "set")
    ctx.count("dels")


def read(case, ctx, classes, inst, k, sync, state, g, op, sigs):
    n, form, site = op["p"], op["form"], op["site"]
    s = g.spec
    in_loop = site in D.LOOP_SITES
    if form in ("hidden", "hidden_await") and not g.hidden:
        form = "attr"
    flag = op["flag"] if form == "hidden" else None
    if form == "attr":
        if s["default"]:
            want_sync = s["default"] == "sync"
        elif sync is not None:
            want_sync = sync
        else:
            want_sync = not in_loop
    elif form == "hidden":
        want_sync = D.wants_sync(flag, "async", True)
    else:
        want_sync = False
    fns = {
        "attr": lambda: getattr(inst, n),
        "hidden": lambda: getattr(inst, f"__{n}__")(**({flag[0]: flag[1]} if flag else {})),
        "hidden_await": lambda: getattr(inst, f"__{n}__"),
        "get": lambda: getattr(type(inst), n).get(inst),
        "map": lambda: getattr(type(inst), n).map([inst]),
    }
    known = n in state if s["cached"] else False
    before = {id(r): len(r.runs) for c in classes for r in c["recs"].values()}
    got_aw, sets = [], len(g.sets)

    def fn():
        x = fns[form]()
        got_aw.append(inspect.isawaitable(x) or form == "map")
        return x

    kind, got, aw = D.at_site(site, fn, op["how"])
    what = f"{'cached ' if s['cached'] else ''}{'async def' if s['async_def'] else 'def'} property {n} (default {s['default']}) of {inst.tag} (sync={sync}) read by {form} {flag or ''} at {site}"
    ran = len(g.runs) - before[id(g)]
    if want_sync and in_loop:
        check(kind == "err" and isinstance(got, SyncModeInAsyncContextError), lambda: f"{what}: gave {kind} {got!r} instead of being refused", "refusal")
        check(ran == 0, f"{what}: refused, but the getter ran", "refusal")
        ctx.count("refused")
        return
    check(ran == (0 if known else 1), lambda: f"{what}: the getter ran {ran} times{', although there was a value' if known else ''}; got {kind} {got!r}", "runs")
    if want_sync:
        check(not aw, f"{what}: gave an awaitable", "mode")
    else:
        check(got_aw == [True], lambda: f"{what}: gave no awaitable but {kind} {got!r}", "mode")
    if known:
        check(kind == "ok" and unmap(form, inst, got) is state[n], lambda: f"{what}: {kind} {got!r}, cached is {state[n]!r}", "outcome")
        ctx.count("cached_hits")
    else:
        r = g.runs[-1]
        check(r["recv"] is inst, lambda: f"{what}: the getter ran for {r['recv'].tag}", "instance")
        ek, ev = r["out"]
        if kind == "ok":
            got = unmap(form, inst, got)
        if ek == "err" and isinstance(ev, StopAsyncIteration) and kind == "err" and type(got) is RuntimeError:
            check(got.__cause__ is ev, lambda: f"{what}: raised {got!r}", "outcome")
        elif ek == "err" and type(ev) is TimeoutError and not s["async_def"]:
            check(kind == "err" and type(got) is TimeoutError, lambda: f"{what}: {kind} {got!r}", "outcome")
        else:
            check(ek == kind and got is ev, lambda: f"{what}: {kind} {got!r}, the getter {ek} {ev!r}", "outcome")
        if s["cached"] and kind == "ok":
            state[n] = got
            if s["setter"]:
                check(len(g.sets) == sets + 1 and g.sets[-1][1] is got, f"{what}: the setter was called {len(g.sets) - sets} times", "set")
        ctx.count("getter_runs")
        ctx.count("raised" if kind == "err" else "returned")
    ctx.count("reads")
    ctx.count("form_" + form)
    ctx.count("plain_result" if want_sync else "awaitable_result")
    sigs.append((n, sync, form, flag, site, kind, known))


def unmap(form, inst, got):
    if form != "map":
        return got
    check(len(got) == 1 and next(iter(got)) is inst, lambda: f"mapping the property over one instance gave {got!r}", "outcome")
    return got[inst]
