"""Decorating: histories of functions made, decorated, used and discarded; each verdict against an oracle of the function alone."""

import asyncio
import functools
import gc
import inspect
import threading
import weakref

import a_sync
from a_sync import ASyncGenericBase
from a_sync.a_sync.function import ASyncFunction
from a_sync.a_sync.method import ASyncMethodDescriptor
from a_sync.a_sync.property import a_sync_cached_property, a_sync_property
from async_lru import alru_cache

import h
from h import check

NAMES = ["a", "b", "c", "x", "fn", "func", "default", "kwargs", "args", "sync_", "Sync", "async_", "asynchronous_", "synchronous", "coro_fn", "instance", "executor", "modifiers", "obj"]
FLAGS = ["sync", "asynchronous"]
KINDS = ["def", "def", "def", "async", "async", "gen", "agen", "lambda"]
WRAPS = [None, None, None, None, None, "bound", "classbound", "static", "wraps", "wraps_flagged", "class", "named_obj", "obj", "partial", "lru", "alru", "dual", "used_dual", "nested"]
FORMS = ["bare", "call", "default", "kw", "second", "pos", "raw", "descriptor", "class", "class", "subclass", "plain_class", "property", "cached_property", "modifiers"]
JUNK = [None, 5, 1.5, "", "hello", b"x", (), [], {}, object(), NotImplemented, ...]
ATTRS = ["default", "fn", "modifiers", "_modified_fn", "_asyncified", "_sync_default", "_async_def", "_sync_wrap", "_async_wrap", "_fn", "_await", "map", "min", "is_async_def", "_is_async_def", "mark", "own", "field_name", "any", "sum"]
BAD_MODIFIERS = [{"default": "bad"}, {"foo": 1}, {"default": 5}, {"sync": True}, {"Default": None}]


def gen_params(rng):
    """Parameters of a function: [kind, name, has default]; kinds as in inspect, in order."""
    names = rng.sample(NAMES, 6)
    if rng.random() < 0.3:
        names[rng.randrange(4)] = rng.choice(FLAGS)
    out = []
    defaulted = False
    for kind, n in (("po", rng.choice([0, 0, 1, 2])), ("pk", rng.choice([0, 1, 1, 2]))):
        for _ in range(n):
            if names:
                defaulted = defaulted or rng.random() < 0.25
                out.append([kind, names.pop(0), defaulted])
    if rng.random() < 0.25 and names:
        out.append(["va", names.pop(0), False])
    for _ in range(rng.choice([0, 0, 1, 2])):
        if names:
            out.append(["ko", names.pop(0), rng.random() < 0.5])
    if rng.random() < 0.25 and names:
        out.append(["vk", names.pop(0), False])
    return out


def gen_step(rng):
    return {
        "kind": rng.choice(KINDS),
        "params": gen_params(rng),
        "wrap": rng.choice(WRAPS),
        "form": rng.choice(FORMS),
        "again": rng.choice([None, None, None, "bare", "default", "class", "raw", "descriptor"]),
        "junk": rng.randrange(len(JUNK)) if rng.random() < 0.04 else None,
        "bad": rng.randrange(len(BAD_MODIFIERS)) if rng.random() < 0.04 else None,
        "mode": rng.choice(["sync", "async"]),
        "doc": rng.choice([None, "Documented.", "", "Two\n\n lines"]),
        "attrs": rng.sample(ATTRS, rng.choice([0, 0, 1, 3])),
        "local_flag": rng.random() < 0.15,
        "raises": rng.random() < 0.15,
        "keep": rng.random() < 0.15,
        "use": rng.random() < 0.7,
        "gc": rng.random() < 0.1,
        "argseed": rng.randrange(10**6),
    }


def gen(rng, i, tier):
    threads = rng.choice([1, 1, 1, 1, 3])
    return {"threads": threads, "steps": [[gen_step(rng) for _ in range(rng.randrange(6, 40 if threads == 1 else 12))] for _ in range(threads)]}


# making functions ----------------------------------------------------------


def source(step, name, method=False):
    parts, seen = [], set()
    params = ([["po" if any(p[0] == "po" for p in step["params"]) else "pk", "self", False]] if method else []) + step["params"]
    star = False
    for idx, (kind, pname, dflt) in enumerate(params):
        if kind in ("pk", "va", "ko", "vk") and "po" in seen and "/" not in seen:
            parts.append("/")
            seen.add("/")
        if kind == "va":
            parts.append("*" + pname)
            star = True
        elif kind == "vk":
            parts.append("**" + pname)
        else:
            if kind == "ko" and not star:
                parts.append("*")
                star = True
            parts.append(f"{pname}={idx + 100 - method}" if dflt else pname)
        seen.add(kind)
    if "po" in seen and "/" not in seen:
        parts.append("/")
    sig = ", ".join(parts)
    values = ", ".join(p[1] for p in step["params"])
    result = f"({name!r}, {values},)" if values else f"({name!r},)"
    if step["kind"] == "lambda":
        return f"{name} = lambda {sig}: {result}\n"
    lines = [f"{'async ' if step['kind'] in ('async', 'agen') else ''}def {name}({sig}):"]
    if step["doc"] is not None:
        lines.append(f"    {step['doc']!r}")
    if step["local_flag"]:
        taken = {p[1] for p in step["params"]}
        lines += [f"    {f} = 1" for f in FLAGS if f not in taken]
    if step["kind"] in ("gen", "agen"):
        lines.append(f"    yield {result}")
    elif step["raises"]:
        lines.append(f"    raise BOOM({result})")
    else:
        lines.append(f"    return {result}")
    return "\n".join(lines) + "\n"


def make(step, name, method=False):
    ns = {"__name__": "made_up_module", "BOOM": h.Boom}
    exec(source(step, name, method), ns)
    f = ns[name]
    for a in step["attrs"]:
        setattr(f, a, ("attr", a))
    return f


def collides(step):
    return any(p[1] in FLAGS and p[0] in ("po", "pk", "ko") for p in step["params"])


def verdict_of(step):
    """What decorating must say about the function itself: 'ok', 'gen' or 'flags'."""
    v = []
    if step["kind"] in ("gen", "agen"):
        v.append("gen")
    if collides(step):
        v.append("flags")
    return v or ["ok"]


def arguments(step, rng):
    args, kwargs = [], {}
    by_kw = False
    for kind, pname, dflt in step["params"]:
        give = not dflt or rng.random() < 0.5
        if kind == "po":
            if not give:
                by_kw = True  # nothing positional after a gap
            elif not by_kw:
                args.append(rng.randrange(100))
        elif kind == "pk":
            if give and not by_kw and rng.random() < 0.5:
                args.append(rng.randrange(100))
            else:
                by_kw = True
                if give:
                    kwargs[pname] = rng.randrange(100)
        elif kind == "va":
            if not by_kw:
                args.extend(rng.randrange(100) for _ in range(rng.randrange(3)))
        elif kind == "ko":
            if give:
                kwargs[pname] = rng.randrange(100)
        else:
            kwargs.update({f"extra{j}": j for j in range(rng.randrange(3))})
    return args, kwargs


class Target:
    """Something to decorate: the object, the verdicts it may get and how it behaves when called directly."""

    def __init__(self, obj, verdicts, call, own=None, first=()):
        self.obj = obj
        self.verdicts = verdicts
        self.call = call  # (args, kwargs) -> value or coroutine, without the library
        self.plain = own  # function whose metadata must be kept, if any


def target_of(step, n, loop):
    """-> Target. The oracle looks at the description of the function only."""
    name = f"f{n}"
    wrap = step["wrap"]
    v = verdict_of(step)
    if wrap in ("bound", "classbound"):
        f = make(step, name, method=True)
        K = type("K", (), {name: classmethod(f) if wrap == "classbound" else f})
        m = getattr(K, name) if wrap == "classbound" else getattr(K(), name)
        return Target(m, v, m, m)
    f = make(step, name)
    if wrap == "static":
        f = type("K", (), {name: staticmethod(f)}).__dict__[name].__func__
    elif wrap == "wraps":
        # the wrapper's own parameters count, whatever it wraps
        if step["kind"] == "async":

            @functools.wraps(f)
            async def wrapper(*args, **kwargs):
                return await f(*args, **kwargs)

        elif step["kind"] in ("gen", "agen"):

            @functools.wraps(f)
            def wrapper(*args, **kwargs):
                return (name,)

        else:

            @functools.wraps(f)
            def wrapper(*args, **kwargs):
                return f(*args, **kwargs)

        return Target(wrapper, ["ok"], None if collides(step) else wrapper, wrapper)
    elif wrap == "wraps_flagged":
        if step["argseed"] % 3 == 0:

            @functools.wraps(f)
            def wrapper(*args, sync=None, **kwargs):
                return f(*args, **kwargs)

        elif step["argseed"] % 3 == 1:

            @functools.wraps(f)
            async def wrapper(x, /, asynchronous, **kwargs):
                return f(x, **kwargs)

        else:

            @functools.wraps(f)
            def wrapper(*sync, **asynchronous):
                return f(*sync, **asynchronous)

            if step["kind"] in ("gen", "agen", "async") or collides(step):
                return Target(wrapper, ["ok"], None, wrapper)
            return Target(wrapper, ["ok"], wrapper, wrapper)
        return Target(wrapper, ["flags"], None, None)
    elif wrap == "class":

        def init(self, *args, **kwargs):
            self.args = (args, tuple(kwargs.items()))

        if step["argseed"] % 2:

            def init(self, x, sync=1):  # noqa: F811
                pass

        C = type("C", (), {"__init__": init, "__eq__": lambda self, other: type(self) is type(other) and self.args == other.args, "__hash__": None})
        return Target(C, ["flags"] if step["argseed"] % 2 else ["ok"], None if collides(step) else C, None)
    elif wrap in ("named_obj", "obj"):
        body = {"def": f, "async": f}.get(step["kind"])
        if body is None:
            step = {**step, "kind": "def"}
            f = make(step, name)

        class Obj:
            __call__ = make(step, name, method=True)

        o = Obj()
        if wrap == "named_obj":
            o.__name__ = o.__qualname__ = name
        v = ["flags"] if collides(step) else ["ok"]
        # an object with an async __call__ is no coroutine function
        return Target(o, v + ["nameless"] if wrap == "obj" else v, o if step["kind"] != "async" else None, None)
    elif wrap == "partial":
        return Target(functools.partial(f), v + ["nameless"], f, None)
    elif wrap == "lru":
        return Target(functools.lru_cache(f), v + ["opaque"], f, None)
    elif wrap == "alru":
        if step["kind"] == "async":
            return Target(alru_cache(f), v, f, None)
    elif wrap == "nested" and v == ["ok"]:
        return Target(functools.wraps(f)(lambda *a, **k: f(*a, **k)) if step["kind"] != "async" else f, v, f, None)
    elif wrap in ("dual", "used_dual") and v == ["ok"]:
        default = ["sync", "async", None][step["argseed"] % 3]
        d = a_sync.a_sync(default=default)(f)
        if wrap == "used_dual":
            args, kwargs = arguments(step, h.rng_of(step["argseed"]))
            for flag in ({"sync": True}, {"sync": False}, {}):
                outcome_of(lambda: d(*args, **kwargs, **flag), loop)
            d.map, d.any  # noqa: B018
        # what it returns is awaited by nobody but the caller when its own mode is async
        return Target(d, ["ok"], f if default == "sync" or default is None and step["kind"] != "async" else None, None)
    return Target(f, v, f, f)


def outcome_of(call, loop):
    """-> (kind of object returned, ('ok', value) | ('err', type, text))"""
    try:
        r = call()
    except Exception as e:
        return ("value", ("err", type(e).__name__, str(e)))
    if inspect.isawaitable(r):
        try:
            return ("coro", ("ok", loop.run_until_complete(as_coro(r))))
        except Exception as e:
            return ("coro", ("err", type(e).__name__, str(e)))
    return ("value", ("ok", r))


async def as_coro(aw):
    return await aw


REFUSALS = {
    "gen": (ValueError, "generator"),
    "flags": (RuntimeError, "must not have any arguments"),
    "nameless": (AttributeError, "__name__"),
    "opaque": (TypeError, "unsupported callable"),
    "junk": ((TypeError, ValueError), "nable to decorate"),
}


def settle(apply, verdicts, what):
    """Decorates; checks the verdict. -> the decorated object or None."""
    try:
        r = apply()
    except Exception as e:
        for v in verdicts:
            if v != "ok":
                typ, text = REFUSALS[v]
                if isinstance(e, typ) and text in str(e):
                    return None
        raise h.Violation(f"{what()}: expected {verdicts}, got {type(e).__name__}: {str(e)[:200]}", "refused" if "ok" in verdicts else "wrong-refusal")
    # nameless and opaque targets may be refused, but need not be
    check("ok" in verdicts, lambda: f"{what()}: expected {verdicts}, was accepted", "accepted")
    return r


def describe(step):
    return f"{source(step, 'f').splitlines()[0]} as {step['wrap']}"


META = ("__name__", "__qualname__", "__module__")


def check_meta(dec, f, step, form):
    for m in META:
        check(getattr(dec, m) == getattr(f, m), lambda: f"{describe(step)} via {form}: {m} is {getattr(dec, m)!r}, not {getattr(f, m)!r}", "metadata")
    doc = f.__doc__
    got = dec.__doc__
    check((doc is None) or (isinstance(got, str) and got.startswith(doc)), lambda: f"{describe(step)} via {form}: doc {doc!r} became {str(got)[:80]!r}", "metadata")
    want, have = str(inspect.signature(f)), str(inspect.signature(dec))
    check(want == have, lambda: f"{describe(step)} via {form}: signature {want} became {have}", "metadata")
    for a in step["attrs"]:
        if a in ("mark", "own"):
            check(getattr(dec, a, None) == ("attr", a), lambda: f"{describe(step)} via {form}: attribute {a} lost", "metadata")


def check_behaviour(call, target, step, form, loop, mode, ctx, rng, again=2):
    """`call(args, kwargs, flags)` calls the decorated thing; mode: 'sync' / 'async' without flags."""
    for _ in range(again):
        args, kwargs = arguments(step, rng)
        want = outcome_of(lambda: target.call(*args, **kwargs), loop)[1]
        flags, expect = rng.choice([({}, mode), ({"sync": True}, "sync"), ({"sync": False}, "async"), ({"asynchronous": True}, "async"), ({"asynchronous": False}, "sync")])
        got = outcome_of(lambda: call(*args, **kwargs, **flags), loop)
        if expect is not None and want[0] == "ok":
            check(got[0] == ("coro" if expect == "async" else "value"), lambda: f"{describe(step)} via {form}, called with {flags}: got a {got[0]}, expected mode {expect}", "behaviour")
        if want[0] == "ok":
            check(got[1] == want, lambda: f"{describe(step)} via {form}, called {args} {kwargs} {flags}: {got[1]!r}, not {want!r}", "behaviour")
        else:
            check(got[1][0] == "err" and got[1][1] == want[1], lambda: f"{describe(step)} via {form}, called {args} {kwargs} {flags}: {got[1]!r}, not {want!r}", "behaviour")
        ctx.count("calls")


def decorate(form, target, step, n, loop, ctx, kept):
    f, rng = target.obj, h.rng_of(step["argseed"], form)
    verdicts, mode = target.verdicts, step["mode"]
    what = lambda: f"{describe(step)} via {form}"  # noqa: E731
    natural = "async" if asyncio.iscoroutinefunction(f) else "sync"
    if isinstance(f, ASyncFunction):
        natural = "sync"
    before = (dict(vars(f)), f.__doc__, f.__name__) if inspect.isfunction(f) else None
    dec = None
    if form in ("bare", "call", "default", "kw", "second", "pos", "raw", "modifiers"):
        if form == "bare":
            dec, expect = settle(lambda: a_sync.a_sync(f), verdicts, what), natural
        elif form == "call":
            dec, expect = settle(lambda: a_sync.a_sync()(f), verdicts, what), natural
        elif form == "default":
            dec, expect = settle(lambda: a_sync.a_sync(default=mode)(f), verdicts, what), mode
        elif form == "kw":
            dec, expect = settle(lambda: a_sync.a_sync(f, default=mode), verdicts, what), mode
        elif form == "second":
            dec, expect = settle(lambda: a_sync.a_sync(coro_fn=None, default=mode)(f), verdicts, what), mode
        elif form == "pos":
            dec, expect = settle(lambda: a_sync.a_sync(mode)(f), verdicts, what), mode
        elif form == "raw":
            dec, expect = settle(lambda: ASyncFunction(f, default=mode), verdicts, what), mode
        else:
            mods = {"semaphore": 3} if step["argseed"] % 2 else {"runs_per_minute": 6000}
            dec, expect = settle(lambda: a_sync.a_sync(default=mode, **mods)(f), verdicts, what), mode
        if dec is None:
            ctx.count("refused")
            return None
        ctx.count("accepted")
        check(isinstance(dec, ASyncFunction) and dec.__wrapped__ is f, lambda: f"{what()}: __wrapped__ is {dec.__wrapped__!r}", "metadata")
        if form not in ("bare", "call"):
            check(dec.default == mode, lambda: f"{what()}: default mode is {dec.default!r}, not {mode!r}", "behaviour")
        if target.plain is not None:
            check_meta(dec, target.plain, step, form)
        if target.call is not None and step["use"]:
            check_behaviour(dec, target, step, form, loop, expect, ctx, rng)
        kept.append((dec, target, step, form, expect))
    elif form == "descriptor":
        dec = settle(lambda: ASyncMethodDescriptor(f), verdicts, what)
        ctx.count("refused" if dec is None else "accepted")
        if dec is not None and target.plain is not None and not inspect.ismethod(f):
            check_meta(dec, target.plain, step, form)
    elif form in ("class", "subclass", "plain_class"):
        dec = in_class(form, target, step, n, loop, ctx, kept)
    else:
        # properties: a getter of exactly (self,), whose parameter may be called anything else
        getter = {**step, "params": [["pk", "sync" if collides(step) else "self_", False]], "kind": step["kind"]}
        g = make({**getter, "attrs": []}, f"p{n}")
        prop = a_sync_property if form == "property" else a_sync_cached_property
        v = verdict_of(getter)
        dec = settle(lambda: prop(g), v, lambda: f"{describe(getter)} via {form}")
        ctx.count("refused" if dec is None else "accepted")
        if dec is not None:
            check(dec.__wrapped__ is g and dec.__name__ == g.__name__ and dec.__module__ == g.__module__, lambda: f"{describe(getter)} via {form}: metadata {dec.__name__!r}", "metadata")
    if before is not None:
        check((dict(vars(f)), f.__doc__, f.__name__) == before, lambda: f"{what()}: decorating changed the function itself", "metadata")
    return dec


def in_class(form, target, step, n, loop, ctx, kept):
    """The function as a method of a class made for it."""
    name = f"m{n}"
    rng = h.rng_of(step["argseed"], form)
    f = make(step, name, method=True)
    v = verdict_of(step)
    if step["kind"] == "agen" and form != "plain_class":
        # async generator methods of ASync classes have their own wrapper, which takes any parameters
        v = ["ok"]
    instance_sync = step["mode"] == "sync"

    class Base(ASyncGenericBase):
        def __init__(self, sync):
            self.sync = sync
            super().__init__()

    what = lambda: f"{source(step, name, True).splitlines()[0]} as a method ({form})"  # noqa: E731
    if form == "plain_class":
        made = settle(lambda: type("P", (), {name: ASyncMethodDescriptor(f)}), v, what)
    elif form == "class":

        def init(self, sync):
            self.sync = sync
            ASyncGenericBase.__init__(self)

        made = settle(lambda: type("X", (ASyncGenericBase,), {"__init__": init, name: f, "__module__": "made_up_module"}), v, what)
    else:
        made = settle(lambda: type("X", (Base,), {name: f, "__module__": "made_up_module"}), v, what)
    ctx.count("refused" if made is None else "accepted")
    if made is None:
        return None
    inst = made() if form == "plain_class" else made(instance_sync)
    if step["kind"] == "agen":
        return made
    plain = make({**step, "attrs": []}, name)
    method = getattr(inst, name)
    for m in ("__name__", "__module__"):
        check(getattr(method, m) == getattr(f, m), lambda: f"{what()}: {m} is {getattr(method, m)!r}", "metadata")
    check(method.__wrapped__ is f, lambda: f"{what()}: wraps {method.__wrapped__!r}", "metadata")
    if step["use"]:
        # a method of an ordinary class has the mode of its own definition outside of a loop
        mode = None if form == "plain_class" else step["mode"]
        if mode == "async" and step["kind"] != "async":
            mode = None
        t = Target(plain, ["ok"], plain)
        check_behaviour(lambda *a, **k: getattr(inst, name)(*a, **k), t, step, form, loop, mode, ctx, rng)
    return made


def history(steps, ctx, tid, errors=None):
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    ids = {}
    kept = []
    try:
        for n, step in enumerate(steps):
            if step["junk"] is not None:
                junk = JUNK[step["junk"]]
                if step["form"] in ("bare", "kw") and junk is None:
                    pass
                elif step["form"] == "raw":
                    settle(lambda: ASyncFunction(junk), ["junk"], lambda: f"{junk!r}")
                elif step["form"] == "descriptor":
                    settle(lambda: ASyncMethodDescriptor(junk), ["junk"], lambda: f"{junk!r} as a descriptor")
                else:
                    settle(lambda: a_sync.a_sync(default="sync")(junk), ["junk"], lambda: f"{junk!r}")
                ctx.count("junk")
            if step["bad"] is not None:
                bad = BAD_MODIFIERS[step["bad"]]

                def attempt_bad():
                    def ok(x):
                        return x

                    return a_sync.a_sync(**bad)(ok)

                try:
                    attempt_bad()
                except (ValueError, TypeError):
                    pass
                else:
                    raise h.Violation(f"modifiers {bad} were accepted", "accepted")
                ctx.count("bad_modifiers")
            target = target_of(step, n, loop)
            v = tuple(target.verdicts)
            was = ids.get(id(target.obj))
            if was is not None and was != v:
                ctx.count("id_reused_for_another_verdict")
            elif was is not None:
                ctx.count("id_reused")
            ids[id(target.obj)] = v
            mine = []
            decorate(step["form"], target, step, n, loop, ctx, mine)
            if step["again"]:
                decorate(step["again"], target, step, n, loop, ctx, mine)
                ctx.count("decorated_again")
            if step["keep"]:
                kept.extend(mine)
            if kept and step["argseed"] % 3 == 0:
                dec, t, s, form, expect = kept[step["argseed"] % len(kept)]
                if t.call is not None:
                    check_behaviour(dec, t, s, form + " (later)", loop, expect, ctx, h.rng_of(step["argseed"]), 1)
                    ctx.count("used_later")
            ctx.count("decorations")
            if step["gc"]:
                del target, mine
                gc.collect()
    except BaseException as e:
        if errors is None:
            raise
        errors.append(e)
    finally:
        kept.clear()
        asyncio.set_event_loop(None)
        loop.run_until_complete(loop.shutdown_default_executor())
        loop.close()


def run(case, ctx):
    if case["threads"] == 1:
        history(case["steps"][0], ctx, 0)
    else:
        errors = []
        threads = [threading.Thread(target=history, args=(s, ctx, t, errors), daemon=True) for t, s in enumerate(case["steps"])]
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
            check(not t.is_alive(), "decorating never came to an end", "hang")
        ctx.count("concurrent_histories", len(threads))
        if errors:
            raise errors[0]
    ctx.nontrivial(case["steps"])
