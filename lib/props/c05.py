"""Singleton classes: one instance per mode and class, whoever asks first."""
import asyncio
import gc
import sys
import threading
import time

import a_sync

import cls_common as K
import dual_common as D
from h import Boom, BoomBase, Violation, check, boom

STYLES = ["init_default", "kwonly", "attr_sync", "attr_asynchronous", "init_sync", "init_asynchronous", "second"]
FLAGS = [None, None, ["sync", True], ["sync", False], ["asynchronous", True], ["asynchronous", False]]


def gen(rng, i, tier):
    style = rng.choice(STYLES)
    depth = rng.choice([1, 2, 3])
    big = tier != "quick"
    def construct():
        return {
            "cls": rng.randrange(depth),
            "flag": rng.choice(FLAGS),
            "delay": rng.choice([0, 0, 0, 1, 3]),
            "positional": rng.random() < 0.3,
        }
    rounds = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice([1, 2, 4, 8])
        rounds.append(
            {
                "how": rng.choice(["threads", "threads", "tasks", "mixed"]),
                "actors": [[construct() for _ in range(rng.choice([1, 2, 3] if not big else [2, 4, 8]))] for _ in range(k)],
            }
        )
    return {
        "style": style,
        "default": rng.random() < 0.5,
        "depth": depth,
        "own_init": [rng.random() < 0.4 for _ in range(depth)],
        "parents": [-1] + [rng.randrange(-1, d) for d in range(1, depth)],
        "fail": [rng.choice([0, 0, 0, 1, 2]) for _ in range(depth * 2)],
        "fail_base": rng.random() < 0.2,
        "slow": rng.choice([0, 0, 0.0005, 0.002]),
        "other": [rng.choice([False, False, False, True]) for _ in range(depth)],
        "falsy": rng.random() < 0.3,
        "rounds": rounds,
    }


def run(case, ctx):
    style, default = case["style"], case["default"]
    made = []  # (class, mode, id) per finished constructor body
    started = []
    fails = dict(enumerate(case["fail"]))
    failures = []
    lock = threading.Lock()
    built = {}

    class Base(a_sync.ASyncGenericSingleton):
        def __init__(self):
            super().__init__()
            with lock:
                started.append(type(self))
            if case["slow"]:
                time.sleep(case["slow"])
            mode = self.__a_sync_flag_value__ if self.__a_sync_flag_name__ == "sync" else not self.__a_sync_flag_value__
            k = built.get(type(self))
            with lock:
                left = fails.get(k * 2 + mode, 0)
                if left:
                    fails[k * 2 + mode] = left - 1
                    e = (BoomBase if case["fail_base"] else boom)((k, mode, left))
                    failures.append(e)
                    raise e
            if case["other"][k] and not getattr(local, "inside", False) and style not in ("attr_sync", "attr_asynchronous"):
                # a constructor that needs the singleton of the other mode
                local.inside = True
                try:
                    self.other = type(self)(sync=not mode) if "asyn" not in style and style != "kwonly" else type(self)(asynchronous=mode)
                finally:
                    local.inside = False
            with lock:
                made.append((type(self), mode))

        if case["falsy"]:

            def __bool__(self):
                return False

            def __len__(self):
                return 0

        async def who(self, x):
            await asyncio.sleep(0)
            return (self, x)

    local = threading.local()
    root = type("Root", (Base,), dict(init_of(style, default)))
    classes = []
    for d in range(case["depth"]):
        parent = root if case["parents"][d] < 0 else classes[case["parents"][d]]
        ns = init_of(style, default) if case["own_init"][d] else {}
        cls = type(f"S{d}", (parent,), ns)
        built[cls] = d
        classes.append(cls)

    def construct(op):
        """One construction; returns (class index, mode, object or exception)."""
        flag = op["flag"]
        if style in ("attr_sync", "attr_asynchronous"):
            flag = None
        elif style in ("init_default", "init_sync", "second"):
            flag = flag and ["sync", D.wants_sync(flag, None, True)]
        else:
            flag = flag and ["asynchronous", not D.wants_sync(flag, None, True)]
        if flag is None and style in ("init_sync", "init_asynchronous"):
            flag = ["sync", default] if style == "init_sync" else ["asynchronous", not default]
        mode = D.wants_sync(flag, None, True) if flag else default
        if op["delay"]:
            time.sleep(op["delay"] / 5000)
        try:
            cls = classes[op["cls"]]
            if flag and op.get("positional") and style in ("init_default", "init_asynchronous", "second"):
                ctx.count("positional_flags")
                return op["cls"], mode, cls("tag", flag[1]) if style == "second" else cls(flag[1])
            return op["cls"], mode, cls(**({flag[0]: flag[1]} if flag else {}))
        except (Boom, BoomBase) as e:
            return op["cls"], mode, e

    seen = {}
    sigs = []
    for rd in case["rounds"]:
        out = []

        def actor(ops, barrier=None):
            if barrier:
                barrier.wait()
            for op in ops:
                out.append(construct(op))

        if rd["how"] == "tasks":

            async def main():
                async def one(ops):
                    for op in ops:
                        await asyncio.sleep(0)
                        out.append(construct(op))

                await asyncio.gather(*[one(ops) for ops in rd["actors"]])

            asyncio.run(main())
        else:
            barrier = threading.Barrier(len(rd["actors"]))
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            errors = []

            def body(ops, n):
                try:
                    if rd["how"] == "mixed" and n % 2:

                        async def main():
                            barrier.wait()
                            for op in ops:
                                await asyncio.sleep(0)
                                out.append(construct(op))

                        asyncio.run(main())
                    else:
                        actor(ops, barrier)
                except BaseException as e:
                    errors.append(e)
                finally:
                    D.drop_loop()

            ts = [threading.Thread(target=body, args=(ops, n), daemon=True) for n, ops in enumerate(rd["actors"])]
            try:
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(20)
                    check(not t.is_alive(), "constructing a singleton never ended", "deadlock")
            finally:
                sys.setswitchinterval(old)
            if errors:
                raise errors[0]
        for k, mode, x in out:
            if isinstance(x, (Boom, BoomBase)):
                check(any(x is f for f in failures), f"constructing S{k} raised {x!r}", "failure")
                ctx.count("failed")
                continue
            check(type(x) is classes[k], lambda: f"constructing S{k} gave {x!r}", "class")
            first = seen.setdefault((k, mode), x)
            check(x is first, f"two {'sync' if mode else 'async'} instances of S{k}", "two")
            check(x.sync == mode if hasattr(x, "sync") else x.asynchronous != mode, f"S{k} in {'sync' if mode else 'async'} mode gave an instance of the other mode", "mode")
            ctx.count("constructions")
        sigs.append((rd["how"], [(k, m) for k, m, _ in out]))
        if rd["how"] != "tasks" and len(rd["actors"]) > 1:
            ctx.count("threaded_rounds")
    for n, cls in enumerate(classes):
        for mode in (True, False):
            runs = made.count((cls, mode))
            check(runs <= 1, f"the constructor of S{n} ran {runs} times to the end in {'sync' if mode else 'async'} mode", "once")
            if (n, mode) in seen:
                check(runs == 1, f"an instance of S{n} appeared though its constructor ended {runs} times", "half-built")
                ctx.count("instances")
    objs = list(seen.values())
    check(len({id(o) for o in objs}) == len(objs), "two classes or modes share an instance", "shared")
    for (k, mode), o in seen.items():
        if hasattr(o, "other"):
            check(o.other is not o and type(o.other) is type(o), "other", "other")
            x = seen.get((k, not mode))
            check(x is None or o.other is x, f"a constructor of S{k} got a different instance of the other mode", "two")
            ctx.count("nested")
        # the singleton works
        got = o.who(4) if mode else asyncio.run(o.who(4))
        check(got[0] is o and got[1] == 4, lambda: f"calling a method of {o!r} gave {got!r}", "method")
    D.drop_loop()
    ctx.nontrivial(style, sigs, case["fail"])
    ctx.sample({"style": style, "rounds": [repr(s) for s in sigs]})


def init_of(style, default):
    if style == "init_default":

        def __init__(self, sync=default):
            self.sync = sync
            super_init(self)

    elif style == "init_sync":

        def __init__(self, *, sync=default):
            self.sync = sync
            super_init(self)

    elif style == "kwonly":

        def __init__(self, *, asynchronous=not default):
            self.asynchronous = asynchronous
            super_init(self)

    elif style == "init_asynchronous":

        def __init__(self, asynchronous=not default):
            self.asynchronous = asynchronous
            super_init(self)

    elif style == "second":

        def __init__(self, tag=None, sync=default):
            self.sync = sync
            super_init(self)

    elif style == "attr_sync":
        return {"sync": default}
    else:
        return {"asynchronous": not default}
    return {"__init__": __init__}


def super_init(self):
    for c in type(self).__mro__:
        if c.__name__ == "Base":
            return c.__init__(self)
