"""Debug logging on and off: the workloads of the other checks, each case played with and without, must agree.

A case of another check is run with logging off, then with every logger of the library at DEBUG and a handler that
formats each record (which runs the library's reprs and debug daemons).  Its own oracle must be satisfied both times and the trace
it signs (orders of wake-ups, grants, starts, outcomes) must be the same.  A difference counts only if it is
repeated: off, on, off, on."""

import asyncio
import collections
import copy
import importlib
import logging
import os

import h
from a_sync import ENVIRONMENT_VARIABLES
from a_sync.a_sync import _meta
import vloop
from h import Inconclusive, Violation, check

vloop.VirtualLoop.stable = True  # the debug daemons' own timers must not decide ties between the others
ORIGINAL_MODE = ENVIRONMENT_VARIABLES.DEBUG_MODE


class Sink(logging.Handler):
    """Formats every record as a stream handler would; a failure to do so is remembered, as that one would print it."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.seen = collections.Counter()
        self.failed = []

    def emit(self, record):
        if record.levelno > logging.DEBUG:
            return
        self.seen[record.msg if isinstance(record.msg, str) else type(record.msg).__name__] += 1
        try:
            record.getMessage()
        except RecursionError:
            raise
        except Exception as e:
            self.failed.append((record.name, record.msg, repr(e)))


SINK = Sink()
THREADED = {"props." + m for m in ("c02", "c03", "c04", "c04b", "c05", "c06", "c07", "c08", "c10", "c12", "c20", "c21", "c23", "c24", "c26", "c31")}
logging.getLogger().addHandler(logging.NullHandler())  # instead of the handler of last resort


class debugging:
    def __init__(self, on, mode=False, flip=0):
        self.on, self.mode, self.flip, self.n = on, mode, flip, 0

    def tick(self):
        """Every so many steps of the event loop the level is changed."""
        self.n += 1
        if self.n % self.flip == 0:
            logging.getLogger("a_sync").setLevel(logging.DEBUG if self.n // self.flip % 2 else logging.WARNING)

    def __enter__(self):
        root = logging.getLogger()
        root.setLevel(logging.DEBUG if self.on else logging.WARNING)
        lib = logging.getLogger("a_sync")
        lib.setLevel(logging.DEBUG if self.on else logging.WARNING)
        if self.on:
            root.addHandler(SINK)
        else:
            root.removeHandler(SINK)
        # the switch is read whenever a class is defined
        ENVIRONMENT_VARIABLES.DEBUG_MODE = bool(self.on and self.mode)
        vloop.VirtualLoop.tick = self.tick if self.on and self.flip else None
        _meta._debug_handler.setStream(open(os.devnull, "w")) if self.on and self.mode else None

    def __exit__(self, *exc):
        vloop.VirtualLoop.tick = None
        root = logging.getLogger()
        root.setLevel(logging.WARNING)
        root.removeHandler(SINK)
        logging.getLogger("a_sync").setLevel(logging.WARNING)
        ENVIRONMENT_VARIABLES.DEBUG_MODE = ORIGINAL_MODE


def mods(ctx=None):
    return (ctx.job if ctx is not None else {}).get("params", {}).get("mods") or ["c11", "c14"]


def gen(rng, i, tier):
    # which workload is decided by the shard (see run): the seed makes the case
    return {"seed": rng.randrange(2**60), "i": i, "mode": rng.random() < 0.4, "mod": None, "flip": rng.choice([0, 0, 1, 3, 10, 50])}


def observe(mod, case, ctx, on, mode, flip=0):
    sub = h.Ctx()
    sub.tier, sub.job = ctx.tier, ctx.job
    del SINK.failed[:]
    with debugging(on, mode, flip):
        try:
            mod.run(copy.deepcopy(case), sub)
            # threads and sets of tasks may come in another order without anybody's fault
            out = ("ok", sorted(sub.sigs) if mod.__name__ not in THREADED else None)
        except Inconclusive:
            out = ("inconclusive",)
        except Violation as e:
            out = ("violation", e.mech, e.msg)
        except (MemoryError, OSError, SystemExit, KeyboardInterrupt):
            raise
        except BaseException as e:
            out = ("ended", type(e).__name__, str(e)[:200])
    if on and SINK.failed:
        out = ("report failed", *SINK.failed[0])
    if on:
        for k, v in sub.counters.items():
            if k in ("calls", "grants", "woken", "delivered", "jobs", "cancelled", "grants", "yielded"):
                ctx.count("with_logs_" + k, v)
    return out


def run(case, ctx):
    names = mods(ctx)
    name = case["mod"] or names[case["i"] // max(1, ctx.job.get("step", 1)) % len(names)]
    case["mod"] = name  # a replay plays the same workload
    mod = importlib.import_module("props." + name)
    inner = mod.gen(h.rng_of("c34d", name, case["seed"]), case["i"], ctx.tier)
    before = sum(SINK.seen.values())
    off = observe(mod, inner, ctx, False, False)
    if off[0] != "ok":
        raise Inconclusive("the case does not pass without logging")
    on = observe(mod, inner, ctx, True, case["mode"], case["flip"])
    records = sum(SINK.seen.values()) - before
    ctx.count("records", records)
    ctx.count("cases_" + name)
    ctx.counters["sites"] = max(ctx.counters["sites"], len(SINK.seen))
    if records:
        ctx.count("cases_with_records")
        ctx.nontrivial(name, off, records)
    if on == off:
        return
    if on[0] == "inconclusive":
        raise Inconclusive("only decided without logging")
    again = observe(mod, inner, ctx, False, False), observe(mod, inner, ctx, True, case["mode"], case["flip"])
    if again[0] != off or again[1] != on:
        raise Inconclusive("not the same twice")
    check(on[0] != "report failed", lambda: f"{name}: a debug report could not be made: {on}")
    check(False, lambda: f"{name}: with debug logging {on}, without {off}")
