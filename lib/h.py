"""Shared pieces of the scenario modules: verdict types, the run context, small helpers."""

import asyncio
import collections
import hashlib
import json
import random
import zlib


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, msg, mech="property", **detail):
        super().__init__(msg)
        self.msg = msg
        self.mech = mech
        self.detail = detail


class Inconclusive(Exception):
    """This execution decides nothing (the harness could not observe what it needed)."""


def check(cond, msg, mech="property", **detail):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, mech, **detail)


class Ctx:
    """What the monitors observed."""

    def __init__(self):
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.tier = "quick"

    def count(self, name, n=1):
        self.counters[name] += n

    def nontrivial(self, *sig):
        """Marks the current execution as distinct (by `sig`) and non-trivial."""
        self.sigs.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest())

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            try:
                json.dumps(obj)
            except TypeError:
                obj = repr(obj)
            self.samples.append(obj)


def rng_of(*parts):
    return random.Random(":".join(map(str, parts)))


def big(rng, n, top=1100):
    """N, and now and then a size far above it: thresholds in the code show only beyond them."""
    r = rng.random()
    return n if r > 0.004 else rng.choice([17, 33, 40, 65, 70, 101, 130, 257, 300]) if r > 0.0004 else top


def same(a, b):
    """Equality that tells apart 1, True and 1.0 and tolerates NaN."""
    return type(a) is type(b) and (a == b or a != a and b != b)


class Boom(Exception):
    """Raised by generated bodies; identified by its payload."""

    def __init__(self, tag):
        super().__init__(tag)
        self.tag = tag


def _kinds():
    def kind(base):
        return type(f"Boom{base.__name__}", (Boom, base), {"__module__": __name__})

    bases = (TypeError, RuntimeError, KeyError, ValueError, AttributeError, IndexError, OSError, TimeoutError, NotImplementedError, AssertionError, RecursionError)
    bases += (asyncio.InvalidStateError, asyncio.QueueEmpty, ImportError, ArithmeticError)
    return [Boom] + [kind(b) for b in bases]


class BoomTwo(Boom):
    """Cannot be made from its own args."""

    def __init__(self, tag, other):
        super().__init__(tag)
        self.other = other

    def __reduce__(self):
        return type(self), (self.tag, self.other)


KINDS = _kinds()
for _k in KINDS[1:]:
    globals()[_k.__name__] = _k


def boom(tag):
    """A Boom that is also one of the builtin exceptions, which one depends on the tag."""
    n = zlib.crc32(repr(tag).encode()) % (len(KINDS) + 3)
    return KINDS[n](tag) if n < len(KINDS) else BoomTwo(tag, n) if n == len(KINDS) else Boom(tag)


class BoomBase(BaseException):
    def __init__(self, tag):
        super().__init__(tag)
        self.tag = tag


async def spin(n):
    for _ in range(n):
        await asyncio.sleep(0)


async def outcome(aw):
    """Awaits and describes the outcome, cancellation included."""
    try:
        return ("ok", await aw)
    except asyncio.CancelledError:
        return ("cancelled", None)
    except Exception as e:
        return ("err", e)
    except BoomBase as e:
        return ("err", e)
