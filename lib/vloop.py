"""Virtual-time asyncio loop with exact quiescence detection.

The loop is the stock selector loop: callbacks run in FIFO order, as asyncio promises, so it produces only
interleavings the real loop can produce.  Two things differ: time() is a virtual clock that jumps to the next
timer when nothing is ready, and when nothing is ready, no timer is armed and no I/O or worker thread could
still produce a callback, the run is *quiescent*: whatever has not finished by then can never finish.
"""

import asyncio
import heapq
import itertools
import selectors


class Quiescent(Exception):
    """Nothing can ever run again although the main coroutine has not finished."""


class StepLimit(Exception):
    """The run used more loop iterations than the workload can need (livelock guard); inconclusive by default."""


class StableTimer(asyncio.TimerHandle):
    """Timers due at the same moment fire in the order they were set, whatever else is in the heap."""

    __slots__ = ("seq",)
    count = itertools.count()

    def __lt__(self, other):
        return (self._when, self.seq) < (other._when, other.seq)


class VirtualLoop(asyncio.SelectorEventLoop):
    stable = False
    tick = None
    created = []  # called with every new loop
    disposing = []  # called with every loop whose workload has ended

    def __init__(self, max_steps=200000):
        super().__init__(selectors.SelectSelector())
        self._vnow = 1000.0
        self.steps = 0
        self.max_steps = max_steps
        self.external = 0  # work that outside threads still owe us
        self.unhandled = []
        self.on_idle = []  # called whenever nothing is ready, before time moves (or the run is quiescent)
        self.idles = 0
        self.set_exception_handler(self._on_unhandled)
        real_select = self._selector.select
        loop = self

        def select(timeout=None):
            loop.steps += 1
            if loop.tick is not None:
                loop.tick()
            if loop.steps > loop.max_steps:
                raise StepLimit(f"{loop.steps} loop iterations")
            events = real_select(0)
            if events or timeout == 0:
                return events
            if loop.external:
                # a worker thread owes us a callback; virtual time stands still meanwhile
                return real_select(0.05)
            if loop._ready:
                return events
            loop.idles += 1
            for fn in loop.on_idle:
                fn()
            if loop._ready:
                return events
            if timeout is None:
                raise Quiescent()
            # jump to the next timer
            loop._vnow += timeout
            return events

        self._selector.select = select
        for fn in self.created:
            fn(self)

    def time(self):
        return self._vnow

    def call_at(self, when, callback, *args, context=None):
        if not self.stable:
            return super().call_at(when, callback, *args, context=context)
        self._check_closed()
        timer = StableTimer(when, callback, args, self, context)
        timer.seq = next(StableTimer.count)
        heapq.heappush(self._scheduled, timer)
        timer._scheduled = True
        return timer

    def _on_unhandled(self, loop, context):
        self.unhandled.append(context)


def vrun(main, max_steps=200000, keep_pending=False, external=None):
    """Runs the coroutine function `main` on a fresh VirtualLoop and returns (result, loop).

    Raises Quiescent / StepLimit; the loop is disposed of either way."""
    loop = VirtualLoop(max_steps)
    asyncio.set_event_loop(loop)
    try:
        result = loop.run_until_complete(main())
        return result, loop
    finally:
        dispose(loop)


def dispose(loop):
    for fn in loop.disposing:
        fn(loop)
    loop.max_steps = loop.steps + 20000
    try:
        for _ in range(5):
            pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
            if not pending:
                break
            for t in pending:
                t.cancel()
            try:
                loop.run_until_complete(asyncio.wait(pending, timeout=1))
            except BaseException:
                pass
    finally:
        asyncio.set_event_loop(None)
        try:
            loop.close()
        except BaseException:
            pass
