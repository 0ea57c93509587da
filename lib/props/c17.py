"""ProcessingQueue."""
from a_sync.primitives import ProcessingQueue

import queue_common as Q


def gen(rng, i, tier):
    return Q.gen(rng, i, tier)


def make(func, workers, return_data, name):
    return ProcessingQueue(func, workers, return_data=return_data, name=name)


def run(case, ctx):
    Q.run(case, ctx, make, lambda pending: min(pending, key=pending.get))
