"""waitable_queue: FIFO, exactly once, waiting for one or all never misses or blocks on nothing."""
from specs.wtq import *
from specs import wtq

PROPERTY = 'C14'
TUS = wtq.TUS


def verify(ctx):
    verify_async(ctx)
    verify_drain(ctx)
    verify_wait(ctx)
    verify_apply(ctx)
    verify_public(ctx)
