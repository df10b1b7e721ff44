"""Queues keep label, identity and priority; the global and main queues are unique."""
from specs.api import *
from specs import api, nbk

PROPERTY = 'C22'
TUS = api.TUS + nbk.TUS


def verify(ctx):
    verify_queue_value(ctx)
    verify_globals(ctx)
    verify_exec(ctx)
    verify_queue(ctx, 'async', 'apply', 'after')
    nbk.verify_async(ctx)
    nbk.verify_pool(ctx)
    nbk.verify_created(ctx)
    nbk.verify_main(ctx)
