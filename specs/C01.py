"""Serial queue: each accepted operation runs exactly once, also when the queue is dropped."""
from specs.opq import *
from specs import api
from specs import opq as base

PROPERTY = 'C01'
DEPENDS = ['C03', 'C05']
TUS = base.TUS + ['src/queue.cpp']


def verify(ctx):
    verify_async(ctx)
    verify_drain(ctx)
    verify_detach(ctx)
    api.verify_queue(ctx, 'async')
