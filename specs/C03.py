"""Thread pool: every operation runs exactly once and none is stranded."""
from specs.pool import *
from specs import api, nbk
from specs import pool as base

PROPERTY = 'C03'
DEPENDS = ['C05']
TUS = base.TUS + ['src/queue.cpp', 'src/naive/naive_parallel_queue.cpp']


def verify(ctx):
    verify_worker(ctx, verify_execute(ctx))
    nbk.verify_async(ctx)
    api.verify_queue(ctx, 'async')
