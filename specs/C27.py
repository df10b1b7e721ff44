"""Destroying a thread pool: workers are cancelled and woken, nothing terminates."""
from specs.pool import *

PROPERTY = 'C27'
DEPENDS = ['C05']
SCOPE = r'~threadpool|~worker|worker: (a worker that keeps|no std::terminate|a worker that ends|an operation in hand|no exception|a worker ends|the pool of a running|a worker touches|a worker stops|operations run with)'


def verify(ctx):
    verify_destroy(ctx)
    verify_worker(ctx, verify_execute(ctx))
    verify_worker_gone(ctx)
