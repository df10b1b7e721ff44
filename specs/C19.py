"""after(): runs exactly once, not early, on its queue, and leaves nothing behind."""
from specs.aft import *
from specs import aft, tmr, api

PROPERTY = 'C19'
DEPENDS = ['C11']
TUS = sorted(set(aft.TUS + tmr.TUS))


def verify(ctx):
    verify_after(ctx)
    verify_dispatch(ctx)
    api.verify_queue(ctx, 'after')
    tmr.verify_resume(ctx)
