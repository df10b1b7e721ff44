"""Timer: never early, once per period, on the target queue, single shot without interval."""
from specs.tmr import *
from specs import tmr
from specs import api

PROPERTY = 'C10'
DEPENDS = ['C09']
TUS = tmr.TUS + ['src/backend.cpp']


def verify(ctx):
    verify_resume(ctx)
    verify_config(ctx)
    api.verify_timer(ctx)
    api.verify_timer_make(ctx)
