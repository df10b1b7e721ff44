"""Timer: cancel and suspend stop it."""
from specs.tmr import *
from specs import tmr
from specs import api

PROPERTY = 'C11'
DEPENDS = ['C09']
TUS = tmr.TUS


def verify(ctx):
    verify_control(ctx)
    verify_resume(ctx)
    api.verify_timer_stop(ctx)
