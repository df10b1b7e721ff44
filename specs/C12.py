"""Socket notifier: invoked for readiness only, on the target queue, with its socket and type."""
from specs.ntf import *
from specs import ntf
from specs import api

PROPERTY = 'C12'
DEPENDS = ['C09']
TUS = ntf.TUS + ['src/backend.cpp']


def verify(ctx):
    verify_resume(ctx)
    verify_config(ctx)
    verify_control(ctx)
    api.verify_notifier(ctx)
    api.verify_notifier_make(ctx)
