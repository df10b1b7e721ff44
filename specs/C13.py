"""Socket notifier: suspend and cancel stop it."""
from specs.ntf import *
from specs import ntf
from specs import api

PROPERTY = 'C13'
DEPENDS = ['C09']
TUS = ntf.TUS


def verify(ctx):
    verify_control(ctx)
    verify_resume(ctx)
    api.verify_notifier_stop(ctx)
