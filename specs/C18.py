"""signal_barrier"""
from specs import sbar
from specs.sbar import TUS

PROPERTY = 'C18'
DEPENDS = ['C06']


def verify(ctx):
    sbar.verify(ctx)
