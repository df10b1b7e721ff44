"""signals: delivery"""
from specs import sig
from specs.sig import TUS

PROPERTY = 'C15'
DEPENDS = ['C09']


def verify(ctx):
    sig.verify_emit(ctx)
    sig.verify_connect(ctx)
