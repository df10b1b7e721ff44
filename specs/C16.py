"""signals: batching and skipping"""
from specs import sig
from specs.sig import TUS

PROPERTY = 'C16'


def verify(ctx):
    sig.verify_emit(ctx)
    sig.verify_skip(ctx)
