"""Serial queue: operations run one at a time, in submission order."""
from specs.opq import *

PROPERTY = 'C02'


def verify(ctx):
    verify_async(ctx)
    verify_drain(ctx)
