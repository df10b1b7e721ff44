"""signals: disconnecting"""
from specs import sig
from specs.sig import TUS

PROPERTY = 'C17'
DEPENDS = ['C09']
# of an emission only what keeps disconnected handlers from being called
SCOPE = r'^(?!emit|emit \(with group\))|cancelable scope|disconnected handler is not called|only an entered handler is called|no lock is held while|no data race'


def verify(ctx):
    sig.verify_disconnect(ctx)
    sig.verify_connection(ctx)
    sig.verify_destroy(ctx)
    sig.verify_scoped(ctx)
    sig.verify_manager(ctx)
    sig.verify_emit(ctx)
