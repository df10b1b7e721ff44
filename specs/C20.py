"""Objects of different backends are never combined silently."""
from specs.api import *
from specs import api, nbk

PROPERTY = 'C20'
TUS = api.TUS + nbk.TUS + ['src/naive/naive_timer.cpp', 'src/naive/naive_socket_notifier.cpp', 'src/qt5/qt5_timer.cpp', 'src/qt5/qt5_socket_notifier.cpp', 'src/naive/naive_group.cpp', 'src/cancelable.cpp', 'src/lightweight_barrier.cpp', 'src/naive/naive_consumable.cpp', 'src/qt5/qt5_serial_queue.cpp']


def verify(ctx):
    verify_wrap(ctx, X + 'timer', IT)
    verify_wrap(ctx, X + 'socket_notifier', IS)
    verify_timer_make(ctx)
    verify_notifier_make(ctx)
    verify_target(ctx)
    verify_group_made(ctx)
    verify_for_type(ctx)
    verify_group_mix(ctx)
    nbk.verify_qt5_create(ctx)
    nbk.verify_backend_of(ctx)
