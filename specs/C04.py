"""Priorities: the mapping of queue priorities, and higher priorities first."""
from specs.pool import *
from specs import pool, C21

PROPERTY = 'C04'
TUS = pool.TUS + ['src/thread_utils.cpp', 'src/naive/naive_manual_thread.cpp']
SCOPE = r'priorit|bucket|nice|existing|terminate|permits|exception'
U = 'xdispatch::thread_utils::'


def verify_nice(ctx):
    prios = enum_values(ctx, 'queue_priority')
    ex = ctx.executor([
        (r'^getpriority$', lambda ex, st, c: nice_base(ex, st, c)),
        (r'^setpriority$', setprio), (r'^syscall$', lambda ex, st, c: tid(ex, st, c)),
        (r'^__errno_location$', lambda ex, st, c: Ptr(Obj('errno', 4, 'sym'), 0)),
    ])
    res = {}
    st0 = ctx.new_state()
    base = z3.BitVec('nice_base', 32)
    st0.assume(z3.And(base >= -20, base <= 19))
    st0.g['_base'] = base
    f = ctx.prog.func(U + 'set_current_thread_priority')
    for nm, val in sorted(prios.items()):
        for e in ctx.run(ex, 'set_current_thread_priority(%s)' % nm, f, [val], st0.fork()):
            s = [x for k, x in e.ev if k == 'SETPRIO']
            ex.prove(e, len(s) == 1, 'the priority of a thread is set exactly once')
            if len(s) == 1:
                ex.prove(e, bv(s[0]['who'], 32) == e.g['_tid'], 'only the priority of the calling thread is set')
                ex.prove(e, bv(s[0]['which'], 32) == 0, 'only the priority of the calling thread is set')
                n = bv(s[0]['nice'], 32)
                ex.prove(e, n >= base, 'a thread priority never exceeds the one the process was started with')
                res[nm] = z3.simplify(n - base)
                st = e
    order = ['USER_INTERACTIVE', 'USER_INITIATED', 'DEFAULT', 'UTILITY', 'BACKGROUND']
    for a, b in zip(order, order[1:]):
        if a in res and b in res:
            ex.root = 'priorities'
            ex.prove(st, res[a] <= res[b], 'a higher priority never gets a worse nice level than a lower one', a + ' vs ' + b)
    if 'USER_INTERACTIVE' in res and 'BACKGROUND' in res:
        ex.prove(st, res['USER_INTERACTIVE'] < res['BACKGROUND'], 'background threads are nicer than interactive ones')


def nice_base(ex, st, c):
    st.epoch += 1
    return st.g['_base']


def tid(ex, st, c):
    t = st.g.get('_tid')
    if t is None:
        t = st.g['_tid'] = fresh(32, 'tid')
    return z3.SignExt(32, t) if c.ret == ity(64) else t


def setprio(ex, st, c):
    ex.event(st, 'SETPRIO', which=c.args[0], who=c.args[1], nice=c.args[2])
    st.epoch += 1
    return fresh(32, 'err')


def verify(ctx):
    verify_worker(ctx, verify_execute(ctx))
    verify_nice(ctx)
    C21.verify_run(ctx)
