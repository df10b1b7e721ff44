"""Blocking inside an operation never starves the pool; the current pool is known to operations."""
from specs.pool import *
from specs import pool
from specs import grp
from specs.api import same

PROPERTY = 'C23'
DEPENDS = ['C05']
SCOPE = r'^(?!worker|execute\(|threadpool\()|worker: (operations run with|the pool of a running)'
TUS = pool.TUS + ['src/naive/naive_consumable.cpp']
ITP = N + 'ithreadpool'


def cnt_block(d):
    def h(ex, st, c):
        ex.event(st, 'BLOCKED' if d > 0 else 'UNBLOCKED', pool=c.args[0])
        return None
    return h


def run_op(ex, st, c):
    cur = current_pool(ex, st)
    ex.prove(st, isinstance(cur, Ptr) and cur.obj is st.g['pool'].obj, 'operations run with their pool as the current pool')
    ex.event(st, 'EXEC', op=c.args[0])
    s2 = st.fork()
    st.epoch += 1
    return Fork([(st, None), (s2, Throw({'type': '_ZTISt9exception', 'obj': Obj('exc', None, 'heap')}))])


def verify_scope(ctx):
    for have in (True, False):
        ex = ctx.executor([
            (r'^virtual xdispatch::naive::ithreadpool::notify_thread_blocked$', cnt_block(1)),
            (r'^virtual xdispatch::naive::ithreadpool::notify_thread_unblocked$', cnt_block(-1)),
        ])
        st = ctx.new_state()
        pl = sym_obj('pool', ITP) if have else NULL
        o = Obj('scope', ctx.prog.sizeof_cls(ITP + '::block_scope'), 'stack', ITP + '::block_scope')
        p = Ptr(o, 0)
        nm = 'block_scope' + ('' if have else ' (no pool)')
        fs = ctx.prog.search(r'^xdispatch::naive::ithreadpool::block_scope::block_scope\(xdispatch::naive::ithreadpool\*\)$')
        if not fs:
            raise Unsupported('block_scope constructor not found')
        f = fs[0] if not isinstance(fs[0], str) else ctx.prog.func(fs[0])
        for e in ctx.run(ex, nm, f, [p, pl], st):
            want = [('BLOCKED', pl.obj)] if have else []
            ex.prove(e, [(n, x['pool'].obj) for n, x in e.ev] == want, 'entering a blocking scope tells the pool exactly once')
            for x in ctx.run(ex, '~' + nm, ctx.prog.func(ITP + '::block_scope::~block_scope'), [p], e):
                want2 = want + ([('UNBLOCKED', pl.obj)] if have else [])
                ex.prove(x, [(n, y['pool'].obj) for n, y in x.ev] == want2, 'leaving a blocking scope tells the same pool exactly once')


def verify_run_with(ctx):
    ex = ctx.executor([(r'^virtual xdispatch::operation::operator\(\)$', run_op)])
    st = ctx.new_state()
    p1, p2 = sym_obj('outer', ITP), sym_obj('pool', ITP)
    op = sym_obj('op', OP)
    op2 = sym_obj('op2', OP)
    st.g['pool'] = p2
    f = ctx.prog.func(ITP + '::run_with_threadpool')
    st, before = outer_pool(ex, st)
    for e in ctx.run(ex, 'run_with_threadpool', f, [op, p2], st, allow_exc=True):
        ex.prove(e, count_events(e, 'EXEC') == 1, 'the operation runs exactly once')
        cur = current_pool(ex, e)
        ex.prove(e, isinstance(cur, Ptr) and same(cur, before), 'the current pool is restored afterwards')


def verify(ctx):
    verify_blocked(ctx)
    verify_scope(ctx)
    verify_run_with(ctx)
    verify_worker_only(ctx)
    grp.verify_consumable(ctx)
