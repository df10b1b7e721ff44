"""queue::apply(n, op): every index exactly once, and apply returns only when all are done."""
from specs.grp import *
from specs import grp
from specs import api
from specs import wtq

PROPERTY = 'C07'
DEPENDS = ['C06']
TUS = grp.TUS + ['src/naive/naive_parallel_queue.cpp', 'src/naive/naive_serial_queue.cpp', 'src/naive/naive_operation_queue.cpp', 'src/queue.cpp', 'src/waitable_queue.cpp']
PQ = N + 'parallel_queue_impl'


def async_contract(ex, st, c):
    """contract of async (C01 / C03): accepts the operation and runs it exactly once"""
    return submitted(ex, st, c.args[0], sp_get(ex, st, c.args[1]), None)


def pool_contract(ex, st, c):
    return submitted(ex, st, c.args[0], sp_get(ex, st, c.args[1]), c.args[2])


def submitted(ex, st, target, op, prio):
    g = st.g
    n = g['nsub']
    ok = op.obj is not None and op.obj.kind == 'heap'
    ex.prove(st, ok, 'apply submits freshly made operations')
    if ok:
        ex.prove(st, bv64(fget(ex, st, op, APPLY, 'm_index')) == bv64(n), 'apply: indices are submitted in order, each exactly once')
        ex.prove(st, fget(ex, st, op, APPLY, 'm_op', 'ptr').obj is g['_op'].obj, 'apply: every index runs the given operation')
        k = fget(ex, st, op, APPLY, 'm_consumable', 'ptr')
        ex.prove(st, k.obj is not None and (g.get('_k') is None or g['_k'] is k.obj), 'apply: all indices report to the same consumable')
        g['_k'] = k.obj
    if prio is not None:
        ex.prove(st, bv(prio, 32) == g['prio'], 'apply: operations run at the priority of the queue')
        ex.prove(st, target.obj is g['pool'].obj, 'apply: operations run on the pool of the queue')
    else:
        ex.prove(st, target.obj in g['q'], 'apply: operations run on this queue')
    g['nsub'] = zsimp(bv64(n) + 1)
    return None


def kctor(ex, st, c):
    st.g['_made'] = st.g.get('_made', []) + [(c.args[0].obj, c.args[1])]
    return None


def verify_apply(ctx, what, cls, mk):
    cs = OPS + CONTRACT_K + [(r'^xdispatch::naive::consumable::consumable\(', kctor), (r'^xdispatch::naive::consumable::~consumable\(', lambda ex, st, c: None),
          (r'^virtual xdispatch::naive::ithreadpool::execute$', pool_contract)]
    if cls is S:
        cs = cs + [(r'^xdispatch::naive::serial_queue_impl::async\(', async_contract),
                   (r'^xdispatch::naive::operation_queue::async\(', async_contract)]
    ex = kexec(ctx, cs)
    st, p = mk(ctx, ex)
    n = z3.BitVec('times', 64)
    op, slot = new_sp(st, 'op', IOP)
    st.g.update({'nsub': z3.BitVecVal(0, 64), '_op': op})
    st.ev = []
    for e in ctx.run(ex, what, cls + '::apply', [p, n, slot], st):
        g = e.g
        ex.prove(e, bv64(g['nsub']) == n, 'apply: every index is submitted exactly once')
        w = [x[1] for x in e.ev if x[0] == 'WAIT']
        ex.prove(e, len(w) == 1 and ex.valid(e, bv64(w[0]['timeout']) == -1), 'apply: waits for completion without timeout')
        m = g.get('_made', [])
        ex.prove(e, len(m) == 1 and ex.valid(e, bv64(m[0][1]) == n), 'apply: waits for as many operations as were submitted')
        if len(w) == 1 and len(m) == 1:
            ex.prove(e, w[0]['on'].obj is m[0][0] and g.get('_k', m[0][0]) is m[0][0], 'apply: waits for exactly the operations it submitted')


def mk_parallel(ctx, ex):
    st = ctx.new_state()
    pool, pslot = new_sp(st, 'pool', TP)
    prio, bk = z3.BitVec('priority', 32), z3.BitVec('backend', 32)
    ex.root = 'parallel_queue_impl()'
    r, p = new_object(ctx, ex, st, PQ, ctx.prog.func(PQ + '::parallel_queue_impl'), [pslot, prio, bk])
    e = [x for x in r if ex.feasible(x[0])][0][0]
    e.g.update({'prio': prio, 'pool': pool})
    return e, p


def mk_serial(ctx, ex):
    st = ctx.new_state()
    pool, pslot = new_sp(st, 'pool', TP)
    label = str_arg(st, 'label')
    prio, bk = z3.BitVec('priority', 32), z3.BitVec('backend', 32)
    ex.root = 'serial_queue_impl()'
    r, p = new_object(ctx, ex, st, S, ctx.prog.func(S + '::serial_queue_impl'), [pslot, label, prio, bk])
    e = [x for x in r if ex.feasible(x[0])][0][0]
    e.g['q'] = (p.obj, fget(ex, e, p, S, 'm_queue', 'ptr').obj)
    return e, p


def verify(ctx):
    verify_consumable(ctx)
    verify_wrapped(ctx, APPLY, IOP, [z3.BitVec('index', 64)], 'apply_operation')
    # those of a waitable queue report to nobody
    verify_wrapped(ctx, APPLY, IOP, [z3.BitVec('index', 64)], 'apply_operation of a waitable queue', False)
    verify_apply(ctx, 'parallel apply', PQ, mk_parallel)
    verify_apply(ctx, 'serial apply', S, mk_serial)
    api.verify_queue(ctx, 'apply')
    wtq.verify_apply(ctx)
