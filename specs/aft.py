"""after(): one delayed invocation by a timer of its own (C19)."""
from specs.api import *
from specs.opq import virt, N
from specs import api, nbk

TUS = ['src/naive/naive_operations.cpp', 'src/naive/naive_parallel_queue.cpp', 'src/naive/naive_serial_queue.cpp', 'src/waitable_queue.cpp',
       'src/queue.cpp', 'src/operation.cpp', 'src/backend.cpp', 'src/naive/naive_consumable.cpp', 'src/naive/naive_operation_queue.cpp']
DELAYED = N + 'delayed_operation'
PQ, SQ, WI = N + 'parallel_queue_impl', N + 'serial_queue_impl', X + 'waitable_queue::impl'


def b_for_type(ex, st, c):
    ex.event(st, 'BACKEND', t=c.args[0])
    return st.g['_backend']


def create_timer(ex, st, c):
    ex.prove(st, c.args[1].obj is st.g['_backend'].obj, 'the timer is created by the backend of the queue')
    t = sym_obj('timer', IT)
    put_sp(ex, st, c.args[0], t, Ptr(st.g['_tctl'], 0))
    st.g[('_ref', st.g['_tctl'].id)] = 1
    ex.event(st, 'TIMER', q=sp_get(ex, st, c.args[2]), t=t)
    return None


def t_call(ex, st, c):
    n = c.name.split('::')[-1]
    ctl = st.g['_tctl']
    ex.prove(st, st.g.get(('_ref', ctl.id), 1) > 0, 'the timer is used only while it is kept alive')
    a = c.args[1] if len(c.args) > 1 else None
    if n == 'handler':
        h = sp_get(ex, st, a)
        hc = sp_get(ex, st, a, 8)
        if std.ctl_concrete(ex, st, hc):
            ex.store_raw(st, hc.obj, hc.off + 8, 4, std.cnt(ex, st, hc, 8) + 1)
        a = h
    ex.event(st, 'timer.' + n, t=c.args[0], a=a)
    return None


def run_op(ex, st, c):
    ex.prove(st, not st.held, 'no lock held while an operation runs')
    ex.event(st, 'RUN', op=c.args[0])
    return None


CON = [(r'^xdispatch::backend_for_type\(', b_for_type),
       (r'^virtual xdispatch::ibackend::create_timer$', create_timer),
       (r'^virtual xdispatch::itimer_impl::', t_call),
       (r'^virtual xdispatch::operation::operator\(\)$', run_op)]


def setup(ctx, extra=()):
    ex = ctx.executor(list(extra) + CON)
    st = ctx.new_state()
    st.g['_backend'] = sym_obj('backend', X + 'ibackend')
    st.g['_tctl'] = Obj('timer.ctl', None, 'ctl')
    return ex, st


def self_ptr(ctx, ex, st, p, cls):
    ctl = Obj('queue.ctl', None, 'ctl')
    ctl.meta['alive'] = True
    for o, s, path, tn, tk in ctx.prog.layout(cls):
        if path.endswith('_M_weak_this') or tn.startswith('std::weak_ptr'):
            ex.store_raw(st, p.obj, p.off + o, 8, p)
            ex.store_raw(st, p.obj, p.off + o + 8, 8, Ptr(ctl, 0))
            return


def make_queue(ctx, ex, st, cls):
    bk = z3.BitVec('backend', 32)
    nm = cls.split('::')[-1]
    ex.root = cls.split('xdispatch::')[-1] + '()'
    f = ctx.prog.func(cls + '::' + nm)
    ctx.roots.append((ex.root, dem(f.name)))
    if cls == WI:
        q, qi = value(ctx, ex, st, X + 'queue', IQ)
        args = [q]
        st.g['backend_of'] = lambda p: bk
    else:
        pool, pslot = new_sp(st, 'pool', N + 'ithreadpool')
        args = [pslot, z3.BitVec('priority', 32), bk]
        if cls == SQ:
            args.insert(1, str_arg(st, 'label'))
    r, p = new_object(ctx, ex, st, cls, f, args)
    st = [x for x in r if ex.feasible(x[0])][0][0]
    self_ptr(ctx, ex, st, p, cls)
    st.ev = []
    st.frames = []
    return st, p, bk


def dispatch(ex, st, c):
    t = sp_get(ex, st, c.args[0])
    o, ctl = c.args[0], st.g['_tctl']
    # the timer is moved in
    ex.store_raw(st, o.obj, o.off, 8, 0)
    ex.store_raw(st, o.obj, o.off + 8, 8, 0)
    ex.event(st, 'DISPATCH', t=t, d=c.args[1], op=sp_get(ex, st, c.args[2]))
    return None


def verify_after(ctx):
    for cls in (PQ, SQ, WI):
        ex, st = setup(ctx, nbk.BASE + [(r'^xdispatch::naive::delayed_operation::create_and_dispatch\(', dispatch),
                                        (r'^virtual xdispatch::iqueue_impl::backend$', lambda ex, st, c: st.g['backend_of'](c.args[0])),
                                        (r'^xdispatch::naive::operation_queue::(attach|detach)\(\)', lambda ex, st, c: None)])
        st, p, bk = make_queue(ctx, ex, st, cls)
        d = z3.BitVec('delay', 64)
        op, slot = new_sp(st, 'op', OP)
        nm = {PQ: 'parallel queue', SQ: 'serial queue', WI: 'waitable queue'}[cls]
        for e in ctx.run(ex, nm + ' after', virt(ex, st, p, IQ, 'after'), [p, d, slot], st):
            k = [n for n, x in e.ev]
            ok = sorted(k) == ['BACKEND', 'DISPATCH', 'TIMER']
            ex.prove(e, ok, 'a delayed operation is dispatched exactly once, by a timer of its own', str(k))
            if not ok:
                continue
            v = dict(e.ev)
            ex.prove(e, same(v['BACKEND']['t'], bk), 'the timer belongs to the backend of the queue')
            ex.prove(e, v['TIMER']['q'].obj is p.obj, 'a delayed operation is queued on the queue it was given to')
            ex.prove(e, same(v['DISPATCH']['t'], v['TIMER']['t']), 'a delayed operation is dispatched exactly once, by a timer of its own')
            ex.prove(e, same(v['DISPATCH']['d'], d), 'the given delay applies')
            ex.prove(e, same(v['DISPATCH']['op'], op), 'the given operation is delayed')


def verify_dispatch(ctx):
    """create_and_dispatch, followed by the invocation of what was registered with the timer"""
    ex, st = setup(ctx)
    t, tslot = new_sp(st, 'timer', IT)
    ex.store_raw(st, tslot.obj, tslot.off + 8, 8, Ptr(st.g['_tctl'], 0))
    st.g[('_ref', st.g['_tctl'].id)] = 1
    d = z3.BitVec('delay', 64)
    op, slot = new_sp(st, 'op', OP)
    octl = sp_get(ex, st, slot, 8).obj
    for e in ctx.run(ex, 'create_and_dispatch', DELAYED + '::create_and_dispatch', [tslot, d, slot], st):
        k = [n for n, x in e.ev]
        ok = k == ['timer.handler', 'timer.resume']
        ex.prove(e, ok, 'the timer gets its handler and is then started once', str(k))
        if not ok:
            continue
        h = e.ev[0][1]['a']
        ex.prove(e, same(e.ev[0][1]['t'], t) and same(e.ev[1][1]['t'], t), 'the timer of the delayed operation is used')
        ex.prove(e, same(e.ev[1][1]['a'], d), 'the timer is started with the given delay')
        hb = h.obj is not None and h.obj.kind == 'heap'
        ex.prove(e, hb and h.obj not in e.freed if hasattr(e, 'freed') else hb, 'the timer keeps the delayed operation alive')
        if not hb:
            continue
        # the caller drops its reference to the timer
        tp = sp_get(ex, e, tslot, 0)
        if isinstance(tp, Ptr) and tp.obj is not None:
            e.g[('_ref', e.g['_tctl'].id)] = e.g.get(('_ref', e.g['_tctl'].id), 0) - 1
        e.ev = []
        e.frames = []
        for f in ctx.run(ex, 'delayed operation', virt(ex, e, h, OP, 'operator()'), [h], e):
            k = [n for n, x in f.ev]
            ex.prove(f, k.count('RUN') == 1 and same([x for n, x in f.ev if n == 'RUN'][0]['op'], op), 'a delayed operation runs the given operation exactly once', str(k))
            ex.prove(f, k.count('timer.cancel') == 1 and k[-1] == 'timer.cancel' and 'timer.resume' not in k, 'the timer is stopped once the operation ran', str(k))
            ex.prove(f, f.g.get(('_ref', f.g['_tctl'].id), 0) == 0, 'the timer is released after the operation ran')
