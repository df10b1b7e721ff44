"""group: wait/notify cover every operation submitted before."""
from specs.grp import *
from specs import grp
from specs import api

PROPERTY = 'C08'
TUS = grp.TUS + ['src/naive/naive_group.cpp', 'src/group.cpp'] + ['src/queue.cpp', 'src/trace_utils.cpp', 'src/backend.cpp', 'src/operation.cpp']
G = N + 'group_impl'
IQ = 'xdispatch::iqueue_impl'
IG = 'xdispatch::igroup_impl'


def q_async(ex, st, c):
    ex.event(st, 'ASYNC', q=c.args[0], op=sp_get(ex, st, c.args[1]))
    no_locks(ex, st, 'an operation is queued')
    return None


def pool_execute(ex, st, c):
    ex.event(st, 'EXECUTE', op=sp_get(ex, st, c.args[1]))
    op = sp_get(ex, st, c.args[1])
    ctl = sp_get(ex, st, c.args[1], 8)
    if std.ctl_concrete(ex, st, ctl):       # the pool keeps a reference until it ran
        ex.store_raw(st, ctl.obj, ctl.off + 8, 4, std.cnt(ex, st, ctl, 8) + 1)
    return None


def hook(ex, st, op, cell, *a):
    """atomic access to group_impl::m_consumable: the current consumable, of which the group owns one resource"""
    g = st.g
    if cell.obj is not g['grp'].obj or cell.off != g['grp'].off + ex.p.off(G, 'm_consumable'):
        raise Unsupported('atomic shared_ptr of an unknown object')
    if op == 'load':
        k = sym_obj('current', K)
        g['_cur'] = k
        put_sp(ex, st, a[0], k, Ptr(Obj('current.ctl', None, 'ctl'), 0))
        return None
    if op == 'store':
        ex.prove(st, False, 'the current consumable is only replaced by compare and exchange')
        return None
    expected, desired = a[0], a[1]
    old = sp_get(ex, st, expected)
    new = sp_get(ex, st, desired)
    ok = new.obj is not None and new.obj.kind == 'heap'
    ex.prove(st, ok, 'a fresh consumable takes over')
    if ok:
        ex.prove(st, bv64(fget(ex, st, new, K, 'm_resources')) == 1, 'the group owns one resource of the current consumable')
        ex.prove(st, fget(ex, st, new, K, 'm_preceeding', 'ptr').obj is old.obj, 'the new consumable is chained to the one it replaces')
    s2 = st.fork()
    # success: the resource the group owned of the old one is ours now
    g[('own', old.obj.id)] = own(g, old.obj) + 1
    g['_swapped'] = old
    ctl = sp_get(ex, st, desired, 8)
    if std.ctl_concrete(ex, st, ctl):
        ex.store_raw(st, ctl.obj, ctl.off + 8, 4, std.cnt(ex, st, ctl, 8) + 1)
    # failure: expected is updated
    k = sym_obj('current', K)
    put_sp(ex, s2, expected, k, Ptr(Obj('current.ctl', None, 'ctl'), 0))
    return Fork([(st, 1), (s2, 0)])


def bar_none(ex, st, c):
    return None


CS = OPS + CONTRACT_K + SPA + [
    (r'^virtual xdispatch::iqueue_impl::async$', q_async),
    (r'^virtual xdispatch::naive::ithreadpool::execute$', pool_execute),
    (r'^xdispatch::lightweight_barrier::(~)?lightweight_barrier\(', bar_none),
]


def build(ctx):
    ex = kexec(ctx, CS)
    st = ctx.new_state()
    pool, pslot = new_sp(st, 'pool', TP)
    bk = z3.BitVec('backend', 32)
    ex.root = 'group_impl()'
    f = ctx.prog.func(G + '::group_impl')
    ctx.roots.append((ex.root, dem(f.name)))
    r, p = new_object(ctx, ex, st, G, f, [pslot, bk])
    e = [x for x in r if ex.feasible(x[0])][0][0]
    c = fget(ex, e, p, G, 'm_consumable', 'ptr')
    ex.prove(e, c.obj is not None, 'a new group has a consumable')
    ex.prove(e, bv64(fget(ex, e, c, K, 'm_resources')) == 1, 'the group owns one resource of the current consumable')
    ex.prove(e, fget(ex, e, c, K, 'm_preceeding', 'ptr').obj is None, 'a new group has nothing to wait for')
    ctl = Obj('group.ctl', None, 'ctl')
    ctl.meta['alive'] = True
    for o, s, path, tn, tk in ctx.prog.layout(G):
        if path.endswith('_M_weak_this') or tn.startswith('std::weak_ptr'):
            ex.store_raw(e, p.obj, p.off + o, 8, p)
            ex.store_raw(e, p.obj, p.off + o + 8, 8, Ptr(ctl, 0))
            break
    e.g.update({'grp': p, '_sp_hook': hook, 'pool': pool})
    ex.cls_specs[G] = ClassSpec(G, free=['m_consumable', '_M_weak_this'])
    share(e, p)
    ex.cls_specs[G].forget(ex, e, p, ['m_consumable'])
    e.ev = []
    return ex, e, p


def verify_impl(ctx):
    # async
    ex, st, p = build(ctx)
    op, oslot = new_sp(st, 'op', OP)
    q, qslot = new_sp(st, 'q', IQ)
    for e in ctx.run(ex, 'group_impl::async', virt(ex, st, p, IG, 'async'), [p, oslot, qslot], st):
        ev = [d for n, d in e.ev if n == 'ASYNC']
        ok = len(ev) == 1 and ev[0]['q'].obj is q.obj
        ex.prove(e, ok, 'group: an operation is queued exactly once, on the given queue')
        if not ok:
            continue
        w = ev[0]['op']
        ok = w.obj is not None and w.obj.kind == 'heap'
        if ok:
            k = fget(ex, e, w, CONS, 'm_consumable', 'ptr')
            ok = And(fget(ex, e, w, CONS, 'm_op', 'ptr').obj is op.obj, k.obj is not None and bv64(own(e.g, k.obj)) == 1)
        ex.prove(e, ok, 'group: the operation is counted exactly once before it is queued, and reports to where it is counted')
    # wait
    ex, st, p = build(ctx)
    t = z3.BitVec('timeout_ms', 64)
    st.assume(z3.And(t >= -1, t < (1 << 40)))
    for e in ctx.run(ex, 'group_impl::wait', virt(ex, st, p, IG, 'wait'), [p, t], st):
        w = [(i, d) for i, (n, d) in enumerate(e.ev) if n == 'WAIT']
        cs = [(i, d) for i, (n, d) in enumerate(e.ev) if n == 'CONSUME']
        sw = e.g.get('_swapped')
        ok = sw is not None and len(w) == 1 and w[0][1]['on'].obj is sw.obj
        ex.prove(e, ok, 'group: waits for the consumable that was current when it was replaced')
        if not ok:
            continue
        ex.prove(e, bv64(w[0][1]['timeout']) == bv64(t), 'group: waits for the given timeout')
        ex.prove(e, len(cs) == 1 and cs[0][1]['on'].obj is sw.obj and cs[0][0] < w[0][0], 'group: gives up its own resource before it waits')
        r = as_bool(e.ret)
        ex.prove(e, Implies(r, bool(e.g.get(('done', sw.obj.id)))), 'group: wait succeeds only if everything submitted before is done')
        ex.prove(e, Or(r, Not(bool(e.g.get(('done', sw.obj.id))))), 'group: wait reports success when everything is done')
    # notify
    ex, st, p = build(ctx)
    op, oslot = new_sp(st, 'op', OP)
    q, qslot = new_sp(st, 'q', IQ)
    for e in ctx.run(ex, 'group_impl::notify', virt(ex, st, p, IG, 'notify'), [p, oslot, qslot], st):
        ev = [d for n, d in e.ev if n == 'EXECUTE']
        ex.prove(e, len(ev) == 1 and count_events(e, 'ASYNC') == 0 and count_events(e, 'WAIT') == 0, 'group: notify waits in the background, once')
        if len(ev) != 1:
            continue
        e2 = e.fork()
        e2.frames = []
        e2.ev = []
        w = ev[0]['op']
        for x in ctx.run(ex, 'notification', virt(ex, e2, w, OP, 'operator()'), [w], e2):
            names = [(n, d) for n, d in x.ev if n in ('WAIT', 'ASYNC', 'CONSUME')]
            sub = [d for n, d in names if n == 'ASYNC']
            ex.prove(x, len(sub) == 1 and sub[0]['op'].obj is op.obj and sub[0]['q'].obj is q.obj, 'group: the notification is queued exactly once, on the given queue')
            sw = x.g.get('_swapped')
            ex.prove(x, sw is not None and bool(x.g.get(('done', sw.obj.id))) and bool(names) and names[-1][0] == 'ASYNC', 'group: the notification is queued only after everything submitted before is done')


def verify(ctx):
    verify_consumable(ctx)
    verify_wrapped(ctx, CONS, OP, [], 'consuming_operation')
    verify_impl(ctx)
    api.verify_group_mix(ctx)
    api.verify_group_wait(ctx)
