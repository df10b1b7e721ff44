"""Contracts of consumables, apply and groups.

A consumable counts resources; once the count is zero it stays zero ("consumed").
Ghost of one thread: own(c) resources of consumable c it has to consume itself,
zero(c) the thread knows c is consumed, done(c) it knows c and everything c was
chained to is consumed.  The recorded predecessor of a consumable always covers
every unfinished resource of the predecessor given at construction.
"""
from vf.spec import *
from specs.opq import N, OP, TP, S, virt, vslot_of, mgr_instance, mgr_attach

K = N + 'consumable'
IOP = 'xdispatch::parameterized_operation<unsigned long>'
BAR = 'xdispatch::lightweight_barrier'
APPLY = N + 'apply_operation'
CONS = N + 'consuming_operation'
TUS = ['src/naive/naive_consumable.cpp', 'src/naive/naive_operations.cpp', 'src/operation.cpp']
MAXR = 1 << 62


def own(g, o):
    return g.get(('own', o.id), 0)


class ConsumableSpec(ClassSpec):
    def atomic_pre(self, ex, st, base, off, ty, op):
        if self.field(ex, off)[2].split('.')[0] != 'm_resources':
            return None
        g = st.g
        v = fresh(64, 'resources')
        st.assume(z3.ULT(v, MAXR))
        st.assume(z3.UGE(v, bv64(own(g, base.obj))))
        if g.get(('zero', base.obj.id)):
            v = z3.BitVecVal(0, 64)
        st.om(base.obj).cells[base.off + off] = (8, v)
        st.wr.add(('cell', base.obj, base.off + off))
        return None

    def atomic_post(self, ex, st, base, off, op, old, new):
        if self.field(ex, off)[2].split('.')[0] != 'm_resources':
            return None
        g = st.g
        o = base.obj
        if op != 'load':
            d = bv64(zsimp(bv64(new) - bv64(old)))
            ex.prove(st, Or(d == 0, d == 1, d == -1), 'resources are added and consumed one at a time')
            ex.prove(st, Implies(bv64(old) == 0, bv64(new) == 0), 'a consumed consumable stays consumed')
            g[('own', o.id)] = conc(ex, st, zsimp(bv64(own(g, o)) + d))
            ex.prove(st, bv64(own(g, o)) >= 0, 'only resources that were added are consumed')
        # split on consumed or not
        z = bv64(new) == 0
        if ex.valid(st, z):
            g[('zero', o.id)] = True
            return None
        if ex.valid(st, Not(z)):
            return None
        s2 = st.fork()
        st.assume(z)
        st.g[('zero', o.id)] = True
        s2.assume(Not(z))
        return [st, s2]


def conc(ex, st, v):
    if isinstance(v, int):
        return v
    for k in (0, 1, -1, 2):
        if ex.valid(st, v == k):
            return k
    return v


# ---------------------------------------------------------------- shared_ptr accessed through std::atomic_*
def put_sp(ex, st, dst, p, ctl):
    ex.store_raw(st, dst.obj, dst.off, 8, p)
    ex.store_raw(st, dst.obj, dst.off + 8, 8, ctl)
    if std.ctl_concrete(ex, st, ctl):
        ex.store_raw(st, ctl.obj, ctl.off + 8, 4, std.cnt(ex, st, ctl, 8) + 1)


def sp_atomic_load(ex, st, c):
    dst, src = c.args[0], c.args[1]
    st.epoch += 1
    return st.g['_sp_hook'](ex, st, 'load', src, dst)


def sp_atomic_store(ex, st, c):
    st.epoch += 1
    return st.g['_sp_hook'](ex, st, 'store', c.args[0], c.args[1])


def sp_atomic_cas(ex, st, c):
    st.epoch += 1
    return st.g['_sp_hook'](ex, st, 'cas', c.args[0], c.args[1], c.args[2])


# ---------------------------------------------------------------- barrier (proved in C06)
def bar_owner(ex, st, p):
    for base in st.g['_ks']:
        if p.obj is base.obj and p.off == base.off + ex.p.off(K, 'm_barrier'):
            return base
    return None


def bar_complete(ex, st, c):
    b = bar_owner(ex, st, c.args[0])
    ex.event(st, 'COMPLETE', of=b)
    ex.prove(st, b is not None and bool(st.g.get(('zero', b.obj.id))), 'waiters are released only once every resource is consumed')
    return None


def bar_wait(ex, st, c):
    g = st.g
    b = bar_owner(ex, st, c.args[0])
    t = c.args[1] if len(c.args) > 1 else -1
    ex.prove(st, bv64(g.get('blocked', 0)) == (1 if g.get('has_pool') else 0), 'the thread pool knows that this thread blocks')
    no_locks(ex, st, 'waiting for a consumable')
    st.epoch += 1
    s2 = st.fork()
    if b is not None:
        st.g[('zero', b.obj.id)] = True       # completed only when consumed (obligation on complete())
    n0 = bv64(std.advance(ex, s2))
    t = bv64(t)
    n1 = bv64(std.advance(ex, s2))
    s2.assume(t != -1)
    s2.assume(n1 - n0 >= t * 1000000)
    return Fork([(st, 1), (s2, 0)])


def cur_pool(ex, st, c):
    g = st.g
    if 'has_pool' in g:
        return g['_pool'] if g['has_pool'] else NULL
    s2 = st.fork()
    g['has_pool'] = True
    s2.g['has_pool'] = False
    st.epoch += 1
    g['_pool'] = s2.g['_pool'] = sym_obj('current_pool', TP)
    return Fork([(st, g['_pool']), (s2, NULL)])


def blocked(d):
    def h(ex, st, c):
        st.g['blocked'] = st.g.get('blocked', 0) + d
        return None
    return h


def wait_contract(ex, st, c):
    """consumable::wait_for_consumed (proved below): true -> everything is consumed, false -> the timeout elapsed"""
    g = st.g
    p = c.args[0]
    t = c.args[1] if len(c.args) > 1 else -1
    ex.event(st, 'WAIT', on=p, timeout=t)
    no_locks(ex, st, 'waiting for a consumable')
    st.epoch += 1
    s2 = st.fork()
    st.g[('zero', p.obj.id)] = True
    st.g[('done', p.obj.id)] = True
    n0 = bv64(std.advance(ex, s2))
    n1 = bv64(std.advance(ex, s2))
    s2.assume(bv64(t) != -1)
    s2.assume(n1 - n0 >= bv64(t) * 1000000)
    return Fork([(st, 1), (s2, 0)])


def consume_contract(ex, st, c):
    p = c.args[0]
    ex.event(st, 'CONSUME', on=p)
    ex.prove(st, bv64(own(st.g, p.obj)) > 0, 'only own resources are consumed')
    st.g[('own', p.obj.id)] = own(st.g, p.obj) - 1
    return None


def add_contract(ex, st, c):
    p = c.args[0]
    st.epoch += 1
    if not isinstance(c.ret, tuple):        # cannot fail
        st.g[('own', p.obj.id)] = own(st.g, p.obj) + 1
        return None
    s2 = st.fork()
    st.g[('own', p.obj.id)] = own(st.g, p.obj) + 1
    return Fork([(st, 1), (s2, 0)])


def op_run(ex, st, c):
    if not ex.resolve_ptr(st, c.args[0], 'operation'):
        return Kill('null')
    no_locks(ex, st, 'an operation runs')
    ex.event(st, 'EXEC', op=c.args[0], args=c.args[1:])
    return None


BARRIER = [
    (r'^xdispatch::lightweight_barrier::complete\(', bar_complete),
    (r'^xdispatch::lightweight_barrier::wait\(', bar_wait),
    (r'^xdispatch::lightweight_barrier::(~)?lightweight_barrier\(', lambda ex, st, c: None),
]
POOL = [
    (r'^xdispatch::naive::ithreadpool::current\(', cur_pool),
    (r'^virtual xdispatch::naive::ithreadpool::notify_thread_blocked$', blocked(1)),
    (r'^virtual xdispatch::naive::ithreadpool::notify_thread_unblocked$', blocked(-1)),
]
SPA = [
    (r'^std::shared_ptr<.*> std::atomic_load<.*>\(std::shared_ptr<', sp_atomic_load),
    (r'^void std::atomic_store<.*>\(std::shared_ptr<', sp_atomic_store),
    (r'^bool std::atomic_compare_exchange_(weak|strong)<.*>\(std::shared_ptr<', sp_atomic_cas),
]
OPS = [
    (r'^virtual xdispatch::operation::operator\(\)$', op_run),
    (r'^virtual xdispatch::parameterized_operation<.*>::operator\(\)$', op_run),
    (r'^xdispatch::naive::operation_queue_manager::instance\(\)', mgr_instance),
    (r'^xdispatch::naive::operation_queue_manager::attach\(', mgr_attach),
    (r'^xdispatch::naive::operation_queue_manager::detach\(', lambda ex, st, c: None),
]
CONTRACT_K = [
    (r'^xdispatch::naive::consumable::wait_for_consumed\(', wait_contract),
    (r'^xdispatch::naive::consumable::consume_resource\(', consume_contract),
    (r'^(bool )?xdispatch::naive::consumable::add_resource\(', add_contract),
]


# ---------------------------------------------------------------- consumable
def new_consumable(ctx, ex, pred=True):
    st = ctx.new_state()
    n = z3.BitVec('resources0', 64)
    st.assume(z3.ULT(n, MAXR))
    st.g['_ks'] = []
    p0 = sym_obj('preceding', K) if pred else NULL
    slot = sp_slot(st, p0, 'preceding')
    ex.root = 'consumable()'
    f = ctx.prog.func(K + '::consumable')
    ctx.roots.append((ex.root, dem(f.name)))
    r, p = new_object(ctx, ex, st, K, f, [n, slot])
    r = [x for x in r if ex.feasible(x[0])]
    (e, _), = r
    ex.prove(e, bv64(fget(ex, e, p, K, 'm_resources')) == n, 'a new consumable holds its initial resources')
    pr = fget(ex, e, p, K, 'm_preceeding', 'ptr')
    ex.prove(e, pr.obj is p0.obj, 'a new consumable is chained to the given predecessor')
    share(e, p)
    e.g['_ks'] = [p] + ([p0] if pred else [])
    if pred:
        share(e, p0)
    e.g['_prec'] = p0
    e.g['_sp_hook'] = sp_hook
    ex.cls_specs[K].forget(ex, e, p, ['m_resources', 'm_preceeding'])
    e.ev = []
    return e, p


def sp_hook(ex, st, op, cell, *a):
    """atomic access to m_preceeding"""
    g = st.g
    base = next((b for b in g['_ks'] if cell.obj is b.obj), None)
    if base is None:
        raise Unsupported('atomic shared_ptr of an unknown object')
    me = g['_ks'][0]
    if op == 'load':
        dst = a[0]
        s2 = st.fork()
        # nothing recorded (any more): everything the predecessor covered is consumed
        put_sp(ex, s2, dst, NULL, NULL)
        if base is me:
            s2.g['pre_done'] = True
            q = g['_prec']
            if q.obj is None:
                put_sp(ex, st, dst, NULL, NULL)
                st.g['pre_done'] = True
                return None
            put_sp(ex, st, dst, q, Ptr(Obj('prec.ctl', None, 'ctl'), 0))
        else:
            s2.g['beyond_done'] = True
            q = g.get('_beyond')
            if q is None:
                q = sym_obj('beyond', K)
                share(st, q)
                st.g['_beyond'] = q
                st.g['_ks'] = g['_ks'] + [q]
            put_sp(ex, st, dst, q, Ptr(Obj('beyond.ctl', None, 'ctl'), 0))
        return Fork([(st, None), (s2, None)])
    if op == 'store':
        q = sp_get(ex, st, a[0])
        ex.prove(st, base is me, 'only the own predecessor is replaced')
        pz = bool(g.get(('zero', g['_prec'].obj.id))) if g['_prec'].obj is not None else True
        if q.obj is None:
            ok = bool(g.get('pre_done')) or (pz and bool(g.get('beyond_done')))
        else:
            ok = q.obj is g['_prec'].obj or (pz and q.obj is g.get('_beyond', NULL).obj)
        ex.prove(st, ok, 'the recorded predecessor covers everything unfinished')
        return None
    raise Unsupported('atomic %s of the predecessor' % op)


def kexec(ctx, contracts):
    ex = ctx.executor(contracts)
    ex.cls_specs = {K: ConsumableSpec(K, atomics=['m_resources'], free=['m_barrier'])}
    return ex


def pred_wait(ex, st, c):
    """recursive call: only on the predecessor"""
    g = st.g
    r = wait_contract(ex, st, c)
    p = c.args[0]
    s1 = r.items[0][0]
    if p.obj is g['_prec'].obj:
        s1.g['pre_done'] = True
    return r


def verify_consumable(ctx):
    ex = kexec(ctx, BARRIER + POOL + SPA)
    st, p = new_consumable(ctx, ex)
    o = p.obj
    f = ctx.prog.func(K + '::add_resource()')
    for e in ctx.run(ex, 'add_resource', f, [p], st):
        r = as_bool(e.ret) if e.ret is not None else True
        n = bv64(own(e.g, o))
        ex.prove(e, Implies(r, n == 1), 'add_resource: success adds exactly one resource')
        ex.prove(e, Implies(Not(r), And(n == 0, bool(e.g.get(('zero', o.id))))), 'add_resource: fails only for a consumed consumable and changes nothing')
    ex = kexec(ctx, BARRIER + POOL + SPA)
    st, p = new_consumable(ctx, ex)
    o = p.obj
    st.g[('own', o.id)] = 1
    for e in ctx.run(ex, 'consume_resource', K + '::consume_resource()', [p], st):
        ex.prove(e, bv64(own(e.g, o)) == 0, 'consume_resource: consumes exactly one resource')
        n = count_events(e, 'COMPLETE')
        ex.prove(e, (not e.g.get(('zero', o.id))) or n == 1, 'consuming the last resource releases the waiters')
    for pred in (True, False):
        wait_c = [(r'^xdispatch::naive::consumable::wait_for_consumed\(', pred_wait)]
        ex = kexec(ctx, BARRIER + POOL + SPA + wait_c)
        st, p = new_consumable(ctx, ex, pred)
        o = p.obj
        t = z3.BitVec('timeout_ms', 64)
        st.assume(z3.And(t >= -1, t < (1 << 40)))
        now0 = bv64(std.advance(ex, st))
        f = ctx.prog.func(K + '::wait_for_consumed')
        for e in ctx.run(ex, 'wait_for_consumed' + ('' if pred else ' (first of a chain)'), f, [p, t], st):
            r = as_bool(e.ret)
            ex.prove(e, Implies(r, bool(e.g.get(('zero', o.id)))), 'wait_for_consumed: true only if every resource is consumed')
            ex.prove(e, Implies(r, bool(e.g.get('pre_done'))), 'wait_for_consumed: true only if the preceding consumable is consumed as well')
            ex.prove(e, Or(r, t != -1), 'wait_for_consumed: without timeout it waits until consumed')
            now1 = bv64(std.advance(ex, e))
            ex.prove(e, Or(r, now1 - now0 >= t * 1000000), 'wait_for_consumed: gives up only once its timeout has elapsed')
            ex.prove(e, bv64(e.g.get('blocked', 0)) == 0, 'the thread pool is told when the wait is over')


# ---------------------------------------------------------------- wrapper operations
def consumable_sp(st, g_own=1):
    k, slot = new_sp(st, 'consumable', K)
    st.g[('own', k.obj.id)] = g_own
    return k, slot


def verify_wrapped(ctx, cls, opcls, extra, what, reports=True):
    """operation object: runs the wrapped operation once, then consumes its resource once"""
    ex = kexec(ctx, OPS + CONTRACT_K)
    st = ctx.new_state()
    op, oslot = new_sp(st, 'op', opcls)
    k, kslot = consumable_sp(st)
    if not reports:
        put_sp(ex, st, kslot, NULL, NULL)
    ex.root = what
    f = ctx.prog.func(cls + '::' + cls.split('::')[-1])
    args = extra + [oslot, kslot]
    r, p = new_object(ctx, ex, st, cls, f, args)
    r = [x for x in r if ex.feasible(x[0])]
    (e, _), = r
    ex.prove(e, count_events(e, 'EXEC') == 0 and count_events(e, 'CONSUME') == 0, what + ': creating it runs nothing')
    for x in ctx.run(ex, what, virt(ex, e, p, OP, 'operator()'), [p], e):
        ev = [(n, d) for n, d in x.ev if n in ('EXEC', 'CONSUME')]
        ok = [n for n, d in ev] == ['EXEC', 'CONSUME'][:1 + reports]
        ex.prove(x, ok, what + ': runs the operation once and then reports it as done, once', str([n for n, d in ev]))
        if not ok:
            continue
        ex.prove(x, ev[0][1]['op'].obj is op.obj and (not reports or ev[1][1]['on'].obj is k.obj), what + ': runs the given operation and reports to the given consumable')
        if extra:
            ex.prove(x, len(ev[0][1]['args']) == 1 and bv64(ev[0][1]['args'][0]) == bv64(extra[0]), what + ': passes its index')
