"""The lifetime manager: queues and pools are kept alive until detached, and released on the thread of the manager only."""
from specs.opq import *
from specs import opq, nbk
from specs.api import X, same
from specs.grp import put_sp

PROPERTY = 'C26'
DEPENDS = []
TUS = sorted(set(opq.TUS + nbk.TUS + ['src/naive/naive_operation_queue_manager.cpp', 'src/naive/naive_thread.cpp']))
M = N + 'operation_queue_manager'
PQ, SQ = nbk.PQ, nbk.SQ
match = z3.Function('c26_addr', z3.BitVecSort(64), z3.BitVecSort(64))


def execute(ex, st, c):
    ex.event(st, 'EXECUTE', thread=c.args[0], op=sp_get(ex, st, c.args[1]), prio=c.args[2] if len(c.args) > 2 else None)
    ctl = sp_get(ex, st, c.args[1], 8)
    if std.ctl_concrete(ex, st, ctl):
        ex.store_raw(st, ctl.obj, ctl.off + 8, 4, std.cnt(ex, st, ctl, 8) + 1)
    return None


def entry(ex, st, i, slot):
    # the objects are told apart by their (symbolic) addresses
    st.om(slot).cells[0] = (8, Ptr(st.g['_arena'], match(bv64(i))))
    st.om(slot).cells[8] = (8, Ptr(Obj('kept.ctl', None, 'ctl'), 0))


class Owned(ClassSpec):
    """the objects kept belong to the thread of the manager"""

    def holds(self, ex, st, base):
        ex.prove(st, bool(st.g.get('on_thread')), 'only the thread of the manager touches the objects kept')
        return True


def setup(ctx):
    ex = ctx.executor([(r'^xdispatch::naive::manual_thread::execute\(', execute), (r'^virtual xdispatch::naive::ithreadpool::execute$', execute),
                       (r'^virtual xdispatch::naive::manual_thread::execute$', execute)])
    ex.cls_specs = {M: Owned(M, protected=['m_queues'])}
    ex.fold_elem = lambda ex, st, out, o: None
    st = ctx.new_state()
    m = Ptr(Obj('manager', ctx.prog.sizeof_cls(M), 'sym', M), 0)
    n = z3.BitVec('n_kept', 64)
    st.assume(z3.ULT(n, 1 << 40))
    st.g.update({'_M': std.Log('kept', entry, 16), 'n': n, '_arena': Obj('objects', None, 'sym')})
    entries(ex, st, m)
    share(st, m)
    return ex, st, m, n


def entries(ex, st, m):
    set_seq(ex, st, m, M, 'm_queues', std.Seq([('r', st.g['_M'], 0, st.g['n'])]))


def task(ctx, ex, e, m, what):
    """the one operation handed to the thread of the manager; -> pointer"""
    k = [d for n, d in e.ev if n == 'EXECUTE']
    ex.prove(e, len(k) == 1, '%s is done by the thread of the manager, once' % what, str([n for n, d in e.ev]))
    if len(k) != 1:
        return None
    t = k[0]['thread']
    ex.prove(e, isinstance(t, Ptr) and t.obj is m.obj and t.off == ctx.prog.off(M, 'm_thread'), '%s is done by the thread of the manager, once' % what, repr(t))
    return k[0]['op']


def perform(ctx, ex, e, op, m, what):
    e2 = e.fork()
    e2.ev = []
    e2.frames = []
    e2.g['on_thread'] = True
    entries(ex, e2, m)
    return ctx.run(ex, what, virt(ex, e2, op, OP, 'operator()'), [op], e2)


def spans(ex, e, s, want):
    """the sequence consists of the given parts (log ranges or slots), empty ones aside"""
    got = [x for x in s.segs if x[0] == 's' or not ex.valid(e, bv64(x[2]) == bv64(x[3]))]
    want = [x for x in want if x[0] == 's' or not ex.valid(e, bv64(x[2]) == bv64(x[3]))]
    if len(got) != len(want):
        return False
    c = []
    for x, y in zip(got, want):
        if x[0] != y[0] or x[1] is not y[1]:
            return False
        if x[0] == 'r':
            c += [bv64(x[2]) == bv64(y[2]), bv64(x[3]) == bv64(y[3])]
    return And(*c) if c else True


def refs(ex, e, ctl):
    return std.cnt(ex, e, ctl, 8) if std.ctl_concrete(ex, e, ctl) else e.g.get(('_ref', ctl.obj.id), 0)


def verify_attach(ctx):
    ex, st, m, n = setup(ctx)
    obj, slot = new_sp(st, 'queue', 'void')
    ctl = sp_get(ex, st, slot, 8)
    obj = Ptr(st.g['_arena'], z3.BitVec('q', 64))       # may be kept already
    put_sp(ex, st, slot, obj, ctl)
    r0 = refs(ex, st, ctl)
    for e in ctx.run(ex, 'manager attach', M + '::attach', [m, slot], st):
        op = task(ctx, ex, e, m, 'keeping an object')
        if op is None:
            continue
        ex.prove(e, bv(refs(ex, e, ctl), 64) == bv(r0, 64) + 1, 'an object is kept alive from the moment it is attached', '%s %s' % (refs(ex, e, ctl), r0))
        done = 0
        for x in perform(ctx, ex, e, op, m, 'attach task'):
            done += 1
            s = seq_field(ex, x, m, M, 'm_queues')
            new = [y for y in s.segs if y[0] == 's']
            ex.prove(x, len(new) == 1 and same(sp_get(ex, x, Ptr(new[0][1], 0)), obj) and same(sp_get(ex, x, Ptr(new[0][1], 0), 8), ctl),
                     'an attached object is kept', repr(s))
            ex.prove(x, len(new) == 1 and spans(ex, x, s, [('r', x.g['_M'], 0, n), new[0]]), 'all other objects stay kept', repr(s))
            ex.prove(x, not [k for k, d in x.ev if k == 'EXECUTE'], 'attaching needs nothing else', str(x.ev))
            # the operation has run and is released
            ex.prove(x, bv(refs(ex, x, ctl), 64) == bv(r0, 64) + 2, 'an attached object is kept', str(refs(ex, x, ctl)))
        ex.prove(e, done > 0, 'an attached object is kept')


def verify_detach(ctx):
    ex, st, m, n = setup(ctx)
    q = Ptr(st.g['_arena'], z3.BitVec('q', 64))
    w = z3.BitVec('which', 64)
    st.assume(And(z3.ULT(w, n), match(w) == q.off))      # it has been attached before
    st.g['w'] = w
    for e in ctx.run(ex, 'manager detach', M + '::detach', [m, q], st):
        op = task(ctx, ex, e, m, 'releasing an object')
        if op is None:
            continue
        done = 0
        for x in perform(ctx, ex, e, op, m, 'detach task'):
            if not ex.feasible(x):
                continue
            done += 1
            s = seq_field(ex, x, m, M, 'm_queues')
            k = gap(ex, x, s, n)
            ex.prove(x, k is not None, 'exactly one entry of the object is given up, all other objects stay kept', repr(s))
            if k is not None:
                ex.prove(x, match(bv64(k)) == q.off, 'the object given is released, no other one', str(k))
            ex.prove(x, not [y for y, d in x.ev if y in ('EXECUTE', 'DROP')], 'detaching releases nothing else', str(x.ev))
        ex.prove(e, done > 0, 'a detached object is released')


def gap(ex, e, s, n):
    """the index missing in the sequence of the kept objects [0, n); None if it is not exactly one"""
    M_ = e.g['_M']
    z = [x for x in s.segs]
    if any(x[0] != 'r' or x[1] is not M_ for x in z):
        return None
    for k in [x[3] for x in z] + [bv64(x[2]) - 1 for x in z] + [0]:
        if spans2(ex, e, z, [(0, k), (bv64(k) + 1, n)]):
            return k
    return None


def spans2(ex, e, z, want):
    z = [(x[2], x[3]) for x in z if not ex.valid(e, bv64(x[2]) == bv64(x[3]))]
    want = [x for x in want if not ex.valid(e, bv64(x[0]) == bv64(x[1]))]
    return len(z) == len(want) and all(ex.valid(e, And(bv64(a[0]) == bv64(b[0]), bv64(a[1]) == bv64(b[1]))) for a, b in zip(z, want)) and \
        ex.valid(e, And(*[z3.ULE(bv64(a[0]), bv64(a[1])) for a in z]))


class Dropped(QueueSpec):
    """a queue that is dropped: once its lock is given back the manager may destroy it at any moment"""

    def before_release(self, ex, st, base):
        QueueSpec.before_release(self, ex, st, base)
        if st.g['mode'] == 'detach':
            ctl = st.g['qctl']
            st.g['_left'] = std.cnt(ex, st, ctl, 8)
            ex.prove(st, st.g['_left'] == 1, 'when a queue is given up the manager holds the last reference to it', str(st.g['_left']))

    def release(self, ex, st, base, lockoff):
        r = QueueSpec.release(self, ex, st, base, lockoff)
        if st.g['mode'] == 'detach':
            st.dead.add(base.obj.id)
        return r


def verify_serial(ctx):
    ex = executor(ctx)
    s = ex.cls_specs[Q]
    s.__class__ = Dropped
    st, p, q = build_queue(ctx, ex)
    st.g['qctl'] = ctl = fget_at(ex, st, p, SQ, 'm_queue', 8)
    ex.prove(st, std.cnt(ex, st, ctl, 8) == 2, 'a queue is kept alive by the manager from its creation', str(std.cnt(ex, st, ctl, 8)))
    st.g['mode'] = 'detach'
    n = 0
    for e in ctx.run(ex, 'serial queue dropped', S + '::~serial_queue_impl', [p], st):
        if not ex.feasible(e):
            continue
        n += 1
        ex.prove(e, e.g.get('_left') is not None, 'a queue is given up under its lock')
    ex.prove(st, n > 0, 'a queue can be dropped')


def pool_detach(ex, st, c):
    ctl = Ptr(st.g['pctl'].obj, 0)
    ex.event(st, 'DETACH', q=c.args[1], refs=st.g.get(('_ref', ctl.obj.id), 0))
    return None


def verify_parallel(ctx):
    ex = ctx.executor([x for x in nbk.BASE if 'detach' not in x[0] and 'attach' not in x[0]] + [
        (r'^xdispatch::naive::operation_queue_manager::attach\(', pool_attach), (r'^xdispatch::naive::operation_queue_manager::detach\(', pool_detach)])
    st = ctx.new_state()
    pool, pslot = new_sp(st, 'pool', TP)
    st.g['pctl'] = ctl = sp_get(ex, st, pslot, 8)
    n0 = refs(ex, st, ctl)
    ex.root = 'parallel_queue_impl()'
    f = ctx.prog.func(PQ + '::parallel_queue_impl')
    ctx.roots.append((ex.root, dem(f.name)))
    r, p = new_object(ctx, ex, st, PQ, f, [pslot, z3.BitVec('priority', 32), z3.BitVec('backend', 32)])
    n = 0
    for e, _ in [x for x in r if ex.feasible(x[0])]:
        at = [d for k, d in e.ev if k == 'ATTACH']
        ex.prove(e, [k for k, d in e.ev] == ['ATTACH'] and same(at[0]['o'], pool), 'a parallel queue attaches its pool once', str(e.ev))
        ex.prove(e, bv(refs(ex, e, ctl), 64) == bv(n0, 64) + 2, 'the pool of a parallel queue is kept alive by the queue and by the manager', str(refs(ex, e, ctl)))
        e.ev = []
        e.frames = []
        share(e, p)
        for x in ctx.run(ex, 'parallel queue dropped', PQ + '::~parallel_queue_impl', [p], e):
            n += 1
            d = [d for k, d in x.ev if k == 'DETACH']
            ex.prove(x, len(d) == 1 and same(d[0]['q'], pool), 'a dropped parallel queue detaches its pool once', str(x.ev))
            if len(d) == 1:
                ex.prove(x, bv(d[0]['refs'], 64) == bv(n0, 64) + 1, 'when a pool is given up the manager holds the last reference of the queue', str(d[0]['refs']))
            ex.prove(x, bv(refs(ex, x, ctl), 64) == bv(n0, 64) + 1, 'only the manager gives up the pool of a queue', str(refs(ex, x, ctl)))
    ex.prove(st, n > 0, 'a parallel queue can be dropped')


def pool_attach(ex, st, c):
    ctl = sp_get(ex, st, c.args[1], 8)
    std.bump(st, ctl, 1)
    ex.event(st, 'ATTACH', o=sp_get(ex, st, c.args[1]))
    return None


def verify(ctx):
    verify_attach(ctx)
    verify_detach(ctx)
    verify_serial(ctx)
    verify_parallel(ctx)
