"""Contracts of the naive thread pool.

Ghost state of one thread (its own contribution to the shared counters)
  A, I   what it added to m_active_threads / m_idle_threads
  got    permits it holds (semaphore contract, property C05)
  ndeq   operations it took and has not executed yet
  scan   number of buckets, counted from the highest priority, it found empty
         since it got the permit

Why no operation is stranded (argument carried by the obligations below):
  execute() adds the operation, then the permit, then looks at the counters, in
  this order, and starts a worker unless it saw an idle worker or as many
  active workers as allowed.  A worker gives up only if it failed to get a
  permit AFTER it had removed itself from idle and then from active.  So
  whichever worker execute() counted on has yet to look for permits.
"""
import re
from vf.spec import *
from specs.opq import N, OP, virt, mgr_instance

TUS = ['src/naive/naive_threadpool.cpp', 'src/operation.cpp']
TP = N + 'threadpool'
D = TP + '::data'
W = TP + '::worker'
MAXC = 1 << 28


class DataSpec(ClassSpec):
    def atomic_pre(self, ex, st, base, off, ty, op):
        f = self.field(ex, off)[2].split('.')[0]
        own = {'m_active_threads': 'A', 'm_idle_threads': 'I'}.get(f)
        cell = base.off + off
        if f == 'm_cancelled':
            st.wr.add(('cell', base.obj, cell))
            st.om(base.obj).cells[cell] = (1, 1)
            if st.g['cancel_seen']:
                return None          # cancellation is final
            s2 = st.fork()
            s2.om(base.obj).cells[cell] = (1, 0)
            return [st, s2]
        else:
            v = fresh(32, f)
            lo = bv(st.g[own], 32) if own else z3.BitVecVal(0 if f != 'm_max_threads' else 1, 32)
            st.assume(z3.And(v >= 0, v < MAXC, v >= lo))
            st.om(base.obj).cells[cell] = (4, v)
        st.wr.add(('cell', base.obj, cell))
        return None

    def atomic_post(self, ex, st, base, off, op, old, new):
        f = self.field(ex, off)[2].split('.')[0]
        g = st.g
        if f == 'm_cancelled':
            if op == 'load':
                g['cancel_seen'] = old == 1
                g['unchecked'] = '0'
            else:
                ex.prove(st, bv(new, 8) == 1, 'a cancellation is final')
                g['cancel_set'] = bv(new, 8)
            return None
        if op == 'load':
            g[('seen', f)] = bv(old, 32)
            g['_reads'] = g.get('_reads', ()) + ((f, bv(old, 32), bool(g.get('released')), len(st.ev)),)
            return None
        if op == 'store':
            g[('stored', f)] = bv(new, 32)
            return None
        # values read before this thread changed the limit say nothing about the new one
        g['_reads'] = tuple(r for r in g.get('_reads', ()) if f != 'm_max_threads' or r[0] != f) + (
            (f, bv(new if f == 'm_max_threads' else old, 32), bool(g.get('released')), len(st.ev)),)
        d = zsimp(bv(new, 32) - bv(old, 32))
        k = {'m_active_threads': 'A', 'm_idle_threads': 'I', 'm_max_threads': 'M'}[f]
        g[k] = zsimp(bv(g[k], 32) + d)
        if g['role'] == 'worker':
            ex.prove(st, z3.And(bv(g[k], 32) >= 0, bv(g[k], 32) <= 1), 'a worker counts itself at most once as %s' % {'A': 'active', 'I': 'idle', 'M': 'maximum'}[k])
            if isinstance(g[k], z3.BitVecRef):
                g[k] = conc(ex, st, g[k])
            if k == 'A':
                g['tried'] = False
                ex.prove(st, bv(g['I'], 32) == 0, 'a worker is not idle while it stops being active')
        ex.event(st, 'COUNT', f=f)
        return None


class PoolSpec(ClassSpec):
    """the pool itself: workers may outlive it unless they keep it"""

    def on_access(self, ex, st, base, off, size, write, atomic):
        if st.g.get('role') == 'worker' and self.is_shared(ex, st, base):
            ex.prove(st, kept(st, base), 'a worker touches its pool only while it keeps a reference to it')
        return ClassSpec.on_access(self, ex, st, base, off, size, write, atomic)


def kept(st, p):
    c = st.g.get('_poolctl')
    return c is not None and p.obj is st.g['pool'].obj and st.g.get(('_ref', c.id), 0) > 0


def pool_lock(ex, st, p, nothrow):
    """promoting a weak reference to the pool"""
    k = ('_ref', p.obj.id)
    if st.g['role'] != 'worker' or st.g.get(k, 0) > 0:
        std.bump(st, p, 1)         # the caller keeps it
        return 1 if nothrow else None
    s2 = st.fork()
    std.bump(st, p, 1)
    s2.g['gone'] = '1'
    return Fork([(st, 1 if nothrow else None), (s2, 0 if nothrow else Throw({'type': '_ZTISt12bad_weak_ptr', 'obj': Obj('exc', None, 'heap')}))])


def pool_release(ex, st, p):
    if st.g['role'] == 'worker' and st.g.get(('_ref', p.obj.id), 0) == 0:
        no_locks(ex, st, 'a worker stops using its pool')
        st.epoch += 1
    return None


def self_ref(ctx, ex, st, p, cls, hook=None):
    """the object is owned by shared references"""
    ctl = Obj('pool.ctl', None, 'ctl')
    ctl.meta['weak_lock'] = pool_lock
    ctl.meta['on_release'] = pool_release
    st.g['_poolctl'] = ctl
    for o, s, path, tn, tk in ctx.prog.layout(cls):
        if path.endswith('_M_weak_this') or tn.startswith('std::weak_ptr'):
            ex.store_raw(st, p.obj, p.off + o, 8, p)
            ex.store_raw(st, p.obj, p.off + o + 8, 8, Ptr(ctl, 0))


def conc(ex, st, v):
    for k in (0, 1):
        if ex.valid(st, v == k):
            return k
    return v


# ---- contracts of the semaphore (proved in C05)
def sem_try(ex, st, c):
    g = st.g
    n = c.name
    ex.prove(st, g['role'] == 'worker', 'only workers take permits')
    s2 = st.fork()
    g['got'] = True
    g['scan'] = z3.BitVecVal(0, 32)
    st.epoch += 1
    s2.epoch += 1
    s2.g['tried'] = True if (isinstance(s2.g['A'], int) and s2.g['A'] == 0 and isinstance(s2.g['I'], int) and s2.g['I'] == 0) else False
    if 'wait_acquire' in n:
        for s in (st, s2):
            ex.prove(s, bv(s.g['I'], 32) == 1, 'a worker that sleeps is counted as idle')
    ex.prove(s2, not s2.g['got'], 'a worker does not ask for another permit while it holds one')
    return Fork([(st, 1), (s2, 0)])


def sem_release(ex, st, c):
    g = st.g
    n = c.args[1] if len(c.args) > 1 else 1
    ex.prove(st, bv(n, 32) > 0, 'permits are released in positive numbers')
    g['rel_n'] = zsimp(bv(g['rel_n'], 32) + bv(n, 32))
    g['released'] = True
    ex.event(st, 'RELEASE', n=n)
    g['enq_before'] = g.get('enq', 0)
    return None


def bucket_size(ex):
    size = next(x[1] for x in ex.p.layout(D) if x[2] == 'm_operations')
    return size // NB(ex)


def bucket_of(ex, st, p):
    """index of the bucket a queue pointer denotes (m_operations[i])"""
    d = st.g['data']
    if p.obj is not d.obj:
        return None
    base = ex.p.off(D, 'm_operations') + d.off
    size = bucket_size(ex)
    off = p.off
    if isinstance(off, int):
        return (off - base) // size if (off - base) % size == 0 else None
    return zsimp(z3.UDiv(bv(off, 64) - base, z3.BitVecVal(size, 64)))


def NB(ex):
    """number of priorities, from the type of the bucket array"""
    t = next(x[3] for x in ex.p.layout(D) if x[2] == 'm_operations')
    m = re.search(r', (\d+)ul>$', t)
    if not m:
        raise Unsupported('m_operations is not an array of queues')
    return int(m.group(1))


def cq_enqueue(ex, st, c):
    g = st.g
    b = bucket_of(ex, st, c.args[0])
    op = sp_get(ex, st, c.args[1])
    ex.event(st, 'ENQ', bucket=b, op=op)
    g['enq'] = g.get('enq', 0) + 1
    ex.prove(st, not g.get('released'), 'an operation is queued before its permit becomes available')
    return 1


def cq_dequeue(ex, st, c):
    g = st.g
    b = bucket_of(ex, st, c.args[0])
    ex.prove(st, z3.And(bv64(b) >= 0, bv64(b) < NB(ex)), 'operations are taken from an existing bucket')
    ex.prove(st, g['got'], 'operations are only taken by a worker that holds a permit')
    ex.prove(st, z3.ULE(bv64(b), z3.ZeroExt(32, g['scan'])), 'lower priority operations are taken only when all higher priorities were found empty')
    slot = c.args[1]
    cur = sp_get(ex, st, slot)
    ex.prove(st, cur.obj is None, 'an operation in hand is not overwritten')
    s2 = st.fork()
    # found
    op = Obj('op', None, 'sym', OP)
    op.meta['from_pool'] = True
    ctl = Obj('op.ctl', None, 'ctl')
    ex.store_raw(st, slot.obj, slot.off, 8, Ptr(op, 0))
    ex.store_raw(st, slot.obj, slot.off + 8, 8, Ptr(ctl, 0))
    st.g['ndeq'] = st.g['ndeq'] + 1
    st.g['got'] = False
    st.epoch += 1
    # nothing found (possibly although something is there)
    s2.epoch += 1
    k = int(g['unchecked'])
    ex.prove(s2, k < NB(ex), 'a worker that keeps looking for an operation checks for the cancellation')
    s2.g['unchecked'] = str(min(k + 1, NB(ex)))
    b32 = bv(b, 32) if isinstance(b, int) else z3.Extract(31, 0, b)
    sc = s2.g['scan']
    s2.g['scan'] = zsimp(z3.If(b32 == sc, sc + 1, sc))
    return Fork([(st, 1), (s2, 0)])


def current_pool(ex, st):
    """what ithreadpool::current() returns, by running it"""
    t = st.fork()
    t.frames = []
    r = [x for x in ex.run_function(t, ex.p.func(N + 'ithreadpool::current'), []) if x.status == 'ret']
    return r[0].ret if len(r) == 1 else None


def outer_pool(ex, st):
    """the pool current before a call: (state, arbitrary pool)"""
    st.frames = []
    r = [x for x in ex.run_function(st, ex.p.func(N + 'ithreadpool::current'), []) if x.status == 'ret']
    if len(r) != 1 or not isinstance(r[0].ret, Ptr):
        raise Unsupported('ithreadpool::current()')
    return r[0], r[0].ret


def op_run(ex, st, c):
    g = st.g
    if not ex.resolve_ptr(st, c.args[0], 'operation'):
        return Kill('null')
    no_locks(ex, st, 'an operation runs')
    ex.prove(st, c.args[0].obj.meta.get('from_pool', False), 'only queued operations are run')
    g['ndeq'] = g['ndeq'] - 1
    ex.prove(st, bv64(g['ndeq']) == 0, 'each operation taken is run exactly once')
    ex.prove(st, And(bv(g['A'], 32) == 1, bv(g['I'], 32) == 0), 'a worker running an operation is counted as active and not idle')
    cur = current_pool(ex, st)
    if isinstance(cur, Ptr) and cur.obj is None:
        ex.prove(st, g['gone'] == '1', 'operations run with their pool as the current pool')
    else:
        ex.prove(st, isinstance(cur, Ptr) and cur.obj is g['pool'].obj, 'operations run with their pool as the current pool')
        ex.prove(st, isinstance(cur, Ptr) and kept(st, cur), 'the pool of a running operation is kept until the operation has returned')
    g['gone'] = '0'
    ex.event(st, 'EXEC', op=c.args[0])
    return None


def mgr_attach(ex, st, c):
    ex.event(st, 'ATTACH', obj=sp_get(ex, st, c.args[1]))
    ctl = sp_get(ex, st, c.args[1], 8)
    if std.ctl_concrete(ex, st, ctl):
        ex.store_raw(st, ctl.obj, ctl.off + 8, 4, std.cnt(ex, st, ctl, 8) + 1)
    return None


def mgr_detach(ex, st, c):
    ex.event(st, 'DETACH', obj=c.args[1])
    return None


CQ = r'^(bool )?moodycamel::ConcurrentQueue<.*>::'
CONTRACTS = [
    (r'^xdispatch::naive::semaphore::(try_acquire|spin_acquire|wait_acquire)\(', sem_try),
    (r'^xdispatch::naive::semaphore::release\(', sem_release),
    (r'^xdispatch::naive::semaphore::(~)?semaphore\(', lambda ex, st, c: None),
    (CQ + r'(~)?ConcurrentQueue\(', lambda ex, st, c: None),
    (CQ + r'enqueue\(', cq_enqueue),
    (CQ + r'try_dequeue<', cq_dequeue),
    (r'^virtual xdispatch::operation::operator\(\)$', op_run),
    (r'^xdispatch::naive::operation_queue_manager::instance\(\)', mgr_instance),
    (r'^xdispatch::naive::operation_queue_manager::attach\(', mgr_attach),
    (r'^xdispatch::naive::operation_queue_manager::detach\(', mgr_detach),
    (r'^xdispatch::thread_utils::system_thread_count\(\)', lambda ex, st, c: st.g['ncpu']),
    (r'^xdispatch::thread_utils::set_current_thread_(name|priority)\(', lambda ex, st, c: None),
]


def executor(ctx):
    ex = ctx.executor(CONTRACTS)
    ex.cls_specs = {D: DataSpec(D, atomics=['m_max_threads', 'm_active_threads', 'm_idle_threads', 'm_cancelled'],
                                free=['m_operations', 'm_operations_counter']),
                    TP: PoolSpec(TP, free=['_M_weak_this'])}
    return ex


def build(ctx, ex):
    st = ctx.new_state()
    n = z3.BitVec('system_threads', 64)
    st.assume(z3.And(n >= 1, n < (1 << 20)))
    st.g.update({'role': 'ctor', 'rel_n': z3.BitVecVal(0, 32), 'A': 0, 'I': 0, 'M': 0, 'got': False, 'ndeq': 0, 'scan': z3.BitVecVal(0, 32), 'cancel_seen': False, 'tried': False, 'unchecked': '0', 'gone': '0', 'ncpu': n})
    ex.root = 'threadpool()'
    f = ctx.prog.func(TP + '::threadpool')
    r, p = new_object(ctx, ex, st, TP, f, [])
    ctx.roots.append(('threadpool()', dem(f.name)))
    r = [x for x in r if ex.feasible(x[0])]
    for e, _ in r:
        d = fget(ex, e, p, TP, 'm_data', 'ptr')
        ex.prove(e, bv(fget(ex, e, d, D, 'm_max_threads'), 32) == z3.Extract(31, 0, 2 * n), 'a pool allows twice the number of processors')
        ex.prove(e, bv(fget(ex, e, d, D, 'm_active_threads'), 32) == 0, 'a new pool has no threads')
        ex.prove(e, bv(fget(ex, e, d, D, 'm_idle_threads'), 32) == 0, 'a new pool has no idle threads')
        ex.prove(e, Not(fbool(ex, e, d, D, 'm_cancelled')), 'a new pool is not cancelled')
    e = r[0][0]
    d = fget(ex, e, p, TP, 'm_data', 'ptr')
    e.g['pool'] = p
    e.g['data'] = d
    self_ref(ctx, ex, e, p, TP)
    share(e, d)
    share(e, p)
    e.ev = []
    return e, p, d


BUCKETS = {'USER_INTERACTIVE': 0, 'USER_INITIATED': 1, 'UTILITY': 2, 'DEFAULT': 2, 'BACKGROUND': 3}


def enum_values(ctx, name):
    for m in ctx.prog.mods:
        v = m.enumerators(name)
        if v:
            return v
    raise Unsupported('enumeration %s not found' % name)


def verify_execute(ctx):
    """returns snapshots of the states in which a worker thread is started"""
    prios = enum_values(ctx, 'queue_priority')
    snaps = []
    for nm, val in sorted(prios.items()):
        ex = executor(ctx)
        st, p, d = build(ctx, ex)
        st.g['role'] = 'executor'

        def mon(ex, st, kind, kw):
            if kind == 'THREAD' and ex.mode == 0:
                ex.prove(st, bv(st.g['A'], 32) == 1, 'a worker is counted as active before it starts')
                s = st.fork()
                s.frames = []
                s.g['_worker'] = kw
                snaps.append((ex, s, kw['state']))
        ex.monitors = [mon]
        op, slot = new_sp(st, 'op', OP)
        f = virt(ex, st, p, N + 'ithreadpool', 'execute')
        for e in ctx.run(ex, 'execute(%s)' % nm, f, [p, slot, val], st):
            enq = [x for x in e.ev if x[0] == 'ENQ']
            rel = [x for x in e.ev if x[0] == 'RELEASE']
            ex.prove(e, len(enq) == 1 and enq[0][1]['op'].obj is op.obj, 'an operation is queued exactly once')
            ex.prove(e, len(enq) == 1 and enq[0][1]['bucket'] == BUCKETS.get(nm), 'an operation is queued in the bucket of its priority', nm)
            ex.prove(e, len(rel) == 1, 'one permit is released per operation')
            ex.prove(e, bv(e.g['rel_n'], 32) == 1, 'one permit is released per operation')
            post_schedule(ex, e)
    return snaps


def post_schedule(ex, e):
    g = e.g
    th = [x for x in e.ev if x[0] == 'THREAD']
    at = [x for x in e.ev if x[0] == 'ATTACH']
    ex.prove(e, len(th) <= 1 and len(at) == len(th), 'at most one worker is started, and its lifetime is managed')
    ex.prove(e, bv(g['A'], 32) == len(th), 'every started worker is counted as active exactly once')
    ex.prove(e, bv(g['I'], 32) == 0, 'starting workers does not change the idle count')
    reads = g.get('_reads', ())

    def seen(f, released=False, before=None):
        return [v for n, v, r, at in reads if n == f and (r or not released) and (before is None or at <= before)]
    if th:
        n = min(i for i, x in enumerate(e.ev) if x[0] == 'THREAD')
        ex.prove(e, Or(False, *[a < m for a in seen('m_active_threads', before=n) for m in seen('m_max_threads', before=n)]), 'no worker is started beyond the maximum')
        ex.prove(e, Or(False, *[i == 0 for i in seen('m_idle_threads', before=n)]), 'no worker is started while another is idle')
    else:
        idle = [i > 0 for i in seen('m_idle_threads', True)]
        busy = [a >= m for a in seen('m_active_threads', True) for m in seen('m_max_threads')]
        ex.prove(e, Or(False, *(idle + busy)), 'unless a worker is started, an idle worker or the maximum number of active ones was seen after the permit was released')


def verify_worker(ctx, snaps):
    if not snaps:
        raise Unsupported('no worker thread is ever started')
    ex, s, state = snaps[0]
    st = s
    # a fresh thread
    st.g['role'] = 'worker'
    st.g.update({'A': 1, 'I': 0, 'got': False, 'ndeq': 0, 'scan': z3.BitVecVal(0, 32), 'tried': False, 'got': False, 'scan': z3.BitVecVal(0, 32)})
    st.held = []
    st.ev = []
    st.g[('_ref', st.g['_poolctl'].id)] = 0
    st.status = None if False else st.status
    vp = ex.load_raw(st, state.obj, state.off, 8, 'ptr')
    f = ex.load_raw(st, vp.obj, vp.off + 16, 8, 'ptr')
    ex.monitors = []
    for e in ctx.run(ex, 'worker', ex.p.find(f.name, f.mod), [state], st):
        g = e.g
        ex.prove(e, bv64(g['ndeq']) == 0, 'a worker ends without an operation in hand')
        ex.prove(e, g['cancel_seen'] or (g['tried'] and not g['got']), 'a worker gives up only if the pool is cancelled or it found no permit after it was counted neither idle nor active')
        ex.prove(e, Or(g['cancel_seen'], And(bv(g['A'], 32) == 0, bv(g['I'], 32) == 0)), 'a worker that gave up is not counted any more')
        ex.prove(e, g.get(('_ref', g['_poolctl'].id), 0) == 0, 'a worker that ends does not keep the pool')
        det = [x for x in e.ev if x[0] == 'DETACH']
        ex.prove(e, len(det) == 1, 'a worker that ends is released by the lifetime manager')


def verify_blocked(ctx):
    """notify_thread_blocked / unblocked: one more worker may run while one is blocked"""
    ex = executor(ctx)
    st, p, d = build(ctx, ex)
    st.g['role'] = 'executor'
    st.g['released'] = True       # whatever is pending was pending before the thread blocks
    for e in ctx.run(ex, 'notify_thread_blocked', virt(ex, st, p, N + 'ithreadpool', 'notify_thread_blocked'), [p], st):
        ex.prove(e, bv(e.g['M'], 32) == 1, 'blocking raises the thread limit by one')
        mx = [i for i, (n, x) in enumerate(e.ev) if n == 'COUNT' and x['f'] == 'm_max_threads']
        th = [i for i, (n, x) in enumerate(e.ev) if n == 'THREAD']
        ex.prove(e, len(mx) == 1 and all(i > mx[0] for i in th), 'the thread limit is raised before another worker is considered')
        post_schedule(ex, e)
    ex = executor(ctx)
    st, p, d = build(ctx, ex)
    st.g['role'] = 'executor'
    for e in ctx.run(ex, 'notify_thread_unblocked', virt(ex, st, p, N + 'ithreadpool', 'notify_thread_unblocked'), [p], st):
        ex.prove(e, bv(e.g['M'], 32) == -1, 'unblocking lowers the thread limit by one')
        ex.prove(e, And(bv(e.g['A'], 32) == 0, bv(e.g['I'], 32) == 0), 'unblocking leaves the workers alone')


def verify_destroy(ctx):
    ex = executor(ctx)
    st, p, d = build(ctx, ex)
    st.g['role'] = 'dtor'

    def mon(ex, st, kind, kw):
        if kind == 'RELEASE' and ex.mode == 0:
            c = st.g.get('cancel_set')
            ex.prove(st, c is not None and bv(c, 8) == 1, 'workers are woken only after the pool is cancelled')
    ex.monitors = [mon]
    st.shared.pop((p.obj.id, p.off), None)      # the last reference is gone
    for e in ctx.run(ex, '~threadpool', TP + '::~threadpool', [p], st):
        c = e.g.get('cancel_set')
        ex.prove(e, c is not None and bv(c, 8) == 1, 'destroying a pool cancels its workers')
        s = e.g.get(('seen', 'm_active_threads'))
        n = bv(e.g['rel_n'], 32)
        ex.prove(e, And(s is not None, bv(s, 32) <= n) if s is not None else False, 'destroying a pool wakes every active worker')
        ex.prove(e, not any(k in ('ENQ', 'EXEC', 'THREAD') for k, _ in e.ev), 'destroying a pool starts nothing')


def verify_worker_only(ctx):
    verify_worker(ctx, verify_execute(ctx))


def verify_worker_gone(ctx):
    """a worker is released by the lifetime manager on another thread: its thread has ended by then"""
    from specs.grp import put_sp
    W = TP + '::worker'
    ex = ctx.executor([])
    st = ctx.new_state()
    o = Obj('worker', ctx.prog.sizeof_cls(W), 'sym', W)
    p = Ptr(o, 0)
    t = fptr(ex, p, W, 'm_thread')
    idv = fresh(64, 'thread_id')
    st.assume(idv != 0)
    ex.store_raw(st, t.obj, t.off, 8, idv)
    put_sp(ex, st, fptr(ex, p, W, 'm_data'), sym_obj('data', TP + '::data'), Ptr(Obj('data.ctl', None, 'ctl'), 0))
    for e in ctx.run(ex, '~worker', W + '::~worker', [p], st):
        j = [d for n, d in e.ev if n == 'JOIN']
        ex.prove(e, len(j) == 1 and j[0]['thread'].obj is o and j[0]['thread'].off == t.off, 'a worker is gone only after its thread has ended', str([n for n, d in e.ev]))
        ex.prove(e, not any(n == 'DETACH' for n, d in e.ev), 'the thread of a worker is never left on its own')
