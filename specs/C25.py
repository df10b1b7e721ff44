"""Qt: queues on QThread / QThreadPool, and connections bound to QObjects (src/qt5)."""
from specs.api import *
from specs.opq import virt
from specs import sig

PROPERTY = 'C25'
DEPENDS = []
N, T5 = X + 'naive::', X + 'qt5::'
TUS = ['src/qt5/qt5_threadpool.cpp', 'src/qt5/qt5_serial_queue.cpp', 'src/qt5/qt5_parallel_queue.cpp', 'src/qt5/qt5_signals.cpp',
       'moc:src/qt5/qt5_signals.h', 'src/naive/naive_threadpool.cpp', 'src/naive/naive_operations.cpp', 'src/operation.cpp', 'src/queue.cpp', 'src/signals.cpp', '/verif/tu/qt_connect.cpp']
ITP = N + 'ithreadpool'
PP, TPX = T5 + 'ThreadPoolProxy', T5 + 'ThreadProxy'
CMG, OCM = X + 'connection_manager', T5 + 'ObjectConnectionManager'
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, '


# ---------------------------------------------------------------- contracts of Qt
def qp_set(ex, st, c):
    ex.store_raw(st, c.args[0].obj, c.args[0].off + 8, 8, c.args[1])
    return None


def qp_get(ex, st, c):
    """a QPointer yields its object, or null once that was destroyed"""
    if st.g.get('gone'):
        return NULL
    return ex.load_raw(st, c.args[0].obj, c.args[0].off + 8, 8, 'ptr')


def rec(nm, *keys):
    def h(ex, st, c):
        ex.event(st, nm, held=list(st.held), **{k: c.args[i] for i, k in enumerate(keys) if i < len(c.args)})
        return None
    return h


def qevent_ctor(ex, st, c):
    p = c.args[0]
    ex.store_raw(st, p.obj, p.off + ex.p.off('QEvent', 't'), 2, bv_low(c.args[1], 16))
    st.om(p.obj)
    return None


def bv_low(v, w):
    if isinstance(v, int):
        return v & ((1 << w) - 1)
    return v if v.size() == w else z3.Extract(w - 1, 0, v)


def reg_type(ex, st, c):
    """every registered type is a number of its own"""
    k = st.g['_nreg'] = st.g.get('_nreg', 0) + 1
    v = z3.BitVec('regtype_%d' % k, 32)
    st.assume(And(z3.UGE(v, 1000), z3.ULE(v, 65535)))
    for j in range(1, k):
        st.assume(v != z3.BitVec('regtype_%d' % j, 32))
    if 'foreign' in st.g:
        st.assume(z3.Extract(15, 0, v) != st.g['foreign'])
    return v


def this_thread(ex, st, c):
    """the thread of the queue, or any other one"""
    if '_this' in st.g:
        return st.g['_this']
    other = sym_obj('current thread', 'QThread')
    if '_th' not in st.g:
        st.g['_this'] = other
        return other
    s2 = st.fork()
    st.g['_this'], s2.g['_this'] = other, s2.g['_th']
    return Fork([(st, other), (s2, s2.g['_th'])])


def ml_ctor(ex, st, c):
    ex.store_raw(st, c.args[0].obj, c.args[0].off, 8, c.args[1])
    st.g['_section'] = st.g.get('_section', 0) + 1
    st.g[('_ml', c.args[0].obj.id)] = True
    return std.do_acquire(ex, st, c.args[1])


def ml_unlock(ex, st, c):
    if not st.g.get(('_ml', c.args[0].obj.id)):
        return None
    st.g[('_ml', c.args[0].obj.id)] = False
    return std.do_release(ex, st, ex.load_raw(st, c.args[0].obj, c.args[0].off, 8, 'ptr'))


def ml_relock(ex, st, c):
    st.g['_section'] = st.g.get('_section', 0) + 1
    st.g[('_ml', c.args[0].obj.id)] = True
    return std.do_acquire(ex, st, ex.load_raw(st, c.args[0].obj, c.args[0].off, 8, 'ptr'))


def q_lock(ex, st, c):
    st.g['_section'] = st.g.get('_section', 0) + 1
    return std.do_acquire(ex, st, c.args[0])


def find_child(ex, st, c):
    """a direct child of that class, if there is one: other threads may have added it since the lock was last held"""
    o, name, meta, opt = c.args[:4]
    ex.prove(st, same(o, st.g['object']), 'the manager of an object is looked for among its children')
    ex.prove(st, bv(opt, 32) == 0, 'the manager of an object is looked for among its own children, not theirs')
    ex.prove(st, isinstance(meta, Ptr) and meta.obj is not None and 'ObjectConnectionManager' in str(meta.obj.name), 'only a connection manager is looked for', repr(meta))
    ex.prove(st, any(h[1].obj.kind != 'stack' for h in st.held), 'children are looked up under the shared lock')
    sec = st.g.get('_section')
    if st.g.get('_known') and st.g['_known'][0] == sec:
        return st.g['_known'][1]
    s2 = st.fork()
    st.g['_known'] = (sec, NULL)
    s2.g['_known'] = (sec, s2.g['existing'])
    return Fork([(st, NULL), (s2, s2.g['existing'])])


def set_parent(ex, st, c):
    o, par = c.args[:2]
    ex.event(st, 'PARENT', o=o, parent=par)
    if same(par, st.g['object']) is True or par.obj is st.g['object'].obj:
        k = st.g.get('_known')
        ex.prove(st, bool(st.held) and k is not None and k[0] == st.g.get('_section') and k[1].obj is None,
                 'an object never gets a second manager')
        st.g['_known'] = (st.g.get('_section'), o)
        st.g['_created'] = o
    return None


def qobject_ctor(ex, st, c):
    if len(c.args) > 1 and isinstance(c.args[1], Ptr) and c.args[1].obj is not None and 'object' in st.g:
        return set_parent(ex, st, c)
    return None


QT = [
    (r'^QPointer<QThreadPool>::QPointer\(QThreadPool\*\)', qp_set),
    (r'^QPointer<QThreadPool>::(~QPointer|QPointer)\(\)', lambda ex, st, c: None),
    (r'^QPointer<QThreadPool>::(operator QThreadPool\*|operator->|data)\(\)', qp_get),
    (r'^QPointer<QThreadPool>::operator\*\(\)', qp_get),
    (r'^QPointer<QThreadPool>::isNull\(\)', lambda ex, st, c: 1 if st.g.get('gone') else 0),
    (r'^QThreadPool::waitForDone\(', rec('WAIT', 'pool', 'msecs')),
    (r'^QThreadPool::start\(QRunnable\*', rec('START', 'pool', 'run', 'prio')),
    (r'^QThreadPool::releaseThread\(\)', rec('FREE_SLOT', 'pool')),
    (r'^QThreadPool::reserveThread\(\)', rec('TAKE_SLOT', 'pool')),
    (r'^QThreadPool::(clear|cancel|tryTake)\(', rec('DROPPED', 'pool')),
    (r'^QRunnable::~QRunnable\(\)', lambda ex, st, c: None),
    (r'^QEvent::QEvent\(QEvent::Type\)', qevent_ctor),
    (r'^QEvent::~QEvent\(\)', lambda ex, st, c: None),
    (r'^QEvent::registerEventType\(', reg_type),
    (r'^QObject::QObject\(QObject\*\)', qobject_ctor),
    (r'^QObject::~QObject\(\)', rec('QOBJECT_GONE', 'o')),
    (r'^QObject::customEvent\(', lambda ex, st, c: None),
    (r'^QObject::event\(', lambda ex, st, c: 0),
    (r'^QObject::moveToThread\(', rec('MOVE', 'o', 'thread')),
    (r'^QObject::setObjectName\(', lambda ex, st, c: None),
    (r'^QObject::setParent\(', set_parent),
    (r'^QThread::currentThread\(\)', this_thread),
    (r'^xdispatch::main_queue\(\)', lambda ex, st, c: sym_obj('main queue', X + 'queue')),
    (r'^QObject::thread\(\)', lambda ex, st, c: st.g['thread_of'](c.args[0])),
    (r'^QString::fromStdString\(|^QString::~?QString\(', lambda ex, st, c: None),
    (r'^QCoreApplication::postEvent\(', rec('POST', 'to', 'event', 'prio')),
    (r'^QCoreApplication::instance\(\)', lambda ex, st, c: st.g['app']),
    (r'^QCoreApplication::exec\(\)', lambda ex, st, c: (ex.event(st, 'QEXEC'), z3.BitVec('exit_code', 32))[1]),
    (r'^QMutexLocker::QMutexLocker\(', ml_ctor),
    (r'^QMutexLocker::(~QMutexLocker|unlock)\(\)', ml_unlock),
    (r'^QMutexLocker::relock\(\)', ml_relock),
    (r'^QMutex::(lock)\(\)|^QBasicMutex::lock\(\)', q_lock),
    (r'^QMutex::(unlock)\(\)|^QBasicMutex::unlock\(\)', lambda ex, st, c: std.do_release(ex, st, c.args[0])),
    (r'^QMutex::~?QMutex\(', lambda ex, st, c: None),
    (r'^qt_qFindChild_helper\(', find_child),
    (r'^QFlags<Qt::FindChildOption>::QFlags\(Qt::FindChildOption\)', None),
]
QT = [x for x in QT if x[1]]


def op_run(ex, st, c):
    if not ex.resolve_ptr(st, c.args[0], 'operation'):
        return Kill('null')
    no_locks(ex, st, 'an operation runs')
    from specs.pool import current_pool
    cur = current_pool(ex, st)
    want = st.g.get('current')
    if want is not None:
        ex.prove(st, isinstance(cur, Ptr) and same(cur, want), 'operations run with their pool as the current pool', repr(cur))
    ex.event(st, 'EXEC', op=c.args[0])
    s2 = st.fork()
    st.epoch += 1
    return Fork([(st, None), (s2, Throw({'type': '_ZTISt9exception', 'obj': Obj('exc', None, 'heap')}))]) if st.g.get('may_throw') else None


def kinds(e):
    return [n for n, d in e.ev if n not in ('LOOP', 'FREE')]


def only(e, nm):
    return [d for n, d in e.ev if n == nm]


def refs(e, ctl):
    """references to an object beyond those it had"""
    return e.g.get(('_ref', ctl.obj.id), 0)


def owners(ex, e):
    """number of shared references to the proxy"""
    return std.cnt(ex, e, e.g['pctl'], 8)


def op_arg(ex, st):
    p, slot = new_sp(st, 'op', OP)
    return p, slot, sp_get(ex, st, slot, 8)


# ---------------------------------------------------------------- QThreadPool
def new_pool_proxy(ctx, ex):
    """the proxy a queue is created with, by the real factory"""
    st = ctx.new_state()
    qpool = sym_obj('qpool', 'QThreadPool')
    out = Ptr(Obj('out', 64, 'stack'), 0)
    ex.root = 'create_parallel_queue'
    ends = ex.run_function(st, ctx.prog.func(T5 + 'create_parallel_queue(' + STR + 'QThreadPool*, xdispatch::queue_priority)'),
                           [out, str_arg(st, 'given'), qpool, z3.BitVec('qprio', 32)])
    return ready(ex, ends, 'PARALLEL') + (qpool,)


def ready(ex, ends, kind):
    r = [x for x in ends if x.status == 'ret' and ex.feasible(x)]
    if len(r) != 1 or len(only(r[0], kind)) != 1:
        raise Unsupported('a queue on a Qt pool or thread cannot be created')
    st = r[0]
    p = only(st, kind)[0]['pool']
    st.g['pctl'] = only(st, kind)[0]['ctl']
    st.frames = []
    return st, p


def call(ctx, ex, nm, st, p, cls, meth, args, **kw):
    f = virt(ex, st, p, cls, meth)
    st.frames = []
    return ctx.run(ex, nm, f, [p] + args, st, **kw)


def verify_pool(ctx):
    from specs.pool import enum_values
    prios = enum_values(ctx, 'queue_priority')
    got = {}
    for nm, pv in sorted(prios.items()):
        ex = ctx.executor(QT + FACT + [(r'^virtual xdispatch::operation::operator\(\)$', op_run)])
        st, p, qpool = new_pool_proxy(ctx, ex)
        st.ev = []
        op, slot, ctl = op_arg(ex, st)
        for e in call(ctx, ex, 'execute(%s)' % nm.split('::')[-1], st, p, ITP, 'execute', [slot, pv]):
            s = only(e, 'START')
            ex.prove(e, kinds(e) == ['START'], 'an operation is handed to the QThreadPool exactly once', str(kinds(e)))
            if len(s) != 1:
                continue
            s = s[0]
            ex.prove(e, same(s['pool'], qpool), 'an operation runs on the QThreadPool of its queue')
            got.setdefault(nm.split('::')[-1], []).append((ex, e, s['prio']))
            ex.prove(e, refs(e, ctl) == 1, 'an operation is kept alive until it runs')
            ex.prove(e, owners(ex, e) == 2, 'a pool outlives the operations that were handed on', str(owners(ex, e)))
            # the pool runs it, and deletes it if told to
            run = s['run']
            e.ev = []
            e.g['current'] = p
            e.g['may_throw'] = True
            from specs.pool import outer_pool
            e, before = outer_pool(ex, e)
            for x in call(ctx, ex, 'runnable', e, run, 'QRunnable', 'run', [], allow_exc=True):
                k = only(x, 'EXEC')
                ex.prove(x, len(k) == 1 and same(k[0]['op'], op), 'the operation submitted runs exactly once', str(kinds(x)))
                if x.status == 'exc':
                    continue
                from specs.pool import current_pool
                cur = current_pool(ex, x)
                ex.prove(x, isinstance(cur, Ptr) and same(cur, before), 'the current pool is restored afterwards')
                if run.obj.id not in x.dead:
                    ad = ex.load_raw(x, run.obj, run.off + ctx.prog.off('QRunnable', 'ref'), 4, ity(32))
                    ex.prove(x, bv(ad, 32) != 0xffffffff, 'the runnable is deleted after it ran')
                    x.ev = []
                    for y in delete(ctx, ex, 'runnable deleted', x, run, 'QRunnable'):
                        ex.prove(y, owners(ex, y) == 1, 'a pool is released after its operations')
                        ex.prove(y, refs(y, ctl) == 0 and not only(y, 'EXEC'), 'an operation is released after it ran')
                else:
                    ex.prove(x, refs(x, ctl) == 0, 'an operation is released after it ran')
    order = [('BACKGROUND', 'UTILITY', True), ('BACKGROUND', 'DEFAULT', True), ('UTILITY', 'USER_INITIATED', True), ('DEFAULT', 'USER_INITIATED', True),
             ('UTILITY', 'DEFAULT', False), ('USER_INITIATED', 'USER_INTERACTIVE', True)]
    for a, b, strict in order:
        for ex, e, x in got.get(a, []):
            for _, _, y in got.get(b, []):
                x1, y1 = bv(x, 32), bv(y, 32)
                ex.prove(e, (x1 < y1) if strict else (x1 <= y1), 'operations of %s do not overtake those of %s' % (a, b), '%s %s' % (x, y))


def verify_blocking(ctx):
    for m, ev, what in (('notify_thread_blocked', 'FREE_SLOT', 'a blocked operation gives its slot of the QThreadPool back'),
                        ('notify_thread_unblocked', 'TAKE_SLOT', 'an operation continuing takes its slot of the QThreadPool again')):
        ex = ctx.executor(QT + FACT)
        st, p, qpool = new_pool_proxy(ctx, ex)
        st.ev = []
        for e in call(ctx, ex, m, st, p, ITP, m, []):
            ex.prove(e, kinds(e) == [ev], what, str(kinds(e)))
            for n, d in e.ev[:1]:
                ex.prove(e, same(d['pool'], qpool), what)


def verify_pool_end(ctx):
    """the last reference to a proxy goes away at any time after the last handle of its queue (on the thread of the
    operation_queue_manager): its user may be destroying the QThreadPool by then"""
    ex = ctx.executor(QT + FACT)
    st, p, qpool = new_pool_proxy(ctx, ex)
    st.ev = []
    for e in call(ctx, ex, 'last reference dropped', st, st.g['pctl'], 'std::_Sp_counted_base<(__gnu_cxx::_Lock_policy)2>', '_M_dispose', []):
        ex.prove(e, not kinds(e), 'a QThreadPool is not used any more once its queues were released', str(kinds(e)))


# ---------------------------------------------------------------- QThread
def new_thread_proxy(ctx, ex):
    st = ctx.new_state()
    th = sym_obj('qthread', 'QThread')
    out = Ptr(Obj('out', 64, 'stack'), 0)
    ex.root = 'create_serial_queue'
    ends = ex.run_function(st, ctx.prog.func(T5 + 'create_serial_queue(' + STR + 'QThread*, xdispatch::queue_priority)'),
                           [out, str_arg(st, 'given'), th, z3.BitVec('qprio', 32)])
    st, p = ready(ex, ends, 'SERIAL')
    mv = only(st, 'MOVE')
    ex.prove(st, len(mv) == 1 and same(mv[0]['thread'], th) and mv[0]['o'].obj is p.obj, 'events of a queue are delivered on its thread')
    qo = mv[0]['o'] if mv else p
    st.ev = []
    st.g['_th'] = th
    return st, p, qo, th


def delete(ctx, ex, nm, e, p, cls):
    """the object is deleted by Qt: its deleting destructor"""
    k = [k for k in range(8) if ex.vname(cls, k) == '%s::~%s' % (cls, cls)]
    vp = ex.load_raw(e, p.obj, p.off, 8, 'ptr')
    f = ex.load_raw(e, vp.obj, vp.off + 8 * k[-1], 8, 'ptr')
    e.frames = []
    return ctx.run(ex, nm, ex.p.find(f.name, f.mod), [p], e)


def deliver(ctx, ex, nm, e, qo, event):
    """Qt delivers an event: QObject::event hands what is not its own to customEvent"""
    f = virt(ex, e, qo, 'QObject', 'event') or virt(ex, e, qo, 'QObject', 'customEvent')
    if f is None:
        ex.prove(e, False, 'events posted to the thread of a queue are handled')
        return []
    e.frames = []
    return ctx.run(ex, nm, f, [qo, event], e)


def verify_thread(ctx):
    from specs.pool import enum_values
    ex = ctx.executor(QT + FACT + [(r'^virtual xdispatch::operation::operator\(\)$', op_run)])
    st, p, qo, th = new_thread_proxy(ctx, ex)
    op, slot, ctl = op_arg(ex, st)
    pr = z3.BitVec('priority', 32)
    for e in call(ctx, ex, 'thread execute', st, p, ITP, 'execute', [slot, pr]):
        s = only(e, 'POST')
        ex.prove(e, kinds(e) == ['POST'], 'an operation is posted to its thread exactly once, and not run anywhere else', str(kinds(e)))
        if len(s) != 1:
            continue
        ex.prove(e, same(s[0]['to'], qo), 'an operation is posted to its thread')
        e.ev = []
        ev = s[0]['event']
        ex.prove(e, refs(e, ctl) == 1, 'an operation is kept alive until it runs')
        for x in deliver(ctx, ex, 'event delivered', e, qo, ev):
            k = only(x, 'EXEC')
            ex.prove(x, len(k) == 1 and same(k[0]['op'], op), 'the operation posted runs exactly once', str(kinds(x)))
            y = x.fork()
            y.ev = []
            for z in delete(ctx, ex, 'event deleted', y, ev, 'QEvent'):
                ex.prove(z, refs(z, ctl) == 0 and not only(z, 'EXEC'), 'an operation is released after it ran')
            # a foreign event on the same object
            y = x.fork()
            y.ev = []
            fe = Ptr(Obj('foreign event', None, 'sym', 'QEvent'), 0)
            t = z3.BitVec('foreign_type', 16)
            for j in range(1, y.g.get('_nreg', 0) + 1):
                y.assume(z3.Extract(15, 0, z3.BitVec('regtype_%d' % j, 32)) != t)
            y.g['foreign'] = t
            y.om(fe.obj)
            ex.store_raw(y, fe.obj, ctx.prog.off('QEvent', 't'), 2, t)
            for z in deliver(ctx, ex, 'foreign event', y, qo, fe):
                ex.prove(z, not only(z, 'EXEC'), 'no other event runs an operation')
    for m in ('notify_thread_blocked', 'notify_thread_unblocked'):
        ex = ctx.executor(QT + FACT)
        st, p, qo, th = new_thread_proxy(ctx, ex)
        for e in call(ctx, ex, 'thread ' + m, st, p, ITP, m, []):
            ex.prove(e, not kinds(e), 'blocking a thread has no other effect')


# ---------------------------------------------------------------- factories
def created(nm):
    def h(ex, st, c):
        q = Ptr(st.g.setdefault('_impl', Obj('implementation', None, 'sym', IQ)), 0)
        out, lab, pool, prio, bk = c.args[:5]
        ctl = sp_get(ex, st, pool, 8)
        if std.ctl_concrete(ex, st, ctl):        # the queue keeps its pool
            ex.store_raw(st, ctl.obj, ctl.off + 8, 4, std.cnt(ex, st, ctl, 8) + 1)
        ex.event(st, nm, label=std.get_str(ex, st, lab), pool=sp_get(ex, st, pool), ctl=ctl, prio=prio, backend=bk)
        o = ex.p.off(X + 'queue', 'm_impl')
        put_sp(ex, st, Ptr(out.obj, out.off + o), q, Ptr(Obj('impl.ctl', None, 'ctl'), 0))
        std.set_str(ex, st, Ptr(out.obj, out.off + ex.p.off(X + 'queue', 'm_label')), std.get_str(ex, st, lab))
        return None
    return h


FACT = [(r'^xdispatch::naive::create_serial_queue\(.*ithreadpool.*backend_type\)', created('SERIAL')),
        (r'^xdispatch::naive::create_parallel_queue\(.*ithreadpool.*backend_type\)', created('PARALLEL'))]


def is_proxy(ctx, ex, e, p, cls, target):
    """the pool handed on is a fresh proxy for the given Qt object"""
    if not (isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'heap'):
        return False
    if cls == PP:
        v = ex.load_raw(e, p.obj, p.off + ctx.prog.off(PP, 'm_pool') + 8, 8, 'ptr')
        return same(v, target)
    mv = only(e, 'MOVE')
    return len(mv) == 1 and mv[0]['o'].obj is p.obj and same(mv[0]['thread'], target)


def verify_factories(ctx):
    bt = backend_types(ctx)
    qt = [v for k, v in bt.items() if k.endswith('qt5')][0]
    pr = z3.BitVec('priority', 32)
    for nm, kind, tcls, cls in (('create_serial_queue', 'SERIAL', 'QThread', TPX), ('create_parallel_queue', 'PARALLEL', 'QThreadPool', PP)):
        ex = ctx.executor(QT + FACT)
        st = ctx.new_state()
        t = sym_obj('target', tcls)
        out = Ptr(Obj('out', 64, 'stack'), 0)
        for e in ctx.run(ex, nm, T5 + nm + '(' + STR + tcls + '*, xdispatch::queue_priority)', [out, str_arg(st, 'given'), t, pr], st):
            check_created(ctx, ex, e, kind, cls, t, pr, qt)
            i = sp_get(ex, e, Ptr(out.obj, out.off + ctx.prog.off(X + 'queue', 'm_impl')))
            ex.prove(e, i.obj is e.g.get('_impl'), 'the queue created is returned')


def check_created(ctx, ex, e, kind, cls, t, pr, qt, lab='given'):
    k = only(e, kind)
    ex.prove(e, len(k) == 1, 'one queue is created', str(kinds(e)))
    if len(k) != 1:
        return
    k = k[0]
    ex.prove(e, k['label'] == ('sym', lab), 'a queue carries the label it was given')
    ex.prove(e, is_proxy(ctx, ex, e, k['pool'], cls, t), 'a queue runs its operations on the given thread or pool', repr(k['pool']))
    ex.prove(e, same(k['prio'], pr) if is_sym(pr) else bv(k['prio'], 32) == pr, 'a queue has the requested priority')
    ex.prove(e, bv(k['backend'], 32) == qt, 'the queue belongs to the Qt backend')


def verify_main(ctx):
    bt = backend_types(ctx)
    qt = [v for k, v in bt.items() if k.endswith('qt5')][0]
    from specs.pool import enum_values
    dflt = [v for k, v in enum_values(ctx, 'queue_priority').items() if k.split('::')[-1] == 'DEFAULT'][0]

    def fallback(ex, st, c):
        out = c.args[0]
        lab = c.args[-1] if isinstance(c.args[-1], Ptr) else c.args[-2]
        ex.event(st, 'FALLBACK', label=std.get_str(ex, st, lab))
        put_sp(ex, st, out, st.g['native'], Ptr(Obj('native.ctl', None, 'ctl'), 0))
        return None
    for have in (True, False):
        ex = ctx.executor(QT + FACT + [(r'^xdispatch::naive::backend::create_main_queue\(', fallback),
                                       (r'^xdispatch::naive::backend::exec\(\)', rec('NATIVE_EXEC', 'o'))])
        for fn in ('create_main_queue', 'exec'):
            st = ctx.new_state()
            app, th = sym_obj('application', 'QCoreApplication'), sym_obj('main thread', 'QThread')
            st.g['app'] = app if have else NULL
            st.g['_th'] = th
            st.g['thread_of'] = lambda p: th if p.obj is app.obj else sym_obj('other thread', 'QThread')
            st.g['native'] = sym_obj('native main queue', IQ)
            b = sym_obj('backend', T5 + 'backend')
            nm = fn + ('' if have else ' (no application)')
            out = Ptr(Obj('out', 16, 'stack'), 0)
            f = ctx.prog.func(T5 + 'backend::' + fn)
            if fn == 'exec':
                for e in ctx.run(ex, nm, f, [b], st):
                    want = ['QEXEC'] if have else ['NATIVE_EXEC']
                    ex.prove(e, kinds(e) == want, 'exec() runs the loop which serves the main queue', str(kinds(e)))
                continue
            for e in ctx.run(ex, nm, f, [out, b, str_arg(st, 'given')], st):
                i = sp_get(ex, e, out)
                if have:
                    check_created(ctx, ex, e, 'SERIAL', TPX, th, dflt, qt)
                    ex.prove(e, i.obj is e.g.get('_impl'), 'the main queue is that of the thread of the application')
                    ex.prove(e, not only(e, 'FALLBACK'), 'the main queue is that of the thread of the application')
                else:
                    ex.prove(e, kinds(e) == ['FALLBACK'] and same(i, e.g['native']), 'without an application the native main queue is used', str(kinds(e)))
                    for n, d in e.ev[:1]:
                        ex.prove(e, d['label'] == ('sym', 'given'), 'a queue carries the label it was given')


# ---------------------------------------------------------------- connections bound to objects
def man_add(ex, st, c):
    ex.event(st, 'ADD', m=c.args[0], c=c.args[1])
    return c.args[0]


def man_reset(nm):
    def h(ex, st, c):
        ex.event(st, nm, m=c.args[0], s=c.args[1] if len(c.args) > 1 else None)
        return None
    return h


MAN = [(r'^xdispatch::connection_manager::operator\+=\(', man_add),
       (r'^xdispatch::connection_manager::reset_connections\(\)', man_reset('RESET_ALL')),
       (r'^xdispatch::connection_manager::reset_connections_with\(', man_reset('RESET')),
       (r'^xdispatch::connection_manager::~connection_manager\(\)', man_reset('MANAGER_GONE')),
       (r'^xdispatch::connection_manager::connection_manager\(\)', lambda ex, st, c: None)]


def obj_state(ctx):
    st = ctx.new_state()
    st.g['object'] = sym_obj('object', 'QObject')
    st.g['existing'] = Ptr(Obj('manager of object', None, 'sym', OCM), 0)
    return st


def member(ctx, m):
    return Ptr(m.obj, m.off + ctx.prog.off(OCM, 'm_connections'))


def verify_register(ctx):
    ex = ctx.executor(QT + MAN)
    st = obj_state(ctx)
    c = sym_obj('connection', X + 'connection')
    for e in ctx.run(ex, 'register_connection', T5 + 'register_connection', [st.g['object'], c], st):
        a = only(e, 'ADD')
        ex.prove(e, len(a) == 1, 'the connection is registered exactly once', str(kinds(e)))
        ex.prove(e, not [n for n in kinds(e) if n.startswith('RESET') or n == 'MANAGER_GONE'], 'registering disconnects nothing')
        if len(a) == 1:
            m = e.g.get('_created') or e.g['existing']
            k = e.g.get('_known')
            ex.prove(e, same(a[0]['m'], member(ctx, m)) and k is not None and same(k[1], m), 'the connection is registered with the one manager of the object', repr(a[0]['m']))
            ex.prove(e, same(a[0]['c'], c), 'the given connection is registered')
    ex = ctx.executor(QT + MAN)
    st = obj_state(ctx)
    s = sym_obj('signal', X + 'signal_p')
    for e in ctx.run(ex, 'destroy_connections', T5 + 'destroy_connections', [st.g['object'], s], st):
        k = e.g.get('_known')
        ex.prove(e, k is not None, 'the manager of the object is looked up')
        r = only(e, 'RESET')
        ex.prove(e, not [n for n in kinds(e) if n in ('RESET_ALL', 'MANAGER_GONE', 'ADD')], 'only connections with the given signal are dropped', str(kinds(e)))
        if k is not None and k[1].obj is e.g['existing'].obj:
            ex.prove(e, len(r) >= 1 and same(r[0]['m'], member(ctx, k[1])) and same(r[0]['s'], s), 'the connections of the object with the signal are dropped', str(kinds(e)))
    # the manager, a child of the object, goes with it
    ex = ctx.executor(QT + MAN)
    st = ctx.new_state()
    m = Ptr(Obj('manager', ctx.prog.sizeof_cls(OCM), 'sym', OCM), 0)
    for e in ctx.run(ex, '~ObjectConnectionManager', ctx.prog.func(OCM + '::~ObjectConnectionManager'), [m], st):
        g = only(e, 'MANAGER_GONE')
        ex.prove(e, len(g) == 1 and same(g[0]['m'], member(ctx, m)), 'the connections of an object are dropped with it', str(kinds(e)))


def verify_connect(ctx):
    """qt5::connect / disconnect"""
    conn = []

    def connect(ex, st, c):
        ex.event(st, 'CONNECT', a=c.args[1:])
        return None

    def register(ex, st, c):
        ex.event(st, 'REGISTER', o=c.args[0], c=c.args[1])
        return None

    def destroy(ex, st, c):
        ex.event(st, 'DESTROY', o=c.args[0], s=c.args[1])
        return None
    C = [(r'xdispatch::signal<void \(int\)>::connect', connect), (r'^xdispatch::qt5::register_connection\(', register),
         (r'^xdispatch::qt5::destroy_connections\(', destroy), (r'^xdispatch::connection::~connection\(\)', lambda ex, st, c: None),
         (r'^xdispatch::(main|global)_queue\(', returns_queue('other queue'))]
    for nm in ('vf_qt_connect_slot', 'vf_qt_connect_lambda'):
        ex = ctx.executor(C)
        st = ctx.new_state()
        s, o, q = sym_obj('signal', X + 'signal<void(int)>'), sym_obj('receiver', 'vf_receiver'), sym_obj('queue', X + 'queue')
        fn = sym_obj('functor', 'functor')
        m = z3.BitVec('mode', 32)
        f = [x for x in ctx.prog.search('^' + nm + r'\(')][0]
        f = ctx.prog.func(f) if isinstance(f, str) else f
        args = [s, o, q, m] if 'slot' in nm else [s, o, fn, q, m]
        for e in ctx.run(ex, nm[3:].replace('_', ' '), f, args, st):
            k = kinds(e)
            ex.prove(e, k == ['CONNECT', 'REGISTER'], 'a slot is connected once and its connection registered with the object', str(k))
            if k != ['CONNECT', 'REGISTER']:
                continue
            a = e.ev[0][1]['a'] if e.ev[0][0] == 'CONNECT' else only(e, 'CONNECT')[0]['a']
            ex.prove(e, same(a[0], s), 'the slot is connected to the given signal')
            ex.prove(e, same(a[-2], q), 'the slot is called on the given queue')
            ex.prove(e, same(a[-1], m), 'the slot is connected with the given mode')
            if 'slot' in nm:
                ex.prove(e, same(a[1], o), 'the slot of the receiver is connected')
            else:
                ex.prove(e, same(a[1], fn), 'the given function is connected')
            ex.prove(e, same(only(e, 'REGISTER')[0]['o'], o), 'the connection is bound to the receiver')
    ex = ctx.executor(C)
    st = ctx.new_state()
    s, o = sym_obj('signal', X + 'signal<void(int)>'), sym_obj('receiver', 'QObject')
    f = [x for x in ctx.prog.search(r'^vf_qt_disconnect\(')][0]
    f = ctx.prog.func(f) if isinstance(f, str) else f
    for e in ctx.run(ex, 'qt disconnect', f, [s, o], st):
        k = only(e, 'DESTROY')
        ex.prove(e, kinds(e) == ['DESTROY'] and same(k[0]['o'], o) and same(k[0]['s'], s), 'disconnecting drops the connections of the object with the signal', str(kinds(e)))


def verify(ctx):
    verify_pool(ctx)
    verify_blocking(ctx)
    verify_pool_end(ctx)
    verify_thread(ctx)
    verify_factories(ctx)
    verify_main(ctx)
    verify_register(ctx)
    verify_connect(ctx)
    sig.verify_manager(ctx)
