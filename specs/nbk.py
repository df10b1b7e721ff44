"""The naive backend creates its objects on the one global pool (C22), parallel queues hand on to their pool (C03)."""
from specs.api import *
from specs.opq import virt

N = X + 'naive::'
TUS = ['src/naive/naive_backend.cpp', 'src/naive/naive_parallel_queue.cpp', 'src/naive/naive_serial_queue.cpp',
       'src/naive/naive_operation_queue.cpp', 'src/naive/naive_threadpool.cpp', 'src/naive/naive_manual_thread.cpp']
PQ, SQ, Q, MT = N + 'parallel_queue_impl', N + 'serial_queue_impl', N + 'operation_queue', N + 'manual_thread'
TP = N + 'ithreadpool'


def mgr_instance(ex, st, c):
    return Ptr(st.g.setdefault('_mgr', Obj('manager', None, 'sym')), 0)


def keep(ex, st, c):
    ctl = sp_get(ex, st, c.args[1], 8)
    if std.ctl_concrete(ex, st, ctl):
        ex.store_raw(st, ctl.obj, ctl.off + 8, 4, std.cnt(ex, st, ctl, 8) + 1)
    ex.event(st, 'ATTACH', o=sp_get(ex, st, c.args[1]))
    return None


def pool_execute(ex, st, c):
    ex.event(st, 'EXECUTE', pool=c.args[0], op=sp_get(ex, st, c.args[1]), prio=c.args[2])
    return None


def new_pool(ex, st, c):
    k = st.g['pools'] = st.g.get('pools', 0) + 1
    o = sym_obj('pool_%d' % k, TP)
    put_sp(ex, st, c.args[0], o, Ptr(Obj('pool.ctl', None, 'ctl'), 0))
    ex.event(st, 'NEWPOOL', o=o)
    return None


def the_pool(ex, st, c):
    put_sp(ex, st, c.args[0], st.g['gpool'], Ptr(Obj('pool.ctl', None, 'ctl'), 0))
    return None


BASE = [(r'^xdispatch::naive::operation_queue_manager::instance\(\)', mgr_instance),
        (r'^xdispatch::naive::operation_queue_manager::attach\(', keep),
        (r'^xdispatch::naive::operation_queue_manager::detach\(', lambda ex, st, c: None),
        (r'^virtual xdispatch::naive::ithreadpool::execute$', pool_execute)]


def concrete(ex, p, cls, what, st):
    ok = isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'heap'
    ex.prove(st, ok, what, repr(p))
    return ok


def verify_async(ctx):
    """an operation submitted to a parallel queue is given to its pool once, with the queue's priority"""
    ex = ctx.executor(BASE)
    st = ctx.new_state()
    pool, pslot = new_sp(st, 'pool', TP)
    prio, bk = z3.BitVec('priority', 32), z3.BitVec('backend', 32)
    ex.root = 'parallel_queue_impl()'
    f = ctx.prog.func(PQ + '::parallel_queue_impl')
    ctx.roots.append((ex.root, dem(f.name)))
    r, p = new_object(ctx, ex, st, PQ, f, [pslot, prio, bk])
    st = [x for x in r if ex.feasible(x[0])][0][0]
    at = [d for n, d in st.ev if n == 'ATTACH']
    ex.prove(st, len(at) == 1 and same(at[0]['o'], pool), 'the pool of a parallel queue is kept alive')
    st.ev = []
    st.frames = []
    op, slot = new_sp(st, 'op', OP)
    for e in ctx.run(ex, 'parallel async', PQ + '::async', [p, slot], st):
        ex.prove(e, [n for n, d in e.ev] == ['EXECUTE'], 'an operation is given to the pool exactly once', str([n for n, d in e.ev]))
        for n, d in e.ev[:1]:
            ex.prove(e, same(d['pool'], pool), 'an operation runs on the pool of its queue')
            ex.prove(e, same(d['op'], op), 'the submitted operation runs')
            ex.prove(e, same(d['prio'], prio), 'an operation runs with the priority of its queue')


def verify_pool(ctx):
    """there is one global pool"""
    ex = ctx.executor(BASE + [(r'^virtual xdispatch::naive::backend::create_threadpool$', new_pool),
                              (r'^xdispatch::naive::backend::create_threadpool\(\)', new_pool)])
    st = ctx.new_state()
    b = sym_obj('backend', N + 'backend')
    got = []
    for k in (1, 2):
        out = Ptr(Obj('sp', 16, 'stack'), 0)
        st.frames = []
        r = [e for e in ctx.run(ex, 'global_threadpool', N + 'backend::global_threadpool', [out, b], st) if ex.feasible(e)]
        ex.prove(st, len(r) == 1, 'the global pool is always available')
        if len(r) != 1:
            return
        st = r[0]
        got.append(sp_get(ex, st, out))
    ex.prove(st, got[0].obj is not None and same(got[0], got[1]), 'there is one global pool')


def creator(ctx, name, fn, args, cls, backend=None):
    ex = ctx.executor(BASE + [(r'^xdispatch::naive::backend::global_threadpool\(\)', the_pool)])
    st = ctx.new_state()
    st.g['gpool'] = sym_obj('global pool', TP)
    b = [backend] if backend else []
    out = Ptr(Obj('out', 64, 'stack'), 0)
    a = args(ex, st)
    for e in ctx.run(ex, name, fn, [out] + b + a, st):
        yield ex, e, out, a


def field_of(ex, st, sp, icls, cls, f, ty=None):
    """field of the created object, given the shared_ptr to its interface"""
    d = base_offset(ex, cls, icls)
    return fget(ex, st, Ptr(sp.obj, sp.off - d), cls, f, ty)


def base_offset(ex, cls, icls):
    """offset of the interface `icls` within `cls` (it introduces its own vtable pointer)"""
    return ex.p.off(cls, '_vptr$' + icls.split('::')[-1])


def verify_created(ctx):
    lab = lambda ex, st: str_arg(st, 'given')
    pr, bk = z3.BitVec('priority', 32), z3.BitVec('backend', 32)
    b = sym_obj('backend', N + 'backend')
    STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, '
    for ex, e, out, a in creator(ctx, 'backend::create_parallel_queue', N + 'backend::create_parallel_queue(' + STR + 'xdispatch::queue_priority, xdispatch::backend_type)',
                                 lambda ex, st: [lab(ex, st), pr, bk], PQ, b):
        p = sp_get(ex, e, out)
        if concrete(ex, p, PQ, 'a new parallel queue object is created', e):
            ex.prove(e, same(field_of(ex, e, p, IQ, PQ, 'm_priority'), pr), 'a new parallel queue has the requested priority')
            ex.prove(e, same(field_of(ex, e, p, IQ, PQ, 'm_pool', 'ptr'), e.g['gpool']), 'parallel queues share the global pool')
            ex.prove(e, same(field_of(ex, e, p, IQ, PQ, 'm_backend'), bk), 'a new queue belongs to its backend')
    for ex, e, out, a in creator(ctx, 'backend::create_serial_queue', N + 'backend::create_serial_queue(' + STR + 'xdispatch::queue_priority, xdispatch::backend_type)',
                                 lambda ex, st: [lab(ex, st), pr, bk], SQ, b):
        serial_checks(ex, e, sp_get(ex, e, out), pr, e.g['gpool'], bk)
    pl = []

    def args(ex, st):
        pool, slot = new_sp(st, 'mypool', TP)
        pl.append(pool)
        return [lab(ex, st), slot, pr, bk]
    from specs.pool import enum_values
    naive = enum_values(ctx, 'backend_type')['naive']
    for more, k, want in ((', xdispatch::backend_type', 4, bk), ('', 3, z3.BitVecVal(naive, 32))):
        SIG = '(' + STR + 'std::shared_ptr<xdispatch::naive::ithreadpool> const&, xdispatch::queue_priority%s)' % more
        some = lambda ex, st, k=k: args(ex, st)[:k]
        for ex, e, out, a in creator(ctx, 'create_serial_queue', N + 'create_serial_queue' + SIG, some, SQ):
            i, l = queue_of(ex, e, out)
            ex.prove(e, l == ('sym', 'given'), 'a queue carries the label it was given', str(l))
            serial_checks(ex, e, i, pr, pl[-1], want)
        for ex, e, out, a in creator(ctx, 'create_parallel_queue', N + 'create_parallel_queue' + SIG, some, PQ):
            i, l = queue_of(ex, e, out)
            ex.prove(e, l == ('sym', 'given'), 'a queue carries the label it was given', str(l))
            if concrete(ex, i, PQ, 'a new parallel queue object is created', e):
                ex.prove(e, same(field_of(ex, e, i, IQ, PQ, 'm_backend'), want), 'a new queue belongs to its backend')
                ex.prove(e, same(field_of(ex, e, i, IQ, PQ, 'm_priority'), pr), 'a new parallel queue has the requested priority')
                ex.prove(e, same(field_of(ex, e, i, IQ, PQ, 'm_pool', 'ptr'), pl[-1]), 'a parallel queue uses the given pool')


def serial_checks(ex, e, p, pr, pool, bk):
    if not concrete(ex, p, SQ, 'a new serial queue object is created', e):
        return
    ex.prove(e, same(field_of(ex, e, p, IQ, SQ, 'm_backend'), bk), 'a new queue belongs to its backend')
    q = field_of(ex, e, p, IQ, SQ, 'm_queue', 'ptr')
    ex.prove(e, q.obj is not None, 'a new serial queue has operations of its own')
    ex.prove(e, same(fget(ex, e, q, Q, 'm_priority'), pr), 'a new serial queue has the requested priority')
    ex.prove(e, same(fget(ex, e, q, Q, 'm_threadpool', 'ptr'), pool), 'a new serial queue is drained by its pool')


def verify_main(ctx):
    """the main queue is drained by exec()"""
    ex = ctx.executor(BASE + [(r'^xdispatch::naive::manual_thread::manual_thread\(', lambda ex, st, c: None),
                              (r'^xdispatch::naive::manual_thread::run\(\)', lambda ex, st, c: ex.event(st, 'RUN', o=c.args[0]))])
    st = ctx.new_state()
    bk = z3.BitVec('backend', 32)
    b = sym_obj('backend', N + 'backend')
    STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, '
    got = []
    for k in (1, 2):
        out = Ptr(Obj('sp', 16, 'stack'), 0)
        st.frames = []
        st.ev = []
        lab = str_arg(st, 'given')
        r = [e for e in ctx.run(ex, 'backend::create_main_queue', N + 'backend::create_main_queue(' + STR + 'xdispatch::backend_type)', [out, lab, bk], st) if ex.feasible(e)]
        if len(r) != 1:
            ex.prove(st, False, 'the main queue is always available')
            return
        st = r[0]
        got.append(sp_get(ex, st, out))
    ex.prove(st, got[0].obj is not None and same(got[0], got[1]), 'there is one main queue')
    q = field_of(ex, st, got[0], IQ, SQ, 'm_queue', 'ptr')
    mt = fget(ex, st, q, Q, 'm_threadpool', 'ptr')
    st.frames = []
    st.ev = []
    for e in ctx.run(ex, 'backend::exec', N + 'backend::exec', [b], st):
        ex.prove(e, len(e.ev) == 1 and e.ev[0][0] == 'RUN' and same(e.ev[0][1]['o'], Ptr(mt.obj, mt.off - base_offset(ex, MT, TP))), 'exec() runs the thread which serves the main queue')


def verify_qt5_create(ctx):
    """event sources of the qt5 backend have the backend of their queue"""
    vals = backend_types(ctx)
    rec = lambda nm: (lambda ex, st, c: ex.event(st, nm, a=c.args[2:]))
    for meth, extra, sig in (('create_timer', [], 'std::shared_ptr<xdispatch::iqueue_impl> const&'),
                             ('create_socket_notifier', [z3.BitVec('socket', 32), z3.BitVec('type', 32)], 'std::shared_ptr<xdispatch::iqueue_impl> const&, int, xdispatch::notifier_type')):
        ex = ctx.executor([(r'^virtual xdispatch::iqueue_impl::backend$', lambda ex, st, c: z3.BitVec('backend_queue', 32)),
                           (r'^xdispatch::naive::backend::%s\(.*backend_type\)' % meth, rec('CREATE'))])
        st = ctx.new_state()
        from specs.pool import enum_values as evs
        y = z3.BitVec('backend_queue', 32)
        st.assume(Or(*[y == v for v in vals.values()]))
        b = Ptr(Obj('backend', None, 'sym'), 0)
        q, slot = new_sp(st, 'queue', IQ)
        out = Ptr(Obj('out', 16, 'stack'), 0)
        if meth == 'create_timer':
            st.om(out.obj)
        for e in ctx.run(ex, 'qt5::backend::' + meth, X + 'qt5::backend::%s(%s)' % (meth, sig), [out, b, slot] + extra, st):
            ok = len(e.ev) == 1
            ex.prove(e, ok, 'an event source is created once')
            if ok:
                a = e.ev[0][1]['a']
                ex.prove(e, same(a[-1], y), 'an event source belongs to the backend of its queue')
                ex.prove(e, same(sp_get(ex, e, a[0]), q), 'an event source is created for its target queue')
                ex.prove(e, len(a) == 2 + len(extra) and And(*[same(u, v) for u, v in zip(a[1:-1], extra)]) if extra else len(a) == 2, 'a notifier is created for its socket')


def verify_backend_of(ctx):
    """the objects of a backend report the backend they were created for"""
    vals = backend_types(ctx)
    pr, bk = z3.BitVec('priority', 32), z3.BitVec('backend', 32)
    b = sym_obj('backend', N + 'backend')
    STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'
    QP = 'std::shared_ptr<xdispatch::iqueue_impl> const&'
    lab = lambda ex, st: [str_arg(st, 'given')]
    que = lambda ex, st: [new_sp(st, 'target', IQ)[1]]
    for meth, icls, args, sig in (
            ('create_timer', IT, que, QP),
            ('create_socket_notifier', IS, lambda ex, st: que(ex, st) + [z3.BitVec('socket', 32), z3.BitVec('type', 32)], QP + ', int, xdispatch::notifier_type'),
            ('create_group', IG, lambda ex, st: [], ''),
            ('create_parallel_queue', IQ, lambda ex, st: lab(ex, st) + [pr], STR + ', xdispatch::queue_priority'),
            ('create_serial_queue', IQ, lambda ex, st: lab(ex, st) + [pr], STR + ', xdispatch::queue_priority')):
        for typed in (True, False):
            nm = 'backend::%s%s' % (meth, '' if typed else ' (default)')
            s = '(' + sig + ((', ' if sig else '') + 'xdispatch::backend_type' if typed else '') + ')'
            n = 0
            for ex, e, out, a in creator(ctx, nm, N + 'backend::' + meth + s, lambda ex, st: args(ex, st) + ([bk] if typed else []), None, b):
                p = sp_get(ex, e, out)
                n += 1
                if not concrete(ex, p, None, 'a new object is created', e):
                    continue
                e.frames = []
                e.ev = []
                for x in ctx.run(ex, nm + ' backend()', virt(ex, e, p, icls, 'backend'), [p], e):
                    ex.prove(x, same(x.ret, bk if typed else z3.BitVecVal(vals['naive'], 32)), 'an object reports the backend it was created for')
            if not n:
                raise Unsupported(nm)
    for cls, v in ((N + 'backend', 'naive'), (X + 'qt5::backend', 'qt5')):
        ex = ctx.executor([])
        st = ctx.new_state()
        f = cls + '::type'
        for e in ctx.run(ex, f.replace(X, ''), f, [sym_obj('backend', cls)], st):
            ex.prove(e, same(e.ret, z3.BitVecVal(vals[v], 32)), 'a backend reports its own type')
