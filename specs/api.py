"""The public value types (queue, group, timer, socket_notifier) hand everything on to their backend."""
from vf.spec import *
from vf import std
from specs.grp import put_sp

X = 'xdispatch::'
IQ, IG, IT, IS = X + 'iqueue_impl', X + 'igroup_impl', X + 'itimer_impl', X + 'isocket_notifier_impl'
OP, IOP = X + 'operation', X + 'parameterized_operation<unsigned long>'
NOP = X + 'parameterized_operation<int, xdispatch::notifier_type>'
TUS = ['src/queue.cpp', 'src/group.cpp', 'src/timer.cpp', 'src/socket_notifier.cpp', 'src/operation.cpp', 'src/trace_utils.cpp', 'src/backend.cpp']


def impl_call(ex, st, c):
    """any virtual call on a backend object: recorded with what its arguments designate"""
    n = c.name.split('virtual ')[1].replace('xdispatch::', '')
    if n.endswith('::backend') and not st.g.get('_rec_backend'):
        return st.g['backend_of'](c.args[0])
    a = []
    for v in c.args[1:]:
        if isinstance(v, Ptr) and v.obj is not None and v.obj.kind in ('stack', 'heap', 'sym') and not v.obj.cls:
            cell = st.rm(v.obj).cells.get(v.off)
            if cell is not None and isinstance(cell[1], Ptr):
                v = cell[1]
        a.append(v)
    ex.event(st, n, o=c.args[0], a=a)
    if c.ret in (None, 'void'):
        return None
    w = 8 * ex_size(c.ret) if not isinstance(c.ret, tuple) else c.ret[1]
    v = z3.BitVec('result', w)
    return v


CONTRACTS = [(r'^virtual xdispatch::i(queue|group|timer|socket_notifier)_impl::', impl_call)]


def value(ctx, ex, st, cls, icls, target=None):
    """a public object around the backend object `impl`"""
    o = Ptr(Obj(cls.split('::')[-1], ctx.prog.sizeof_cls(cls), 'sym', cls), 0)
    impl = sym_obj('impl', icls)
    put_sp(ex, st, fptr(ex, o, cls, 'm_impl'), impl, Ptr(Obj('impl.ctl', None, 'ctl'), 0))
    if target is not None:
        q = fptr(ex, o, cls, 'm_target_queue')
        put_sp(ex, st, Ptr(q.obj, q.off + ctx.prog.off(X + 'queue', 'm_impl')), target, Ptr(Obj('target.ctl', None, 'ctl'), 0))
        std.set_str(ex, st, Ptr(q.obj, q.off + ctx.prog.off(X + 'queue', 'm_label')), ('sym', 'tlabel'))
    if cls == X + 'queue':
        std.set_str(ex, st, fptr(ex, o, cls, 'm_label'), ('sym', 'label'))
    return o, impl


def same(x, y):
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        return isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj and x.off == y.off
    w = x.size() if is_sym(x) else (y.size() if is_sym(y) else 64)
    return bv(x, w) == bv(y, w)


def returns_queue(name):
    """contract of a function returning a queue object"""
    def f(ex, st, c):
        o = c.args[0]
        put_sp(ex, st, Ptr(o.obj, o.off + ex.p.off(X + 'queue', 'm_impl')), sym_obj(name, IQ), Ptr(Obj(name + '.ctl', None, 'ctl'), 0))
        std.set_str(ex, st, Ptr(o.obj, o.off + ex.p.off(X + 'queue', 'm_label')), ('sym', name))
        return None
    return f


def hands_on(ctx, cls, icls, sig, imeth, mkargs, what=None, target=False, ret=False, pre=None, idle=None):
    """cls::sig(args) performs exactly one call impl->imeth with the same arguments"""
    ex = ctx.executor(CONTRACTS)
    st = ctx.new_state()
    tq = sym_obj('target', IQ) if target else None
    o, impl = value(ctx, ex, st, cls, icls, tq)
    st.g['backend_of'] = lambda p: z3.BitVec('backend_%s' % p.obj.name, 32)
    args, exp = mkargs(ctx, ex, st)
    short = cls.split('::')[-1]
    name = '%s::%s' % (short, sig.split('(')[0])
    f = ctx.prog.func(cls + '::' + sig)
    for e in ctx.run(ex, name, f, [o] + args, st, allow_exc=pre is not None):
        if e.status == 'exc':
            pre(ex, e)
            continue
        if not e.ev and idle is not None:
            ex.prove(e, idle(args), name + ' does nothing only if there is nothing to do')
            continue
        ex.prove(e, len(e.ev) == 1 and e.ev[0][0] == icls.split('::')[-1] + '::' + imeth,
                 what or '%s is handed on to the backend exactly once' % name, str([n for n, d in e.ev]))
        if len(e.ev) != 1:
            continue
        d = e.ev[0][1]
        ex.prove(e, same(d['o'], impl), name + ' goes to the backend object of the receiver')
        ex.prove(e, len(d['a']) == len(exp), name + ' hands on its arguments')
        for k, (x, y) in enumerate(zip(d['a'], exp)):
            ex.prove(e, same(x, y), name + ' hands on its arguments', 'argument %d' % (k + 1))
        if ret:
            ex.prove(e, same(e.ret, z3.BitVec('result', e.ret.size() if is_sym(e.ret) and not isinstance(e.ret, z3.BoolRef) else 32)) if not isinstance(e.ret, z3.BoolRef) else e.ret == (z3.BitVec('result', 1) == 1), name + ' reports what the backend reports')
    return ex


def a_none(ctx, ex, st):
    return [], []


def a_op(cls):
    def f(ctx, ex, st):
        p, s = new_sp(st, 'op', cls)
        return [s], [p]
    return f


def a_num(w, name='n'):
    def f(ctx, ex, st):
        v = z3.BitVec(name, w)
        return [v], [v]
    return f


def verify_timer(ctx):
    T = X + 'timer'
    hands_on(ctx, T, IT, 'interval', 'interval', a_num(64), target=True)
    hands_on(ctx, T, IT, 'resume', 'resume', a_num(64), target=True)
    hands_on(ctx, T, IT, 'handler(std::shared_ptr<xdispatch::operation> const&)', 'handler', a_op(OP), target=True)


def verify_timer_stop(ctx):
    T = X + 'timer'
    hands_on(ctx, T, IT, 'suspend', 'suspend', a_none, target=True)
    hands_on(ctx, T, IT, 'cancel', 'cancel', a_none, target=True)
    hands_on(ctx, T, IT, 'resume', 'resume', a_num(64), target=True)


def verify_notifier(ctx):
    T = X + 'socket_notifier'
    hands_on(ctx, T, IS, 'resume', 'resume', a_none, target=True)
    hands_on(ctx, T, IS, 'handler(std::shared_ptr<xdispatch::parameterized_operation<int, xdispatch::notifier_type>> const&)', 'handler', a_op(NOP), target=True)
    hands_on(ctx, T, IS, 'socket', 'socket', a_none, target=True, ret=True)
    hands_on(ctx, T, IS, 'type', 'type', a_none, target=True, ret=True)


def verify_notifier_stop(ctx):
    T = X + 'socket_notifier'
    hands_on(ctx, T, IS, 'suspend', 'suspend', a_none, target=True)
    hands_on(ctx, T, IS, 'cancel', 'cancel', a_none, target=True)
    hands_on(ctx, T, IS, 'resume', 'resume', a_none, target=True)


def verify_queue(ctx, *meths):
    Q = X + 'queue'
    for m in meths:
        if m == 'async':
            hands_on(ctx, Q, IQ, 'async(std::shared_ptr<xdispatch::operation> const&) const', 'async', a_op(OP))
        if m == 'apply':
            def f(ctx, ex, st):
                n = z3.BitVec('times', 64)
                p, s = new_sp(st, 'op', IOP)
                return [n, s], [n, p]
            hands_on(ctx, Q, IQ, 'apply(unsigned long, std::shared_ptr<xdispatch::parameterized_operation<unsigned long>> const&) const', 'apply', f, idle=lambda a: bv64(a[0]) == 0)
        if m == 'after':
            def g(ctx, ex, st):
                n = z3.BitVec('delay', 64)
                p, s = new_sp(st, 'op', OP)
                return [n, s], [n, p]
            hands_on(ctx, Q, IQ, 'after(std::chrono::duration<long, std::ratio<1l, 1000l>>, std::shared_ptr<xdispatch::operation> const&) const', 'after', g)


def verify_group_wait(ctx):
    hands_on(ctx, X + 'group', IG, 'wait', 'wait', a_num(64), ret=True)


# ------------------------------------------------------------------ creation
IB = X + 'ibackend'
CREATED = {'create_main_queue': IQ, 'create_serial_queue': IQ, 'create_parallel_queue': IQ, 'create_group': IG,
           'create_timer': IT, 'create_socket_notifier': IS}


def backend_call(ex, st, c):
    """creation by a backend: a fresh object every time"""
    n = c.name.split('::')[-1]
    if n in CREATED:
        k = st.g['made'] = st.g.get('made', 0) + 1
        o = sym_obj('%s_%d' % (n, k), CREATED[n])
        put_sp(ex, st, c.args[0], o, Ptr(Obj(o.obj.name + '.ctl', None, 'ctl'), 0))
        args = c.args[2:]
        a = []
        for v in args:
            if isinstance(v, Ptr) and v.obj is not None:
                t = st.rm(v.obj).abs.get(v.off)
                if t is not None:
                    v = ('str', t)
                elif v.obj.kind in ('stack', 'sym', 'heap'):
                    cell = st.rm(v.obj).cells.get(v.off)
                    if cell is not None and isinstance(cell[1], Ptr):
                        v = cell[1]
            a.append(v)
        ex.event(st, n, o=c.args[1], a=a, made=o)
        return None
    ex.event(st, n, o=c.args[0], a=[])
    if n == 'type':
        return z3.BitVec('backend_type', 32)
    return None


def platform(ex, st, c):
    return st.g['platform']


CREATE = CONTRACTS + [(r'^virtual xdispatch::ibackend::', backend_call),
                      (r'^qt5_backend_get_static_instance\(\)|^qt5_backend_get_static_instance$|^_ZL31qt5_backend_get_static_instancev', platform),
                      (r'^naive_backend_get_static_instance(_impl)?(\(\))?$', platform)]


def queue_of(ex, st, o):
    return (fget(ex, st, o, X + 'queue', 'm_impl', 'ptr'), std.get_str(ex, st, fptr(ex, o, X + 'queue', 'm_label')))


def create_exec(ctx):
    ex = ctx.executor(CREATE)
    st = ctx.new_state()
    st.g['platform'] = sym_obj('platform backend', IB)
    st.g['backend_of'] = lambda p: z3.BitVec('backend_%s' % p.obj.name, 32)
    return ex, st




def verify_globals(ctx):
    from specs.pool import enum_values as evs
    vals = evs(ctx, 'queue_priority')
    ex, st = create_exec(ctx)
    seen = {}
    states = [st]
    for rnd in (1, 2):
        for nm, val in sorted(vals.items(), key=lambda x: x[1]):
            nxt = []
            for s in states:
                s.frames = []
                out = Ptr(Obj('queue', ctx.prog.sizeof_cls(X + 'queue'), 'stack', X + 'queue'), 0)
                n0 = len(s.ev)
                for e in ctx.run(ex, 'global_queue(%s)' % nm, X + 'global_queue', [out, val], s):
                    impl, lab = queue_of(ex, e, out)
                    eff = 'UTILITY' if nm == 'DEFAULT' else nm
                    new = e.ev[n0:]
                    k = ('glob', eff)
                    if k not in e.g:
                        ex.prove(e, len(new) == 1 and new[0][0] == 'create_parallel_queue' and same(new[0][1]['made'], impl), 'a global queue is backed by a parallel queue of the platform backend', str([x[0] for x in new]))
                        if len(new) == 1:
                            ex.prove(e, same(new[0][1]['a'][1], z3.BitVecVal(vals[eff], 32)), 'a global queue runs its operations with the priority it stands for')
                        ex.prove(e, all(e.g[q].obj is not impl.obj for q in e.g if isinstance(q, tuple) and q and q[0] == 'glob'), 'global queues of different priorities are different queues')
                        e.g[k] = impl
                    else:
                        ex.prove(e, not new and same(e.g[k], impl), 'every call designates the same global queue')
                    nxt.append(e)
            states = nxt
    for s in states:
        for rnd in (1, 2):
            s.frames = []
            out = Ptr(Obj('queue', ctx.prog.sizeof_cls(X + 'queue'), 'stack', X + 'queue'), 0)
            n0 = len(s.ev)
            r = ctx.run(ex, 'main_queue', X + 'main_queue', [out], s)
            for e in r[:1]:
                impl, lab = queue_of(ex, e, out)
                new = e.ev[n0:]
                if rnd == 1:
                    ex.prove(e, len(new) == 1 and new[0][0] == 'create_main_queue' and same(new[0][1]['made'], impl), 'the main queue is the one of the platform backend', str([x[0] for x in new]))
                    e.g['main'] = impl
                else:
                    ex.prove(e, not new and same(e.g['main'], impl), 'every call designates the same main queue')
                s = e


def verify_queue_value(ctx):
    Q = X + 'queue'
    # queue(label, impl)
    ex, st = create_exec(ctx)
    impl, slot = new_sp(st, 'impl', IQ)
    lab = str_arg(st, 'given')
    out = Ptr(Obj('queue', ctx.prog.sizeof_cls(Q), 'stack', Q), 0)
    for e in ctx.run(ex, 'queue(label, impl)', Q + '::queue(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, std::shared_ptr<xdispatch::iqueue_impl> const&)', [out, lab, slot], st):
        i, l = queue_of(ex, e, out)
        ex.prove(e, same(i, impl), 'a queue uses the implementation it was given')
        ex.prove(e, l == ('sym', 'given'), 'a queue carries the label it was given', str(l))
    # queue(label, priority)
    ex, st = create_exec(ctx)
    lab = str_arg(st, 'given')
    pr = z3.BitVec('priority', 32)
    out = Ptr(Obj('queue', ctx.prog.sizeof_cls(Q), 'stack', Q), 0)
    for e in ctx.run(ex, 'queue(label, priority)', Q + '::queue(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, xdispatch::queue_priority)', [out, lab, pr], st):
        i, l = queue_of(ex, e, out)
        ok = len(e.ev) == 1 and e.ev[0][0] == 'create_serial_queue'
        ex.prove(e, ok, 'a new queue is a serial queue of its own', str([x[0] for x in e.ev]))
        if ok:
            d = e.ev[0][1]
            ex.prove(e, same(d['made'], i), 'a new queue is a serial queue of its own')
            ex.prove(e, d['a'][0] == ('str', ('sym', 'given')), 'a new queue is created with its label')
            ex.prove(e, same(d['a'][1], pr), 'a new queue is created with its priority')
        ex.prove(e, l == ('sym', 'given'), 'a queue carries the label it was given', str(l))
    # label, implementation
    ex, st = create_exec(ctx)
    q, impl = value(ctx, ex, st, Q, IQ)
    out = Ptr(Obj('string', 32, 'stack'), 0)
    for e in ctx.run(ex, 'queue::label', Q + '::label', [out, q], st):
        ex.prove(e, std.get_str(ex, e, out) == ('sym', 'label'), 'label() reports the label of the queue')
    ex, st = create_exec(ctx)
    q, impl = value(ctx, ex, st, Q, IQ)
    out = Ptr(Obj('sp', 16, 'stack'), 0)
    for e in ctx.run(ex, 'queue::implementation', Q + '::implementation', [out, q], st):
        ex.prove(e, same(sp_get(ex, e, out), impl), 'implementation() is what backs the queue')
    # comparison
    for eq in (True, False):
        ex, st = create_exec(ctx)
        q, impl = value(ctx, ex, st, Q, IQ)
        r, other = value(ctx, ex, st, Q, IQ)
        # labels play no part: different ones for one implementation, the same one for different ones
        std.set_str(ex, st, fptr(ex, r, Q, 'm_label'), ('sym', 'other label' if eq else 'label'))
        if eq:
            put_sp(ex, st, fptr(ex, r, Q, 'm_impl'), impl, Ptr(Obj('impl.ctl', None, 'ctl'), 0))
        for e in ctx.run(ex, 'queue::operator==', Q + '::operator==', [q, r], st):
            ex.prove(e, truth(e.ret) == eq, 'queues are equal exactly if they share their implementation')


def truth(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v != 0
    if isinstance(v, z3.BoolRef):
        return v
    return v != 0


# ------------------------------------------------------------------ mixing backends
def verify_wrap(ctx, cls, icls):
    """cls(impl, target): accepts exactly objects of one backend"""
    ex, st = create_exec(ctx)
    impl, slot = new_sp(st, 'source', icls)
    q, qi = value(ctx, ex, st, X + 'queue', IQ)
    out = Ptr(Obj('new', ctx.prog.sizeof_cls(cls), 'stack', cls), 0)
    nm = cls.split('::')[-1]
    x, y = z3.BitVec('backend_source', 32), z3.BitVec('backend_impl', 32)
    f = ctx.prog.func(cls + '::%s(std::shared_ptr<%s> const&, xdispatch::queue const&)' % (nm, icls))
    n = 0
    for e in ctx.run(ex, '%s(impl, target)' % nm, f, [out, slot, q], st, allow_exc=True):
        if e.status == 'exc':
            ex.prove(e, x != y, 'only objects of different backends are rejected', str(e.exc['type']))
            ex.prove(e, 'logic_error' in str(e.exc['type']), 'objects of different backends are rejected with a logic_error', str(e.exc['type']))
            ex.prove(e, not e.ev, 'nothing is done for rejected objects')
            n += 1
            continue
        ex.prove(e, x == y, 'objects of different backends are rejected')
        ex.prove(e, same(fget(ex, e, out, cls, 'm_impl', 'ptr'), impl), 'the new object uses its implementation')
        ex.prove(e, same(fget(ex, e, out, cls, 'm_target_queue.m_impl', 'ptr'), qi), 'the new object keeps its target queue')
    if not n:
        ex.prove(st, False, 'objects of different backends are rejected')


def verify_make(ctx, cls, icls, create, sig, args, expect, then=()):
    """cls(.., target): created by the backend of the target queue"""
    ex, st = create_exec(ctx)
    ex.contracts.insert(0, (re.compile(r'^xdispatch::backend_for_type\('), for_type))
    q, qi = value(ctx, ex, st, X + 'queue', IQ)
    out = Ptr(Obj('new', ctx.prog.sizeof_cls(cls), 'stack', cls), 0)
    nm = cls.split('::')[-1]
    y = z3.BitVec('backend_impl', 32)
    # a backend creates objects of the type of the queue they are created for
    st.g['backend_of'] = lambda p: y
    f = ctx.prog.func(cls + '::%s(%s)' % (nm, sig))
    for e in ctx.run(ex, '%s(.., target)' % nm, f, [out] + args(q), st):
        ev = list(e.ev)
        ok = [n for n, d in ev] == [create] + list(then)
        ex.prove(e, ok, 'an event source is created once, by a backend, and set up', str([n for n, d in ev]))
        if not ok:
            continue
        d = ev[0][1]
        ex.prove(e, d['o'].obj.kind == 'sym' and same(d['o'].obj.meta['type'], y), 'the backend of the target queue creates the event source')
        ex.prove(e, len(d['a']) == len(expect(qi)) and And(*[same(u, v) for u, v in zip(d['a'], expect(qi))]), 'an event source is created for its target queue')
        for n, t in ev[1:]:
            ex.prove(e, same(t['o'], d['made']), 'the created event source is set up')
            ex.prove(e, len(t['a']) == 1 and same(t['a'][0], z3.BitVec('interval', 64)), 'a new timer has the given interval')
        ex.prove(e, same(fget(ex, e, out, cls, 'm_impl', 'ptr'), d['made']), 'the new object uses its implementation')
        ex.prove(e, same(fget(ex, e, out, cls, 'm_target_queue.m_impl', 'ptr'), qi), 'the new object keeps its target queue')


def for_type(ex, st, c):
    o = sym_obj('backend', IB)
    o.obj.meta['type'] = c.args[0]
    return o


def verify_timer_make(ctx):
    verify_make(ctx, X + 'timer', IT, 'create_timer', 'std::chrono::duration<long, std::ratio<1l, 1000l>>, xdispatch::queue const&',
                lambda q: [z3.BitVec('interval', 64), q], lambda qi: [qi], ['itimer_impl::interval'])


def verify_notifier_make(ctx):
    s, t = z3.BitVec('socket', 32), z3.BitVec('type', 32)
    verify_make(ctx, X + 'socket_notifier', IS, 'create_socket_notifier', 'int, xdispatch::notifier_type, xdispatch::queue const&',
                lambda q: [s, t, q], lambda qi: [qi, s, t])


def backend_types(ctx):
    from specs.pool import enum_values as evs
    return evs(ctx, 'backend_type')


def qt5_instance(ex, st, c):
    return st.g['qt5']


def naive_instance(ex, st, c):
    return st.g['naive']


def verify_for_type(ctx):
    vals = backend_types(ctx)
    ex = ctx.executor(CONTRACTS + [(r'^qt5_backend_get_static_instance', qt5_instance), (r'^naive_backend_get_static_instance', naive_instance)])
    st = ctx.new_state()
    st.g['qt5'], st.g['naive'] = sym_obj('qt5 backend', IB), sym_obj('naive backend', IB)
    for k in (1, 2):
        for nm, v in vals.items():
            st.frames = []
            r = [e for e in ctx.run(ex, 'backend_for_type(%s)' % nm, X + 'backend_for_type', [v], st) if ex.feasible(e)]
            for e in r:
                ex.prove(e, same(e.ret, e.g[nm] if nm in e.g else e.g['naive']), 'every backend type designates its own backend')
            st = r[0]


def verify_target(ctx):
    """timer and socket_notifier tell their target queue"""
    for cls, icls in ((X + 'timer', IT), (X + 'socket_notifier', IS)):
        ex, st = create_exec(ctx)
        t = sym_obj('target', IQ)
        o, impl = value(ctx, ex, st, cls, icls, t)
        out = Ptr(Obj('queue', ctx.prog.sizeof_cls(X + 'queue'), 'stack', X + 'queue'), 0)
        for e in ctx.run(ex, cls.split('::')[-1] + '::target_queue', cls + '::target_queue', [out, o], st):
            i, l = queue_of(ex, e, out)
            ex.prove(e, same(i, t), 'target_queue() is the queue the object was created for')


def verify_exec(ctx):
    ex, st = create_exec(ctx)
    for e in ctx.run(ex, 'exec', X + 'exec', [], st):
        ex.prove(e, [n for n, d in e.ev] == ['exec'] and same(e.ev[0][1]['o'], e.g['platform']), 'exec() serves the main queue of the platform backend', str([n for n, d in e.ev]))


def verify_group_made(ctx):
    ex, st = create_exec(ctx)
    G = X + 'group'
    out = Ptr(Obj('group', ctx.prog.sizeof_cls(G), 'stack', G), 0)
    for e in ctx.run(ex, 'group()', G + '::group()', [out], st):
        ok = [n for n, d in e.ev] == ['create_group']
        ex.prove(e, ok and same(e.ev[0][1]['o'], e.g['platform']) and same(fget(ex, e, out, G, 'm_impl', 'ptr'), e.ev[0][1]['made']), 'a new group is a group of its own of the platform backend', str([n for n, d in e.ev]))


def verify_group_mix(ctx):
    """a group rejects queues only if it is not a naive group and they belong to different backends"""
    vals = backend_types(ctx)
    G = X + 'group'
    for m in ('async', 'notify'):
        ex, st = create_exec(ctx)
        st.g['backend_of'] = lambda p: z3.BitVec('backend_%s' % p.obj.name, 32)
        p, s = new_sp(st, 'op', OP)
        g, gi = value(ctx, ex, st, G, IG)
        gi.obj.name = 'group'
        q, qi = value(ctx, ex, st, X + 'queue', IQ)
        x, y = z3.BitVec('backend_group', 32), z3.BitVec('backend_impl', 32)
        f = ctx.prog.func(G + '::' + m + '(std::shared_ptr<xdispatch::operation> const&, xdispatch::queue const&) const')
        for e in ctx.run(ex, 'group::' + m, f, [g, s, q], st, allow_exc=True):
            if e.status == 'exc':
                ex.prove(e, And(x != y, x != vals['naive']), 'a group of the naive backend accepts every queue, others those of their backend')
                ex.prove(e, 'logic_error' in str(e.exc['type']), 'objects of different backends are rejected with a logic_error', str(e.exc['type']))
                ex.prove(e, not e.ev, 'nothing is done for rejected objects')
                continue
            ex.prove(e, Or(x == y, x == vals['naive']), 'objects of different backends are rejected')
            ok = len(e.ev) == 1 and e.ev[0][0] == 'igroup_impl::' + m
            ex.prove(e, ok, 'an operation is handed on to the group exactly once', str([n for n, d in e.ev]))
            if ok:
                d = e.ev[0][1]
                ex.prove(e, same(d['o'], gi) and len(d['a']) == 2 and same(d['a'][0], p) and same(d['a'][1], qi), 'a group is given the operation and the queue')
