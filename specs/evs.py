"""Shared contracts for the event sources (timer, socket notifier): a helper borrowed from the
thread pool waits for the event and hands the handler to the target queue."""
from vf.spec import *
from vf import std
from specs.opq import virt, OP, N
from specs.grp import put_sp

IQ = 'xdispatch::iqueue_impl'
CAN = 'xdispatch::cancelable'
BAR = 'xdispatch::lightweight_barrier'


def no_locks(ex, st, what):
    ex.prove(st, not st.held, 'no lock held while ' + what, str(st.held))


def field_bits(ex, cls, f):
    for o, s, p, tn, tk in ex.p.layout(cls):
        if p == f:
            return 8 * s
    raise Unsupported('field %s::%s not found' % (cls, f))


class SourceSpec(ClassSpec):
    """configuration under m_CS.

    self.RUN: field counting resumes, self.COOKIE: field identifying the current helper.
    A helper is `live` if the source is resumed and still meant for this helper."""

    RUN = COOKIE = HANDLER = QUEUE = None
    hcls = OP

    def is_live(self, ex, st, base):
        raise NotImplementedError

    def acquire(self, ex, st, base, lockoff):
        if lockoff != ex.p.off(self.cls, self.lock):
            return None
        self.forget(ex, st, base, self.protected)
        g = st.g
        h, q = sym_obj('handler', self.hcls), sym_obj('queue', IQ)
        for f, v, nm in ((self.HANDLER, h, 'handler'), (self.QUEUE, q, 'queue')):
            put_sp(ex, st, fptr(ex, base, self.cls, f), v, Ptr(Obj(nm + '.ctl', None, 'ctl'), 0))
        run, ck = fresh(32, 'resumed'), fresh(field_bits(ex, self.cls, self.COOKIE), 'cookie')
        st.assume(z3.And(run > -(1 << 20), run < (1 << 20)))
        fset(ex, st, base, self.cls, self.RUN, run)
        fset(ex, st, base, self.cls, self.COOKIE, ck)
        self.more(ex, st, base)
        g['_at'] = {f: self.snap(ex, st, base, f) for f in self.fields()}
        g['_rel'] = None
        g['_q'], g['_h'] = q, h
        if str(g.get('mode')).startswith('helper'):
            g['_live'] = self.is_live(ex, st, base)
        return None

    def more(self, ex, st, base):
        pass

    def new(self, ex, st, base):
        pass

    def fields(self):
        return [self.RUN, self.COOKIE, self.HANDLER, self.QUEUE] + list(self.FIELDS)

    FIELDS = ()

    def snap(self, ex, st, base, f):
        if f in (self.HANDLER, self.QUEUE):
            return fget(ex, st, base, self.cls, f, 'ptr')
        return fget(ex, st, base, self.cls, f)

    def before_release(self, ex, st, base):
        st.g['_rel'] = {f: self.snap(ex, st, base, f) for f in self.fields()}
        if str(st.g.get('mode')).startswith('helper'):
            for f in self.fields():
                self.unchanged(ex, st, f, 'the helper does not alter the configuration')

    def eq(self, f, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off == b.off
        w = a.size() if is_sym(a) else (b.size() if is_sym(b) else 64)
        return bv(a, w) == bv(b, w)

    def unchanged(self, ex, st, f, what):
        ex.prove(st, self.eq(f, st.g['_at'][f], st.g['_rel'][f]), what, f)

    def only(self, ex, st, changed, what):
        """exactly the fields of `changed` have their new values, all others are as found"""
        if st.g.get('_rel') is None:
            ex.prove(st, False, what, 'configuration not touched')
            return
        for f in self.fields():
            ex.prove(st, self.eq(f, changed.get(f, st.g['_at'][f]), st.g['_rel'][f]), what, f)


def q_async(ex, st, c):
    """the helper hands an invocation to the target queue"""
    g = st.g
    no_locks(ex, st, 'an invocation is queued')
    op = sp_get(ex, st, c.args[1])
    ex.prove(st, str(g.get('mode')).startswith('helper'), 'only the helper queues invocations')
    ex.prove(st, g['_live'] is not None and g['_live'], 'an invocation is queued only while the source is running')
    ex.prove(st, g.get('_q') is not None and c.args[0].obj is g['_q'].obj, 'an invocation is queued on the current target queue')
    ex.prove(st, not g['out'], 'one invocation is queued per event')
    g['on_async'](ex, st, c)
    g['out'] = True
    if ex.mode == 0:
        check_invocation(ex, st, op)
    ex.event(st, 'ASYNC', op=op)
    return None


def check_invocation(ex, st, op):
    """runs the queued operation as the target queue will"""
    ctx, root = st.g['ctx'], ex.root
    s = st.fork()
    s.frames = []
    s.ev = []
    s.g['mode'] = 'invocation'
    bars = set()
    for x in ctx.run(ex, root + ': queued invocation', virt(ex, s, op, OP, 'operator()'), [op], s):
        k = [n for n, d in x.ev if n in ('ENTER', 'LEAVE', 'EXEC', 'COMPLETE')]
        entered = any(n == 'ENTER' and d['ok'] for n, d in x.ev)
        ex.prove(x, k.count('EXEC') == (1 if entered else 0), 'the handler runs once per event, and only if the source was not cancelled')
        ex.prove(x, k.count('ENTER') == 1 and k.index('ENTER') == 0, 'the handler runs within the cancelable scope of its source')
        ex.prove(x, k.count('LEAVE') == int(entered), 'the cancelable scope is left again')
        ex.prove(x, k.count('COMPLETE') == 1, 'the helper is always told about the end of the invocation')
        ex.prove(x, bool(k) and k[-1] == 'COMPLETE', 'the source is not touched after its helper was told to go on')
        for n, d in x.ev:
            if n == 'COMPLETE':
                bars.add((d['o'], d['off']))
            if n == 'EXEC':
                ex.prove(x, d['o'] is s.g['_h'].obj, 'the handler configured at the time of the event runs')
                if 'argcheck' in s.g:
                    ex.prove(x, s.g['argcheck'](ex, x, d['args']), 'the handler is told the socket and the kind of readiness')
    ex.root = root
    st.g['_bars'] = bars


def b_complete(ex, st, c):
    ex.event(st, 'COMPLETE', o=c.args[0].obj, off=c.args[0].off)
    return None


def b_wait(ex, st, c):
    g = st.g
    no_locks(ex, st, 'waiting for the handler')
    ex.prove(st, bv64(c.args[1]) == bv64(-1), 'the helper waits for the handler without giving up')
    ex.prove(st, g['out'], 'the helper waits only for an invocation it queued')
    if ex.mode == 0:
        ex.prove(st, (c.args[0].obj, c.args[0].off) in g.get('_bars', ()), 'the helper waits for its own invocation')
    ex.prove(st, g['blocked'] == 1, 'a waiting helper is accounted as blocked')
    g['out'] = False
    g['_live'] = None
    std.advance(ex, st)
    st.epoch += 1
    return 1


def b_dtor(ex, st, c):
    ex.prove(st, not st.g.get('out'), 'the barrier outlives the invocation using it')
    return None


def can_enter(ex, st, c):
    f = fptr(ex, st.g['src'], st.g['cls'], st.g['canf'])
    ex.prove(st, c.args[0].obj is f.obj and c.args[0].off == f.off, 'the handler runs within the cancelable scope of its source')
    s2 = st.fork()
    ex.event(st, 'ENTER', ok=True)
    ex.event(s2, 'ENTER', ok=False)
    return Fork([(st, 1), (s2, 0)])


def can_leave(ex, st, c):
    f = fptr(ex, st.g['src'], st.g['cls'], st.g['canf'])
    ex.prove(st, c.args[0].obj is f.obj and c.args[0].off == f.off, 'the cancelable scope is left again')
    ex.event(st, 'LEAVE')
    return None


def can_disable(ex, st, c):
    f = fptr(ex, st.g['src'], st.g['cls'], st.g['canf'])
    ex.prove(st, c.args[0].obj is f.obj and c.args[0].off == f.off, 'the scope of this source is disabled')
    no_locks(ex, st, 'waiting for an active handler')
    ex.event(st, 'DISABLE')
    return None


def h_run(ex, st, c):
    no_locks(ex, st, 'a handler runs')
    ex.prove(st, st.g.get('mode') == 'invocation', 'handlers run on the target queue only')
    ex.event(st, 'EXEC', o=c.args[0].obj, args=c.args[1:])
    return None


def blk(d):
    def h(ex, st, c):
        st.g['blocked'] = st.g['blocked'] + d
        return None
    return h


def pool_execute(ex, st, c):
    ex.event(st, 'EXECUTE', pool=c.args[0], op=sp_get(ex, st, c.args[1]), prio=c.args[2])
    if st.g.get('_rel') is None:
        st.g['_exec_locked'] = True
    ctl = sp_get(ex, st, c.args[1], 8)
    if std.ctl_concrete(ex, st, ctl):
        ex.store_raw(st, ctl.obj, ctl.off + 8, 4, std.cnt(ex, st, ctl, 8) + 1)
    return None


CONTRACTS = [
    (r'^virtual xdispatch::iqueue_impl::async$', q_async),
    (r'^virtual xdispatch::naive::ithreadpool::execute$', pool_execute),
    (r'^virtual xdispatch::operation::operator\(\)$', h_run),
    (r'^virtual xdispatch::parameterized_operation<.*>::operator\(\)$', h_run),
    (r'^xdispatch::lightweight_barrier::lightweight_barrier\(\)', lambda ex, st, c: None),
    (r'^xdispatch::lightweight_barrier::~lightweight_barrier\(\)', b_dtor),
    (r'^xdispatch::lightweight_barrier::complete\(\)', b_complete),
    (r'^xdispatch::lightweight_barrier::wait\(', b_wait),
    (r'^xdispatch::cancelable::cancelable\(\)', lambda ex, st, c: None),
    (r'^xdispatch::cancelable::enter\(\)', can_enter),
    (r'^xdispatch::cancelable::leave\(\)', can_leave),
    (r'^xdispatch::cancelable::disable\(\)', can_disable),
    (r'^xdispatch::naive::ithreadpool::block_scope::block_scope\(', blk(1)),
    (r'^xdispatch::naive::ithreadpool::block_scope::~block_scope\(', blk(-1)),
]


def build(ctx, cls, spec, args, canf, extra=()):
    """a source constructed by its real constructor, shared with other threads from then on"""
    ex = ctx.executor(CONTRACTS + list(extra))
    st = ctx.new_state()
    q, qs = new_sp(st, 'queue0', IQ)
    pool, ps = new_sp(st, 'pool', N + 'ithreadpool')
    nm = cls.split('::')[-1]
    ex.root = nm + '()'
    f = ctx.prog.func(cls + '::' + nm)
    ctx.roots.append((ex.root, dem(f.name)))
    r, p = new_object(ctx, ex, st, cls, f, args(qs, ps))
    e = [x for x in r if ex.feasible(x[0])][0][0]
    ex.prove(e, fget(ex, e, p, cls, spec.QUEUE, 'ptr').obj is q.obj, 'a new source has the given target queue')
    ex.prove(e, bv(fget(ex, e, p, cls, spec.RUN), 32) == 0, 'a new source is suspended')
    spec.new(ex, e, p)
    ctl = Obj('source.ctl', None, 'ctl')
    ctl.meta['alive'] = True
    for o, s, path, tn, tk in ctx.prog.layout(cls):
        if path.endswith('_M_weak_this') or tn.startswith('std::weak_ptr'):
            ex.store_raw(e, p.obj, p.off + o, 8, p)
            ex.store_raw(e, p.obj, p.off + o + 8, 8, Ptr(ctl, 0))
            break
    ex.cls_specs = {cls: spec}
    e.g.update({'src': p, 'cls': cls, 'canf': canf, 'pool': pool, 'mode': 'api', 'out': False, 'blocked': 0,
                '_live': None, 'ctx': ctx})
    share(e, p)
    spec.forget(ex, e, p, spec.protected)
    std.advance(ex, e)
    e.ev = []
    return ex, e, p


def simple(ctx, mk, spec, meth, base, args, changed, what, events=()):
    """a configuration call: changes exactly `changed` of the configuration"""
    ex, st, p = mk()
    a = args(ex, st)
    for e in ctx.run(ex, meth, virt(ex, st, p, base, meth.split('::')[-1]), [p] + a[0], st):
        spec.only(ex, e, changed(ex, e, *a[1:]), what)
        ex.prove(e, [n for n, d in e.ev] == list(events), 'a configuration call does nothing else', str([n for n, d in e.ev]))
