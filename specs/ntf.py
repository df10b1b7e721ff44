"""Socket notifier contracts (C12, C13)."""
from specs.evs import *
from specs import evs

TUS = ['src/naive/naive_socket_notifier.cpp', 'src/queue.cpp', 'src/socket_notifier.cpp', 'src/operation.cpp', 'src/trace_utils.cpp']
S = N + 'socket_notifier_impl'
IS = 'xdispatch::isocket_notifier_impl'
NOP = 'xdispatch::parameterized_operation<int, xdispatch::notifier_type>'
POLLIN, POLLOUT, POLLNVAL = 1, 4, 0x20


class NotifierSpec(SourceSpec):
    RUN, COOKIE, HANDLER, QUEUE = 'm_resume_counter', 'm_worker_cookie', 'm_handler', 'm_queue'
    hcls = NOP

    def more(self, ex, st, base):
        st.assume(bv(fget(ex, st, base, S, self.RUN), 32) >= -1)

    def is_live(self, ex, st, base):
        return fget(ex, st, base, S, self.COOKIE) == st.g['cookie']


def spec():
    return NotifierSpec(S, lock='m_CS', protected=['m_queue', 'm_handler', 'm_resume_counter', 'm_worker_cookie'],
                        sync=['m_CS'], free=['m_handler_cancelable', '_M_weak_this'])


def sock(st):
    return st.g['sock']


def settle(ex, st):
    """a socket found ready must have been served, unless the helper is not meant to run any more"""
    g = st.g
    if g['ready'] == 'ready':
        ex.prove(st, g['_live'] is not None and Not(g['_live']), 'every time the socket is found ready the handler is invoked')


def poll(ex, st, c):
    g = st.g
    fds, n, tmo = c.args
    no_locks(ex, st, 'waiting for the socket')
    ex.prove(st, g['blocked'] == 1, 'a waiting helper is accounted as blocked')
    ex.prove(st, bv(n, 64) == 1, 'the helper waits for one socket')
    ex.prove(st, bv(tmo, 32) >= 0, 'a helper never waits without a timeout, so that it notices a cancellation')
    ex.prove(st, bv(ex.load_raw(st, fds.obj, fds.off, 4, ('i', 32)), 32) == bv(sock(st), 32), 'the helper waits for the socket of the notifier')
    ev = bv(ex.load_raw(st, fds.obj, fds.off + 4, 2, ('i', 16)), 16)
    ex.prove(st, z3.If(st.g['type'] == 0, ev == POLLIN, ev == POLLOUT), 'the helper waits for the requested kind of readiness')
    ex.prove(st, g['_live'] is not None and g['_live'], 'a helper which is no longer needed does not wait for another event')
    ex.prove(st, g['ready'] != 'invalid', 'a helper does not wait for an invalid socket')
    settle(ex, st)
    ex.event(st, 'POLL')
    g['_live'] = None
    std.advance(ex, st)
    st.epoch += 1
    out = []
    for nm in ('error', 'timeout', 'ready', 'invalid'):
        s = st.fork()
        rev = fresh(16, 'revents')
        if nm == 'ready':
            s.assume(And(rev & POLLNVAL == 0, rev != 0))
        elif nm == 'invalid':
            s.assume(rev & POLLNVAL != 0)
        else:
            rev = z3.BitVecVal(0, 16)
        ex.store_raw(s, fds.obj, fds.off + 6, 2, rev)
        s.g['ready'] = nm
        out.append((s, {'error': -1 & 0xffffffff, 'timeout': 0}.get(nm, 1)))
    return Fork(out)


def on_async(ex, st, c):
    g = st.g
    ex.prove(st, g['ready'] == 'ready', 'an invocation is queued only when the socket was found ready', str(g['ready']))
    g['ready'] = 'served'


def build_notifier(ctx):
    sp = spec()
    bk = z3.BitVec('backend', 32)
    so = z3.BitVec('socket', field_bits_prog(ctx.prog, S, 'm_socket'))
    ty = z3.BitVec('type', 32)
    ex, e, p = evs.build(ctx, S, sp, lambda qs, ps: [qs, ps, so, ty, bk], 'm_handler_cancelable',
                         [(r'^poll$', poll)])
    e.assume(Or(ty == 0, ty == 1))
    e.g.update({'sock': so, 'type': ty})
    return ex, e, p, sp


def field_bits_prog(prog, cls, f):
    for o, s, p, tn, tk in prog.layout(cls):
        if p == f:
            return 8 * s
    raise Unsupported('field %s::%s not found' % (cls, f))


def verify_resume(ctx):
    ex, st, p, sp = build_notifier(ctx)
    n = 0
    for e in ctx.run(ex, 'resume', virt(ex, st, p, IS, 'resume'), [p], st):
        at, rel = e.g['_at'], e.g['_rel']
        r0 = bv(at[sp.RUN], 32)
        ex.prove(e, all(k == 'EXECUTE' for k, v in e.ev), 'resume() only starts a helper')
        started = len(e.ev)
        ex.prove(e, started == 1 if ex.valid(e, r0 == 0) else And(started == 0, r0 != 0), 'a helper is started exactly when the notifier becomes running', str(started))
        if rel is not None:
            sp.only(ex, e, {sp.RUN: z3.If(r0 < 0, r0, r0 + 1)}, 'resume() counts unless the notifier was cancelled')
        else:
            ex.prove(e, r0 < 0, 'resume() counts unless the notifier was cancelled')
        if started == 1 and ex.feasible(e):
            n += 1
            v = e.ev[0][1]
            ex.prove(e, v['pool'].obj is e.g['pool'].obj, 'the helper is borrowed from the pool of the notifier')
            verify_helper(ctx, ex, e.fork(), v['op'], at[sp.COOKIE])
    if not n:
        ex.prove(st, False, 'a helper is started exactly when the notifier becomes running')


def verify_helper(ctx, ex, st, op, cookie):
    g = st.g
    st.frames = []
    st.ev = []
    g.update({'mode': 'helper', 'cookie': cookie, 'ready': 'none', 'on_async': on_async, '_live': None,
              'argcheck': lambda ex, x, a: And(len(a) == 2 and And(bv(a[0], 32) == bv(g['sock'], 32), bv(a[1], 32) == g['type']))})

    def round_(ex, x, ev, mons):
        if mons:
            ex.prove(x, any(n == 'POLL' for n, d in ev), 'a helper never goes on without waiting for the socket')
    ex.rounds = [round_]
    ends = ctx.run(ex, 'helper', virt(ex, st, op, OP, 'operator()'), [op], st)
    ex.rounds = []
    for e in ends:
        h = e.g
        ex.prove(e, h['blocked'] == 0, 'a helper ends with balanced accounting')
        settle(ex, e)
        if h['ready'] != 'invalid':
            ex.prove(e, h['_live'] is not None and Not(h['_live']), 'a helper only ends when its notifier was stopped or the socket is invalid', h['ready'])


def verify_control(ctx):
    mk = lambda: build_notifier(ctx)[:3]
    sp = spec()
    for meth in ('suspend', 'cancel'):
        ex, st, p = mk()
        for e in ctx.run(ex, 'socket_notifier_impl::' + meth, virt(ex, st, p, IS, meth), [p], st):
            at, rel = e.g['_at'], e.g['_rel']
            if rel is None:
                ex.prove(e, False, meth + '() takes effect')
                continue
            r0, c0, c1 = bv(at[sp.RUN], 32), at[sp.COOKIE], rel[sp.COOKIE]
            if meth == 'suspend':
                sp.only(ex, e, {sp.RUN: z3.If(r0 > 0, r0 - 1, r0), sp.COOKIE: c1}, 'suspend() takes back one resume()')
                ex.prove(e, z3.If(r0 == 1, c1 != c0, Or(c1 == c0, r0 <= 0)), 'the helper is told to end exactly when the last resume() is taken back')
                ex.prove(e, not e.ev, 'a configuration call does nothing else')
            else:
                sp.only(ex, e, {sp.RUN: z3.BitVecVal(-1, 32), sp.COOKIE: c1}, 'cancel() stops the notifier for good')
                ex.prove(e, c1 != c0, 'cancel() tells the helper to end')
                ex.prove(e, [n for n, d in e.ev] == ['DISABLE'], 'cancel() waits for an active handler and prevents further ones', str([n for n, d in e.ev]))


def verify_config(ctx):
    mk = lambda: build_notifier(ctx)[:3]
    sp = spec()

    def h(ex, st):
        x, s = new_sp(st, 'newh', NOP)
        return [s], x
    simple(ctx, mk, sp, 'socket_notifier_impl::handler', IS, h, lambda ex, e, x: {'m_handler': x}, 'handler() sets the handler')

    def q(ex, st):
        x, s = new_sp(st, 'newq', IQ)
        return [s], x
    simple(ctx, mk, sp, 'socket_notifier_impl::target_queue', IS, q, lambda ex, e, x: {'m_queue': x}, 'target_queue() sets the target queue')
    for meth, k in (('socket', 'sock'), ('type', 'type')):
        ex, st, p = mk()
        for e in ctx.run(ex, 'socket_notifier_impl::' + meth, virt(ex, st, p, IS, meth), [p], st):
            ex.prove(e, bv(e.ret, 32) == bv(e.g[k], 32), meth + '() reports what the notifier was created for')
            ex.prove(e, not e.ev, 'a query does nothing else')
