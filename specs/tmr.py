"""Timer contracts (C10, C11)."""
from specs.evs import *
from specs import evs

TUS = ['src/naive/naive_timer.cpp', 'src/queue.cpp', 'src/timer.cpp', 'src/operation.cpp', 'src/trace_utils.cpp']
T = N + 'timer_impl'
IT = 'xdispatch::itimer_impl'
MS = 1000000


class TimerSpec(SourceSpec):
    RUN, COOKIE, HANDLER, QUEUE = 'm_running', 'm_cookie', 'm_handler', 'm_queue'
    FIELDS = ('m_interval',)

    def more(self, ex, st, base):
        iv = fresh(64, 'interval')
        st.assume(z3.And(iv >= 0, iv < (1 << 40)))
        fset(ex, st, base, T, 'm_interval', iv)
        if str(st.g.get('mode')).startswith('helper'):
            st.g['iv'] = iv

    def new(self, ex, st, base):
        ex.prove(st, bv64(fget(ex, st, base, T, 'm_interval')) == 0, 'a new timer fires once')

    def is_live(self, ex, st, base):
        ck = fget(ex, st, base, T, self.COOKIE)
        return And(bv(fget(ex, st, base, T, self.RUN), 32) > 0, ck == st.g['cookie'])


def spec():
    return TimerSpec(T, lock='m_CS', protected=['m_interval', 'm_queue', 'm_handler', 'm_running', 'm_cookie'],
                     sync=['m_CS'], free=['m_cancelable', '_M_weak_this'])


def due(ex, st):
    g = st.g
    return std.valid_ns(ex, st, bv64(g['_now']) >= bv64(g['last']) + bv64(g['need']))


def sleep(ex, st, c):
    no_locks(ex, st, 'sleeping')
    ex.prove(st, st.g['blocked'] == 1, 'a sleeping helper is accounted as blocked')
    r = std.sleep_for(ex, st, c)
    st.g['_live'] = None
    if st.g['due'] is not True:
        st.g['due'] = due(ex, st)
    if st.g['shot'] == 'fired' and ex.valid(st, Not(st.g['_single'])):
        st.g['shot'] = 'periodic'
    return r


def on_async(ex, st, c):
    g = st.g
    if g['due'] is not True:
        std.advance(ex, st)
        g['due'] = due(ex, st)
    ex.prove(st, g['due'] is True,
             'an invocation is never queued before its time')
    ex.prove(st, g['shot'] != 'fired', 'a timer without interval fires once per start')
    g['last'] = std.advance(ex, st)
    g['need'] = std.ns_of(st, g['iv'], MS)
    g['due'] = False
    g['_single'] = bv64(g['iv']) == 0
    g['shot'] = 'fired'


def build_timer(ctx):
    sp = spec()
    bk = z3.BitVec('backend', 32)
    ex, e, p = evs.build(ctx, T, sp, lambda qs, ps: [qs, ps, bk], 'm_cancelable', [(r'std::this_thread::sleep_for<', sleep)])
    return ex, e, p, sp


def verify_resume(ctx):
    ex, st, p, sp = build_timer(ctx)
    d = z3.BitVec('delay_ms', 64)
    st.assume(z3.And(d >= 0, d < (1 << 40)))
    n = 0
    for e in ctx.run(ex, 'resume', virt(ex, st, p, IT, 'resume'), [p, d], st):
        at, rel = e.g['_at'], e.g['_rel']
        r0 = bv(at['m_running'], 32)
        x = [(k, v) for k, v in e.ev]
        ex.prove(e, all(k == 'EXECUTE' for k, v in x), 'resume() only starts a helper')
        started = len(x)
        ex.prove(e, started == 1 if ex.valid(e, r0 == 0) else And(started == 0, r0 != 0), 'a helper is started exactly when the timer becomes running', str(started))
        ch = {'m_running': r0 + 1}
        if started:
            ex.prove(e, rel['m_cookie'] != at['m_cookie'], 'every start invalidates the helpers of earlier starts')
            ch['m_cookie'] = rel['m_cookie']
        sp.only(ex, e, ch, 'resume() only counts the start')
        if started == 1 and ex.feasible(e):
            n += 1
            v = x[0][1]
            ex.prove(e, v['pool'].obj is e.g['pool'].obj, 'the helper is borrowed from the pool of the timer')
            verify_helper(ctx, ex, e.fork(), v['op'], d, rel['m_cookie'])
    if not n:
        ex.prove(st, False, 'a helper is started exactly when the timer becomes running')


def verify_helper(ctx, ex, st, op, delay, cookie):
    g = st.g
    st.frames = []
    st.ev = []
    g.update({'mode': 'helper', 'cookie': cookie, 'due': False, 'last': g['_now'], 'need': std.ns_of(st, delay, MS), 'shot': 'none', '_single': None,
              'on_async': on_async, '_live': None, 'iv': z3.BitVecVal(0, 64)})
    for e in ctx.run(ex, 'helper', virt(ex, st, op, OP, 'operator()'), [op], st):
        h = e.g
        ex.prove(e, h['blocked'] == 0, 'a helper ends with balanced accounting')
        ex.prove(e, Or(And(h['shot'] == 'fired', h['_single']) if h['shot'] == 'fired' else False, h['_live'] is not None and Not(h['_live'])), 'a helper only ends when its timer was stopped or has no interval', h['shot'])


def verify_control(ctx):
    mk = lambda: build_timer(ctx)[:3]
    sp = spec()
    B32 = lambda f: (lambda ex, e: {f: bv(e.g['_at'][f], 32) - 1})
    simple(ctx, mk, sp, 'timer_impl::suspend', IT, lambda ex, st: ([],), lambda ex, e: {'m_running': bv(e.g['_at']['m_running'], 32) - 1},
           'suspend() takes back one resume()')
    simple(ctx, mk, sp, 'timer_impl::cancel', IT, lambda ex, st: ([],), lambda ex, e: {'m_running': 0},
           'cancel() stops the timer', ['DISABLE'])


def verify_config(ctx):
    mk = lambda: build_timer(ctx)[:3]
    sp = spec()
    iv = z3.BitVec('interval_ms', 64)
    simple(ctx, mk, sp, 'timer_impl::interval', IT, lambda ex, st: ([iv],), lambda ex, e: {'m_interval': iv}, 'interval() sets the interval')

    def h(ex, st):
        x, s = new_sp(st, 'newh', OP)
        return [s], x
    simple(ctx, mk, sp, 'timer_impl::handler', IT, h, lambda ex, e, x: {'m_handler': x}, 'handler() sets the handler')

    def q(ex, st):
        x, s = new_sp(st, 'newq', IQ)
        return [s], x
    simple(ctx, mk, sp, 'timer_impl::target_queue', IT, q, lambda ex, e, x: {'m_queue': x}, 'target_queue() sets the target queue')
