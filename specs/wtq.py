"""Contracts of the waitable queue (C14).

Ghost state
  E          the sequence of operations submitted to the queue (an unbounded log); m_operations is E[lo, hi)
  turn       whether this thread is the one whose turn it is to run an operation (it set m_active)
  job        the operation taken in this turn: none, todo, done; ji: its index in E
Monitor (lock m_CS): only the thread whose turn it is resets m_active and takes operations; an
operation is taken from the front; m_completed counts operations that finished and were not waited for.
"""
from vf.spec import *
from vf import std
from specs.opq import virt, OP, N, TP
from specs.api import value, same, X, IQ, IOP

TUS = ['src/waitable_queue.cpp', 'src/queue.cpp', 'src/operation.cpp', 'src/naive/naive_operations.cpp', 'src/naive/naive_consumable.cpp']
W = 'waitable_queue_operation'
I = X + 'waitable_queue::impl'
WQ = X + 'waitable_queue'
APPLY = N + 'apply_operation'


def no_locks(ex, st, what):
    ex.prove(st, not st.held, 'no lock held while ' + what, str(st.held))


class WaitSpec(ClassSpec):
    def acquire(self, ex, st, base, lockoff):
        if lockoff != ex.p.off(W, self.lock):
            return None
        g = st.g
        self.forget(ex, st, base, self.protected)
        lo, hi, c = fresh(64, 'lo'), fresh(64, 'hi'), fresh(64, 'completed')
        st.assume(z3.ULE(lo, hi))
        st.assume(z3.ULT(hi, 1 << 60))
        st.assume(z3.ULT(c, 1 << 60))
        if g['turn'] == 'yes':
            st.assume(lo == bv64(g['ji']) + 1)
            a = 1
        else:
            a = z3.If(fresh_bool('active'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        set_seq(ex, st, base, W, 'm_operations', std.Seq([('r', g['E'], lo, hi)]))
        fset(ex, st, base, W, 'm_active', a)
        fset(ex, st, base, W, 'm_completed', c)
        k = ('_cv', base.obj.id, base.off)
        g[k] = {f: pr(ex, st, base) for f, pr in self.cvs.items()}
        g.pop(('_ntf', base.obj.id, base.off), None)
        g['_at'] = (fbool(ex, st, base, W, 'm_active'), lo, hi, c)
        return None

    def before_release(self, ex, st, base):
        g = st.g
        a0, lo, hi, c0 = g['_at']
        a1 = fbool(ex, st, base, W, 'm_active')
        c1 = bv64(fget(ex, st, base, W, 'm_completed'))
        s = seq_field(ex, st, base, W, 'm_operations')
        segs = list(s.segs)
        pushed = []
        while segs and segs[-1][0] == 's':
            pushed.insert(0, segs.pop()[1])
        ok = not segs or (len(segs) == 1 and segs[0][0] == 'r' and segs[0][1] is g['E'])
        ex.prove(st, ok, 'pending operations stay queued, in order', repr(s))
        if not ok:
            return
        lo1, hi1 = (segs[0][2], segs[0][3]) if segs else (hi, hi)
        ex.prove(st, bv64(hi1) == hi, 'pending operations stay queued, in order')
        popped = not ex.valid(st, bv64(lo1) == lo)
        dec = False
        if g['turn'] == 'no':
            if ex.valid(st, And(a1, Not(a0))):
                g['turn'] = 'yes'
                g['ji'] = lo
                st.ev.append(('TURN', {}))
                ex.prove(st, popped, 'a thread keeps its turn only to run an operation')
            else:
                ex.prove(st, iff(a0, a1), 'only the thread whose turn it is ends the turn')
            dec = not ex.valid(st, c1 == c0)
            if dec:
                ex.prove(st, And(c0 != 0, c1 == c0 - 1), 'a waiter accounts for exactly one finished operation')
            if popped:
                ex.prove(st, g['turn'] == 'yes', 'an operation is taken only by the thread whose turn it is')
                ex.prove(st, And(bv64(lo1) == lo + 1, z3.ULT(lo, hi)), 'one operation is taken at a time, the oldest first')
                g['job'] = 'todo'
        else:
            ex.prove(st, not popped, 'one operation is taken at a time, the oldest first')
            if ex.valid(st, Not(a1)):
                ex.prove(st, g['job'] == 'done', 'a turn ends only after its operation finished')
                ex.prove(st, c1 == c0 + 1, 'every finished operation is accounted for once')
                g['turn'], g['job'] = 'no', 'none'
            else:
                ex.prove(st, a1, 'a turn lasts until its operation finished')
                ex.prove(st, c1 == c0, 'every finished operation is accounted for once')
        g['_last'] = {'a0': a0, 'empty': lo == hi, 'a1': a1, 'empty1': And(bv64(lo1) == bv64(hi1), not pushed), 'c0': c0, 'c1': c1, 'dec': dec}
        if pushed:
            ex.event(st, 'PUSH', ops=[sp_get(ex, st, Ptr(x, 0)) for x in pushed])

    def before_wait(self, ex, st, base, off, timed):
        f = self.field(ex, off)
        ex.prove(st, not timed, 'a wait for the current turn does not give up')
        st.ev.append(('CVWAIT', {}))
        ClassSpec.before_wait(self, ex, st, base, off, timed)


def iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def spec():
    s = WaitSpec(W, lock='m_CS', protected=['m_operations', 'm_completed', 'm_active'], sync=['m_CS', 'm_cond'],
                 cvs={'m_cond': lambda ex, st, b: Not(fbool(ex, st, b, W, 'm_active'))})
    s.notify_all_needed = {'m_cond'}
    return s


def op_call(ex, st, c):
    g = st.g
    op = c.args[0]
    if not ex.resolve_ptr(st, op, 'operation'):
        return Kill('null operation')
    no_locks(ex, st, 'an operation runs')
    e = op.obj.meta.get('elem')
    ok = e is not None and e[0] is g['E'] and g['turn'] == 'yes' and g['job'] == 'todo'
    ex.prove(st, And(ok, bv64(e[1]) == bv64(g['ji'])) if ok else False, 'operations run one at a time, in the order they were submitted, each once')
    g['job'] = 'done'
    g['runs'] = '1' if g['runs'] == '0' else 'n'
    s2 = st.fork()
    return Fork([(st, None), (s2, Throw({'type': 'user_exception', 'obj': Obj('exc', None, 'heap')}))])


def inner_async(ex, st, c):
    no_locks(ex, st, 'the inner queue is woken')
    ex.event(st, 'ASYNC', o=c.args[0], op=sp_get(ex, st, c.args[1]))
    return None


CONTRACTS = [
    (r'^virtual xdispatch::operation::operator\(\)$', op_call),
    (r'^virtual xdispatch::iqueue_impl::async$', inner_async),
]


def round_(ex, st, ev, mons):
    """progress: no round of a loop on the queue without effect"""
    if mons and not any(n in ('TURN', 'CVWAIT', 'NOTIFY') or (n == 'LOOP' and (
            d['busy'] if 'condition_variable4wait' in d['fn'] else d['pending'])) for n, d in ev):
        base = mons[0][1]
        ex.prove(st, bv64(fget(ex, st, base, W, 'm_completed')) != st.g['_at'][3],
                 'a waiting thread always sleeps until the current turn ends, takes a turn itself or accounts for a finished operation')


def busy(ex, st):
    a, at = fbool(ex, st, st.g['_w'], W, 'm_active'), st.g['_at']
    return {'busy': ex.valid(st, a), 'pending': at is not None and ex.valid(st, Or(a, at[1] != at[2]))}


def released(ex, st, p):
    # the list owns one reference; a copy dropped earlier is not the last one
    if st.g.get(('_ref', p.obj.id), 0) < 0:
        no_locks(ex, st, 'an operation is released')


def build(ctx, extra=()):
    ex = ctx.executor(list(extra) + CONTRACTS)
    st = ctx.new_state()
    q, qi = value(ctx, ex, st, X + 'queue', IQ)
    ex.root = 'waitable_queue::impl()'
    f = ctx.prog.func(I + '::impl')
    ctx.roots.append((ex.root, dem(f.name)))
    r, p = new_object(ctx, ex, st, I, f, [q])
    st = [x for x in r if ex.feasible(x[0])][0][0]
    w = fget(ex, st, p, I, 'm_worker', 'ptr')
    s = seq_field(ex, st, w, W, 'm_operations')
    ex.prove(st, not s.segs, 'a new waitable queue is empty')
    ex.prove(st, Not(fbool(ex, st, w, W, 'm_active')), 'a new waitable queue is idle')
    ex.prove(st, bv64(fget(ex, st, w, W, 'm_completed')) == 0, 'a new waitable queue has nothing to be waited for')
    ex.cls_specs = {W: spec()}
    st.g.update({'E': op_log('E', on_release=released), 'turn': 'no', 'job': 'none', 'ji': z3.BitVecVal(0, 64), 'runs': '0', '_last': None, '_at': None})
    share(st, w)
    share(st, p)
    spec().forget(ex, st, w, spec().protected)
    st.ev = []
    st.frames = []
    return ex, st, p, w, qi


def verify_async(ctx):
    ex, st, p, w, qi = build(ctx)
    op, slot = new_sp(st, 'op', OP)
    for e in ctx.run(ex, 'waitable async', I + '::async', [p, slot], st):
        k = [n for n, d in e.ev]
        ex.prove(e, k == ['PUSH', 'ASYNC'], 'an operation is queued once and then the inner queue is woken once for it', str(k))
        if k != ['PUSH', 'ASYNC']:
            continue
        ops = e.ev[0][1]['ops']
        ex.prove(e, len(ops) == 1 and same(ops[0], op), 'the submitted operation is queued behind everything submitted before')
        d = e.ev[1][1]
        ex.prove(e, same(d['o'], qi), 'the inner queue is woken')
        ex.prove(e, d['op'].obj is w.obj, 'the inner queue serves this waitable queue')


def verify_drain(ctx):
    ex, st, p, w, qi = build(ctx)
    ex.rounds = [round_]
    ex.entry_note = busy
    st.g['_w'] = w
    for e in ctx.run(ex, 'serve', virt(ex, st, w, OP, 'operator()'), [w], st, allow_exc=True):
        g = e.g
        ex.prove(e, g['turn'] == 'no', 'a thread gives back its turn, also when the operation throws')
        if e.status == 'exc':
            ex.prove(e, 'user_exception' in str(e.exc['type']), 'only exceptions of the operation escape', str(e.exc['type']))
        l = g['_last']
        ex.prove(e, g['runs'] == '1' or And(g['runs'] == '0', l is not None and And(Not(l['a0']), l['empty'])), 'every wake-up runs one operation unless none is pending once the current turn ended')


def verify_wait(ctx):
    # a waiter may have to run several operations: count only within one turn
    for meth in ('wait_for_one', 'wait_for_all'):
        ex, st, p, w, qi = build(ctx)
        if meth == 'wait_for_all':
            ex.tracing = 0      # the statements tracing here are those of wait_for_one()
        f = ctx.prog.func(I + '::' + meth)
        ex.rounds = [round_]
        ex.entry_note = busy
        st.g['_w'] = w
        for e in ctx.run(ex, meth, f, [p], st, allow_exc=True):
            g = e.g
            ex.prove(e, g['turn'] == 'no', 'a thread gives back its turn, also when the operation throws')
            if e.status == 'exc':
                ex.prove(e, 'user_exception' in str(e.exc['type']), 'only exceptions of the operation escape', str(e.exc['type']))
                continue
            l = g['_last']
            if l is None:
                ex.prove(e, False, meth + '() looks at the queue')
                continue
            if meth == 'wait_for_one':
                ex.prove(e, l['dec'] or And(Not(l['a0']), l['empty'], l['c0'] == 0), 'wait_for_one() returns once an operation finished that was not waited for, or if there is none to wait for')
            else:
                ex.prove(e, And(Not(l['a1']), l['empty1']), 'wait_for_all() returns only when nothing is running or pending')


def a_mon(ex, st, kind, kw):
    """every operation apply submits is queued once and the inner queue woken once for it"""
    g = st.g
    if kind == 'PUSH':
        ops = kw['ops']
        ex.prove(st, len(ops) == 1, 'apply submits operations one by one')
        op = ops[0] if ops else NULL
        ok = isinstance(op, Ptr) and op.obj is not None and op.obj.kind == 'heap'
        ex.prove(st, ok, 'apply submits freshly made operations')
        if ok:
            ex.prove(st, bv64(fget(ex, st, op, APPLY, 'm_index')) == bv64(g['nsub']), 'apply: indices are submitted in order, each exactly once')
            ex.prove(st, fget(ex, st, op, APPLY, 'm_op', 'ptr').obj is g['_op'].obj, 'apply: every index runs the given operation')
        g['nsub'] = zsimp(bv64(g['nsub']) + 1)
    elif kind == 'ASYNC':
        ex.prove(st, same(kw['o'], g['_qi']) and kw['op'].obj is g['_w'].obj, 'apply: the inner queue is woken for this waitable queue')
        g['nwake'] = zsimp(bv64(g['nwake']) + 1)
        ex.prove(st, z3.ULE(bv64(g['nwake']), bv64(g['nsub'])), 'apply: an operation is queued before the inner queue is woken for it')


def w_contract(ex, st, c):
    ex.event(st, 'WAIT', o=c.args[0])
    return None


def verify_apply(ctx):
    ex, st, p, w, qi = build(ctx, [(r'^waitable_queue_operation::wait_for_all\(', w_contract)])
    ex.tracing = 0          # waiting is checked with tracing by verify_wait()
    n = z3.BitVec('times', 64)
    op, slot = new_sp(st, 'op', IOP)
    st.g.update({'nsub': z3.BitVecVal(0, 64), 'nwake': z3.BitVecVal(0, 64), '_op': op, '_w': w, '_qi': qi})
    ex.monitors = [a_mon]
    for e in ctx.run(ex, 'waitable apply', I + '::apply', [p, n, slot], st):
        ex.prove(e, bv64(e.g['nsub']) == n, 'apply: every index is submitted exactly once')
        ex.prove(e, bv64(e.g['nwake']) == n, 'apply: the inner queue is woken once for every operation')
        ex.prove(e, [k for k, d in e.ev if k not in ('LOOP', 'PUSH', 'ASYNC')] == ['WAIT'] and [d for k, d in e.ev if k == 'WAIT'][0]['o'].obj is w.obj, 'apply: waits until all operations finished', str(e.ev))


def verify_public(ctx):
    """the public object hands on to its implementation"""
    for meth in ('wait_for_one', 'wait_for_all'):
        ex, st, p, w, qi = build(ctx, [(r'^(virtual )?xdispatch::waitable_queue::impl::%s' % meth, w_contract)])
        o = Ptr(Obj('waitable', ctx.prog.sizeof_cls(WQ), 'sym', WQ), 0)
        from specs.grp import put_sp
        put_sp(ex, st, fptr(ex, o, WQ, 'm_impl'), p, Ptr(Obj('impl.ctl', None, 'ctl'), 0))
        for e in ctx.run(ex, 'waitable_queue::' + meth, WQ + '::' + meth, [o], st):
            ex.prove(e, [k for k, d in e.ev] == ['WAIT'] and same(e.ev[0][1]['o'], p), 'waiting concerns this queue')
