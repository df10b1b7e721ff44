"""Manual thread / main queue executor: FIFO, exactly once, no missed wake-up, cancellation returns."""
from vf.spec import *
from specs.opq import virt, OP, N

PROPERTY = 'C21'
TUS = ['src/naive/naive_manual_thread.cpp', 'src/naive/naive_thread.cpp', 'src/operation.cpp']
MT = N + 'manual_thread'


class MTSpec(ClassSpec):
    """m_queued_ops holds exactly the accepted operations not yet taken by run(): E[nT..hi)"""

    def acquire(self, ex, st, base, lockoff):
        if lockoff != ex.p.off(self.cls, self.lock):
            return None
        self.forget(ex, st, base, self.protected)
        g = st.g
        # only run() takes operations; anybody appends
        if g['mode'] == 'run':
            lo = g['nT']
            hi = fresh(64, 'hi')
            st.assume(And(z3.ULE(bv64(g['hi']), hi), z3.ULT(hi, 1 << 60)))
        else:
            lo, hi = fresh(64, 'lo'), fresh(64, 'hi')
            st.assume(And(z3.ULE(lo, hi), z3.ULT(hi, 1 << 60)))
        g['hi'] = hi
        set_seq(ex, st, base, MT, 'm_queued_ops', std.Seq([('r', g['E'], lo, hi)]))
        out = []
        for c in (False, True):
            s = st if c else st.fork()
            fset(ex, s, base, MT, 'm_cancelled', int(c))
            s.g['_acq_seq'] = seq_field(ex, s, base, MT, 'm_queued_ops')
            s.g['acq_c'] = c
            for f, pr in self.cvs.items():
                s.g[('_cv', base.obj.id, base.off)] = {f: pr(ex, s, base)}
            s.g.pop(('_ntf', base.obj.id, base.off), None)
            out.append((s, None))
        return Fork(out)

    def virtual_release(self, ex, st, base):
        return False

    def before_release(self, ex, st, base):
        g = st.g
        s = seq_field(ex, st, base, MT, 'm_queued_ops')
        g['_rel_seq'] = s
        g['_rel_c'] = fbool(ex, st, base, MT, 'm_cancelled')
        if g['mode'] == 'run':
            # what is left behind must be a suffix of what was accepted
            if not s.segs:
                g['nT'] = g['hi']
            else:
                ok = len(s.segs) == 1 and s.segs[0][0] == 'r' and s.segs[0][1] is g['E']
                ex.prove(st, And(ok, bv64(s.segs[0][3]) == bv64(g['hi'])) if ok else False, 'run() only takes the oldest operations')
                if ok:
                    g['nT'] = s.segs[0][2]
            # a consumed cancellation is remembered
            ex.prove(st, Or(Not(And(g['acq_c'], Not(g['_rel_c']))), not s.segs), 'run() takes everything accepted before the cancellation along with it')
            g['ncancel'] = Or(g['ncancel'], And(g['acq_c'], Not(g['_rel_c'])))
            if is_sym(g['ncancel']):
                g['ncancel'] = ex.valid(st, g['ncancel'])


def op_call(ex, st, c):
    g = st.g
    op = c.args[0]
    if not ex.resolve_ptr(st, op, 'operation'):
        return Kill('null')
    no_locks(ex, st, 'an operation runs')
    ex.prove(st, g['prioset'], 'the serving thread sets its priority before it runs operations')
    ex.prove(st, g['mode'] == 'run', 'operations only run on the thread calling run()')
    e = op.obj.meta.get('elem')
    ok = e is not None and e[0] is g['E']
    ex.prove(st, And(ok, bv64(e[1]) == bv64(g['nX']), z3.ULT(bv64(g['nX']), bv64(g['hi']))) if ok else False,
             'operations run in acceptance order, each exactly once')
    ex.event(st, 'EXEC', op=op)
    g['nX'] = zsimp(bv64(g['nX']) + 1)
    return None


def set_prio(ex, st, c):
    if st.g['mode'] == 'run':
        ex.prove(st, bv(c.args[0], 32) == st.g['prio'], 'the serving thread runs at the priority configured for it')
        st.g['prioset'] = True
    return None


def setup(ctx):
    ex = ctx.executor([
        (r'^virtual xdispatch::operation::operator\(\)$', op_call),
        (r'^xdispatch::thread_utils::set_current_thread_name\(', lambda ex, st, c: None),
        (r'^xdispatch::thread_utils::set_current_thread_priority\(', set_prio)])

    def wakeup(ex, st, b):
        return Or(nonempty(seq_field(ex, st, b, MT, 'm_queued_ops')), fbool(ex, st, b, MT, 'm_cancelled'))
    ms = MTSpec(MT, lock='m_CS', protected=['m_queued_ops', 'm_cancelled'], sync=['m_CS', 'm_cond'], cvs={'m_cond': wakeup})
    ex.cls_specs = {MT: ms}
    st = ctx.new_state()
    st.g.update({'mode': 'ctor', 'nX': 0, 'nT': 0, 'hi': 0, 'ncancel': False})
    ex.root = 'manual_thread()'
    f = ctx.prog.func(MT + '::manual_thread')
    st.g['prio'] = z3.BitVec('priority', 32)
    st.g['prioset'] = False
    r, p = new_object(ctx, ex, st, MT, f, [str_arg(st, 'name'), st.g['prio']])
    ctx.roots.append(('manual_thread()', dem(f.name)))
    (e, _), = [x for x in r if ex.feasible(x[0])]
    ex.prove(e, Not(fbool(ex, e, p, MT, 'm_cancelled')), 'a new thread is not cancelled')
    ex.prove(e, seq_field(ex, e, p, MT, 'm_queued_ops').size() == 0, 'a new thread has nothing to run')
    share(e, p)
    ms.forget(ex, e, p, ms.protected)
    e.g['E'] = op_log('E')
    e.g['obj'] = p
    e.ev = []
    return ex, e, p


def nonempty(s):
    n = s.size()
    return (n != 0) if isinstance(n, int) else z3.UGT(n, 0)


def verify(ctx):
    # execute
    ex, st, p = setup(ctx)
    st.g['mode'] = 'execute'
    op, slot = new_sp(st, 'op', OP)
    for e in ctx.run(ex, 'execute', MT + '::execute', [p, slot, z3.BitVec('prio', 32)], st):
        s0, s = e.g['_acq_seq'], e.g.get('_rel_seq')
        ok = s is not None and len(s.segs) == len(s0.segs) + 1 and s.segs[:-1] == s0.segs and s.segs[-1][0] == 's'
        if ok:
            ok = sp_get(ex, e, Ptr(s.segs[-1][1], 0)).obj is op.obj
        ex.prove(e, ok, 'execute() accepts the operation exactly once, behind everything accepted before', repr(s))
        ex.prove(e, e.g['_rel_c'] == e.g['acq_c'], 'execute() does not touch a pending cancellation')
        ex.prove(e, count_events(e, 'EXEC') == 0, 'execute() does not run operations itself')
    # cancel
    ex, st, p = setup(ctx)
    st.g['mode'] = 'cancel'
    for e in ctx.run(ex, 'cancel', MT + '::cancel', [p], st):
        ex.prove(e, e.g.get('_rel_c', False), 'cancel() leaves a cancellation pending')
        ex.prove(e, e.g['_rel_seq'].same(e.g['_acq_seq']), 'cancel() does not drop accepted operations')
    verify_run(ctx)
    verify_thread(ctx)


def verify_run(ctx):
    # run
    ex, st, p = setup(ctx)
    st.g['mode'] = 'run'
    for e in ctx.run(ex, 'run', MT + '::run', [p], st):
        ex.prove(e, e.g['ncancel'], 'run() returns only after cancel()')
        ex.prove(e, bv64(e.g['nX']) == bv64(e.g['nT']), 'everything run() took was executed before it returns')


def verify_thread(ctx):
    """naive::thread: runs run() on its own thread, and its destructor cancels before it joins"""
    T = N + 'thread'
    ex = ctx.executor([
        (r'^xdispatch::naive::manual_thread::run\(\)', lambda ex, st, c: ex.event(st, 'RUN', obj=c.args[0])),
        (r'^xdispatch::naive::manual_thread::cancel\(\)', lambda ex, st, c: ex.event(st, 'CANCEL', obj=c.args[0]))])
    st = ctx.new_state()
    f = ctx.prog.func(T + '::thread')
    ex.root = 'thread()'
    r, p = new_object(ctx, ex, st, T, f, [str_arg(st, 'name'), z3.BitVec('priority', 32)])
    ctx.roots.append(('thread()', dem(f.name)))
    for e, _ in r:
        th = [x for x in e.ev if x[0] == 'THREAD']
        ex.prove(e, len(th) == 1, 'a thread object starts exactly one thread')
        if len(th) != 1:
            continue
        e2 = e.fork()
        e2.ev = []
        run_thread_state(ctx, ex, e2, th[0][1]['state'], p)
        e.ev = []
        for x in ctx.run(ex, '~thread', T + '::~thread', [p], e):
            k = [y[0] for y in x.ev if y[0] in ('CANCEL', 'JOIN', 'DETACH_THREAD')]
            ex.prove(x, k == ['CANCEL', 'JOIN'], 'destroying a thread cancels it, then waits for it', str(k))


def run_thread_state(ctx, ex, st, state, p):
    vp = ex.load_raw(st, state.obj, state.off, 8, 'ptr')
    f = ex.load_raw(st, vp.obj, vp.off + 16, 8, 'ptr')
    for x in ctx.run(ex, 'new thread', ex.p.find(f.name, f.mod), [state], st):
        k = [y for y in x.ev if y[0] == 'RUN']
        ex.prove(x, len(k) == 1 and k[0][1]['obj'].obj is p.obj, 'the started thread executes run() of its object')
