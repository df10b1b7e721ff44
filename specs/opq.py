"""Contracts of the naive serial queue (operation_queue behind serial_queue_impl).

Ghost state of one queue
  E        the sequence of accepted operations (an unbounded log)
  nX       number of operations executed so far; hi: number accepted so far
  tok      wake-up operations handed to the thread pool and not yet started
  m_active_drain doubles as D: a drain is running

Monitor invariant (lock m_CS), the list holds the accepted operations that have
not finished:
  tok <= 1;  D -> tok = 0 and the list is not empty
  no D and the list is not empty -> tok = 1;  list empty -> tok = 0
"""
from vf.spec import *

TUS = ['src/naive/naive_operation_queue.cpp', 'src/naive/naive_serial_queue.cpp', 'src/naive/naive_operations.cpp',
       'src/operation.cpp']
N = 'xdispatch::naive::'
Q = N + 'operation_queue'
S = N + 'serial_queue_impl'
TP = N + 'ithreadpool'
OP = 'xdispatch::operation'


def nonempty(s):
    n = s.size()
    return (n != 0) if isinstance(n, int) else z3.UGT(n, 0)


class QueueSpec(ClassSpec):
    """monitor of operation_queue"""

    def acquire(self, ex, st, base, lockoff):
        if lockoff != ex.p.off(self.cls, self.lock):
            return None
        g = st.g
        mode = g['mode']           # 'out': an ordinary thread, 'drain': inside our drain, 'dtor'
        keep = None
        if mode == 'drain' and g.get('drain_on'):
            keep = g['_rel_seq']
        self.forget(ex, st, base, self.protected)
        # immutable while the queue is alive
        w = st.g['nop']
        alive = not g.get('dying') and not g.get('nop_gone')
        for k, v in enumerate(w):
            fset_at(ex, st, base, Q, 'm_notify_operation', 8 * k, v if alive else NULL)
        E = g['E']
        if keep is not None:
            hi = fresh(64, 'hi')
            st.assume(z3.ULE(bv64(g['hi']), hi))
            if g.get('sealed'):
                hi = g['hi']       # nothing is accepted after the final (detach) operation
            segs = list(keep.segs)
            if segs and segs[-1][0] == 'r':
                segs[-1] = ('r', E, segs[-1][2], hi)
            elif not g.get('sealed'):
                segs.append(('r', E, g['hi'], hi))
            g['hi'] = hi
            set_seq(ex, st, base, Q, 'm_jobs', std.Seq(segs, keep.et))
            fset(ex, st, base, Q, 'm_active_drain', 1)
            fset(ex, st, base, Q, 'm_is_attached', from_bool8(fresh_bool('attached')) if not g.get('sealed') else 0)
            g['tok'] = 0
        else:
            lo, hi = fresh(64, 'lo'), fresh(64, 'hi')
            st.assume(z3.ULE(lo, hi))
            st.assume(z3.ULT(hi, 1 << 60))
            g['lo'], g['hi'] = lo, hi
            g['nX'] = lo
            set_seq(ex, st, base, Q, 'm_jobs', std.Seq([('r', E, lo, hi)]))
            d = fresh_bool('drain_active')
            fset(ex, st, base, Q, 'm_active_drain', from_bool8(d))
            fset(ex, st, base, Q, 'm_is_attached', from_bool8(fresh_bool('attached')))
            tok = fresh(64, 'tok')
            g['tok'] = tok
            for n, c in self.invariants(ex, st, base):
                st.assume(c)
            if mode == 'drain':
                # this call is the wake-up operation: its token is consumed here
                st.assume(And(Not(d), tok == 1))
                g['tok'] = 0
                g['drain_on'] = True
            elif mode == 'dtor':
                # released by the manager only after the detach operation started, or with nothing pending
                st.assume(tok == 0)
                s2 = st.fork()
                s2.assume(d)
                fset(ex, s2, base, Q, 'm_active_drain', 1)
                s2.g['_acq_D'] = True
                st.assume(Not(d))
                fset(ex, st, base, Q, 'm_active_drain', 0)
                st.g['_acq_D'] = False
                return Fork([(st, None), (s2, None)])
            elif mode in ('async', 'detach'):
                st.assume(fbool(ex, st, base, Q, 'm_is_attached'))
        g['_acq_seq'] = seq_field(ex, st, base, Q, 'm_jobs')
        g['_acq_tok'] = g['tok']
        g['_acq_D'] = fbool(ex, st, base, Q, 'm_active_drain')
        return None

    def invariants(self, ex, st, base):
        s = seq_field(ex, st, base, Q, 'm_jobs')
        ne = nonempty(s)
        d = fbool(ex, st, base, Q, 'm_active_drain')
        tok = bv64(st.g['tok'])
        return [
            ('at most one wake-up is outstanding', z3.ULE(tok, 1)),
            ('while operations run the queue is not seen empty, and no second wake-up is outstanding', Implies(d, And(tok == 0, ne))),
            ('pending operations always have a wake-up outstanding', Implies(And(Not(d), ne), tok == 1)),
            ('no wake-up is outstanding for an empty queue', Implies(Not(ne), tok == 0)),
        ]

    def before_release(self, ex, st, base):
        g = st.g
        mode = g['mode']
        s = seq_field(ex, st, base, Q, 'm_jobs')
        d = fbool(ex, st, base, Q, 'm_active_drain')
        if mode == 'drain':
            if d is True or ex.valid(st, d):
                g['_rel_seq'] = s
            else:
                # the drain is over
                ex.prove(st, Not(d), 'a drain leaves the queue marked idle')
                self.exact(ex, st, s, 'what remains queued after a drain is exactly what was not executed, in order')
                g['drain_on'] = False
            ex.prove(st, at_end(s, g), 'operations accepted meanwhile are kept, in order')
        else:
            ex.prove(st, d == g['_acq_D'] if is_sym(d) or is_sym(g['_acq_D']) else d == g['_acq_D'],
                     'only a drain marks the queue as draining')
        if not g.get('dying') and mode != 'dtor':
            for k, v in enumerate(g['nop']):
                x = fget_at(ex, st, base, Q, 'm_notify_operation', 8 * k)
                ex.prove(st, isinstance(x, Ptr) and x.obj is v.obj, 'the wake-up operation stays in place')
        g['_rel_D'] = d
        g['_rel_last'] = s

    def exact(self, ex, st, s, what):
        g = st.g
        rest = [x for x in s.segs]
        if not rest:
            ex.prove(st, bv64(g['nX']) == bv64(g['hi']), what)
            return
        ok = len(rest) == 1 and rest[0][0] == 'r' and rest[0][1] is g['E']
        ex.prove(st, And(ok, bv64(rest[0][2]) == bv64(g['nX']), bv64(rest[0][3]) == bv64(g['hi'])) if ok else False, what)

    def release(self, ex, st, base, lockoff):
        if lockoff == ex.p.off(self.cls, self.lock) and st.g['mode'] == 'dtor':
            # only the destructor itself changes the wake-up operation from here on
            x = fget_at(ex, st, base, Q, 'm_notify_operation', 0)
            if isinstance(x, Ptr) and x.obj is None:
                st.g['nop_gone'] = True
            d = fbool(ex, st, base, Q, 'm_active_drain')
            if ex.valid(st, Not(d)):
                # exclusive from here on: no drain is running and none can start
                for n, c in self.invariants(ex, st, base):
                    ex.prove(st, c, 'invariant of operation_queue at unlock: ' + n)
                st.shared[(base.obj.id, base.off)] = False
                st.g['_rel_D'] = False
                st.g['exclusive'] = True
                return None
        return ClassSpec.release(self, ex, st, base, lockoff)

    def virtual_release(self, ex, st, base):
        return st.g['mode'] != 'drain'


def from_bool8(b):
    return z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if is_sym(b) else int(bool(b))


def fset_at(ex, st, base, cls, path, delta, v):
    ex.store_raw(st, base.obj, base.off + ex.p.off(cls, path) + delta, 8, v)


def fget_at(ex, st, base, cls, path, delta):
    return ex.load_raw(st, base.obj, base.off + ex.p.off(cls, path) + delta, 8, 'ptr')


def at_end(s, g):
    """the list ends with everything accepted so far"""
    if not s.segs or s.segs[-1][0] != 'r':
        return True if g.get('sealed') or is_closed(g) else bv64(g['nX']) == bv64(g['hi']) if not s.segs else bv64(next_after(s, g)) == bv64(g['hi'])
    x = s.segs[-1]
    return And(x[1] is g['E'], bv64(x[3]) == bv64(g['hi']))


def is_closed(g):
    return False


def next_after(s, g):
    n = 0
    i = None
    for x in s.segs:
        if x[0] == 's' and x[1].meta.get('ident'):
            i = x[1].meta['ident'][1]
    return g['nX'] if i is None else zsimp(bv64(i) + 1)


def op_release(ex, st, p):
    """a reference to an accepted operation is dropped: may run arbitrary user destructors"""
    no_locks(ex, st, 'an executed operation is released')


# ---------------------------------------------------------------- environment contracts
def pool_execute(ex, st, c):
    """contract of the thread pool: accepts the operation at the given priority and later runs it once"""
    g = st.g
    work = sp_get(ex, st, c.args[1])
    pr = c.args[2]
    ex.event(st, 'EXECUTE', op=work)
    if 'q' in g:
        nop = g['nop'][0]
        ex.prove(st, work.obj is nop.obj, 'only the drain of this queue is handed to the thread pool')
        ex.prove(st, bv(pr, 32) == g['prio'], 'operations run at the priority of their queue')
        ex.prove(st, c.args[0].obj is g['pool'].obj, 'operations run on the pool of their queue')
        g['tok'] = zsimp(bv64(g['tok']) + 1)
        ex.prove(st, any(h[1].obj is g['q'].obj for h in st.held), 'wake-ups are issued under the queue lock')
    return None


def op_call(ex, st, c):
    """execution of a user operation by the queue"""
    g = st.g
    op = c.args[0]
    if not ex.resolve_ptr(st, op, 'operation'):
        return Kill('null operation')
    ex.event(st, 'EXEC', op=op)
    no_locks(ex, st, 'an operation runs')
    ex.prove(st, bool(g.get('drain_on')), 'operations only run inside the (single) active drain')
    if not g.get('drain_on'):
        return Kill('executed outside of a drain')
    e = op.obj.meta.get('elem')
    ok = e is not None and e[0] is g['E']
    ex.prove(st, And(ok, bv64(e[1]) == bv64(g['nX'])) if ok else False,
             'operations run in acceptance order, each exactly once')
    g['nX'] = zsimp(bv64(g['nX']) + 1)
    if g.get('with_detach') and not g.get('sealed'):
        # variant: this was the final operation queued by detach()
        s2 = st.fork()
        s2.assume(bv64(g['nX']) == bv64(g['hi']))
        s2.g['sealed'] = True
        s3 = s2.fork()
        s3.g['dying'] = True         # the manager already started to destroy the queue
        return Fork([(st, None), (s2, None), (s3, None)])
    return None


def mgr_instance(ex, st, c):
    o = st.g.get('_mgr')
    if o is None:
        o = st.g['_mgr'] = Obj('queue_manager', None, 'sym', N + 'operation_queue_manager')
    return Ptr(o, 0)


def mgr_attach(ex, st, c):
    ex.event(st, 'ATTACH', q=sp_get(ex, st, c.args[1]))
    ctl = sp_get(ex, st, c.args[1], 8)      # the manager keeps a reference
    if std.ctl_concrete(ex, st, ctl):
        ex.store_raw(st, ctl.obj, ctl.off + 8, 4, std.cnt(ex, st, ctl, 8) + 1)
    return None


def mgr_detach(ex, st, c):
    ex.event(st, 'DETACH', q=c.args[1])
    h = st.g.get('_on_detach')
    if h:
        h(ex, st, c.args[1])
    return None


def on_detach(ex, st, q):
    g = st.g
    ex.prove(st, q.obj is g['q'].obj, 'a queue unregisters itself')
    held = any(h[1].obj is g['q'].obj for h in st.held)
    s = seq_field(ex, st, g['q'], Q, 'm_jobs') if held else None
    if g['mode'] == 'detach':
        # released right away: nothing may be pending, running or about to run
        ex.prove(st, held, 'the decision to release a queue is taken under its lock')
        if held:
            ex.prove(st, Not(nonempty(s)), 'a queue with pending operations is not released')
            ex.prove(st, Not(fbool(ex, st, g['q'], Q, 'm_active_drain')), 'a queue is not released while operations run')
            ex.prove(st, bv64(g['tok']) == 0, 'a queue is not released while a wake-up is outstanding')


CONTRACTS = [
    (r'^virtual xdispatch::naive::ithreadpool::execute$', pool_execute),
    (r'^virtual xdispatch::operation::operator\(\)$', op_call),
    (r'^xdispatch::naive::operation_queue_manager::instance\(\)', mgr_instance),
    (r'^xdispatch::naive::operation_queue_manager::attach\(', mgr_attach),
    (r'^xdispatch::naive::operation_queue_manager::detach\(', mgr_detach),
]


def executor(ctx):
    ex = ctx.executor(CONTRACTS)
    qs = QueueSpec(Q, lock='m_CS', protected=['m_jobs', 'm_active_drain', 'm_is_attached', 'm_notify_operation'],
                   sync=['m_CS'], free=['_M_weak_this'])
    ex.cls_specs = {Q: qs}
    return ex


def build_queue(ctx, ex, share_it=True):
    """run the real serial_queue_impl constructor; returns (state, impl ptr, queue ptr)"""
    st = ctx.new_state()
    pool, poolslot = new_sp(st, 'pool', TP)
    label = str_arg(st, 'label')
    prio = z3.BitVec('priority', 32)
    bk = z3.BitVec('backend', 32)
    st.g['mode'] = 'ctor'
    ex.root = 'serial_queue_impl()'
    ctor = ctx.prog.func(S + '::serial_queue_impl')
    r, p = new_object(ctx, ex, st, S, ctor, [poolslot, label, prio, bk])
    r = [x for x in r if ex.feasible(x[0])]
    ctx.roots.append(('serial_queue_impl()', dem(ctor.name)))
    if not r:
        raise Unsupported('serial queue constructor has no normal path')
    for e, _ in r:
        q = fget(ex, e, p, S, 'm_queue', 'ptr')
        at = [x for x in e.ev if x[0] == 'ATTACH']
        ex.prove(e, len(at) == 1 and at[0][1]['q'].obj is q.obj, 'a new queue registers itself with the lifetime manager')
        ex.prove(e, fbool(ex, e, q, Q, 'm_is_attached'), 'a new queue accepts operations')
        ex.prove(e, Not(fbool(ex, e, q, Q, 'm_active_drain')), 'a new queue is idle')
        ex.prove(e, seq_field(ex, e, q, Q, 'm_jobs').size() == 0, 'a new queue is empty')
        ex.prove(e, not any(x[0] == 'EXECUTE' for x in e.ev), 'a new queue has no wake-up outstanding')
    e = r[0][0]
    q = fget(ex, e, p, S, 'm_queue', 'ptr')
    e.g['q'] = q
    e.g['nop'] = tuple(fget_at(ex, e, q, Q, 'm_notify_operation', 8 * k) for k in (0, 1))
    ex.prove(e, e.g['nop'][0].obj is not None, 'a new queue has its wake-up operation')
    e.g['prio'] = prio
    e.g['pool'] = pool
    e.g['E'] = op_log('E', on_release=op_release)
    e.g['tok'] = 0
    e.g['nX'] = 0
    e.g['hi'] = 0
    e.g['impl'] = p
    e.ev = []
    if share_it:
        share(e, q)
        share(e, p)
        ex.cls_specs[Q].forget(ex, e, q, ex.cls_specs[Q].protected)
    return e, p, q


def verify_async(ctx):
    ex = executor(ctx)
    st, p, q = build_queue(ctx, ex)
    st.g['mode'] = 'async'
    op, slot = new_sp(st, 'op', OP)
    st.g['sealed'] = False
    for e in ctx.run(ex, 'serial async', S + '::async', [p, slot], st):
        s0, s = e.g['_acq_seq'], e.g.get('_rel_last')
        ok = s is not None and len(s.segs) == len(s0.segs) + 1 and s.segs[:-1] == s0.segs and s.segs[-1][0] == 's'
        if ok:
            x = sp_get(ex, e, Ptr(s.segs[-1][1], 0))
            ok = x.obj is op.obj
        ex.prove(e, ok, 'async() accepts the operation exactly once, behind everything accepted before', repr(s))
        ex.prove(e, count_events(e, 'EXEC') == 0, 'async() does not run operations itself')


def verify_drain(ctx):
    """the wake-up operation: what the pool runs"""
    ex = executor(ctx)
    st, p, q = build_queue(ctx, ex)
    st.g['mode'] = 'drain'
    st.g['with_detach'] = True
    nop = st.g['nop'][0]
    f = virt(ex, st, nop, OP, 'operator()')
    for e in ctx.run(ex, 'drain', f, [nop], st):
        ex.prove(e, not e.g.get('drain_on'), 'a drain ends')
        ex.prove(e, z3.UGT(bv64(e.g['nX']), bv64(e.g['lo'])), 'every wake-up executes at least one operation')
        if e.g.get('sealed'):
            ex.prove(e, bv64(e.g['tok']) == 0, 'after the final operation no wake-up refers to the queue any more')


def verify_detach(ctx):
    ex = executor(ctx)
    st, p, q = build_queue(ctx, ex)
    st.g['mode'] = 'detach'
    st.g['_on_detach'] = on_detach
    n = 0
    for e in ctx.run(ex, 'queue dropped', S + '::~serial_queue_impl', [p], st):
        if not ex.feasible(e):
            continue
        det = [x for x in e.ev if x[0] == 'DETACH']
        s0, s = e.g.get('_acq_seq'), e.g.get('_rel_last')
        if det:
            ex.prove(e, len(det) == 1, 'a dropped queue is released exactly once')
            ex.prove(e, s is not None and s.same(s0), 'a dropped queue changes nothing else')
            continue
        ok = s is not None and len(s.segs) == len(s0.segs) + 1 and s.segs[:-1] == s0.segs and s.segs[-1][0] == 's'
        ex.prove(e, ok, 'dropping a busy queue enqueues its release behind all accepted operations', repr(s))
        if not ok:
            continue
        n += 1
        # the enqueued operation, run later by the drain
        op = sp_get(ex, e, Ptr(s.segs[-1][1], 0))
        e2 = e.fork()
        e2.g['mode'] = 'detach_op'
        e2.ev = []
        for x in ctx.run(ex, 'final operation', virt(ex, e2, op, OP, 'operator()'), [op], e2):
            d = [y for y in x.ev if y[0] == 'DETACH']
            ex.prove(x, len(d) == 1 and d[0][1]['q'].obj is q.obj, 'the final operation releases the queue exactly once')
    # destruction by the manager
    ex = executor(ctx)
    st, p, q = build_queue(ctx, ex)
    st.g['mode'] = 'dtor'
    for e in ctx.run(ex, 'queue destroyed', Q + '::~operation_queue', [q], st):
        ex.prove(e, bool(e.g.get('exclusive')), 'a queue is destroyed only after its drain returned')
        ex.prove(e, not any(x[0] in ('EXEC', 'EXECUTE') for x in e.ev), 'destruction runs and schedules nothing')


def virt(ex, st, p, cls, meth):
    """function implementing virtual cls::meth for the concrete object p"""
    k = vslot_of(ex, cls, meth)
    vp = ex.load_raw(st, p.obj, p.off, 8, 'ptr')
    f = ex.load_raw(st, vp.obj, vp.off + 8 * k, 8, 'ptr')
    return ex.p.find(f.name, f.mod)


def vslot_of(ex, cls, meth):
    for k in range(40):
        n = ex.vname(cls, k)
        if n == cls + '::' + meth:
            return k
    raise Unsupported('virtual %s::%s not found' % (cls, meth))
