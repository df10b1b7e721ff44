"""Barrier: wait returns after complete, complete is durable and wakes everyone."""
from vf.spec import *

PROPERTY = 'C06'
TUS = ['src/lightweight_barrier.cpp']
B = 'xdispatch::lightweight_barrier'
W = B + '::waiter'


class WaiterSpec(ClassSpec):
    """m_done only ever goes from false to true; only complete() may set it"""

    def on_acquire(self, ex, st, base):
        d = fbool(ex, st, base, W, 'm_done')
        seen = st.g.get(('done', base.obj.id))
        if seen is not None:
            st.assume(Implies(seen, d))
        # completion of this waiter implies the barrier was completed
        st.assume(Implies(d, st.g['completed_v']))
        st.g[('acq', base.obj.id)] = d

    def before_release(self, ex, st, base):
        d = fbool(ex, st, base, W, 'm_done')
        was = st.g[('acq', base.obj.id)]
        ex.prove(st, Implies(was, d), 'a completed barrier stays completed')
        ex.prove(st, Implies(And(Not(was), d), st.g['completing']), 'only complete() completes the barrier')
        st.g[('done', base.obj.id)] = d


class BarrierSpec(ClassSpec):
    """m_owner: none -> completed | none -> waiter (set once, never changed afterwards)"""

    def atomic_pre(self, ex, st, base, off, ty, op):
        k = st.g.get('owner')
        m = st.om(base.obj)
        if k is not None and k != 'none':
            return None          # settled: nobody changes it any more
        out = []
        for v in ('none', 'completed', 'waiter'):
            s = st.fork()
            if v == 'none':
                s.om(base.obj).cells[base.off + off] = (8, NULL)
            elif v == 'completed':
                s.om(base.obj).cells[base.off + off] = (8, s.g['kCompleted'])
                s.g['owner'] = v
                s.assume(s.g['completed_v'])
            else:
                o = Obj('other_waiter', ex.p.sizeof_cls(W), 'sym', W)
                share(s, Ptr(o, 0))
                s.om(base.obj).cells[base.off + off] = (8, Ptr(o, 0))
                s.g['owner'] = v
                s.g['waiter'] = o
            out.append(s)
        return out

    def atomic_post(self, ex, st, base, off, op, old, new):
        if op == 'load':
            return None
        isnull = isinstance(old, Ptr) and old.obj is None
        if new.obj is st.g['kCompleted'].obj:
            ex.prove(st, isnull, 'm_owner only moves from "none" to "completed"')
            ex.prove(st, st.g['completing'], 'only complete() completes the barrier')
            st.g['owner'] = 'completed'
        elif new.obj is None:
            ex.prove(st, isnull, 'm_owner never returns to "none"')
        else:
            ex.prove(st, isnull, 'a placed waiter is never replaced')
            # publish: the waiter must be in its initial state
            d = fbool(ex, st, new, W, 'm_done')
            ex.prove(st, Not(d), 'a waiter is published incomplete')
            share(st, new)
            st.g['owner'] = 'waiter'
            st.g['waiter'] = new.obj
        return None


def setup(ctx, ex, completing):
    st = ctx.new_state()
    st.g['completing'] = completing
    st.g['completed_v'] = z3.Bool('complete_called')
    if completing:
        st.assume(st.g['completed_v'])
    # run the real constructor of the barrier
    ex.root = 'lightweight_barrier()'
    (e, p), = new_object(ctx, ex, st, B, B + '::lightweight_barrier()', [])[0]
    own = fget(ex, e, p, B, 'm_owner', 'ptr')
    ex.prove(e, own.obj is None, 'a new barrier is incomplete')
    # the completed marker: what complete() leaves in a barrier nobody waits for
    e2 = e.fork()
    ex.cls_specs, keep = {}, ex.cls_specs
    r = [x for x in ex.run_function(e2, ctx.prog.func(B + '::complete()'), [p]) if x.status == 'ret']
    ex.cls_specs = keep
    marks = {fget(ex, x, p, B, 'm_owner', 'ptr').obj for x in r}
    if len(marks) != 1 or None in marks:
        ex.prove(e, False, 'complete() marks an idle barrier as completed')
    e.g['kCompleted'] = Ptr(next(iter(marks)), 0)
    share(e, p)
    e.om(p.obj).cells.clear()
    return e, p


def specs(ex):
    ws = WaiterSpec(W, lock='m_mutex', protected=['m_done'], sync=['m_mutex', 'm_cond'],
                    cvs={'m_cond': lambda ex, st, b: fbool(ex, st, b, W, 'm_done')})
    ws.notify_all_needed = {'m_cond'}
    bs = BarrierSpec(B, atomics=['m_owner'])
    ex.cls_specs = {W: ws, B: bs}


def verify(ctx):
    # complete(): durable completion, all waiters woken
    ex = ctx.executor()
    specs(ex)
    st, p = setup(ctx, ex, True)
    for e in ctx.run(ex, 'complete', B + '::complete()', [p], st):
        o = e.g.get('owner')
        if o == 'waiter':
            d = e.g.get(('done', e.g['waiter'].id), False)
            ex.prove(e, d, 'after complete() the barrier is completed')
        else:
            ex.prove(e, o == 'completed', 'after complete() the barrier is completed')
    # wait()
    ex = ctx.executor()
    specs(ex)
    st, p = setup(ctx, ex, False)
    t = z3.BitVec('timeout_ms', 64)
    st.assume(z3.And(t >= -1, t < (1 << 40)))
    for e in ctx.run(ex, 'wait', B + '::wait(std::chrono::duration<long, std::ratio<1l, 1000l>>)', [p, t], st):
        r = as_bool(e.ret)
        ex.prove(e, Implies(r, e.g['completed_v']), 'wait() returns true only once complete() was called')
        ex.prove(e, Implies(t == -1, r), 'wait() without timeout never gives up')
        ex.prove(e, Implies(Not(r), bool(e.g.get('timedwait'))), 'wait() gives up only after its timeout')
        o = e.g.get('owner')
        if o == 'completed':
            ex.prove(e, r, 'wait() on a completed barrier succeeds')
        elif o == 'waiter':
            ex.prove(e, Implies(e.g.get(('done', e.g['waiter'].id), False), r), 'wait() on a completed barrier succeeds')
        ex.prove(e, Implies(r, o in ('completed', 'waiter')), 'wait() reports what it saw')
    # was_completed()
    ex = ctx.executor()
    specs(ex)
    st, p = setup(ctx, ex, False)
    for e in ctx.run(ex, 'was_completed', B + '::was_completed() const', [p], st):
        r = as_bool(e.ret)
        ex.prove(e, Implies(r, e.g['completed_v']), 'was_completed() is true only once complete() was called')
        if e.g.get('owner') == 'completed':
            ex.prove(e, r, 'was_completed() sees completion')
        if e.g.get('owner') == 'waiter':
            ex.prove(e, Implies(e.g.get(('done', e.g['waiter'].id), False), r), 'was_completed() sees completion')
