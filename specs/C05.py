"""Counting semaphore behind the thread pool: permits are conserved and no waiter sleeps through a permit."""
from vf.spec import *

PROPERTY = 'C05'
TUS = ['src/naive/naive_semaphore.cpp']
SEM = 'xdispatch::naive::semaphore'
SM = SEM + '::'
MAXP = 1 << 30


class SemSpec(ClassSpec):
    """m_count: available permits (atomic, never negative); m_waiters: registered waiters.

    release: add permits, THEN look at m_waiters; when somebody is registered
    notify with the lock taken after the permits were added.
    wait: under the lock register FIRST, then find no permit, then wait.
    """

    def which(self, ex, off):
        return self.field(ex, off)[2].split('.')[0]

    def atomic_pre(self, ex, st, base, off, ty, op):
        f = self.which(ex, off)
        v = fresh(32, f)
        if f == 'm_count':
            st.assume(z3.And(v >= 0, v < MAXP))
        else:
            reg = bv(st.g['reg'], 64)
            st.assume(z3.And(v >= 0, v < MAXP, z3.SignExt(32, v) >= reg))
        st.om(base.obj).cells[base.off + off] = (4, v)
        st.wr.add(('cell', base.obj, base.off + off))
        return None

    def atomic_post(self, ex, st, base, off, op, old, new):
        f = self.which(ex, off)
        g = st.g
        if f == 'm_count':
            if op == 'load':
                g['last'] = bv(old, 32)
                g['chk'] = 1 if holds_any(st) and ex.valid(st, bv64(g['reg']) > 0) else 0
                return None
            d = zsimp(z3.SignExt(32, bv(new, 32)) - z3.SignExt(32, bv(old, 32)))
            g['delta'] = zsimp(bv64(g['delta']) + d)
            ex.prove(st, bv(new, 32) >= 0, 'the number of permits never becomes negative')
            g['last'] = z3.BitVecVal(1, 32)
            g['chk'] = 0
            if ex.feasible(st, bv64(d) > 0):
                g['must_notify'] = True
                g['relocked'] = bool(st.held)
                g['woken'] = z3.BitVecVal(0, 32)
        else:
            if op == 'load':
                g['must_notify'] = And(g['must_notify'], as_bool(zsimp(bv(old, 32) != 0)))
                return None
            d = zsimp(z3.SignExt(32, bv(new, 32)) - z3.SignExt(32, bv(old, 32)))
            g['reg'] = zsimp(bv64(g['reg']) + d)
            ex.prove(st, bv64(g['reg']) >= 0, 'a waiter only removes its own registration')
        return None

    def on_acquire(self, ex, st, base):
        st.g['relocked'] = True
        st.g['chk'] = 0

    def on_notify(self, ex, st, base, f, all_):
        g = st.g
        # the lock must have been taken after the permits were added; a single wake-up serves a single permit
        if not g.get('relocked'):
            return
        g['woken'] = z3.Extract(31, 0, bv64(g['delta'])) if all_ else zsimp(bv(g['woken'], 32) + 1)

    def before_wait(self, ex, st, base, off, timed):
        ex.prove(st, And(bv64(st.g['chk']) == 1, bv(st.g['last'], 32) == 0), 'a waiter sleeps only after it registered and then found no permit, all under the lock')


def holds_any(st):
    return bool(st.held)


def setup(ctx):
    ex = ctx.executor()
    ex.cls_specs = {SEM: SemSpec(SEM, lock='m_CS', atomics=['m_count', 'm_waiters'], sync=['m_CS', 'm_cond'])}
    ex.loop_inv.append(lambda ex, st: [('observed permit counts are not negative', bv(st.g['last'], 32) >= 0)])
    st = ctx.new_state()
    st.g.update({'reg': 0, 'delta': 0, 'must_notify': False, 'relocked': False, 'woken': z3.BitVecVal(0, 32), 'last': z3.BitVecVal(1, 32), 'chk': 0})
    c = z3.BitVec('initial', 32)
    st.assume(z3.And(c >= 0, c < MAXP))
    ex.root = 'semaphore()'
    r, p = new_object(ctx, ex, st, SEM, ctx.prog.func(SM + 'semaphore'), [c])
    ctx.roots.append(('semaphore()', SM + 'semaphore(int)'))
    (e, _), = [x for x in r if ex.feasible(x[0])]
    ex.prove(e, bv(fget(ex, e, p, SEM, 'm_count'), 32) == c, 'a new semaphore holds its initial permits')
    ex.prove(e, bv(fget(ex, e, p, SEM, 'm_waiters'), 32) == 0, 'a new semaphore has no waiters')
    share(e, p)
    e.om(p.obj).cells.clear()
    e.ev = []
    return ex, e, p


def post_acquire(ex, e, what, strict):
    r = as_bool(e.ret)
    d = bv64(e.g['delta'])
    ex.prove(e, Implies(r, d == -1), what + ': success takes exactly one permit')
    ex.prove(e, Implies(Not(r), d == 0), what + ': failure takes no permit')
    ex.prove(e, bv64(e.g['reg']) == 0, what + ': no registration is left behind')
    if strict:
        ex.prove(e, Implies(Not(r), bv(e.g['last'], 32) == 0), what + ': fails only when no permit was available')


def verify(ctx):
    ex, st, p = setup(ctx)
    for e in ctx.run(ex, 'try_acquire', SM + 'try_acquire()', [p], st):
        post_acquire(ex, e, 'try_acquire', True)
    ex, st, p = setup(ctx)
    n = z3.BitVec('spins', 32)
    st.assume(z3.And(n >= 0, n < MAXP))
    for e in ctx.run(ex, 'spin_acquire', SM + 'spin_acquire(int)', [p, n], st):
        post_acquire(ex, e, 'spin_acquire', False)
    ex, st, p = setup(ctx)
    t = z3.BitVec('timeout_ms', 64)
    st.assume(z3.And(t >= 0, t < (1 << 40)))
    now0 = std.advance(ex, st)
    for e in ctx.run(ex, 'wait_acquire', SM + 'wait_acquire(std::chrono::duration<long, std::ratio<1l, 1000l>>)', [p, t], st):
        post_acquire(ex, e, 'wait_acquire', True)
        r = as_bool(e.ret)
        ex.prove(e, Or(r, bv64(e.g['_now']) - now0 >= t * 1000000), 'wait_acquire: gives up only once its timeout has elapsed')
    ex, st, p = setup(ctx)
    n = z3.BitVec('count', 32)
    st.assume(z3.And(n > 0, n < MAXP))
    for e in ctx.run(ex, 'release', SM + 'release(int)', [p, n], st):
        ex.prove(e, bv64(e.g['delta']) == z3.SignExt(32, n), 'release: adds exactly the released permits')
        ex.prove(e, Or(Not(e.g['must_notify']), z3.SignExt(32, bv(e.g['woken'], 32)) >= bv64(e.g['delta'])), 'release: a registered waiter is always woken')
