"""Contracts of signal_barrier (C18).

Roles: ctor (until the barrier is connected nobody else sees it), raise (the connected handler, any number of them
concurrently), reader (wait/values/value).  The flag m_raised decides which raise counts: it is havocked before every
atomic operation on it (other raises), the raise that changes it from false to true owns m_values until it completes
the barrier; readers own a read permission of m_values once they saw the barrier completed.
"""
import re
from vf.spec import *
from vf import std
from vf.ir import Unsupported
from specs.sig import SC, CN, CD, fn_arg, snapshot, conn_obj, global_q, put_sp, Ptr, X, sym_obj, same

TUS = ['/verif/tu/barrier_use.cpp', 'src/signals.cpp']
VARIANTS = [('int', 'values in place'), ('vf_token', 'values allocated')]
IGN = ('LOOP', 'FREE', 'ALLOC', 'DELETE')
LB = X + 'lightweight_barrier'


class BSpec(ClassSpec):
    def part(self, ex, off):
        f = self.field(ex, off)
        return f[2].split('.')[0] if f is not None else None

    def on_access(self, ex, st, base, off, size, write, atomic):
        g = st.g
        t = self.part(ex, off)
        if g['role'] == 'ctor':
            if g.get('connected') == 'yes' and write and t != 'm_connection':
                ex.prove(st, False, 'the barrier is complete before it gets connected', t)
            return
        if g['role'] == 'dtor':
            return
        if t == 'm_values':
            mine = g['role'] == 'raise' and g.get('won') == 'yes' and g.get('done') != 'yes'
            if write:
                ex.prove(st, mine,
                         'values are only stored by the first raise, before waiters are released')
            else:
                ex.prove(st, mine or g.get('seen') == 'yes', 'values are only read once the barrier was completed')
        elif t == 'm_raised':
            ex.prove(st, atomic, 'no data race: m_raised accessed atomically')
        elif t == 'm_connection':
            ex.prove(st, g['role'] == 'own', 'no data race: raises do not use the connection')
        elif write:
            ex.prove(st, False, 'no data race: the barrier is not written', t)

    def atomic_pre(self, ex, st, base, off, ty, op):
        if self.part(ex, off) != 'm_raised' or st.g['role'] == 'ctor':
            return None
        st.om(base.obj).cells[base.off + off] = (1, z3.If(fresh_bool('raised'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if st.g.get('won') != 'yes' else 1)
        return None

    def atomic_post(self, ex, st, base, off, op, old, new):
        if self.part(ex, off) != 'm_raised' or st.g['role'] == 'ctor' or op == 'load':
            return None
        ex.prove(st, st.g['role'] == 'raise', 'only a raise marks the barrier as raised')
        ex.prove(st, bv(new, 8) != 0, 'a raise is never taken back')
        first = as_bool(zsimp(bv(old, 8) == 0))
        a, b = st.fork(), st.fork()
        a.assume(first)
        b.assume(Not(first))
        a.g['won'] = 'yes'
        return [s for s in (a, b) if ex.feasible(s)]


def setup(ctx, SB, SG, extra=(), role='own'):
    def lb_ctor(ex, st, c):
        ex.event(st, 'BARRIER', p=c.args[0])
        ex.store_raw(st, c.args[0].obj, c.args[0].off, 8, NULL)
        return None

    def lb_dtor(ex, st, c):
        ex.event(st, 'NOBARRIER', p=c.args[0])
        return None

    def lb_wait(ex, st, c):
        b = fresh_bool('released')
        ex.event(st, 'WAIT', p=c.args[0], t=c.args[1], r=b)
        return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def lb_complete(ex, st, c):
        ex.event(st, 'COMPLETE', p=c.args[0])
        ex.prove(st, st.g['role'] == 'raise' and st.g.get('won') == 'yes', 'the barrier is released by the first raise only')
        st.g['done'] = 'yes'
        return None

    def lb_done(ex, st, c):
        ex.event(st, 'ASK', p=c.args[0])
        s2 = st.fork()
        st.g['seen'] = 'yes'
        return Fork([(st, 1), (s2, 0)])

    def connected(ex, st, c):
        st.g['connected'] = 'yes'
        st.g['_fobj'] = snapshot(ex, st, c.args[2])
        ex.event(st, 'CONNECT', s=c.args[1])
        # the connection returned
        r = c.args[0]
        h, hc = Ptr(Obj('handler', None, 'sym'), 0), Ptr(Obj('handler.ctl', None, 'ctl'), 0)
        st.g['_h'] = h
        f = fptr(ex, r, CN, 'm_id')
        st.om(r.obj).cells[f.off] = (8, h)
        st.om(r.obj).cells[f.off + 8] = (8, hc)
        fset(ex, st, r, CN, 'm_parent', c.args[1])
        return None
    q = lambda n: '^' + LB.replace(':', '[:]') + '::' + n + r'\('
    ex = ctx.executor([CD, (q('lightweight_barrier'), lb_ctor), (q('~lightweight_barrier'), lb_dtor), (q('wait'), lb_wait),
                       (q('complete'), lb_complete), (q('was_completed'), lb_done), (r'^xdispatch::global_queue\(', global_q),
                       ('^' + re.escape(SG) + r'::connect\(std::function', connected)] + list(extra))
    st = ctx.new_state()
    bs = BSpec(SB)
    ex.cls_specs = {SB: bs}
    o = Ptr(Obj('barrier', ctx.prog.sizeof_cls(SB), 'sym', SB), 0)
    sg = sym_obj('signal', SG)
    st.om(o.obj).cells[ctx.prog.off(SB, 'm_signal')] = (8, sg)
    st.g['role'] = role
    st.shared[(o.obj.id, o.off)] = True
    return ex, st, o, sg


def at(ctx, p, o, f):
    return isinstance(p, Ptr) and p.obj is o.obj and p.off == ctx.prog.off(o.obj.cls, f)


def member(ctx, SB, name):
    c = [k for k in ctx.prog.bydem if k.startswith(SB + '::' + name + '(')]
    if len(c) != 1:
        raise Unsupported('function not found in extracted code: %s::%s' % (SB, name))
    return ctx.prog.func(c[0])


def put_value(ctx, ex, st, o, v):
    vo = ctx.prog.off(o.obj.cls, 'm_values')
    if 'vf_token' not in o.obj.cls:
        st.om(o.obj).cells[vo] = (4, v)
    else:
        t = Obj('stored values', 4, 'heap')
        st.om(t).cells[0] = (4, v)
        st.om(o.obj).cells[vo] = (8, Ptr(t, 0))


def get_value(ctx, ex, st, o):
    vo = ctx.prog.off(o.obj.cls, 'm_values')
    if 'vf_token' not in o.obj.cls:
        return bv(ex.load_raw(st, o.obj, vo, 4, ('i', 32)), 32)
    p = ex.load_raw(st, o.obj, vo, 8, 'ptr')
    if not isinstance(p, Ptr) or p.obj is None or p.obj.id in st.dead:
        return None
    return bv(ex.load_raw(st, p.obj, p.off, 4, ('i', 32)), 32)


def verify(ctx):
    for t, nm in VARIANTS:
        verify_variant(ctx, X + 'signal_barrier<void (%s)>' % t, X + 'signal<void (%s)>' % t, nm + ': ')


def verify_variant(ctx, SB, SG, pre):
    def setup_(**kw):
        return setup(ctx, SB, SG, **kw)
    # construction, and what a raise does from then on
    ex, st, o, sg = setup_(role='ctor')
    o.obj.kind = 'heap'
    st.om(o.obj)
    fn = ctx.prog.func(SB + '::signal_barrier(%s&)' % SG)
    for e in ctx.run(ex, pre + 'signal_barrier()', fn, [o, sg], st):
        k = [n for n, d in e.ev if n not in IGN]
        ex.prove(e, k == ['BARRIER', 'CONNECT'], 'a barrier is connected once, when it is ready', str(k))
        if 'CONNECT' not in k:
            continue
        ex.prove(e, all(same(d['s'], sg) for n, d in e.ev if n == 'CONNECT'), 'a barrier is connected to its signal')
        ex.prove(e, all(at(ctx, d['p'], o, 'm_barrier') for n, d in e.ev if n == 'BARRIER'), 'a barrier is connected once, when it is ready')
        r0 = ex.load_raw(e, o.obj, ctx.prog.off(SB, 'm_raised'), 1, ('i', 8))
        ex.prove(e, bv(r0, 8) == 0, 'a new barrier was not raised')
        f = fptr(ex, Ptr(o.obj, ctx.prog.off(SB, 'm_connection')), CN, 'm_id')
        a = ex.load_raw(e, f.obj, f.off, 8, 'ptr')
        ex.prove(e, isinstance(a, Ptr) and a.obj is e.g['_h'].obj, 'the barrier owns its connection')
        # the handler
        root = ex.root
        s = e.fork()
        s.frames, s.ev, s.own, s.dead = [], [], set(s.own), set()
        s.g['role'] = 'raise'
        # values hold anything by now
        v = z3.BitVec('emitted', 32)
        old = z3.BitVec('values_before', 32)
        put_value(ctx, ex, s, o, old)
        arg = Obj('argument', 4, 'stack')
        s.om(arg).cells[0] = (4, v)
        iv = s.om(s.g['_fobj']).cells[24][1]
        for x in ctx.run(ex, pre + 'raise', ex.p.find(iv.name, iv.mod), [Ptr(s.g['_fobj'], 0), Ptr(arg, 0)], s):
            k = [n for n, d in x.ev if n not in IGN]
            won = x.g.get('won') == 'yes'
            ex.prove(x, k == (['COMPLETE'] if won else []), 'the first raise releases the waiters, once', '%s %s' % (k, won))
            ex.prove(x, all(at(ctx, d['p'], o, 'm_barrier') for n, d in x.ev if n == 'COMPLETE'), 'the first raise releases the waiters, once')
            cur = get_value(ctx, ex, x, o)
            ex.prove(x, cur is not None and cur == (v if won else old), 'the barrier holds the values of the first raise', 'first' if won else 'later')
        ex.root = root
    # destruction
    ex, st, o, sg = setup_(role='dtor')
    f = fptr(ex, Ptr(o.obj, ctx.prog.off(SB, 'm_connection')), CN, 'm_id')
    h = Ptr(Obj('handler', None, 'sym'), 0)
    st.om(o.obj).cells[f.off] = (8, h)
    st.om(o.obj).cells[f.off + 8] = (8, Ptr(Obj('handler.ctl', None, 'ctl'), 0))
    fset(ex, st, Ptr(o.obj, ctx.prog.off(SB, 'm_connection')), CN, 'm_parent', sg)
    for e in ctx.run(ex, pre + '~signal_barrier', ctx.prog.func('vf_destroy(%s*)' % SB), [o], st):
        k = [n for n, d in e.ev if n not in IGN]
        ex.prove(e, k == ['CDISC', 'NOBARRIER'], 'no raise is active while a barrier is destroyed', str(k))
        ex.prove(e, all(d['h'].obj is h.obj for n, d in e.ev if n == 'CDISC'), 'no raise is active while a barrier is destroyed')
    # waiting
    ex, st, o, sg = setup_()
    t = z3.BitVec('timeout', 64)
    for e in ctx.run(ex, pre + 'wait', member(ctx, SB, 'wait'), [o, t], st):
        k = [(n, d) for n, d in e.ev if n not in IGN]
        ex.prove(e, len(k) == 1 and k[0][0] == 'WAIT' and at(ctx, k[0][1]['p'], o, 'm_barrier'), 'waiting waits for the first raise')
        if len(k) == 1 and k[0][0] == 'WAIT':
            ex.prove(e, bv(k[0][1]['t'], 64) == t, 'waiting waits at most for the given time')
            ex.prove(e, as_bool(zsimp(bv(e.ret, 1) != 0)) == k[0][1]['r'], 'wait() tells whether the signal was raised')
    # values
    for nm, isval in (('values', False), ('value', True)):
        ex, st, o, sg = setup_()
        v = z3.BitVec('stored', 32)
        put_value(ctx, ex, st, o, v)
        ret = Ptr(Obj('ret', 8, 'stack'), 0)
        f = member(ctx, SB, 'values') if not isval else ctx.prog.func('vf_value(%s const&)' % SB)
        args = [ret, o] if not isval else [o]
        if not isval and len(f.params) == 1:
            args = [o]
        n = 0
        for e in ctx.run(ex, pre + nm, f, args, st, allow_exc=True):
            k = [x for x, d in e.ev if x not in IGN]
            ok = e.g.get('seen') == 'yes'
            ex.prove(e, k == ['ASK'], 'values are only handed out after the raise', str(k))
            if e.status == 'exc':
                ex.prove(e, not ok and 'runtime_error' in str(e.exc['type']), 'asking for values before the raise throws', str(e.exc['type']))
                continue
            ex.prove(e, ok, 'asking for values before the raise throws')
            if isval or len(args) == 1:
                ex.prove(e, bv(e.ret, 32) == v, 'the stored values are handed out')
            else:
                ex.prove(e, bv(ex.load_raw(e, ret.obj, 0, 4, ('i', 32)), 32) == v, 'the stored values are handed out')
