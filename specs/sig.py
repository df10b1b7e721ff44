"""Contracts of signals (C15-C18).

The handlers of a signal are a symbolic log H of unbounded length n; handler i has its own queue, pending
counter, cancelable and mode.  cA(i), cS(i) count the asynchronous / synchronous handlers among H[0, i).
Ghost of an emission
  visA, visS   asynchronous / synchronous handlers dealt with so far
  ph           what is owed to the current handler: idle; must/must1: an invocation (counted as pending in must1);
               skip1: nothing, but it is still counted; call/leave: it was entered, is to be called / left
"""
from vf.spec import *
from vf import std
from specs.opq import virt, OP, N
from specs.api import value, same, X, IQ
from specs.grp import put_sp

TU = '/verif/tu/signal_use.cpp'
TUS = [TU, 'src/signals.cpp', 'src/queue.cpp', 'src/group.cpp', 'src/operation.cpp']
SP = X + 'signal_p'
SG = X + 'signal<void (int)>'
CH = X + 'signal_p::connection_handler'
CT = SG + '::connection_handler_t'
PC = CH + '::pending_calls'
CN = X + 'connection'
SC = X + 'scoped_connection'
CM = X + 'connection_manager'
BATCH, SINGLE, SYNC = 0, 1, 2
B64 = z3.BitVecSort(64)
cA, cS, sel = z3.Function('nAsync', B64, B64), z3.Function('nSync', B64, B64), z3.Function('sel', B64, B64)
mode_of = z3.Function('mode', B64, z3.BitVecSort(32))
MAXN = 1 << 40


def idx(p):
    return p.obj.meta.get('h') if isinstance(p, Ptr) and p.obj is not None else None


def sig_locked(st):
    s = st.g.get('_sig')
    return s is not None and any(h[1].obj is s.obj for h in st.held)


class HSpec(ClassSpec):
    """a connected handler: everything but the pending counter is immutable; that one belongs to the lock of the signal"""

    def on_access(self, ex, st, base, off, size, write, atomic):
        if not self.is_shared(ex, st, base):
            return
        f = self.field(ex, off)
        if f is None:
            return
        t = f[2].split('.')[0]
        if t == 'm_pending':
            ex.prove(st, sig_locked(st), 'no data race: the pending calls of a handler are accessed with the lock of its signal held')
        elif t == 'm_connected':
            ex.prove(st, atomic, 'no data race: m_connected accessed atomically')
        elif t != 'm_active' and write:
            ex.prove(st, False, 'no data race: a connected handler is immutable', f[2])


class PSpec(ClassSpec):
    """the calls of one handler which were queued since the last skip_all()"""

    def atomic_pre(self, ex, st, base, off, ty, op):
        f = self.field(ex, off)[2].split('.')[0]
        g = st.g
        if f == 'm_count':
            v = fresh(32, 'pending')
            st.assume(z3.And(v >= own_of(g), v < (1 << 30)))
            st.om(base.obj).cells[base.off + off] = (4, v)
        else:
            v = z3.If(fresh_bool('skipped'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            if g.get('_skipped_by_us') is base.obj:
                v = 1
            st.om(base.obj).cells[base.off + off] = (1, v)
        st.wr.add(('cell', base.obj, base.off + off))
        return None

    def atomic_post(self, ex, st, base, off, op, old, new):
        f = self.field(ex, off)[2].split('.')[0]
        g = st.g
        i = base.obj.meta.get('h')
        if f == 'm_skipped':
            if g['mode'] == 'inv':
                if op != 'load':
                    ex.prove(st, False, 'an invocation does not skip others')
                b = as_bool(zsimp(bv(old, 8) != 0))
                g['_skip'] = b if g.get('_skip') is None else g['_skip']
            elif op != 'load':
                h = g.get('_on_skip')
                ex.prove(st, h is not None, 'only skip_all() skips queued calls')
                if h:
                    h(ex, st, base, new)
            return None
        if i is None:
            return None
        if g['mode'] == 'inv':
            if op == 'load':
                return None
            ex.prove(st, bv(new, 32) == bv(old, 32) - 1, 'an invocation takes itself off the pending calls')
            ex.prove(st, g.get('_pend') is not None and base.obj is g['_pend'].obj, 'an invocation is accounted where it was counted')
            ex.event(st, 'DEC')
            return None
        if g['mode'] != 'emit':
            ex.prove(st, op == 'load', 'only emissions and invocations count calls')
            return None
        if g['ph'] in ('idle',):
            # the current handler shows how many calls are pending
            m = mode_of(i)
            ex.prove(st, m != SYNC, 'synchronous handlers are not queued')
            ex.prove(st, cA(i) == bv64(g['visA']), 'every asynchronous handler is served, each once, in order of connection')
            must = Or(m == SINGLE, bv(old, 32) == 0)
            g['_cur'] = i
            g['_pend'] = Ptr(base.obj, base.off)
            out = []
            for c, ph in ((must, 'must'), (Not(must), 'idle')):
                s = st.fork()
                s.assume(c)
                if not ex.feasible(s):
                    continue
                s.g['ph'] = ph
                if ph == 'idle':
                    s.g['visA'] = zsimp(bv64(g['visA']) + 1)
                out.append(s)
                if op != 'load':
                    self.count(ex, s, base, old, new)
            return out
        if op != 'load':
            self.count(ex, st, base, old, new)
        return None

    def count(self, ex, st, base, old, new):
        g = st.g
        d = bv(zsimp(bv(new, 32) - bv(old, 32)), 32)
        up = ex.valid(st, d == 1)
        ex.prove(st, Or(d == 1, d == -1), 'pending calls are counted one by one')
        ex.prove(st, g.get('_pend') is not None and base.obj is g['_pend'].obj, 'pending calls are counted per handler')
        nxt = {('must', True): 'must1', ('must1', False): 'must', ('idle', True): 'skip1', ('skip1', False): 'idle'}.get((g['ph'], up))
        ex.prove(st, nxt is not None, 'an emission counts a call exactly as long as it is pending', '%s %s' % (g['ph'], up))
        if nxt:
            g['ph'] = nxt


def own_of(g):
    return 1 if g.get('ph') in ('must1', 'skip1') or g.get('mode') == 'inv' and not g.get('_decd') else 0


class SigSpec(ClassSpec):
    def acquire(self, ex, st, base, lockoff):
        if lockoff != ex.p.off(self.cls, self.lock):
            return None
        self.forget(ex, st, base, self.protected)
        set_seq(ex, st, base, self.cls, 'm_handlers', std.Seq([('r', st.g['_H'], z3.BitVecVal(0, 64), st.g['n'])]))
        st.g['_at'] = True
        return None

    def before_release(self, ex, st, base):
        g = st.g
        s = seq_field(ex, st, base, self.cls, 'm_handlers')
        h = g.get('_on_release')
        if h:
            h(ex, st, s)
            return
        s = std.fold_seq(ex, st, s)
        ok = len(s.segs) == 1 and s.segs[0][0] == 'r' and s.segs[0][1] is g['_H']
        ex.prove(st, And(ok, bv64(s.segs[0][2]) == 0, bv64(s.segs[0][3]) == g['n']) if ok else (g['n'] == 0 if not s.segs else False),
                 'emitting and skipping leave the connections as they are', repr(s))

    def release(self, ex, st, base, lockoff):
        r = ClassSpec.release(self, ex, st, base, lockoff)
        if lockoff == ex.p.off(self.cls, self.lock) and st.g['mode'] == 'destroy':
            set_seq(ex, st, base, self.cls, 'm_handlers', std.Seq(()))      # nobody connects to a signal being destroyed
            st.shared[(base.obj.id, base.off)] = False
        return r

    def virtual_release(self, ex, st, base):
        return False


def q_async(ex, st, c):
    """the call is handed to the queue of the handler"""
    g = st.g
    q = c.args[0]
    queued(ex, st, q, sp_get(ex, st, c.args[1]), None)
    return None


def g_async(ex, st, c):
    g = st.g
    queued(ex, st, c.args[2], sp_get(ex, st, c.args[1]), c.args[0])
    return None


def queued(ex, st, q, op, grp):
    g = st.g
    ex.prove(st, g['mode'] == 'emit', 'calls are queued by emissions only')
    want = g['_grp']
    ex.prove(st, grp is None if want is None else grp is not None and grp.obj is want.obj, 'calls are tracked by the group of the signal if it has one')
    i = idx(q)
    ex.prove(st, i is not None and q.off == ex.p.off(CT, 'm_queue'), 'a handler is called on the queue it was connected with')
    if i is None:
        return
    fresh_one = g['ph'] == 'idle' and ex.valid(st, And(mode_of(i) == SINGLE, cA(i) == bv64(g['visA'])))
    ex.prove(st, g['ph'] in ('must1', 'must') or fresh_one, 'a call is queued exactly if none is pending or every single emission counts', g['ph'])
    if g['ph'] != 'must1' and g['ph'] != 'must' and not fresh_one:
        return
    if not fresh_one:
        ex.prove(st, bv64(g['_cur']) == i if g.get('_cur') is not None else False, 'a call is queued for the handler it is owed to')
    counted = g['ph'] == 'must1'
    g['ph'] = 'idle'
    g['visA'] = zsimp(bv64(g['visA']) + 1)
    ex.event(st, 'ASYNC', i=i)
    if ex.mode == 0:
        check_invocation(ex, st, op, q, counted)


def check_invocation(ex, st, op, q, counted):
    """runs the queued operation as the queue will, while nothing of the emission is left"""
    ctx, root = st.g['ctx'], ex.root
    s = st.fork()
    s.frames = []
    s.ev = []
    held, s.held = s.held, []
    s.g.update({'mode': 'inv', '_skip': None, 'ph': 'none', '_hobj': q.obj})
    for x in ctx.run(ex, root + ': queued invocation', virt(ex, s, op, OP, 'operator()'), [op], s, allow_exc=True):
        k = [n for n, d in x.ev if n != 'LOOP']
        ex.prove(x, k.count('DEC') == int(counted), 'an invocation takes itself off the pending calls once', str(k))
        ex.prove(x, k.count('ENTER') == 1, 'a handler is called within its cancelable scope', str(k))
        ok = any(n == 'ENTER' and d['ok'] for n, d in x.ev)
        ex.prove(x, k.count('LEAVE') == int(ok) and (not ok or k[-1] == 'LEAVE' or k.index('LEAVE') > (k.index('CALL') if 'CALL' in k else 0)), 'the cancelable scope is left after the call', str(k))
        called = k.count('CALL')
        sk = x.g['_skip']
        if ok:
            ex.prove(x, Or(And(sk is not None, sk if sk is not None else False, called == 0), And(sk is not None, Not(sk) if sk is not None else False, called == 1)),
                     'a queued call is made exactly once unless it was skipped', '%s %s' % (k, sk))
        else:
            ex.prove(x, called == 0, 'a disconnected handler is not called', str(k))
        if called:
            if counted:
                ex.prove(x, 'DEC' in k and k.index('DEC') < k.index('CALL'), 'emissions from within or during a call are not merged into it', str(k))
            ex.prove(x, k.index('ENTER') < k.index('CALL'), 'a handler is called within its cancelable scope', str(k))
    ex.root = root


def can_of(ex, st, p):
    i = idx(p)
    if i is None or p.off != ex.p.off(CT, 'm_active'):
        return None
    return i


def can_enter(ex, st, c):
    g = st.g
    i = can_of(ex, st, c.args[0])
    ex.prove(st, i is not None, 'a handler is called within its own cancelable scope')
    if i is None:
        return Kill('unknown scope')
    if g['mode'] == 'inv':
        ex.prove(st, c.args[0].obj is g['_hobj'], 'a handler is called within its own cancelable scope')
    elif g['mode'] == 'emit':
        ex.prove(st, g['ph'] == 'idle', 'one handler is dealt with at a time')
        ex.prove(st, mode_of(i) == SYNC, 'only synchronous handlers run on the emitting thread')
        ex.prove(st, cS(i) == bv64(g['visS']), 'every synchronous handler is called, each once, in order of connection')
        g['visS'] = zsimp(bv64(g['visS']) + 1)
    st.epoch += 1
    s2 = st.fork()
    ex.event(st, 'ENTER', ok=True)
    ex.event(s2, 'ENTER', ok=False)
    if g['mode'] == 'emit':
        g['ph'] = 'call'
        g['_callee'] = c.args[0].obj
    return Fork([(st, 1), (s2, 0)])


def can_leave(ex, st, c):
    g = st.g
    ex.prove(st, can_of(ex, st, c.args[0]) is not None, 'a cancelable scope is left again')
    if g['mode'] == 'emit':
        ex.prove(st, g['ph'] == 'leave' and c.args[0].obj is g['_callee'], 'a synchronous handler is called before its scope is left', g['ph'])
        g['ph'] = 'idle'
    ex.event(st, 'LEAVE')
    return None


def can_disable(ex, st, c):
    i = can_of(ex, st, c.args[0])
    ex.prove(st, i is not None, 'the scope of a handler is disabled')
    no_locks(ex, st, 'waiting for an active handler')
    ex.event(st, 'DISABLE', o=c.args[0].obj, i=i)
    h = st.g.get('_on_disable')
    if h:
        return h(ex, st, c.args[0])
    return None


def call_fn(ex, st, c):
    """a connected function is called"""
    g = st.g
    no_locks(ex, st, 'a handler is called')
    data = c.args[0]
    a = ex.load_raw(st, c.args[1].obj, c.args[1].off, 4, ity(32)) if isinstance(c.args[1], Ptr) else c.args[1]
    ex.prove(st, bv(a, 32) == g['arg'], 'handlers receive the emitted values')
    src = data.obj if isinstance(data, Ptr) and data.off == ex.p.off(CT, 'm_func') else None
    if g['mode'] == 'inv':
        ex.prove(st, src is g['_hobj'], 'the function connected is the one called')
        ex.event(st, 'CALL')
    else:
        ex.prove(st, g['ph'] == 'call' and src is g['_callee'], 'only an entered handler is called, once', str(g['ph']))
        g['ph'] = 'leave'
    st.epoch += 1
    s2 = st.fork()
    return Fork([(st, None), (s2, Throw({'type': 'user_exception', 'obj': Obj('exc', None, 'heap')}))])


CONTRACTS = [
    (r'^xdispatch::queue::async\(std::shared_ptr<xdispatch::operation> const&\)', q_async),
    (r'^xdispatch::group::async\(std::shared_ptr<xdispatch::operation> const&, xdispatch::queue const&\)', g_async),
    (r'^xdispatch::cancelable::enter\(\)', can_enter),
    (r'^xdispatch::cancelable::leave\(\)', can_leave),
    (r'^xdispatch::cancelable::disable\(\)', can_disable),
    (r'^xdispatch::cancelable::cancelable\(\)', lambda ex, st, c: None),
    (r'^xdispatch::lightweight_barrier::(~)?lightweight_barrier\(', lambda ex, st, c: None),
]


def handler_at(ex, st, i, opaque=True):
    """the handler object for index i of H"""
    key = ('_h', str(i))
    if key in st.g:
        return st.g[key]
    h = Obj('H[%s]' % i, None, 'sym', CT)
    h.meta['h'] = i
    h.meta['ident'] = ('H', i)
    p = Obj('H[%s].pending' % i, None, 'sym', PC)
    p.meta['h'] = i
    hc, pc = Obj('H[%s].ctl' % i, None, 'ctl'), Obj('H[%s].pending.ctl' % i, None, 'ctl')
    st.g[key] = (h, hc, p)
    P = Ptr(h, 0)
    fset(ex, st, P, CT, 'm_mode', mode_of(i))
    put_sp(ex, st, fptr(ex, P, CT, 'm_pending'), Ptr(p, 0), Ptr(pc, 0))
    f = fptr(ex, P, CT, 'm_func')
    d, mg, iv = Obj('fn', None, 'opaque'), Obj('fn.manager', None, 'opaque'), Obj('fn.invoker', None, 'opaque')
    d.meta['of'] = h
    mg.meta['fnptr'] = ex.fn_manager
    iv.meta['fnptr'] = ex.fn_invoker
    cells = st.om(h).cells
    cells[f.off + 16] = (8, Ptr(mg, 0))
    cells[f.off + 24] = (8, Ptr(iv, 0))
    h.meta['fn'] = d
    st.assume(z3.ULE(mode_of(i), 2))
    st.assume(z3.ULT(cA(i), MAXN))
    st.assume(z3.ULT(cS(i), MAXN))
    one, zero = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)
    st.assume(cA(bv64(i) + 1) == cA(i) + z3.If(mode_of(i) != SYNC, one, zero))
    st.assume(cS(bv64(i) + 1) == cS(i) + z3.If(mode_of(i) == SYNC, one, zero))
    share(st, P)
    share(st, Ptr(p, 0))
    return st.g[key]


def fold_elem(ex, st, segs, slot):
    m = st.mem.get(slot.id)
    c = m.cells.get(0) if m else None
    if c is None or not isinstance(c[1], Ptr):
        return None
    i = idx(c[1])
    if i is None or not c[1].obj.cls == CT:
        return None
    S = st.g.get('_S')
    if S is None or not ex.valid(st, mode_of(i) == SYNC):
        return None
    st.assume(sel(cS(i)) == i)
    return ('r', S, cS(i), zsimp(cS(i) + 1))


def logs(ex):
    def mkH(ex, st, i, slot):
        h, hc, p = handler_at(ex, st, bv64(i))
        st.om(slot).cells[0] = (8, Ptr(h, 0))
        st.om(slot).cells[8] = (8, Ptr(hc, 0))

    def mkS(ex, st, k, slot):
        i = zsimp(sel(bv64(k)))
        st.assume(z3.ULT(i, st.g['n']))
        st.assume(mode_of(i) == SYNC)
        st.assume(cS(i) == bv64(k))
        mkH(ex, st, i, slot)
    return std.Log('H', mkH, 16), std.Log('S', mkS, 16)


def setup(ctx, cls=SG, extra=(), grouped=False):
    ex = ctx.executor(list(extra) + CONTRACTS + [(r'^xdispatch::global_queue\(', lambda ex, st, c: global_q(ex, st, c))])
    ex.call_hook = call_fn
    st = ctx.new_state()
    sg = SigSpec(cls, lock='m_CS', protected=['m_handlers'], sync=['m_CS'])
    ex.cls_specs = {cls: sg, CT: HSpec(CT), PC: PSpec(PC, atomics=['m_count', 'm_skipped'])}
    ex.fold_elem = fold_elem
    ex.loop_fns = [cA, cS]
    o = Ptr(Obj('signal', ctx.prog.sizeof_cls(cls), 'sym', cls), 0)
    n = z3.BitVec('n_handlers', 64)
    st.assume(z3.ULT(n, MAXN))
    H, S = logs(ex)
    grp = sym_obj('group', X + 'group') if grouped else None
    st.om(o.obj).cells[ctx.prog.off(cls, 'm_group')] = (8, grp if grp else NULL)
    st.assume(cA(z3.BitVecVal(0, 64)) == 0)
    st.assume(cS(z3.BitVecVal(0, 64)) == 0)
    st.g.update({'_sig': o, 'n': n, '_H': H, '_S': S, 'mode': 'emit', 'ph': 'idle', 'visA': z3.BitVecVal(0, 64), 'visS': z3.BitVecVal(0, 64),
                 '_grp': grp, 'ctx': ctx, 'arg': z3.BitVec('emitted', 32)})
    share(st, o)
    return ex, st, o


def verify_emit(ctx):
    for grouped in (False, True):
        ex, st, o = setup(ctx, grouped=grouped)
        nm = 'emit' + (' (with group)' if grouped else '')
        for e in ctx.run(ex, nm, SG + '::operator()(int)', [o, st.g['arg']], st, allow_exc=True):
            g = e.g
            ex.prove(e, g['ph'] == 'idle', 'an emission leaves no handler half served', g['ph'])
            if e.status == 'exc':
                ex.prove(e, 'user_exception' in str(e.exc['type']), 'only exceptions of synchronous handlers escape', str(e.exc['type']))
                continue
            ex.prove(e, bv64(g['visA']) == cA(g['n']), 'every asynchronous handler is served, each once, in order of connection')
            ex.prove(e, bv64(g['visS']) == cS(g['n']), 'every synchronous handler is called, each once, in order of connection')


# ---------------------------------------------------------------- connecting
def fn_arg(ex, st, name='f'):
    """a callable passed in by the user"""
    o = Obj(name, 32, 'stack')
    mg, iv = Obj(name + '.manager', None, 'opaque'), Obj(name + '.invoker', None, 'opaque')
    mg.meta['fnptr'] = ex.fn_manager
    iv.meta['fnptr'] = ex.fn_invoker
    c = st.om(o).cells
    c[0], c[8] = (8, NULL), (8, NULL)
    c[16], c[24] = (8, Ptr(mg, 0)), (8, Ptr(iv, 0))
    return Ptr(o, 0), iv, mg


def check_connection(ex, e, ret, o, parent):
    """a connection object designates handler o of signal parent"""
    x = ex.load_raw(e, ret.obj, ret.off + ex.p.off(CN, 'm_id'), 8, 'ptr')
    y = fget(ex, e, ret, CN, 'm_parent', 'ptr')
    ex.prove(e, isinstance(x, Ptr) and x.obj is o, 'the connection returned designates the new handler')
    ex.prove(e, same(y, parent), 'the connection returned designates the signal')


def appended(ex, st, s):
    g = st.g
    n = [x for x in s.segs if x[0] == 's']
    ok = bool(s.segs) and s.segs[0][0] == 'r' and s.segs[0][1] is g['_H'] and len(s.segs) == 2 and len(n) == 1
    ex.prove(st, And(ok, bv64(s.segs[0][2]) == 0, bv64(s.segs[0][3]) == g['n']) if ok else False,
             'connecting adds one handler behind all others', repr(s))
    g['_new'] = n[0][1] if ok else None
    ex.event(st, 'ADD')


def new_handler(ex, e):
    s = e.g.get('_new')
    if s is None:
        ex.prove(e, False, 'connecting adds one handler behind all others')
        return None
    h = sp_get(ex, e, Ptr(s, 0))
    ctl = sp_get(ex, e, Ptr(s, 0), 8)
    ok = h.obj is not None and h.obj.kind == 'heap' and std.ctl_concrete(ex, e, ctl)
    ex.prove(e, ok, 'every connection has a handler of its own')
    if not ok:
        return None
    ex.prove(e, std.cnt(ex, e, ctl, 8) == 1, 'the signal keeps its handlers alive, connections do not')
    return h


def check_handler(ex, e, h, q, m):
    ex.prove(e, same(fget(ex, e, h, CT, 'm_queue.m_impl', 'ptr'), q), 'the handler is connected on the given queue')
    ex.prove(e, bv(fget(ex, e, h, CT, 'm_mode'), 32) == bv(m, 32), 'the handler is connected with the given mode')
    ex.prove(e, fbool(ex, e, h, CT, 'm_connected'), 'a new connection is connected')
    p = fget(ex, e, h, CT, 'm_pending', 'ptr')
    ok = p.obj is not None and p.obj.kind == 'heap'
    ex.prove(e, ok, 'a new connection has no calls pending')
    if ok:
        fresh_pending(ex, e, p, 'a new connection has no calls pending')


def fresh_pending(ex, e, p, what):
    ex.prove(e, bv(fget(ex, e, p, PC, 'm_count', ity(32)), 32) == 0, what)
    ex.prove(e, Not(fbool(ex, e, p, PC, 'm_skipped')), what)


def verify_connect(ctx):
    from specs.api import value
    # with a function
    ex, st, o = setup(ctx)
    st.g.update({'mode': 'connect', '_on_release': appended})
    f, iv, mg = fn_arg(ex, st)
    q, qi = value(ctx, ex, st, X + 'queue', IQ)
    m = z3.BitVec('mode', 32)
    ret = Ptr(Obj('ret', ctx.prog.sizeof_cls(CN), 'stack', CN), 0)
    fn = ctx.prog.func(SG + '::connect(std::function<void (int)> const&, xdispatch::queue const&, xdispatch::notification_mode)')
    for e in ctx.run(ex, 'connect', fn, [ret, o, f, q, m], st):
        h = new_handler(ex, e)
        if h is None:
            continue
        check_handler(ex, e, h, qi, m)
        fo = ex.p.off(CT, 'm_func')
        i2 = ex.load_raw(e, h.obj, h.off + fo + 24, 8, 'ptr')
        m2 = ex.load_raw(e, h.obj, h.off + fo + 16, 8, 'ptr')
        ex.prove(e, isinstance(i2, Ptr) and i2.obj is iv and isinstance(m2, Ptr) and m2.obj is mg, 'the given function is connected')
        check_connection(ex, e, ret, h.obj, o)
        ex.prove(e, [n for n, d in e.ev if n != 'LOOP'] == ['ADD'], 'connecting has no other effect', str(e.ev))
    # a member function
    lst = sym_obj('listener', 'vf_listener')

    def connected(ex, st, c):
        ex.event(st, 'CONNECT', a=c.args)
        st.g['_fobj'] = snapshot(ex, st, c.args[2])
        return None

    def slot(ex, st, c):
        ex.event(st, 'SLOT', a=c.args)
        return None

    def resig(ex, st, c):
        ex.event(st, 'EMIT', a=c.args)
        return None
    CON = (r'^xdispatch::signal<void \(int\)>::connect\(std::function', connected)
    ex, st, o = setup(ctx, extra=[CON, (r'^vf_listener::slot', slot)])
    st.g['mode'] = 'connect'
    q, qi = value(ctx, ex, st, X + 'queue', IQ)
    ret = Ptr(Obj('ret', ctx.prog.sizeof_cls(CN), 'stack', CN), 0)
    for e in ctx.run(ex, 'connect member', ctx.prog.func('vf_connect_member'), [ret, o, lst, q, m], st):
        k = [d for n, d in e.ev if n == 'CONNECT']
        ex.prove(e, len(k) == 1, 'connecting a member function makes one connection')
        if len(k) != 1:
            continue
        a = k[0]['a']
        ex.prove(e, same(a[1], o) and same(a[0], ret), 'connecting a member function makes one connection')
        ex.prove(e, same(a[3], q), 'the handler is connected on the given queue')
        ex.prove(e, bv(a[4], 32) == m, 'the handler is connected with the given mode')
        call_functor(ctx, ex, e, 'member call', [('SLOT', [lst, 'arg'])])
    # a chained signal
    ex, st, o = setup(ctx, extra=[CON, (r'^xdispatch::signal<void \(int\)>::operator\(\)\(int\)', resig),
                                  (r'^xdispatch::global_queue\(', global_q)])
    st.g['mode'] = 'connect'
    o2 = sym_obj('chained', SG)
    ret = Ptr(Obj('ret', ctx.prog.sizeof_cls(CN), 'stack', CN), 0)
    fn = ctx.prog.func(SG + '::connect(xdispatch::signal<void (int)>&)')
    for e in ctx.run(ex, 'connect signal', fn, [ret, o, o2], st):
        k = [d for n, d in e.ev if n == 'CONNECT']
        ex.prove(e, len(k) == 1, 'chaining signals makes one connection')
        if len(k) != 1:
            continue
        a = k[0]['a']
        ex.prove(e, same(a[1], o) and same(a[0], ret), 'chaining signals makes one connection')
        ex.prove(e, bv(a[4], 32) == SYNC, 'a chained signal is emitted by the emitting thread')
        call_functor(ctx, ex, e, 'chained emission', [('EMIT', [o2, 'arg'])])


def global_q(ex, st, c):
    r = c.args[0]
    o = Ptr(r.obj, r.off)
    put_sp(ex, st, fptr(ex, o, X + 'queue', 'm_impl'), sym_obj('global', IQ), Ptr(Obj('global.ctl', None, 'ctl'), 0))
    std.set_str(ex, st, fptr(ex, o, X + 'queue', 'm_label'), ('sym', 'label'))
    return None


def snapshot(ex, st, f):
    """the callable stored in a std::function: (invoker, functor cells)"""
    o = Obj('functor', 32, 'stack')
    for k in range(0, 32, 8):
        st.om(o).cells[k] = (8, ex.load_raw(st, f.obj, f.off + k, 8, 'ptr'))
    d = st.om(o).cells[0][1]
    return o


def call_functor(ctx, ex, e, nm, want):
    """calls the std::function seen by the connection, as signals do"""
    root = ex.root
    s = e.fork()
    s.frames = []
    s.ev = []
    f = s.g['_fobj']
    iv = s.om(f).cells[24][1]
    a = Obj('argument', 4, 'stack')
    s.om(a).cells[0] = (4, s.g['arg'])
    s.dead = set()
    s.own = set(s.own)
    for x in ctx.run(ex, nm, ex.p.find(iv.name, iv.mod), [Ptr(f, 0), Ptr(a, 0)], s):
        k = [(n, d['a']) for n, d in x.ev if n != 'LOOP']
        ok = len(k) == len(want) and all(p[0] == w[0] and len(p[1]) == len(w[1]) for p, w in zip(k, want))
        ex.prove(x, ok, 'calling the handler calls what was connected, once', str([n for n, d in k]))
        if ok:
            for p, w in zip(k, want):
                for u, v in zip(p[1], w[1]):
                    ex.prove(x, same(u, s.g['arg'] if isinstance(v, str) else v), 'the connected receiver gets the emitted values')
    ex.root = root


# ---------------------------------------------------------------- skip_all
def skip_fold(ex, st):
    """between two handlers: the one dealt with last has all calls queued so far skipped and starts anew"""
    g = st.g
    if g.get('mode') != 'skip' or g['ph'] != 'both':
        return
    if g.get('_cur') is None:
        ex.prove(st, False, 'skip_all() deals with one handler at a time')
        g['ph'] = 'idle'
        return
    i, h, p = g['_cur']
    q = fget(ex, st, Ptr(h, 0), CT, 'm_pending', 'ptr')
    ok = isinstance(q, Ptr) and q.obj is not None and q.obj.kind == 'heap'
    ex.prove(st, ok, 'skip_all(): calls queued later are pending on their own')
    if ok:
        fresh_pending(ex, st, q, 'skip_all(): calls queued later are pending on their own')
    g['ph'] = 'idle'
    g['visA'] = zsimp(bv64(g['visA']) + 1)


def skip_step(ex, st, i, which):
    g = st.g
    skip_fold(ex, st)
    if g['ph'] == 'idle':
        ex.prove(st, bv64(i) == bv64(g['visA']), 'skip_all() deals with every handler')
        h, hc, p = handler_at(ex, st, i)
        g['_cur'] = (i, h, p)
        g['ph'] = which
        return
    ex.prove(st, g.get('_cur') is not None and g['_cur'][0].eq(bv64(i)), 'skip_all() deals with one handler at a time')
    if g['ph'] != which:
        g['ph'] = 'both'


def on_skip(ex, st, base, new):
    g = st.g
    i = base.obj.meta.get('h')
    ex.prove(st, i is not None and as_bool(zsimp(bv(new, 8) != 0)), 'skip_all() skips calls which were queued before')
    if i is not None:
        skip_step(ex, st, i, 'old skipped')


class HSkip(HSpec):
    def on_access(self, ex, st, base, off, size, write, atomic):
        HSpec.on_access(self, ex, st, base, off, size, write, atomic)
        f = self.field(ex, off)
        if write and f is not None and f[2] in ('m_pending', 'm_pending._M_ptr') and off == ex.p.off(CT, 'm_pending') and st.g.get('mode') == 'skip':
            skip_step(ex, st, base.obj.meta['h'], 'replaced')


def skip_release(ex, st, s):
    g = st.g
    skip_fold(ex, st)
    ok = len(s.segs) <= 1
    s = std.fold_seq(ex, st, s)
    ok = len(s.segs) == 1 and s.segs[0][0] == 'r' and s.segs[0][1] is g['_H']
    ex.prove(st, And(ok, bv64(s.segs[0][2]) == 0, bv64(s.segs[0][3]) == g['n']) if ok else (g['n'] == 0 if not s.segs else False),
             'skip_all() leaves the connections as they are', repr(s))
    ex.event(st, 'DONE')


def verify_skip(ctx):
    ex, st, o = setup(ctx, cls=SP)
    ex.cls_specs[CT] = HSkip(CT)
    ex.folders.append(skip_fold)
    st.g.update({'mode': 'skip', '_on_skip': on_skip, '_on_release': skip_release})
    for e in ctx.run(ex, 'skip_all', SP + '::skip_all', [o], st):
        g = e.g
        ex.prove(e, g['ph'] == 'idle', 'skip_all(): calls queued later are pending on their own', g['ph'])
        ex.prove(e, bv64(g['visA']) == g['n'], 'skip_all() deals with every handler')
        ex.prove(e, [n for n, d in e.ev if n != 'LOOP'] == ['DONE'], 'skip_all() has no other effect', str(e.ev))


# ---------------------------------------------------------------- disconnecting
def use_count(ex, st, p):
    st.epoch += 1
    v = fresh(64, 'use_count')
    st.assume(z3.ULT(v, 1 << 30))
    if st.g.get(('_ref', p.obj.id), 0) > 0:
        st.assume(z3.UGE(v, 1))
    return v


def conn_obj(ctx, ex, st, hobj, ctl, parent, cls=CN, name='conn'):
    o = Ptr(Obj(name, ctx.prog.sizeof_cls(cls), 'sym', cls), 0)
    f = fptr(ex, o, CN, 'm_id')
    st.om(o.obj).cells[f.off] = (8, hobj)
    st.om(o.obj).cells[f.off + 8] = (8, ctl)
    fset(ex, st, o, CN, 'm_parent', parent)
    return o


def is_empty(ex, e, o):
    f = fptr(ex, o, CN, 'm_id')
    a = ex.load_raw(e, o.obj, f.off, 8, 'ptr')
    b = ex.load_raw(e, o.obj, f.off + 8, 8, 'ptr')
    p = fget(ex, e, o, CN, 'm_parent', 'ptr')
    return isinstance(b, Ptr) and b.obj is None and (not isinstance(a, Ptr) or a.obj is None), isinstance(p, Ptr) and p.obj is None


class HDis(HSpec):
    """m_connected: true until disconnected, never true again"""

    def atomic_pre(self, ex, st, base, off, ty, op):
        if self.field(ex, off)[2].split('.')[0] != 'm_connected':
            return None
        v = z3.If(fresh_bool('connected'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if st.g.get(('_off', base.obj.id)):
            v = 0
        st.om(base.obj).cells[base.off + off] = (1, v)
        st.wr.add(('cell', base.obj, base.off + off))
        return None

    def atomic_post(self, ex, st, base, off, op, old, new):
        if self.field(ex, off)[2].split('.')[0] != 'm_connected':
            return None
        if op == 'load':
            st.g['_conn_seen'] = as_bool(zsimp(bv(old, 8) != 0))
            return None
        ex.prove(st, bv(new, 8) == 0, 'a disconnected handler stays disconnected')
        st.g[('_off', base.obj.id)] = True
        ex.event(st, 'OFF', o=base.obj)
        h = st.g.get('_on_off')
        if h:
            h(ex, st, base)
        return None


def remove_x(ex, st, c):
    """std::remove(begin, end, handler X): X is stored at most once"""
    g = st.g
    a = c.args
    its = [std.itval(ex, st, v) for v in a[:2]]
    P = its[0].obj.meta['seq']
    s = seq_field(ex, st, g['_sig'], SP, 'm_handlers')
    n = g['n']
    ok = same(P, fptr(ex, g['_sig'], SP, 'm_handlers')) and len(s.segs) == 1
    ex.prove(st, And(ok, bv64(its[0].off) == 0, bv64(its[1].off) == n) if ok else False, 'all handlers of the signal are considered')
    v = sp_get(ex, st, a[2])
    ex.prove(st, v.obj is g['_x'], 'the handler of the connection is removed')
    st.epoch += 1
    s2 = st.fork()
    x = g['xi']
    st.assume(z3.ULT(x, n))
    tail = Obj('removed', 16, 'heap')
    st.om(tail).cells[0] = (8, NULL)
    st.om(tail).cells[8] = (8, NULL)
    set_seq(ex, st, g['_sig'], SP, 'm_handlers', std.Seq([('r', g['_H'], z3.BitVecVal(0, 64), x), ('r', g['_H'], zsimp(x + 1), n), ('s', tail)]))
    st.g['contained'] = 'yes'
    s2.g['contained'] = 'no'
    if g.get('_foreign'):
        return Fork([(s2, Ptr(its[0].obj, n))])
    return Fork([(st, Ptr(its[0].obj, zsimp(n - 1))), (s2, Ptr(its[0].obj, n))])


def erase_x(ex, st, P, s, i0, i1, T):
    n = st.g['n']
    ex.prove(st, And(bv64(i0) == n - 1, bv64(i1) == n), 'only the handler of the connection is removed')
    set_seq(ex, st, st.g['_sig'], SP, 'm_handlers', std.Seq(s.segs[:-1], s.et))
    return Ptr(std.iter_obj(ex, st, P), i0)


def find_x(ex, st, c):
    g = st.g
    a = c.args
    its = [std.itval(ex, st, v) for v in a[:2]]
    P = its[0].obj.meta['seq']
    n = g['n']
    ok = same(P, fptr(ex, g['_sig'], SP, 'm_handlers'))
    ex.prove(st, And(ok, bv64(its[0].off) == 0, bv64(its[1].off) == n) if ok else False, 'all handlers of the signal are considered')
    v = sp_get(ex, st, a[2])
    ex.prove(st, v.obj is g['_x'], 'the handler of the connection is removed')
    st.epoch += 1
    s2 = st.fork()
    st.assume(z3.ULT(g['xi'], n))
    st.g['contained'] = 'yes'
    s2.g['contained'] = 'no'
    if g.get('_foreign'):
        return Fork([(s2, Ptr(its[0].obj, n))])
    return Fork([(st, Ptr(its[0].obj, g['xi'])), (s2, Ptr(its[0].obj, n))])


def removed_release(ex, st, s):
    g = st.g
    n, x = g['n'], g['xi']
    s = std.fold_seq(ex, st, s)
    if g['contained'] == 'yes':
        segs = [y for y in s.segs if not (y[0] == 'r' and ex.valid(st, bv64(y[2]) == bv64(y[3])))]
        k = []
        for y in segs:
            ok = y[0] == 'r' and y[1] is g['_H']
            k.append((y[2], y[3]) if ok else None)
        lo, hi = (z3.BitVecVal(0, 64), x), (x + 1, n)
        want = [w for w in (lo, hi) if not ex.valid(st, bv64(w[0]) == bv64(w[1]))]
        ok = None not in k and len(k) == len(want)
        if not ok and None not in k:
            # the parts may be empty depending on x: compare by membership of an arbitrary index
            i = fresh(64, 'i')
            mem = Or(*[And(z3.UGE(i, bv64(a)), z3.ULT(i, bv64(b))) for a, b in k]) if k else False
            ex.prove(st, iff(mem, And(z3.ULT(i, n), i != x)), 'disconnecting removes this handler, and no other', repr(s))
        else:
            ex.prove(st, And(*[And(bv64(a) == bv64(c), bv64(b) == bv64(d)) for (a, b), (c, d) in zip(k, want)]) if ok else False,
                     'disconnecting removes this handler, and no other', repr(s))
    else:
        ok = len(s.segs) == 1 and s.segs[0][0] == 'r' and s.segs[0][1] is g['_H']
        ex.prove(st, And(g['contained'] == 'no', ok, bv64(s.segs[0][2]) == 0, bv64(s.segs[0][3]) == n) if ok else False,
                 'disconnecting removes this handler, and no other', repr(s))
    ex.event(st, 'REMOVED')


def iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def dis_setup(ctx, cls=SP, extra=()):
    ex, st, o = setup(ctx, cls=cls, extra=extra)
    ex.cls_specs[CT] = HDis(CT)
    ex.remove_hook, ex.erase_hook, ex.find_hook = remove_x, erase_x, find_x
    x = z3.BitVec('x', 64)
    h, hc, p = handler_at(ex, st, x)
    hc.meta['use_count'] = use_count
    st.g.update({'mode': 'disconnect', '_x': h, 'xi': x, 'contained': '?', '_on_release': removed_release})
    return ex, st, o, Ptr(h, 0), Ptr(hc, 0)


def alive(e, ctl):
    return ('_locked', ctl.obj.id) in e.g


def lock_hook(ex, st, p, no):
    """weak_ptr::lock of a connection: the handler may be gone"""
    st.epoch += 1
    s2 = st.fork()
    std.bump(st, p, 1)
    st.g[('_locked', p.obj.id)] = True
    s2.g[('_gone', p.obj.id)] = True
    if no:
        return Fork([(st, 1), (s2, 0)])
    return Fork([(st, None), (s2, Throw({'type': '_ZTISt12bad_weak_ptr', 'obj': Obj('exc', None, 'heap')}))])


def verify_disconnect(ctx):
    """signal::disconnect(connection)"""
    ex, st, o, h, hc = dis_setup(ctx)
    hc.obj.meta['weak_lock'] = lock_hook
    c = conn_obj(ctx, ex, st, h, hc, o)
    for e in ctx.run(ex, 'signal disconnect', SP + '::disconnect', [o, c], st):
        k = [n for n, d in e.ev if n != 'LOOP']
        ret = as_bool(e.ret) if not isinstance(e.ret, int) else bool(e.ret)
        ex.prove(e, is_empty(ex, e, c)[0], 'a disconnected connection does not designate a handler any more')
        if alive(e, hc):
            ex.prove(e, sorted(k) == ['DISABLE', 'OFF', 'REMOVED'] and k[-1] == 'DISABLE',
                     'disconnecting stops deliveries, then waits for active calls', str(k))
            ex.prove(e, iff(ret, e.g['contained'] == 'yes'), 'disconnect() tells whether there was something to disconnect')
            ex.prove(e, all(d['o'] is h.obj for n, d in e.ev if n in ('OFF', 'DISABLE')), 'the handler of the connection is disconnected')
        else:
            ex.prove(e, k == [], 'disconnecting a connection whose handler is gone has no effect', str(k))
            ex.prove(e, Not(ret), 'disconnect() tells whether there was something to disconnect')
    # a connection with another signal
    ex, st, o, h, hc = dis_setup(ctx)
    hc.obj.meta['weak_lock'] = lock_hook
    st.g['_foreign'] = True
    c = conn_obj(ctx, ex, st, h, hc, Ptr(Obj('other signal', None, 'heap'), 0))
    for e in ctx.run(ex, 'signal disconnect other', SP + '::disconnect', [o, c], st):
        k = [n for n, d in e.ev if n in ('OFF', 'DISABLE')]
        ex.prove(e, not k, 'a signal does not disconnect the handlers of another one', str(k))
        ex.prove(e, Not(as_bool(e.ret) if not isinstance(e.ret, int) else bool(e.ret)), 'disconnect() tells whether there was something to disconnect')
    # an empty connection
    ex, st, o, h, hc = dis_setup(ctx)
    c = conn_obj(ctx, ex, st, NULL, NULL, NULL)
    for e in ctx.run(ex, 'signal disconnect nothing', SP + '::disconnect', [o, c], st):
        ex.prove(e, not e.ev, 'disconnecting an empty connection has no effect')
        ex.prove(e, Not(as_bool(e.ret) if not isinstance(e.ret, int) else bool(e.ret)), 'disconnect() tells whether there was something to disconnect')


def sig_disconnect(ex, st, c):
    """contract of signal_p::disconnect (proved above)"""
    g = st.g
    no_locks(ex, st, 'disconnecting')
    ex.event(st, 'SIGDISC', sig=c.args[0], conn=c.args[1], h=ex.load_raw(st, c.args[1].obj, c.args[1].off + ex.p.off(CN, 'm_id'), 8, 'ptr'))
    f = fptr(ex, c.args[1], CN, 'm_id')
    for k in (0, 8):
        ex.store_raw(st, f.obj, f.off + k, 8, NULL)
    st.epoch += 1
    return z3.If(z3.Bool('sig_result'), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


SD = (r'^xdispatch::signal_p::disconnect\(', sig_disconnect)


def check_gone(ex, e, h, hc, o, what='connection'):
    """after this, no call of the handler happens any more"""
    k = [(n, d) for n, d in e.ev if n in ('SIGDISC', 'DISABLE', 'OFF')]
    if not alive(e, hc):
        ex.prove(e, not k, what + ': nothing is left to be done once the handler is gone', str(k))
        return None
    ok = len(k) == 1 and (k[0][0] == 'DISABLE' and k[0][1]['o'] is h.obj or k[0][0] == 'SIGDISC' and k[0][1]['h'].obj is h.obj and same(k[0][1]['sig'], o))
    ex.prove(e, ok, what + ': the handler is disconnected, or waited for if it was disconnected before', str([n for n, d in k]))
    if ok:
        seen = e.g.get('_conn_seen')
        if k[0][0] == 'SIGDISC':
            ex.prove(e, seen is not None and seen, what + ': the signal is not used any more once it is destroyed')
        return k[0][0]
    return None


def verify_connection(ctx):
    ex, st, o, h, hc = dis_setup(ctx, extra=[SD])
    hc.obj.meta['weak_lock'] = lock_hook
    c = conn_obj(ctx, ex, st, h, hc, o)
    for e in ctx.run(ex, 'connection::disconnect', CN + '::disconnect', [c], st):
        r = check_gone(ex, e, h, hc, o)
        ex.prove(e, all(is_empty(ex, e, c)), 'a disconnected connection is empty')
        ret = as_bool(e.ret) if not isinstance(e.ret, int) else bool(e.ret)
        ex.prove(e, iff(ret, And(r == 'SIGDISC', z3.Bool('sig_result'))), 'disconnect() tells whether there was something to disconnect')
    # queries
    ex, st, o, h, hc = dis_setup(ctx, extra=[SD])
    hc.obj.meta['weak_lock'] = lock_hook
    c = conn_obj(ctx, ex, st, h, hc, o)
    for e in ctx.run(ex, 'connection::connected', CN + '::connected', [c], st):
        seen = e.g.get('_conn_seen')
        ret = as_bool(e.ret) if not isinstance(e.ret, int) else bool(e.ret)
        ex.prove(e, iff(ret, And(alive(e, hc), seen if seen is not None else False)), 'connected() tells whether the handler is still connected')
        ex.prove(e, not e.ev, 'queries change nothing')
    other = sym_obj('other_signal', SP)
    for nm, par, sg, exp in (('same', o, o, True), ('other', other, o, False), ('empty', NULL, o, False)):
        s2 = st.fork()
        c2 = conn_obj(ctx, ex, s2, h, hc, par)
        for e in ctx.run(ex, 'is_connected_to ' + nm, CN + '::is_connected_to', [c2, sg], s2):
            ret = as_bool(e.ret) if not isinstance(e.ret, int) else bool(e.ret)
            ex.prove(e, ret if exp else Not(ret), 'is_connected_to() recognises the signal of the connection')
    h2, hc2, p2 = handler_at(ex, st, z3.BitVec('y', 64))
    st.assume(z3.BitVec('y', 64) != z3.BitVec('x', 64))
    hc2.meta['use_count'] = use_count
    hc2.meta['weak_lock'] = hc.obj.meta['weak_lock'] = always
    for nm, b, exp in (('same', (h, hc, o), True), ('other handler', (Ptr(h2, 0), Ptr(hc2, 0), o), False), ('other signal', (Ptr(h2, 0), Ptr(hc2, 0), other), False), ('nothing', (NULL, NULL, NULL), False)):
        for op in ('==', '!='):
            s2 = st.fork()
            s2.frames = []
            c1 = conn_obj(ctx, ex, s2, h, hc, o)
            c2 = conn_obj(ctx, ex, s2, *b)
            for e in ctx.run(ex, 'operator%s %s' % (op, nm), CN + '::operator' + op, [c1, c2], s2):
                ret = as_bool(e.ret) if not isinstance(e.ret, int) else bool(e.ret)
                ex.prove(e, ret if exp == (op == '==') else Not(ret), 'connections compare equal iff they designate the same handler and signal')


def always(ex, st, p, no):
    std.bump(st, p, 1)
    return 1 if no else None


def verify_destroy(ctx):
    """~signal: every handler is disconnected, active calls are waited for"""
    ex, st, o, h, hc = dis_setup(ctx, extra=[(r'^xdispatch::group::~group\(', lambda ex, st, c: None)])
    def emptied(ex, st, s):
        g = st.g
        ex.prove(st, not s.segs or ex.valid(st, bv64(s.size()) == 0), 'a destroyed signal keeps no handlers', repr(s))

    def off(ex, st, base):
        g = st.g
        i = base.obj.meta['h']
        ex.prove(st, bv64(i) == bv64(g['visA']), 'every handler is disconnected when its signal is destroyed')
        g['visA'] = zsimp(bv64(g['visA']) + 1)

    def dis(ex, st, p):
        g = st.g
        i = p.obj.meta['h']
        ex.prove(st, bv64(i) == bv64(g['visS']), 'active calls of every handler are waited for when its signal is destroyed')
        ex.prove(st, z3.ULT(bv64(g['visS']), bv64(g['visA'])), 'a handler is marked as disconnected before it is waited for')
        g['visS'] = zsimp(bv64(g['visS']) + 1)
        return None
    st.g.update({'mode': 'destroy', '_on_release': emptied, '_on_off': off, '_on_disable': dis})
    for e in ctx.run(ex, '~signal', SP + '::~signal_p', [o], st):
        g = e.g
        ex.prove(e, And(bv64(g['visA']) == g['n'], bv64(g['visS']) == g['n']), 'every handler is disconnected and waited for when its signal is destroyed')


# ---------------------------------------------------------------- scoped connections
def c_disconnect(ex, st, c):
    """contract of connection::disconnect (proved above): the handler it designates is disconnected, the connection is empty"""
    no_locks(ex, st, 'disconnecting')
    p = c.args[0]
    f = fptr(ex, p, CN, 'm_id')
    ex.event(st, 'CDISC', c=p, h=ex.load_raw(st, f.obj, f.off, 8, 'ptr'))
    for k in (0, 8):
        ex.store_raw(st, f.obj, f.off + k, 8, NULL)
    fset(ex, st, p, CN, 'm_parent', NULL)
    st.epoch += 1
    return z3.BitVec('disconnected', 1)


CD = (r'^xdispatch::connection::disconnect\(', c_disconnect)


def holds(ex, e, p, h, o):
    f = fptr(ex, p, CN, 'm_id')
    a = ex.load_raw(e, f.obj, f.off, 8, 'ptr')
    b = fget(ex, e, p, CN, 'm_parent', 'ptr')
    return isinstance(a, Ptr) and a.obj is h.obj and same(b, o)


def ctor_of(ctx, cls, sig):
    return ctx.prog.func(cls + '::' + sig)


def verify_scoped(ctx):
    def two(extra=(CD,)):
        ex, st, o, h, hc = dis_setup(ctx, extra=list(extra))
        h2, hc2, p2 = handler_at(ex, st, z3.BitVec('y', 64))
        return ex, st, o, (h, hc), (Ptr(h2, 0), Ptr(hc2, 0))

    def scoped(ex, st, hh, o, name):
        return conn_obj(ctx, ex, st, hh[0], hh[1], o, cls=SC, name=name)

    def cd(e):
        return [d['h'] for n, d in e.ev if n == 'CDISC']
    # destructor
    ex, st, o, a, b = two()
    s = scoped(ex, st, a, o, 'scoped')
    for e in ctx.run(ex, '~scoped_connection', SC + '::~scoped_connection', [s], st):
        k = cd(e)
        ex.prove(e, len(k) == 1 and k[0].obj is a[0].obj, 'leaving the scope disconnects the managed connection')
    # construct
    ex, st, o, a, b = two()
    s = Ptr(Obj('scoped', ctx.prog.sizeof_cls(SC), 'sym', SC), 0)
    c = conn_obj(ctx, ex, st, a[0], a[1], o)
    for e in ctx.run(ex, 'scoped_connection(connection)', ctor_of(ctx, SC, 'scoped_connection(xdispatch::connection const&)'), [s, c], st):
        ex.prove(e, holds(ex, e, s, a[0], o) and not cd(e), 'a scope manages the given connection')
    ex, st, o, a, b = two()
    s = Ptr(Obj('scoped', ctx.prog.sizeof_cls(SC), 'sym', SC), 0)
    for e in ctx.run(ex, 'scoped_connection()', ctor_of(ctx, SC, 'scoped_connection()'), [s], st):
        ex.prove(e, all(is_empty(ex, e, s)) and not cd(e), 'a new scope manages nothing')
    # move
    ex, st, o, a, b = two()
    s = Ptr(Obj('scoped', ctx.prog.sizeof_cls(SC), 'sym', SC), 0)
    t = scoped(ex, st, a, o, 'source')
    for e in ctx.run(ex, 'scoped_connection(move)', ctor_of(ctx, SC, 'scoped_connection(xdispatch::scoped_connection&&)'), [s, t], st):
        ex.prove(e, holds(ex, e, s, a[0], o), 'moving transfers the managed connection')
        ex.prove(e, all(is_empty(ex, e, t)), 'a moved scope manages nothing any more')
        ex.prove(e, not cd(e), 'moving does not disconnect')
    # assignment
    for nm, sig, scls in (('assign', 'operator=(xdispatch::connection const&)', CN), ('move assign', 'operator=(xdispatch::scoped_connection&&)', SC)):
        ex, st, o, a, b = two()
        s = scoped(ex, st, a, o, 'scoped')
        t = conn_obj(ctx, ex, st, b[0], b[1], o, cls=scls, name='source')
        for e in ctx.run(ex, 'scoped ' + nm, ctor_of(ctx, SC, sig), [s, t], st):
            k = cd(e)
            ex.prove(e, len(k) == 1 and k[0].obj is a[0].obj, 'assigning disconnects the connection managed before')
            ex.prove(e, holds(ex, e, s, b[0], o), 'a scope manages the connection assigned')
            if scls == SC:
                ex.prove(e, all(is_empty(ex, e, t)), 'a moved scope manages nothing any more')
            else:
                ex.prove(e, holds(ex, e, t, b[0], o), 'the assigned connection is not altered')
    # take
    ex, st, o, a, b = two()
    s = scoped(ex, st, a, o, 'scoped')
    r = Ptr(Obj('ret', ctx.prog.sizeof_cls(CN), 'stack', CN), 0)
    for e in ctx.run(ex, 'take', SC + '::take', [r, s], st):
        ex.prove(e, holds(ex, e, r, a[0], o), 'take() hands out the managed connection')
        ex.prove(e, all(is_empty(ex, e, s)), 'take() releases the managed connection')
        ex.prove(e, not cd(e), 'take() does not disconnect')


# ---------------------------------------------------------------- connection manager
match = z3.Function('match', B64, z3.BoolSort())
cM, cR = z3.Function('nMatch', B64, B64), z3.Function('nRest', B64, B64)
selM, selR = z3.Function('selMatch', B64, B64), z3.Function('selRest', B64, B64)


def managed(ex, st, i, slot):
    """connection i of the manager"""
    i = bv64(i)
    key = ('_m', str(i))
    if key not in st.g:
        h = Obj('M[%s]' % i, None, 'sym', CH)
        h.meta['m'] = i
        st.g[key] = (h, Obj('M[%s].ctl' % i, None, 'ctl'), sym_obj('M[%s].signal' % i, SP))
        one, zero = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)
        st.assume(cM(i + 1) == cM(i) + z3.If(match(i), one, zero))
        st.assume(cR(i + 1) == cR(i) + z3.If(match(i), zero, one))
        st.assume(And(z3.ULT(cM(i), MAXN), z3.ULT(cR(i), MAXN)))
    h, c, s = st.g[key]
    cells = st.om(slot).cells
    cells[0], cells[8], cells[16] = (8, Ptr(h, 0)), (8, Ptr(c, 0)), (8, s)


def m_index(c):
    v = c[1] if c else None
    return v.obj.meta.get('m') if isinstance(v, Ptr) and v.obj is not None else None


class ManSpec(ClassSpec):
    def acquire(self, ex, st, base, lockoff):
        if lockoff != ex.p.off(self.cls, self.lock):
            return None
        self.forget(ex, st, base, self.protected)
        set_seq(ex, st, base, CM, 'm_connections', std.Seq([('r', st.g['_M'], z3.BitVecVal(0, 64), st.g['n'])]))
        return None

    def before_release(self, ex, st, base):
        st.g['_on_release'](ex, st, std.fold_seq(ex, st, seq_field(ex, st, base, CM, 'm_connections')))

    def release(self, ex, st, base, lockoff):
        s = seq_field(ex, st, base, CM, 'm_connections')
        r = ClassSpec.release(self, ex, st, base, lockoff)
        if lockoff == ex.p.off(self.cls, self.lock) and st.g['mode'] == 'destroy':
            set_seq(ex, st, base, self.cls, 'm_connections', s)      # nobody uses a manager being destroyed
            st.shared[(base.obj.id, base.off)] = False
        return r

    def virtual_release(self, ex, st, base):
        return False


def m_fold(ex, st, segs, slot):
    m = st.mem.get(slot.id)
    c = m.cells if m else {}
    g = st.g
    if 16 not in c:
        return None
    id_ = slot.meta.get('ident')
    if id_ and id_[0] is g['_M'] and all(isinstance(c[k][1], Ptr) and c[k][1].obj is None for k in (8, 16)):
        return ('r', g['_Z'], id_[1], zsimp(bv64(id_[1]) + 1))
    i = m_index(c.get(0))
    if i is None or id_:
        return None
    key = st.g.get(('_m', str(i)))
    if key is None or not (isinstance(c[8][1], Ptr) and c[8][1].obj is key[1] and same(c[16][1], key[2]) is not False):
        return None
    if ex.valid(st, match(i)):
        st.assume(selM(cM(i)) == i)
        return ('r', g['_MS'], cM(i), zsimp(cM(i) + 1))
    if ex.valid(st, Not(match(i))):
        st.assume(selR(cR(i)) == i)
        return ('r', g['_MR'], cR(i), zsimp(cR(i) + 1))
    return None


def connected_to(ex, st, c):
    """contract of is_connected_to (proved above) for the connections of the manager"""
    p = c.args[0]
    v = ex.load_raw(st, p.obj, p.off, 8, 'ptr')
    i = m_index((8, v))
    ex.prove(st, i is not None, 'each connection is asked whether it belongs to the signal')
    ex.prove(st, same(c.args[1], st.g['_target']), 'each connection is asked whether it belongs to the signal')
    if i is None:
        return Kill('unknown connection')
    s2 = st.fork()
    st.assume(match(i))
    s2.assume(Not(match(i)))
    st.epoch += 1
    return Fork([(st, 1), (s2, 0)])


def man_setup(ctx, mode):
    ex = ctx.executor([CD, (r'^xdispatch::connection::is_connected_to\(', connected_to)])
    st = ctx.new_state()
    ms = ManSpec(CM, lock='m_CS', protected=['m_connections'], sync=['m_CS'])
    ex.cls_specs = {CM: ms}
    ex.fold_elem = m_fold
    ex.loop_fns = [cM, cR]
    o = Ptr(Obj('manager', ctx.prog.sizeof_cls(CM), 'sym', CM), 0)
    n = z3.BitVec('n_connections', 64)
    st.assume(z3.ULT(n, MAXN))
    zero = z3.BitVecVal(0, 64)
    st.assume(And(cM(zero) == 0, cR(zero) == 0))

    def part(sl, inv, cnt):
        def mk(ex, st, k, slot):
            i = sl(bv64(k))
            st.assume(And(z3.ULT(i, n), inv(match(i)), cnt(i) == bv64(k)))
            managed(ex, st, i, slot)
        return mk

    def gone(ex, st, i, slot):
        for k in (0, 8, 16):
            st.om(slot).cells[k] = (8, NULL)
    L = lambda nm, f: std.Log(nm, f, ctx.prog.sizeof_cls(SC))
    st.g.update({'_M': L('M', managed), '_Z': L('Z', gone), '_MS': L('MS', part(selM, lambda b: b, cM)), '_MR': L('MR', part(selR, Not, cR)),
                 'n': n, 'mode': mode, '_man': o})
    share(st, o)
    return ex, st, o


def is_range(ex, st, s, log, hi):
    """the sequence is log[0, hi)"""
    if not s.segs:
        return bv64(hi) == 0
    if len(s.segs) != 1 or s.segs[0][0] != 'r' or s.segs[0][1] is not log:
        return False
    return And(bv64(s.segs[0][2]) == 0, bv64(s.segs[0][3]) == bv64(hi))


def drops(ex, e, log):
    return [d for n, d in e.ev if n == 'DROP' and d['log'] is log and not ex.valid(e, bv64(d['lo']) == bv64(d['hi']))]


def check_drop(ex, e, log, hi, what):
    d = drops(ex, e, log)
    if not d:
        ex.prove(e, bv64(hi) == 0, what)
        return
    ex.prove(e, len(d) == 1, what)
    ex.prove(e, And(bv64(d[0]['lo']) == 0, bv64(d[0]['hi']) == bv64(hi)), what)
    ex.prove(e, not d[0]['held'], 'no lock held while connections are dropped')


def verify_manager(ctx):
    def taken(ex, st, s):
        ex.prove(st, not s.segs or ex.valid(st, bv64(s.size()) == 0), 'the manager forgets the connections it drops', repr(s))
        ex.event(st, 'TAKEN')
    for mode, nm, f in (('reset', 'reset_connections', 'reset_connections'), ('destroy', '~connection_manager', '~connection_manager')):
        ex, st, o = man_setup(ctx, mode)
        st.g['_on_release'] = taken
        for e in ctx.run(ex, nm, CM + '::' + f, [o], st):
            check_drop(ex, e, e.g['_M'], e.g['n'], 'every managed connection is dropped, which disconnects it')
    # add
    ex, st, o = man_setup(ctx, 'add')

    def added(ex, st, s):
        g = st.g
        ok = len(s.segs) == 2 and s.segs[0][0] == 'r' and s.segs[0][1] is g['_M'] and s.segs[1][0] == 's'
        if not ok and len(s.segs) == 1 and s.segs[0][0] == 's':
            ok = ex.valid(st, g['n'] == 0)
        ex.prove(st, ok, 'a connection added is managed', repr(s))
        if ok:
            x = Ptr(s.segs[-1][1], 0)
            ex.prove(st, holds(ex, st, x, g['_add'][0], g['_add'][1]), 'a connection added is managed')
        ex.event(st, 'ADD')
    h = sym_obj('handler', CH)
    sg = sym_obj('signal', SP)
    c = conn_obj(ctx, ex, st, h, Ptr(Obj('handler.ctl', None, 'ctl'), 0), sg)
    st.g.update({'_on_release': added, '_add': (h, sg)})
    for e in ctx.run(ex, 'manager add', CM + '::operator+=', [o, c], st):
        k = [n for n, d in e.ev if n not in ('LOOP',)]
        ex.prove(e, k == ['ADD'], 'adding a connection disconnects nothing', str(k))
        ex.prove(e, same(e.ret, o), 'operator+= returns the manager')
        ex.prove(e, holds(ex, e, c, h, sg), 'the connection added is not altered')
    # selective
    ex, st, o = man_setup(ctx, 'select')

    def kept(ex, st, s):
        g = st.g
        ex.prove(st, is_range(ex, st, s, g['_MR'], cR(g['n'])), 'connections with other signals are kept, in order', repr(s))
    st.g.update({'_on_release': kept, '_target': sg})
    for e in ctx.run(ex, 'reset_connections_with', CM + '::reset_connections_with', [o, sg], st):
        g = e.g
        check_drop(ex, e, g['_MS'], cM(g['n']), 'every connection with the signal is dropped, which disconnects it')
        ex.prove(e, not drops(ex, e, g['_MR']) and not drops(ex, e, g['_M']) and not [d for n, d in e.ev if n == 'CDISC' and d['h'].obj is not None],
                 'connections with other signals are not disconnected')
