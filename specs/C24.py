"""Functions given as operations: kept as a copy, called exactly as given, released once."""
from specs.opq import *
from specs.api import X, same, returns_queue
from specs.grp import put_sp

PROPERTY = 'C24'
DEPENDS = []
TUS = ['/verif/tu/operations.cpp', 'src/operation.cpp', 'src/barrier_operation.cpp']
IOP = X + 'parameterized_operation<unsigned long>'
NOP = X + 'parameterized_operation<int, xdispatch::notifier_type>'
B = X + 'barrier_operation'


def copied(ex, st, c):
    d, s = c.args[0], c.args[1]
    if not ex.resolve_ptr(st, s, 'function'):
        return Kill('null')
    live = st.g['_live']
    k = (s.obj.id, s.off)
    ex.prove(st, k in live, 'only a function that exists is copied', repr(s))
    ex.prove(st, (d.obj.id, d.off) not in live, 'a copy does not overwrite another one')
    live = dict(live)
    live[(d.obj.id, d.off)] = live.get(k)
    st.g['_live'] = live
    st.g['_made'] = st.g.get('_made', 0) + 1
    return None


def destroyed(ex, st, c):
    k = (c.args[0].obj.id, c.args[0].off)
    live = dict(st.g['_live'])
    ex.prove(st, k in live, 'a function is destroyed once')
    ex.prove(st, k != st.g['_orig'], 'the function of the caller is left alone')
    live.pop(k, None)
    st.g['_live'] = live
    return None


def called(ex, st, c):
    ex.event(st, 'CALL', o=c.args[0], a=list(c.args[1:]), who=st.g['_live'].get((c.args[0].obj.id, c.args[0].off)))
    return None


def member(nm):
    def f(ex, st, c):
        ex.event(st, 'MEMBER', o=c.args[0], a=list(c.args[1:]), who=nm)
        return None
    return f


def ran(ex, st, c):
    ex.event(st, 'RUN', o=c.args[0], a=list(c.args[1:]))
    return None


def handed(nm, k):
    def f(ex, st, c):
        ex.event(st, nm, a=list(c.args))
        sp = c.args[k]
        o, ctl = sp_get(ex, st, sp), sp_get(ex, st, sp, 8)
        if std.ctl_concrete(ex, st, ctl):      # the receiver keeps it
            ex.store_raw(st, ctl.obj, ctl.off + 8, 4, std.cnt(ex, st, ctl, 8) + 1)
        st.g['_kept'] = (o, ctl)
        return None
    return f


CON = [(r'^vf_functor::vf_functor\(vf_functor const&\)', copied), (r'^vf_functor::~vf_functor\(\)', destroyed),
       (r'^vf_functor::operator\(\)\(', called),
       (r'^vf_object::run\(\)', member('run')), (r'^vf_object::run_index\(', member('run_index')), (r'^vf_object::run_socket\(', member('run_socket')),
       (r'^virtual xdispatch::operation::operator\(\)$', ran), (r'^virtual xdispatch::parameterized_operation<.*>::operator\(\)$', ran)]
SP = r'std::shared_ptr<xdispatch::\w+(<[^()]*>)?> const&'
HAND = [(r'^xdispatch::(main|global)_queue\(', returns_queue('other queue')),
        (r'^xdispatch::queue::async\(' + SP, handed('async', 1)), (r'^xdispatch::queue::apply\(unsigned long, ' + SP, handed('apply', 2)),
        (r'^xdispatch::queue::after\(', handed('after', 2)), (r'^xdispatch::group::async\(' + SP + r', xdispatch::queue_priority', handed('gasync_prio', 1)),
        (r'^xdispatch::group::async\(' + SP + r', xdispatch::queue const&', handed('gasync', 1)),
        (r'^xdispatch::group::notify\(' + SP, handed('notify', 1)), (r'^xdispatch::timer::handler\(' + SP, handed('thandler', 1)),
        (r'^xdispatch::socket_notifier::handler\(' + SP, handed('nhandler', 1))]


def fn(ctx, nm):
    f = [x for x in ctx.prog.search('^' + nm + r'\(')][0]
    return ctx.prog.func(f) if isinstance(f, str) else f


def start(ctx, con=CON):
    ex = ctx.executor(con)
    st = ctx.new_state()
    f = Ptr(Obj('function', 8, 'sym', 'vf_functor'), 0)
    st.g['_orig'] = (f.obj.id, f.off)
    st.g['_live'] = {st.g['_orig']: 'the function'}
    out = Ptr(Obj('result', 16, 'stack'), 0)
    return ex, st, f, out


def calls(e, k='CALL'):
    return [d for n, d in e.ev if n == k]


def runs(ctx, ex, e, op, cls, name, params, check, times=2):
    """execute the operation several times; -> final states"""
    work = [e]
    for i in range(times):
        nxt = []
        for s in work:
            s = s.fork()
            s.ev = []
            s.frames = []
            for x in ctx.run(ex, name, virt(ex, s, op, cls, 'operator()'), [op] + params, s):
                if ex.feasible(x):
                    check(x)
                    nxt.append(x)
        work = nxt
    ex.prove(e, bool(work), 'an operation can be executed')
    return work


def kept_once(ex, e, op, what):
    """exactly one copy is alive, inside the operation"""
    live = {k: v for k, v in e.g['_live'].items() if k != e.g['_orig']}
    ex.prove(e, len(live) == 1 and list(live.values()) == ['the function'], 'exactly one copy of the function is kept', what)


KINDS = [('', OP, 'operation', lambda: []),
         ('iter', IOP, 'iteration operation', lambda: [z3.BitVec('index', 64)]),
         ('sock', NOP, 'notifier operation', lambda: [z3.BitVec('socket', 32), z3.BitVec('type', 32)])]


def verify_function(ctx):
    for nm, cls, what, mk in KINDS:
        ex, st, f, out = start(ctx)
        for e in ctx.run(ex, 'make ' + what, fn(ctx, 'vf_' + (nm or 'make')), [out, f], st):
            op = sp_get(ex, e, out)
            kept_once(ex, e, op, what)
            ex.prove(e, not calls(e), 'making an operation does not call the function')
            params = mk()

            def check(x, params=params, e=e):
                k = calls(x)
                kept = [k for k in e.g['_live'] if k != e.g['_orig']]
                ex.prove(x, len(k) == 1 and k[0]['who'] == 'the function' and [(k[0]['o'].obj.id, k[0]['o'].off)] == kept,
                         'executing an operation calls the copy of its function once', str(k))
                ex.prove(x, x.g.get('_made', 0) == e.g.get('_made', 0), 'executing an operation makes no further copy of its function')
                if len(k) == 1:
                    ex.prove(x, len(k[0]['a']) == len(params) and And(*[same(a, b) for a, b in zip(k[0]['a'], params)]) if params else not k[0]['a'],
                             'the function is called with the given parameters', str(k[0]['a']))
                kept_once(ex, x, op, what)
            for x in runs(ctx, ex, e, op, cls, 'execute ' + what, params, check):
                x.ev = []
                x.frames = []
                for y in ctx.run(ex, 'release ' + what, fn(ctx, 'vf_drop' + (nm and '_' + nm)), [out], x):
                    ex.prove(y, set(y.g['_live']) == {y.g['_orig']}, 'releasing an operation destroys the copy of its function', str(y.g['_live']))
                    ex.prove(y, not calls(y), 'releasing an operation does not call the function')


def verify_same(ctx):
    for nm, cls, what, mk in KINDS:
        ex, st, f, out = start(ctx)
        op, slot = new_sp(st, 'op', cls)
        for e in ctx.run(ex, 'make %s of an operation' % what, fn(ctx, 'vf_%s_same' % (nm or 'make')), [out, slot], st):
            ex.prove(e, same(sp_get(ex, e, out), op) and same(sp_get(ex, e, out, 8), sp_get(ex, e, slot, 8)), 'an operation is used as it is')
            ex.prove(e, not e.ev, 'an operation is used as it is', str(e.ev))


def verify_member(ctx):
    for nm, cls, what, mk in KINDS:
        ex, st, f, out = start(ctx)
        o = sym_obj('object', 'vf_object')
        want = {'': 'run', 'iter': 'run_index', 'sock': 'run_socket'}[nm]
        for e in ctx.run(ex, 'make member ' + what, fn(ctx, 'vf_%s_member' % (nm or 'make')), [out, o], st):
            op = sp_get(ex, e, out)
            ex.prove(e, not e.ev, 'making an operation does not call the member')
            params = mk()

            def check(x, params=params):
                k = calls(x, 'MEMBER')
                ex.prove(x, len(x.ev) == 1 and len(k) == 1 and same(k[0]['o'], o) and k[0]['who'] == want, 'executing an operation calls the given member of the given object once', str(x.ev))
                if len(k) == 1:
                    ex.prove(x, len(k[0]['a']) == len(params) and And(*[same(a, b) for a, b in zip(k[0]['a'], params)]) if params else not k[0]['a'],
                             'the member is called with the given parameters', str(k[0]['a']))
            runs(ctx, ex, e, op, cls, 'execute member ' + what, params, check)


def verify_exec(ctx):
    for nm, cls, what, mk in KINDS:
        ex, st, f, out = start(ctx)
        op = sym_obj('op', cls)
        params = mk()
        for e in ctx.run(ex, 'execute_operation_on_this_thread ' + what, fn(ctx, 'vf_exec' + (nm and '_' + nm)), [op] + params, st):
            k = calls(e, 'RUN')
            ex.prove(e, len(e.ev) == 1 and len(k) == 1 and same(k[0]['o'], op), 'an operation is executed once', str(e.ev))
            if len(k) == 1:
                ex.prove(e, len(k[0]['a']) == len(params) and And(*[same(a, b) for a, b in zip(k[0]['a'], params)]) if params else not k[0]['a'],
                         'an operation is executed with the given parameters', str(k[0]['a']))


def verify_hand(ctx):
    """the conveniences taking a function wrap it once and hand it on"""
    q, g, t, n = (sym_obj(x, X + x) for x in ('queue', 'group', 'timer', 'socket_notifier'))
    num, pr, ms = z3.BitVec('times', 64), z3.BitVec('priority', 32), z3.BitVec('delay', 64)
    for nm, args, ev, chk, cls in [
            ('queue_async', lambda f: [q, f], 'async', {0: q}, OP), ('queue_apply', lambda f: [q, f, num], 'apply', {0: q, 1: num}, IOP),
            ('queue_after', lambda f: [q, f, ms], 'after', {0: q, 1: ms}, OP), ('group_async', lambda f: [g, f, q], 'gasync', {0: g, 2: q}, OP),
            ('group_async_prio', lambda f: [g, f, pr], 'gasync_prio', {0: g, 2: pr}, OP), ('group_notify', lambda f: [g, f, q], 'notify', {0: g, 2: q}, OP),
            ('timer_handler', lambda f: [t, f], 'thandler', {0: t}, OP), ('notifier_handler', lambda f: [n, f], 'nhandler', {0: n}, NOP)]:
        ex, st, f, out = start(ctx, CON + HAND)
        for e in ctx.run(ex, nm.replace('_', ' '), fn(ctx, 'vf_' + nm), args(f), st):
            k = calls(e, ev)
            ex.prove(e, [x for x, d in e.ev] == [ev], 'the operation of a function is handed on once', str(e.ev))
            if len(k) != 1:
                continue
            for i, v in chk.items():
                ex.prove(e, same(k[0]['a'][i], v), 'the other arguments are handed on unchanged', '%s %r' % (i, k[0]['a'][i]))
            op, ctl = e.g['_kept']
            kept_once(ex, e, op, nm)
            ex.prove(e, std.ctl_concrete(ex, e, ctl) and std.cnt(ex, e, ctl, 8) == 1, 'an operation handed on is not held any longer', nm)
            params = [p for c in KINDS if c[1] == cls for p in c[3]()]

            def check(x):
                c = calls(x)
                ex.prove(x, len(c) == 1 and c[0]['who'] == 'the function', 'executing an operation calls the copy of its function once', str(c))
            runs(ctx, ex, e, op, cls, 'execute ' + nm, params, check, 1)


def verify_barrier(ctx):
    res = z3.BitVec('result', 8)

    def ev(nm, ret):
        def f(ex, st, c):
            ex.event(st, nm, a=list(c.args))
            if ret:
                st.assume(z3.ULE(res, 1))
                return z3.Extract(0, 0, res) if c.ret == ('i', 1) else res
            return None
        return f
    con = [(r'^xdispatch::lightweight_barrier::lightweight_barrier\(\)', ev('NEW', False)), (r'^xdispatch::lightweight_barrier::~lightweight_barrier\(\)', ev('END', False)),
           (r'^xdispatch::lightweight_barrier::wait\(', ev('WAIT', True)), (r'^xdispatch::lightweight_barrier::was_completed\(\)', ev('TEST', True)),
           (r'^xdispatch::lightweight_barrier::complete\(\)', ev('COMPLETE', False))]
    ex = ctx.executor(con)
    st = ctx.new_state()
    f = ctx.prog.func(B + '::barrier_operation()')
    ex.root = 'barrier_operation()'
    ctx.roots.append((ex.root, dem(f.name)))
    (e, p), = new_object(ctx, ex, st, B, f, [])[0]
    bar = lambda a: isinstance(a, Ptr) and a.obj is p.obj and a.off == ctx.prog.off(B, 'm_barrier')
    ex.prove(e, [n for n, d in e.ev] == ['NEW'] and bar(e.ev[0][1]['a'][0]), 'a barrier operation starts incomplete', str(e.ev))
    ms = z3.BitVec('timeout', 64)
    for nm, f, args, want, more in [('barrier executed', B + '::operator()()', [], 'COMPLETE', []), ('barrier wait', B + '::wait', [ms], 'WAIT', [ms]),
                                    ('barrier has_passed', B + '::has_passed', [], 'TEST', [])]:
        s = e.fork()
        s.ev = []
        s.frames = []
        for x in ctx.run(ex, nm, f, [p] + args, s):
            ok = [n for n, d in x.ev] == [want] and bar(x.ev[0][1]['a'][0])
            ex.prove(x, ok, '%s concerns its barrier' % nm, str(x.ev))
            if ok and more:
                ex.prove(x, same(x.ev[0][1]['a'][1], ms), 'the timeout is handed on')
            if want != 'COMPLETE':
                r = bv(x.ret, 8) if not is_sym(x.ret) or x.ret.size() == 8 else z3.ZeroExt(8 - x.ret.size(), x.ret)
                ex.prove(x, r == res, 'the result of the barrier is returned')


def verify(ctx):
    verify_function(ctx)
    verify_same(ctx)
    verify_member(ctx)
    verify_exec(ctx)
    verify_hand(ctx)
    verify_barrier(ctx)
