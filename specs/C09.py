"""Cancelable: once disabled nobody enters, disable waits for everybody else, and never for itself."""
from vf.spec import *

PROPERTY = 'C09'
TUS = ['src/cancelable.cpp', '/verif/tu/cancelable_use.cpp']
C = 'xdispatch::cancelable'
ASSUMPTIONS = ['std::multiset / std::set: find, insert, erase, count and end act on a per-thread collection (standard library contract)',
               'less than 2^29 sections are active at a time']


def dec(m):
    m = bv(m, 32)
    return z3.LShR(m, 1), z3.Extract(0, 0, m) == 1


class CancelSpec(ClassSpec):
    """m_active = 2 * (sections entered and not left) + (1 if disabled)

    rely: somebody else enters (while not disabled), leaves, or disables.
    Whoever makes it `disabled and nobody active` owes the barrier a complete()."""

    def atomic_pre(self, ex, st, base, off, ty, op):
        g = st.g
        m = fresh(32, 'active')
        n, d = dec(m)
        st.assume(z3.ULT(m, 1 << 30))
        st.assume(z3.UGE(n, bv(g['in'], 32)))
        N, D = dec(g['M'])
        st.assume(Implies(D, And(d, z3.ULE(n, N))))
        st.om(base.obj).cells[base.off + off] = (4, m)
        self.saw(st, m)
        return [st]

    def saw(self, st, m):
        st.g['M'] = bv(m, 32)      # last value seen

    def atomic_post(self, ex, st, base, off, op, old, new):
        if op == 'load':
            return None
        g = st.g
        n0, d0 = dec(old)
        n1, d1 = dec(new)
        dn = n1 - n0
        ex.prove(st, Implies(d0, d1), 'a disabled scope stays disabled')
        ex.prove(st, Or(dn == 0, dn == 1, dn == -1), 'one section is entered or left at a time')
        ex.prove(st, Implies(dn == 1, And(Not(d0), Not(d1))), 'no section is entered once disabled')
        ex.prove(st, Implies(dn == -1, bv(g['in'], 32) != 0), 'only a section that was entered is left')
        g['in'] = zsimp(bv(g['in'], 32) + dn)
        g['Dset'] = zsimp(Or(g['Dset'], And(d1, Not(d0))))
        term0 = And(d0, n0 == 0)
        term1 = And(d1, n1 == 0)
        g['owe'] = zsimp(Or(g['owe'], And(term1, Not(term0))))
        self.saw(st, new)
        return None


def term(g):
    return bv(g['M'], 32) == 1


def b_complete(ex, st, c):
    g = st.g
    ex.prove(st, g['owe'], 'the barrier is completed exactly when the scope is disabled and nobody is active')
    g['owe'] = False
    st.epoch += 1
    return None


def b_wait(ex, st, c):
    g = st.g
    ex.prove(st, bv64(c.args[1]) == bv64(-1), 'disable waits without a timeout')
    ex.prove(st, dec(g['M'])[1], 'waits only once disabled')
    ex.prove(st, Not(g['owe']), 'nobody waits for a completion it owes itself')
    ex.prove(st, bv(g['in'], 32) == 0, 'a thread never waits for a section it is running itself')
    ex.prove(st, bv(g['mine'], 32) == 0, 'a thread never waits for a section it is running itself')
    g['M'] = z3.BitVecVal(1, 32)
    g['waited'] = True
    st.epoch += 1
    return z3.BoolVal(True) if False else 1


# ---- the per-thread collection of sections being run; membership of `this` only
IT = 'it'


def s_find(ex, st, c):
    out = []
    key = ex.load(st, c.args[1], 'ptr', st.frames[-1].fn.mod)
    ex.prove(st, isinstance(key, Ptr) and key.obj is st.g['obj'].obj, 'sections are looked up for the scope itself')
    s2 = st.fork()
    st.assume(bv(st.g['mine'], 32) != 0)
    s2.assume(bv(s2.g['mine'], 32) == 0)
    for s, o in ((st, s_elem), (s2, s_endo)):
        if ex.feasible(s):
            out.append((s, Ptr(o, 0)))
    return Fork(out)


s_elem = Obj('section.it', 32, 'sym')
s_endo = Obj('sections.end', 32, 'sym')


def s_end(ex, st, c):
    return Ptr(s_endo, 0)


def s_insert(ex, st, c):
    key = ex.load(st, c.args[1] if not c.name.split('(')[0].endswith('_hint') else c.args[2], 'ptr', st.frames[-1].fn.mod)
    ex.prove(st, isinstance(key, Ptr) and key.obj is st.g['obj'].obj, 'the scope itself is recorded')
    g = st.g
    if 'multiset' in c.name.split('::insert')[0]:
        g['mine'] = zsimp(bv(g['mine'], 32) + 1)
        return Ptr(s_elem, 0)
    g['mine'] = zsimp(z3.If(bv(g['mine'], 32) == 0, z3.BitVecVal(1, 32), bv(g['mine'], 32)))
    raise Unsupported('std::set insert')


def s_erase(ex, st, c):
    g = st.g
    a = c.args[1]
    if 'iterator' in c.name.split('(', 1)[1]:
        ex.prove(st, isinstance(a, Ptr) and a.obj is s_elem, 'only an existing record is erased')
        g['mine'] = zsimp(bv(g['mine'], 32) - 1)
        return Ptr(s_endo, 0)
    key = ex.load(st, a, 'ptr', st.frames[-1].fn.mod)
    ex.prove(st, isinstance(key, Ptr) and key.obj is g['obj'].obj, 'sections are looked up for the scope itself')
    n = g['mine']
    g['mine'] = 0
    return bv64(z3.ZeroExt(32, bv(n, 32)))


def s_count(ex, st, c):
    return z3.ZeroExt(32, bv(st.g['mine'], 32))


def others(st):
    g = st.g
    if '_others' not in g:
        g['_others'] = fresh(32, 'others')
        st.assume(z3.ULT(g['_others'], 1 << 28))
    return g['_others']


def s_size(ex, st, c):
    return z3.ZeroExt(32, bv(st.g['mine'], 32) + others(st))


def s_empty(ex, st, c):
    return z3.If(bv(st.g['mine'], 32) + others(st) == 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def s_unknown(ex, st, c):
    raise Unsupported('operation of the per-thread collection: ' + c.name)


def it_eq(ex, st, c):
    a, b = [ex.load(st, x, 'ptr', st.frames[-1].fn.mod) for x in c.args[:2]]
    return int(a.obj is b.obj)


def it_ne(ex, st, c):
    return 1 - it_eq(ex, st, c)


MS = r'^std::(multi)?set<xdispatch::cancelable\*, .*>::'
SETS = [
    (MS + r'find\(', s_find), (MS + r'c?end\(\)', s_end), (MS + r'insert\(', s_insert), (MS + r'emplace\(', s_insert),
    (MS + r'erase(\[abi:cxx11\])?\(', s_erase), (MS + r'count\(', s_count),
    (r'^std::operator==\(std::_Rb_tree_(const_)?iterator', it_eq), (r'^std::operator!=\(std::_Rb_tree_(const_)?iterator', it_ne),
    (MS + r'size\(\)', s_size), (MS + r'empty\(\)', s_empty),
    (MS + r'(multi)?set\(\)', lambda ex, st, c: None), (MS + r'~(multi)?set\(\)', lambda ex, st, c: None),
    (MS, s_unknown),
    (r'^TLS init function', lambda ex, st, c: None), (r'^TLS wrapper', None),
]
BARRIER = [
    (r'^xdispatch::lightweight_barrier::complete\(\)', b_complete),
    (r'^xdispatch::lightweight_barrier::wait\(', b_wait),
]


def setup(ctx):
    ex = ctx.executor([x for x in SETS if x[1]] + BARRIER + [
        (r'^xdispatch::lightweight_barrier::lightweight_barrier\(\)', lambda ex, st, c: ex.event(st, 'BARRIER', p=c.args[0]))])
    cs = CancelSpec(C, atomics=['m_active'])
    ex.cls_specs = {C: cs}
    st = ctx.new_state()
    st.g.update({'in': 0, 'mine': 0, 'M': z3.BitVecVal(0, 32), 'owe': z3.BoolVal(False), 'waited': False, 'Dset': False})
    ex.root = 'cancelable()'
    f = ctx.prog.func(C + '::cancelable()')
    r, p = new_object(ctx, ex, st, C, f, [])
    ctx.roots.append(('cancelable()', dem(f.name)))
    (e, _), = r
    n, d = dec(fget(ex, e, p, C, 'm_active'))
    ex.prove(e, And(Not(d), n == 0), 'a new scope is enabled and nobody is active')
    e.om(p.obj).cells.clear()
    share(e, p)
    g = e.g
    g['obj'] = p
    k = z3.BitVec('mine', 32)
    e.assume(z3.ULT(k, 1 << 28))
    g['mine'] = g['in'] = k
    e.ev = []
    return ex, e, p, k


def verify(ctx):
    ex, st, p, k = setup(ctx)
    for e in ctx.run(ex, 'enter', C + '::enter()', [p], st):
        g = e.g
        r = as_bool(e.ret)
        ex.prove(e, bv(g['in'], 32) == k + z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) if is_sym(r) else bv(g['in'], 32) == k + int(r), 'enter() reports whether it entered')
        ex.prove(e, bv(g['mine'], 32) == bv(g['in'], 32), 'an entered section is recorded for its thread')
        ex.prove(e, Or(r, dec(g['M'])[1]), 'enter() fails only once disabled')
        ex.prove(e, Not(g['owe']), 'the barrier completion is never forgotten')
        ex.prove(e, Not(g['Dset']), 'entering does not disable')
    ex, st, p, k = setup(ctx)
    st.assume(k != 0)
    for e in ctx.run(ex, 'leave', C + '::leave()', [p], st):
        g = e.g
        ex.prove(e, bv(g['in'], 32) == k - 1, 'leave() leaves exactly one section')
        ex.prove(e, bv(g['mine'], 32) == bv(g['in'], 32), 'leaving is recorded for the thread')
        ex.prove(e, Not(g['owe']), 'the barrier completion is never forgotten')
        ex.prove(e, Not(g['Dset']), 'leaving does not disable')
    ex, st, p, k = setup(ctx)
    for e in ctx.run(ex, 'disable', C + '::disable()', [p], st):
        g = e.g
        ex.prove(e, dec(g['M'])[1], 'after disable() the scope is disabled')
        ex.prove(e, Implies(k == 0, dec(g['M'])[0] == 0), 'disable() returns only when nobody else is active')
        ex.prove(e, bv(g['in'], 32) == k, 'disable() neither enters nor leaves')
        ex.prove(e, bv(g['mine'], 32) == k, 'disable() neither enters nor leaves')
        ex.prove(e, Not(g['owe']), 'the barrier completion is never forgotten')
    verify_scope(ctx)


def verify_scope(ctx):
    S = 'xdispatch::cancelable_scope'
    for ok in (0, 1):
        ex = ctx.executor([
            (r'^xdispatch::cancelable::enter\(\)', lambda ex, st, c: (ex.event(st, 'ENTER', o=c.args[0].obj), ok)[1]),
            (r'^xdispatch::cancelable::leave\(\)', lambda ex, st, c: ex.event(st, 'LEAVE', o=c.args[0].obj))])
        st = ctx.new_state()
        c = sym_obj('c', C)
        o = Obj('scope', ctx.prog.sizeof_cls(S), 'stack', S)
        p = Ptr(o, 0)
        nm = 'cancelable_scope (enter() %s)' % ('succeeds' if ok else 'fails')
        for e in ctx.run(ex, nm, ctx.prog.func(S + '::cancelable_scope'), [p, c], st):
            ex.prove(e, [(n, x['o']) for n, x in e.ev] == [('ENTER', c.obj)], 'the scope enters exactly once')
            for b in ctx.run(ex, nm + ' bool', S + '::operator bool() const', [p], e):
                ex.prove(b, Not(as_bool(b.ret)) if not ok else as_bool(b.ret), 'the scope tells whether it was entered')
                b.ev = []
                for x in ctx.run(ex, '~' + nm, ctx.prog.func(S + '::~cancelable_scope'), [p], b):
                    ex.prove(x, [(n, y['o']) for n, y in x.ev] == ([('LEAVE', c.obj)] if ok else []), 'the scope leaves exactly what it entered')
