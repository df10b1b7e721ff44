"""Contract vocabulary used by the property specs in /verif/specs."""
import re, time
import z3
from . import ir, sym, std
from .ir import Unsupported, dem, ity
from .sym import *
from .sym import And, Or, Not, Implies


class ClassSpec:
    """Concurrency contract of a class.

    lock       field path of the mutex guarding `protected`
    protected  fields only accessed with the lock held; `inv` is the monitor
               invariant over them (assumed on acquire, proved on release)
    atomics    fields accessed atomically; atomic_pre/atomic_post hooks give rely/guarantee
    sync       fields that are synchronisation objects (mutex, condition variable)
    everything else is immutable once the object is shared
    cvs        {cv field: predicate(ex, st, base)}: whoever makes the predicate
               true must notify, whoever waits must have seen it false
    """

    def __init__(self, cls, lock=None, protected=(), atomics=(), sync=(), cvs=None, inv=None, free=()):
        self.cls = cls
        self.lock = lock
        self.protected = set(protected)
        self.atomics = set(atomics)
        self.sync = set(sync)
        self.free = set(free)
        self.cvs = cvs or {}
        self.inv = inv
        self.notify_all_needed = set()
        self._size = None
        self._fcache = {}

    def size(self, ex):
        if self._size is None:
            self._size = ex.p.sizeof_cls(self.cls)
        return self._size

    def field(self, ex, off):
        f = self._fcache.get(off)
        if f is None:
            f = ex.p.field_at(self.cls, off)
            self._fcache[off] = f or ('?',)
        return f if f != ('?',) else None

    def is_shared(self, ex, st, base):
        return st.shared.get((base.obj.id, base.off), False)

    def kind_of(self, path):
        for n in [path] + ['.'.join(path.split('.')[:k]) for k in range(1, path.count('.') + 1)]:
            if n in self.protected:
                return 'protected'
            if n in self.atomics:
                return 'atomic'
            if n in self.sync:
                return 'sync'
            if n in self.free:
                return 'free'
        return 'const'

    def holds(self, ex, st, base):
        if self.lock is None:
            return False
        k = (base.obj.id, base.off + ex.p.off(self.cls, self.lock))
        return any(h[0] == k for h in st.held)

    def on_access(self, ex, st, base, off, size, write, atomic):
        if not self.is_shared(ex, st, base):
            return
        f = self.field(ex, off)
        if f is None:
            return
        k = self.kind_of(f[2])
        nm = '%s::%s' % (self.cls.split('::')[-1], f[2])
        if k == 'protected':
            ok = self.holds(ex, st, base)
            ex.prove(st, ok, 'no data race: %s accessed with its lock held' % nm)
        elif k == 'atomic':
            if not atomic:
                ex.prove(st, False, 'no data race: %s accessed atomically' % nm)
        elif k == 'const':
            if write:
                if atomic:
                    return
                ex.prove(st, False, 'no data race: %s is immutable once shared' % nm)

    def fields_under(self, ex, names):
        out = []
        for o, s, p, tn, tk in ex.p.layout(self.cls):
            if any(p == n or p.startswith(n + '.') for n in names):
                out.append((o, s, p, tn, tk))
        return out

    def forget(self, ex, st, base, names):
        om = st.om(base.obj)
        for o, s, p, tn, tk in self.fields_under(ex, names):
            lo, hi = base.off + o, base.off + o + max(s, 1)
            for k in [k for k in om.cells if lo <= k < hi]:
                del om.cells[k]
                st.wr.add(('cell', base.obj, k))
            for k in [k for k in om.abs if lo <= k < hi]:
                del om.abs[k]
                st.wr.add(('abs', base.obj, k))
            om.regions = [r for r in om.regions if r[1] <= lo or r[0] >= hi] + \
                         [x for r in om.regions if not (r[1] <= lo or r[0] >= hi)
                          for x in ((r[0], lo, r[2]), (hi, r[1], r[2])) if x[0] < x[1]]

    def invariants(self, ex, st, base):
        return self.inv(ex, st, base) if self.inv else []

    def acquire(self, ex, st, base, lockoff):
        if self.lock is None or lockoff != ex.p.off(self.cls, self.lock):
            return None
        self.forget(ex, st, base, self.protected)
        self.havoc_ghost(ex, st, base)
        for n, c in self.invariants(ex, st, base):
            st.assume(c)
        st.g[('_cv', base.obj.id, base.off)] = {f: pr(ex, st, base) for f, pr in self.cvs.items()}
        st.g.pop(('_ntf', base.obj.id, base.off), None)
        self.on_acquire(ex, st, base)
        return None

    def release(self, ex, st, base, lockoff):
        if self.lock is None or lockoff != ex.p.off(self.cls, self.lock):
            return None
        self.before_release(ex, st, base)
        for n, c in self.invariants(ex, st, base):
            ex.prove(st, c, 'invariant of %s at unlock: %s' % (self.cls.split('::')[-1], n))
        pre = st.g.get(('_cv', base.obj.id, base.off), {})
        ntf = st.g.get(('_ntf', base.obj.id, base.off), {})
        for f, pr in self.cvs.items():
            now = pr(ex, st, base)
            was = pre.get(f, False)
            if ntf.get(f) == 'all' or (ntf.get(f) and f not in self.notify_all_needed):
                continue
            became = And(Not(was) if not isinstance(was, bool) else (not was), now)
            pend = ('pend', base.obj.id, base.off, f)
            if became is False or ex.valid(st, Not(became)):
                continue
            # must be notified after the unlock, before this operation ends
            st.g[pend] = st.g.get(pend, []) + [became]
        self.after_release(ex, st, base)
        self.forget(ex, st, base, self.protected)
        return None

    def notify(self, ex, st, base, off, all_):
        f = self.field(ex, off)
        if f is None:
            return
        k = ('_ntf', base.obj.id, base.off)
        d = dict(st.g.get(k, {}))
        d[f[2]] = 'all' if all_ else 'one'
        st.g[k] = d
        if all_ or f[2] not in self.notify_all_needed:
            st.g.pop(('pend', base.obj.id, base.off, f[2]), None)
        self.on_notify(ex, st, base, f[2], all_)

    def before_wait(self, ex, st, base, off, timed):
        f = self.field(ex, off)
        if f is None:
            return
        pr = self.cvs.get(f[2])
        if pr is not None:
            c = pr(ex, st, base)
            ex.prove(st, Not(c), 'waits on %s only while its condition is false' % f[2])

    # hooks for subclasses
    def virtual_release(self, ex, st, base): return True   # acquire() forgets everything it does not re-establish
    def havoc_ghost(self, ex, st, base): pass
    def on_acquire(self, ex, st, base): pass
    def before_release(self, ex, st, base): pass
    def after_release(self, ex, st, base): pass
    def on_notify(self, ex, st, base, f, all_): pass
    def atomic_pre(self, ex, st, base, off, ty, op): return None
    def atomic_post(self, ex, st, base, off, op, old, new): return None


def fget(ex, st, base, cls, path, ty=None):
    """raw value of a field"""
    for o, s, p, tn, tk in ex.p.layout(cls):
        if p == path:
            if ty is None:
                ty = 'ptr' if tk == 'ptr' or s == 8 and tn.startswith(('std::unique_ptr', 'std::shared_ptr')) or tn.startswith('std::shared_ptr') else ity(8 * s)
            return ex.load_raw(st, base.obj, base.off + o, ex_size(ty), ty)
    raise Unsupported('field %s::%s not found' % (cls, path))


def ex_size(ty):
    return 8 if ty == 'ptr' else max(1, ty[1] // 8)


def fbool(ex, st, base, cls, path):
    v = fget(ex, st, base, cls, path)
    if isinstance(v, int):
        return zsimp(v != 0)
    if isinstance(v, z3.BoolRef):
        return v
    return zsimp(v != 0)


def fset(ex, st, base, cls, path, v):
    for o, s, p, tn, tk in ex.p.layout(cls):
        if p == path:
            ex.store_raw(st, base.obj, base.off + o, s if not isinstance(v, (Ptr, Fn)) else 8, v)
            return
    raise Unsupported('field %s::%s not found' % (cls, path))


def fptr(ex, base, cls, path):
    return Ptr(base.obj, base.off + ex.p.off(cls, path))


class Ctx:
    """one verification run: program + executor + bookkeeping"""

    def __init__(self, prog, tier='quick', seed=1):
        self.prog = prog
        self.tier = tier
        self.seed = seed
        self.results = []
        self.exs = []
        self.roots = []
        self.assumptions = []
        self.notes = []
        self.t0 = time.time()

    def executor(self, contracts=(), **kw):
        ex = Executor(self.prog, std.REG)
        ex.contracts = [(re.compile(rx), h) for rx, h in contracts]
        ex.folders.append(std.folder)
        for k, v in kw.items():
            setattr(ex, k, v)
        self.exs.append(ex)
        return ex

    def new_state(self):
        return State()

    def run(self, ex, name, fn, args, st, expect_return=True, allow_exc=False):
        """verify one function (root). fn: demangled name or Function. Returns end states (ret/exc)"""
        f = self.prog.func(fn) if isinstance(fn, str) else fn
        ex.root = name
        self.roots.append((name, dem(f.name)))
        ends = ex.run_function(st, f, args)
        out = []
        for e in ends:
            if e.status == 'killed':
                continue
            if e.status == 'exc' and not allow_exc:
                if ex.feasible(e):
                    ex.prove(e, False, 'no exception escapes', str(e.exc['type']))
                continue
            out.append(e)
        for e in out:
            for k in [k for k in e.g if isinstance(k, tuple) and k and k[0] == 'pend']:
                for c in e.g[k]:
                    ex.prove(e, Not(c), 'waiters on %s are notified when their condition becomes true' % k[3])
            ex.prove(e, not e.held, 'no lock held on return', str(e.held))
        if expect_return:
            if not any(ex.feasible(e) for e in out):
                if not ex.failures:
                    raise Unsupported('vacuous: no feasible path returns from ' + name)
        return out


def new_object(ctx, ex, st, cls, ctor, args, kind='heap'):
    """run the real constructor; returns list of (state, Ptr)"""
    o = Obj(cls.split('::')[-1], ctx.prog.sizeof_cls(cls), kind, cls)
    p = Ptr(o, 0)
    f = ctx.prog.func(ctor) if isinstance(ctor, str) else ctor
    ends = ex.run_function(st, f, [p] + list(args))
    return [(e, p) for e in ends if e.status == 'ret'], p


def share(st, p):
    st.shared[(p.obj.id, p.off)] = True


# ---------------------------------------------------------------- argument builders
def sym_obj(name, cls, size=None, **meta):
    o = Obj(name, size, 'sym', cls)
    o.meta.update(meta)
    return Ptr(o, 0)


def sp_slot(st, p, name='sp', ctl=None):
    """a std::shared_ptr variable holding p (16 bytes); symbolic control block unless given"""
    if ctl is None:
        ctl = NULL if p.obj is None else Ptr(Obj(name + '.ctl', kind='ctl'), 0)
    s = Obj(name + '.slot', 16, 'stack')
    st.om(s).cells[0] = (8, p)
    st.om(s).cells[8] = (8, ctl)
    return Ptr(s, 0)


def new_sp(st, name, cls, **meta):
    p = sym_obj(name, cls, **meta)
    return p, sp_slot(st, p, name)


def str_arg(st, name):
    s = Obj(name + '.str', 32, 'stack')
    st.om(s).abs[0] = ('sym', name)
    return Ptr(s, 0)


def sp_get(ex, st, slot, off=0):
    return ex.load_raw(st, slot.obj, slot.off + off, 8, 'ptr')


def op_log(name, cls='xdispatch::operation', on_new=None, on_release=None):
    """log of shared_ptr<cls>: element i is a distinct opaque object with ident (log, i)"""
    log = None

    def mk(ex, st, i, slot):
        key = ('_oplog', name, str(i))
        o = st.g.get(key)
        if o is None:
            op = Obj('%s[%s]' % (name, i), None, 'sym', cls)
            op.meta['elem'] = (log, i)
            ctl = Obj('%s[%s].ctl' % (name, i), None, 'ctl')
            if on_release:
                ctl.meta['on_release'] = on_release
            o = st.g[key] = (op, ctl)
            if on_new:
                on_new(ex, st, i, op)
        st.om(slot).cells[0] = (8, Ptr(o[0], 0))
        st.om(slot).cells[8] = (8, Ptr(o[1], 0))
    log = std.Log(name, mk, 16)
    return log


def seq_field(ex, st, base, cls, path):
    return std.seq_get(ex, st, Ptr(base.obj, base.off + ex.p.off(cls, path)))


def set_seq(ex, st, base, cls, path, seq):
    p = Ptr(base.obj, base.off + ex.p.off(cls, path))
    st.om(p.obj).abs[p.off] = seq
    st.wr.add(('abs', p.obj, p.off))


def no_locks(ex, st, what):
    ex.prove(st, not st.held, 'no lock is held while ' + what, str([h[1] for h in st.held]))


def bv64(x):
    return bv(x, 64)


def count_events(st, kind):
    return sum(1 for k, _ in st.ev if k == kind)
