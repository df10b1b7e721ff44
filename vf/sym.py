"""Forward symbolic execution of LLVM IR with contracts: the verification-condition generator.

Values: ints are python ints (masked) or z3 bit-vectors; i1 is 0/1 or a z3 Bool;
pointers are Ptr; aggregates are python tuples.
"""
import itertools, json, os, re, time, sys
import z3
from . import ir, lia
from .ir import Unsupported, dem, ity

z3.set_param('memory_max_size', 6000)


class Budget(Exception):
    pass


_ids = itertools.count(1)


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'cls', 'meta')

    def __init__(self, name, size=None, kind='sym', cls=None, **meta):
        self.id = next(_ids)
        self.name = name
        self.size = size
        self.kind = kind
        self.cls = cls
        self.meta = meta

    def __repr__(self):
        return '%s#%d' % (self.name, self.id)


class Ptr:
    __slots__ = ('obj', 'off', 'nul')

    def __init__(self, obj, off=0, nul=None):
        self.obj = obj
        self.off = off
        self.nul = nul

    def __repr__(self):
        return '&%r+%s%s' % (self.obj, self.off, '?' if self.nul is not None else '')

    def key(self):
        return (self.obj.id if self.obj else 0, self.off if isinstance(self.off, int) else self.off.get_id())


NULL = Ptr(None, 0)


class Fn:
    __slots__ = ('mod', 'name')

    def __init__(self, mod, name):
        self.mod = mod
        self.name = name

    def __repr__(self):
        return 'fn ' + dem(self.name)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def as_bool(v):
    """i1 value -> python bool or z3 Bool"""
    if isinstance(v, int):
        return bool(v)
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return v
    if isinstance(v, z3.BitVecRef):
        return as_bool(z3.simplify(v == 1))
    raise Unsupported('bool of %r' % (v,))


def from_bool(b):
    if b is True:
        return 1
    if b is False:
        return 0
    if z3.is_true(b):
        return 1
    if z3.is_false(b):
        return 0
    return b


def zsimp(v):
    if isinstance(v, z3.BitVecRef):
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        return v
    if isinstance(v, z3.BoolRef):
        v = z3.simplify(v)
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
    return v


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


_fresh = itertools.count(1)


def fresh(w, name='v'):
    return z3.BitVec('%s!%d' % (name, next(_fresh)), w)


def fresh_bool(name='b'):
    return z3.Bool('%s!%d' % (name, next(_fresh)))


def _nb(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return bool(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def And(*xs):
    xs = [_nb(x) for x in xs]
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    return z3.And(*xs) if len(xs) > 1 else xs[0]


def Or(*xs):
    xs = [_nb(x) for x in xs]
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    return z3.Or(*xs) if len(xs) > 1 else xs[0]


def Not(x):
    x = _nb(x)
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'prev', 'regs', 'call', 'cont', 'loopcnt', 'depth', 'tag', 'allocas')

    def __init__(self, fn, call=None, cont=None):
        self.fn = fn
        self.block = fn.entry if fn is not None else None
        self.idx = 0
        self.prev = None
        self.regs = {}
        self.call = call
        self.cont = cont
        self.loopcnt = {}
        self.tag = None
        self.allocas = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.block = self.block
        f.idx = self.idx
        f.prev = self.prev
        f.regs = dict(self.regs)
        f.call = self.call
        f.cont = self.cont
        f.loopcnt = dict(self.loopcnt)
        f.tag = self.tag
        f.allocas = list(self.allocas)
        return f


class ObjMem:
    __slots__ = ('cells', 'regions', 'abs')

    def __init__(self):
        self.cells = {}
        self.regions = []
        self.abs = {}

    def copy(self):
        m = ObjMem.__new__(ObjMem)
        m.cells = dict(self.cells)
        m.regions = list(self.regions)
        m.abs = dict(self.abs)
        return m


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.pc = []
        self.g = {}
        self.ev = []
        self.held = []
        self.exc = None
        self.types = {}
        self.ret = None
        self.status = None
        self.epoch = 0
        self.tls = {}
        self.trace = []
        self.dead = set()
        self.shared = {}
        self.wr = set()

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.pc = list(self.pc)
        s.g = {k: (v.copy() if isinstance(v, (dict, list, set)) else v) for k, v in self.g.items()}
        s.ev = list(self.ev)
        s.held = list(self.held)
        s.exc = self.exc
        s.types = dict(self.types)
        s.ret = self.ret
        s.status = self.status
        s.epoch = self.epoch
        s.tls = dict(self.tls)
        s.trace = list(self.trace)
        s.dead = set(self.dead)
        s.shared = dict(self.shared)
        s.wr = set(self.wr)
        return s

    def om(self, obj):
        """writable memory of obj"""
        m = self.mem.get(obj.id)
        if m is None:
            m = self.mem[obj.id] = ObjMem()
            self.own.add(obj.id)
        elif obj.id not in self.own:
            m = self.mem[obj.id] = m.copy()
            self.own.add(obj.id)
        return m

    def rm(self, obj):
        m = self.mem.get(obj.id)
        if m is None:
            m = self.om(obj)
        return m

    def assume(self, c):
        if c is True or (isinstance(c, int) and c):
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)


class Fork:
    def __init__(self, items):
        self.items = items  # list of (state, value)


class Inline:
    """push a call; cont(ex, st, retval) -> value for the original call"""

    def __init__(self, fn, args, cont=None):
        self.fn = fn
        self.args = args
        self.cont = cont


class Throw:
    def __init__(self, exc):
        self.exc = exc


class Kill:
    """path ends here (assumption false / noreturn)"""

    def __init__(self, why):
        self.why = why


SKIP = object()


class Call:
    __slots__ = ('ins', 'sym', 'name', 'args', 'atys', 'attrs', 'ret', 'fr', 'fn', 'vslot', 'vcls', 'line')


class Failure:
    def __init__(self, name, detail, st, model, line):
        self.name = name
        self.detail = detail
        self.model = model
        self.line = line
        self.trace = list(st.trace) if st else []
        self.ev = list(st.ev) if st else []
        self.pc = [str(c) for c in st.pc][-40:] if st else []
        self.stack = []
        if st:
            self.stack = [dem(f.fn.name).split('(')[0] for f in st.frames if f.fn is not None]

    def text(self):
        out = ['obligation: ' + self.name, 'detail: ' + str(self.detail), 'at: %s' % (self.line,),
               'stack: ' + ' > '.join(self.stack)]
        out.append('path:')
        out += ['  ' + str(t) for t in self.trace[-60:]]
        out.append('events:')
        out += ['  ' + str(e) for e in self.ev[-40:]]
        if self.model:
            out.append('counterexample (solver model):')
            out += ['  ' + m for m in self.model]
        return '\n'.join(out)


class Program:
    def __init__(self, paths):
        from concurrent.futures import ThreadPoolExecutor
        self.mods = [ir.Module(p) for p in paths]
        self.find_cache = {}
        names = set()
        for m in self.mods:
            names.update(m.fdefs)
            names.update(m.fdecl)
            names.update(m.ctypes().keys())
        self.names = sorted(names)
        dm = ir.demangle(self.names)
        self.bydem = {}
        for n, d in zip(self.names, dm):
            self.bydem.setdefault(d, []).append(n)
        self.classes = {}
        for m in self.mods:
            for ident, mid in m.ctypes().items():
                d = dem(ident)
                if d.startswith('typeinfo name for '):
                    d = d[len('typeinfo name for '):]
                self.classes.setdefault(d, (m, mid))
        self._lay = {}

    def find(self, sym, mod=None):
        """-> Function with body or None"""
        if mod is not None and sym in mod.fdefs:
            return mod.func(sym)
        if mod is not None and sym in mod.aliases:
            return self.find(mod.aliases[sym], mod)
        if sym in self.find_cache:
            return self.find_cache[sym]
        r = None
        for m in self.mods:
            if sym in m.fdefs:
                r = m.func(sym)
                break
            if sym in m.aliases:
                r = self.find(m.aliases[sym], m)
                break
        self.find_cache[sym] = r
        return r

    def by_name(self, d, required=True):
        """all definitions for a demangled name (exact, or prefix up to '(')"""
        c = self.bydem.get(d)
        if c is None:
            c = []
            for k, v in self.bydem.items():
                if k.split('(')[0].replace('[abi:cxx11]', '') == d and ')::' not in k:
                    c += v
        c = [x for x in c if any(x in m.fdefs or x in m.aliases for m in self.mods)]
        if not c and required:
            raise Unsupported('function not found in extracted code: ' + d)
        return c

    def search(self, rx):
        r = re.compile(rx)
        out = []
        for d, v in self.bydem.items():
            if r.search(d):
                out += [x for x in v if any(x in m.fdefs for m in self.mods)]
        return out

    def func(self, d):
        if d.startswith('_Z'):
            f = self.find(d)
            if f is None:
                raise Unsupported('function not found in extracted code: ' + d)
            return f
        c = self.by_name(d)
        if len(c) > 1:
            # ctor/dtor variants: prefer complete object (C1/D1) then base
            for pat in ('C1', 'D1', 'C2', 'D2'):
                for x in c:
                    if re.search(pat + 'E', x):
                        return self.find(x)
        return self.find(c[0])

    def find_any(self, rx):
        r = re.compile(rx)
        for d, v in self.bydem.items():
            if r.search(d):
                for x in v:
                    f = self.find(x)
                    if f is not None:
                        return f
        return None

    # ---- layouts from debug info
    def layout(self, cls):
        """list of (off, size, path, typename, kind) flattened over bases; cls demangled"""
        r = self._lay.get(cls)
        if r is None:
            if cls not in self.classes:
                raise Unsupported('class layout not found: ' + cls)
            m, mid = self.classes[cls]
            r = []
            self._layout(m, mid, 0, '', r)
            self._lay[cls] = r
        return r

    def _layout(self, m, mid, base, prefix, out):
        n = m.mdnode(mid)
        el = n.get('elements')
        if not el:
            return
        names = self.member_names(m, mid, el)
        for e in m.mdnode(el[1]).get('list', []):
            if e is None:
                continue
            d = m.mdnode(e)
            if d['_'] != 'DIDerivedType':
                continue
            if d.get('tag') == 'DW_TAG_inheritance':
                off = int(d.get('offset', 0)) // 8
                if 'virtual' in d.get('flags', '').lower():
                    continue
                self._layout(m, d['baseType'][1], base + off, prefix, out)
            elif d.get('tag') == 'DW_TAG_member' and 'DIFlagStaticMember' not in d.get('flags', ''):
                off = int(d.get('offset', 0)) // 8
                size = int(d.get('size', 0)) // 8
                tn, tk, tid = self.tyname(m, d.get('baseType'))
                if size == 0 and tid is not None:
                    size = self.tysize(m, tid)
                nm = d.get('name', '?')
                nm = names.get(nm, nm)
                out.append((base + off, size, prefix + nm, tn, tk))
                if tk == 'class' and tn.startswith('xdispatch::') and tid is not None:
                    self._layout(m, tid, base + off, prefix + nm + '.', out)

    def member_names(self, m, mid, el):
        """current name -> name the contracts use, for members that were renamed.

        vf/layouts.json lists the members (name, type) of each class when the
        contracts were written.  A name that is gone is taken to be the member
        of the same type, in declaration order, whose name is new; whatever is
        then proved is proved about that member, so a wrong guess cannot hide
        a failure, it only fails obligations."""
        cls = m.qualname(mid)
        cur = []
        for e in m.mdnode(el[1]).get('list', []):
            d = m.mdnode(e) if e is not None else {'_': ''}
            if d['_'] == 'DIDerivedType' and d.get('tag') == 'DW_TAG_member' and 'DIFlagStaticMember' not in d.get('flags', ''):
                cur.append((d.get('name', '?'), self.tyname(m, d.get('baseType'))[0] or ''))
        if RECORD is not None:
            RECORD[cls] = cur
        base = baseline().get(cls)
        if base is None:
            return {}
        gone = [(n, t) for n, t in base if n not in {c[0] for c in cur}]
        new = [(n, t) for n, t in cur if n not in {b[0] for b in base}]
        out = {}
        for t in {t for n, t in gone}:
            a = [n for n, x in gone if x == t]
            b = [n for n, x in new if x == t]
            if len(a) == len(b):
                out.update(zip(b, a))
        return out

    def polymorphic(self, cls):
        if any('_vptr$' in p for o, s, p, tn, tk in self.layout(cls)):
            return True
        m, mid = self.classes[cls]
        el = m.mdnode(mid).get('elements')
        if el:
            for e in m.mdnode(el[1]).get('list', []):
                if e is not None and 'virtualIndex' in m.mdnode(e):
                    return True
        return False

    def tysize(self, m, tid):
        d = m.mdnode(tid)
        if 'size' in d:
            return int(d['size']) // 8
        if d.get('baseType'):
            return self.tysize(m, d['baseType'][1])
        return 0

    def tyname(self, m, ref):
        """(name, kind, mdid) following typedef/const; kind class/ptr/int/other"""
        if ref is None:
            return ('void', 'void', None)
        d = m.mdnode(ref[1])
        tag = d.get('tag', '')
        if d['_'] == 'DIBasicType':
            return (d.get('name'), 'int', ref[1])
        if tag in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_member'):
            return self.tyname(m, d.get('baseType') or None)
        if tag in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            n, k, t = self.tyname(m, d.get('baseType'))
            return (n, 'ptr', t)
        if tag in ('DW_TAG_class_type', 'DW_TAG_structure_type', 'DW_TAG_union_type'):
            i = d.get('identifier')
            nm = d.get('name', '?')
            if i:
                nm = dem(i).replace('typeinfo name for ', '')
                if nm in self.classes and self.classes[nm][0] is m:
                    return (nm, 'class', self.classes[nm][1])
            elif 'vtableHolder' in d or 'DIFlagFwdDecl' in d.get('flags', ''):
                nm = m.qualname(ref[1])
            return (nm, 'class', ref[1])
        if tag == 'DW_TAG_enumeration_type':
            return (d.get('name', '?'), 'int', ref[1])
        return (d.get('name', '?'), 'other', ref[1])

    def off(self, cls, path):
        for o, s, p, tn, tk in self.layout(cls):
            if p == path:
                return o
        raise Unsupported('field %s::%s not found' % (cls, path))

    def field_at(self, cls, off):
        best = None
        for o, s, p, tn, tk in self.layout(cls):
            if o <= off < o + max(s, 1):
                best = (o, s, p, tn, tk)  # innermost last
        return best

    def sizeof_cls(self, cls):
        m, mid = self.classes[cls]
        return int(m.mdnode(mid).get('size', 0)) // 8


RECORD = {} if os.environ.get('VF_RECORD') else None
_BASE = None


def baseline():
    global _BASE
    if _BASE is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layouts.json')
        _BASE = json.load(open(p)) if os.path.exists(p) else {}
    return _BASE


def save_record():
    if RECORD:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layouts.json')
        b = dict(baseline())
        b.update({k: [list(x) for x in v] for k, v in RECORD.items() if 'xdispatch' in k or 'waitable_queue' in k})
        with open(p, 'w') as f:
            f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(b[k])) for k in sorted(b)) + '\n}\n')


class Executor:
    def __init__(self, prog, models, stats=None):
        self.p = prog
        self.models = models      # list of (regex, handler)
        self.contracts = []       # spec-level, checked first
        self._mcache = {}
        self.failures = []
        self.unknown = []
        self.nobl = 0
        self.ndis = 0
        self.obl_names = {}
        self.solver_time = 0.0
        self.queries = 0
        self.mode = 0             # >0: probing (loop fixpoint), obligations not recorded
        self.paths = 0
        self.max_paths = 6000
        self.steps = 0
        self.max_steps = 4000000
        self.deadline = None
        self.globals = {}
        self.cls_specs = {}
        self.vcalls = []
        self.on_call_hooks = []
        self.inlined = set()
        self.used_models = {}
        self.root = '?'
        self.loopstack = []
        self.reach = {}
        self.ghost_inv = []
        self.timeout_ms = 20000
        self.strict_race = True
        self.loop_inv = []
        self.terminate_hook = None
        self.dry = None
        self.call_hook = None
        self.tls_hook = None
        self.lock_order = None
        self.seq_hook = None
        self.erase_hook = None
        self.fold_elem = None       # recognises an element stored in a container as an element of a log
        self.loop_fns = []          # spec functions tried as relations between values at loop heads
        self.remove_hook = None
        self.find_hook = None
        self.folders = []
        self.anchor_hooks = []
        self.ended = []

    # ------------------------------------------------------------ solver
    def check(self, conds):
        """sat/unsat/unknown with model"""
        t = time.time()
        s = z3.SolverFor('QF_AUFBV') if False else z3.Solver()
        s.set('timeout', self.timeout_ms)
        for c in conds:
            if c is True:
                continue
            s.add(c)
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r, (s.model() if r == z3.sat else None)

    def feasible(self, st, c=None):
        if c is False:
            return False
        cs = st.pc + ([c] if c is not None and c is not True else [])
        r, _ = self.check(cs)
        return r != z3.unsat

    def valid(self, st, c):
        if c is True:
            return True
        if c is False:
            r, _ = self.check(st.pc)
            return r == z3.unsat
        r, _ = self.check(st.pc + [z3.Not(c)])
        return r == z3.unsat

    def prove(self, st, c, name, detail=''):
        """record an obligation; returns True if discharged"""
        c = _nb(c)
        name = self.root + ': ' + name
        if self.dry is not None:
            self.dry.append(c is True or self.valid(st, c))
            st.assume(c)
            return True
        if self.mode > 0:
            if c is not True:
                st.assume(c)
            return True
        self.nobl += 1
        e = self.obl_names.setdefault(name, [0, 0])
        e[0] += 1
        if c is True:
            # discharged by evaluation
            self.ndis += 1
            e[1] += 1
            return True
        neg = [] if c is False else [z3.Not(c)]
        if neg and lia.scaled(neg):
            t = time.time()
            ok = lia.unsat(st.pc + neg, 5000)
            self.solver_time += time.time() - t
            self.queries += 1
            if ok:
                self.ndis += 1
                self.nlia = getattr(self, 'nlia', 0) + 1
                e[1] += 1
                return True
        r, m = self.check(st.pc + neg)
        if r == z3.unsat:
            self.ndis += 1
            e[1] += 1
            return True
        if r == z3.unknown:
            r2 = self.second_solver(st.pc + neg)
            if r2 == 'unsat':
                self.ndis += 1
                e[1] += 1
                return True
            self.unknown.append((name, self.where(st)))
            st.assume(c)
            return False
        mm = []
        if m is not None:
            for d in sorted(m.decls(), key=lambda d: str(d)):
                try:
                    mm.append('%s = %s' % (d, m[d]))
                except Exception:
                    pass
        self.failures.append(Failure(name, detail, st, mm[:60], self.where(st)))
        st.assume(c)
        return False

    def second_solver(self, conds):
        """z3 gave up: ask cvc5, translating bit-vectors to integers first"""
        import subprocess, tempfile, os
        s = z3.Solver()
        for c in conds:
            if c is not True:
                s.add(c)
        t = time.time()
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + s.to_smt2())
            for opt in (['--solve-bv-as-int=sum'], []):
                try:
                    r = subprocess.run(['cvc5', '--tlimit=%d' % self.timeout_ms] + opt + [f.name], capture_output=True, text=True,
                                       timeout=self.timeout_ms / 1000 + 10)
                except subprocess.TimeoutExpired:
                    continue
                if r.stdout.strip().startswith('unsat'):
                    self.cvc5 = getattr(self, 'cvc5', 0) + 1
                    return 'unsat'
        except OSError:
            pass
        finally:
            self.solver_time += time.time() - t
            try:
                os.unlink(f.name)
            except OSError:
                pass
        return None

    def where(self, st):
        for f in reversed(st.frames):
            if f.fn is None:
                continue
            try:
                ins = f.fn.blocks[f.block][min(f.idx, len(f.fn.blocks[f.block]) - 1)]
                ln = f.fn.mod.dbg_line(ins.dbg)
            except Exception:
                ln = None
            d = dem(f.fn.name)
            if 'xdispatch' in d.split('(')[0]:
                return '%s:%s' % (d.split('(')[0], ln)
        return '?'

    # ------------------------------------------------------------ values
    def operand(self, st, ty, v):
        k = v[0]
        if k == 'r':
            fr = st.frames[-1]
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register %%%s in %s' % (v[1], fr.fn.name))
        if k == 'c':
            w = ty[1]
            return v[1] & ((1 << w) - 1)
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, v[1], st.frames[-1].fn.mod)
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty, st)
        if k == 'ce':
            return self.constexpr(st, v, st.frames[-1].fn.mod)
        if k == 'agg':
            return tuple(self.operand(st, t, x) for t, x in v[1])
        if k == 'f':
            return ('float', v[1])
        if k == 'md':
            return None
        raise Unsupported('operand %r' % (v,))

    def undef(self, ty):
        if ty == 'ptr':
            return Ptr(Obj('undef', kind='undef'), 0)
        if ty[0] == 'i':
            return fresh_bool('undef') if ty[1] == 1 else fresh(ty[1], 'undef')
        if ty[0] == 'l':
            return tuple(UNDEF for t in ty[1])
        if ty[0] == 's':
            return UNDEF
        return UNDEF

    def zero(self, ty, st):
        if ty == 'ptr':
            return NULL
        if ty[0] == 'i':
            return 0
        if ty[0] == 'l':
            return tuple(self.zero(t, st) for t in ty[1])
        if ty[0] == 'a':
            return tuple(self.zero(ty[2], st) for _ in range(ty[1]))
        if ty[0] == 's':
            t = st.frames[-1].fn.mod.tdef(ty[1])
            return self.zero(t, st)
        if ty in ('double', 'float'):
            return ('float', '0.0')
        raise Unsupported('zero ' + str(ty))

    def global_ptr(self, st, name, mod):
        if name in mod.fdefs or name in mod.fdecl:
            return Fn(mod, name)
        if name in mod.aliases:
            return Fn(mod, mod.aliases[name])
        if name not in mod.globals:
            raise Unsupported('global ' + name)
        ty, init, const, tls = mod.gvar(name)
        # externals are merged by name; internal ones are per module
        line = mod.lines[mod.globals[name]]
        internal = ' internal ' in line[:len(name) + 40] or ' private ' in line[:len(name) + 40]
        key = (mod.path, name) if internal else name
        if init is None and not internal:
            for m in self.p.mods:
                if name in m.globals:
                    t2, i2, c2, tl2 = m.gvar(name)
                    if i2 is not None:
                        ty, init, const, tls = t2, i2, c2, tl2
                        mod = m
                        break
        o = self.globals.get(key)
        if o is None:
            try:
                sz = mod.sizeof(ty)
            except Unsupported:
                sz = None
            o = Obj('@' + name, sz, 'glob')
            o.meta['init'] = (mod, ty, init)
            o.meta['const'] = const
            o.meta['tls'] = tls
            o.meta['gname'] = name
            o.meta['mut'] = not const and init is not None and not name.startswith('_ZGV') and not self.guarded(name)
            o.meta['container'] = not const and re.search(r'std::(__cxx11::)?(basic_string|vector|map|multimap|set|multiset|list|deque|unordered_\w+|queue|stack|priority_queue)\b', str(ty)) is not None
            self.globals[key] = o
        return Ptr(o, 0)

    def guarded(self, name):
        # initialised on first use; the initialiser is part of the verified text
        return name.startswith('_Z') and any('_ZGV' + name[2:] in m.globals for m in self.p.mods)

    def constexpr(self, st, v, mod):
        if v[1] == 'gep':
            _, _, base, p, idx = v
            pv = self.cval(st, 'ptr', p, mod)
            return self.gep(st, mod, base, pv, [(t, self.cval(st, t, x, mod)) for t, x in idx])
        if v[1] == 'cast':
            _, _, op, ft, x, tt = v
            return self.cast(st, op, ft, self.cval(st, ft, x, mod), tt)
        if v[1] == 'bin':
            _, _, op, ty, a, b = v
            return self.binop(st, op, ty, self.cval(st, ty, a, mod), self.cval(st, ty, b, mod))
        if v[1] == 'icmp':
            _, _, pred, ty, a, b = v
            return self.icmp(st, pred, ty, self.cval(st, ty, a, mod), self.cval(st, ty, b, mod))
        raise Unsupported('constexpr %r' % (v[1],))

    def cval(self, st, ty, v, mod):
        """constant operand in the context of a module"""
        k = v[0]
        if k == 'g':
            return self.global_ptr(st, v[1], mod)
        if k == 'ce':
            return self.constexpr(st, v, mod)
        if k == 'c':
            return v[1] & ((1 << ty[1]) - 1)
        if k == 'null':
            return NULL
        if k == 'agg':
            return tuple(self.cval(st, t, x, mod) for t, x in v[1])
        if k == 'undef':
            return self.undef(ty)
        if k == 'f':
            return ('float', v[1])
        if k == 'zero':
            if ty == 'ptr':
                return NULL
            if ty[0] == 'i':
                return 0
            return ('zero', ty)
        if k == 'str':
            return ('str', v[1])
        if k == 'r':
            return self.operand(st, ty, v)
        raise Unsupported('const %r' % (v,))

    # ------------------------------------------------------------ memory
    def init_global_cell(self, st, obj, off, size, ty):
        mod, gty, init = obj.meta['init']
        if init is None:
            return None
        return self._ginit(st, mod, gty, init, off, size)

    def _ginit(self, st, mod, gty, init, off, size):
        # walk initializer
        if init[0] == 'zero':
            return 0 if size != 'ptr' else NULL
        if init[0] == 'str':
            b = init[1]
            if size == 1 and off < len(b):
                return b[off]
            return int.from_bytes(b[off:off + size], 'little')
        t = gty
        if t[0] == 's':
            t = mod.tdef(t[1])
        if init[0] == 'agg':
            if t[0] == 'a':
                es = mod.sizeof(t[2])
                i = off // es
                et, ev = init[1][i]
                return self._ginit(st, mod, et, ev, off - i * es, size)
            if t[0] == 'l':
                for k in range(len(t[1])):
                    o, et = mod.field(t, k)
                    if o <= off < o + max(1, mod.sizeof(et)):
                        return self._ginit(st, mod, et, init[1][k][1], off - o, size)
            return None
        if off != 0:
            return None
        return self.cval(st, gty, init, mod)

    def resolve_ptr(self, st, p, what):
        """check non-null; returns True if usable"""
        if isinstance(p, Fn):
            raise Unsupported('data access through function pointer')
        if p.obj is None:
            self.prove(st, False, 'no null dereference', what)
            return False
        if p.obj.kind == 'undef':
            self.prove(st, False, 'no use of uninitialised pointer', what)
            return False
        if p.nul is not None:
            if not self.syntactic(st, z3.Not(p.nul)):
                if self.mode == 0 or True:
                    r = self.valid(st, z3.Not(p.nul))
                    if not r:
                        self.prove(st, z3.Not(p.nul), 'no null dereference', what)
                    else:
                        if self.mode == 0:
                            self.nobl += 1
                            self.ndis += 1
                            e = self.obl_names.setdefault(self.root + ': no null dereference', [0, 0])
                            e[0] += 1
                            e[1] += 1
                st.assume(z3.Not(p.nul))
        if p.obj.id in st.dead:
            self.prove(st, False, 'no use after free', '%r %s' % (p.obj, what))
            return False
        return True

    def syntactic(self, st, c):
        i = c.get_id()
        return any(is_sym(x) and x.get_id() == i for x in st.pc)

    def conc_off(self, st, p):
        if isinstance(p.off, int):
            return p.off
        o = zsimp(p.off)
        if isinstance(o, int):
            return signed(o, 64)
        # unique value?
        r, m = self.check(st.pc)
        if r == z3.sat:
            v = m.eval(o, model_completion=True).as_long()
            if self.valid(st, o == v):
                return signed(v, 64)
        return None

    def split_off(self, st, p):
        """enumerate feasible concrete offsets (bounded) -> list of (state, Ptr)"""
        out = []
        cur = st
        cnt = 0
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(*[c for c in st.pc if c is not True])
        vals = []
        while True:
            if s.check() != z3.sat:
                break
            v = s.model().eval(p.off, model_completion=True).as_long()
            vals.append(v)
            s.add(p.off != v)
            if len(vals) > 64:
                raise Unsupported('symbolic offset with too many values')
        for v in vals:
            n = st.fork()
            n.assume(p.off == v)
            out.append((n, Ptr(p.obj, signed(v, 64), p.nul)))
        return out

    def load(self, st, p, ty, mod, atomic=False):
        if not self.resolve_ptr(st, p, 'load'):
            return Kill('null load')
        off = self.conc_off(st, p)
        if off is None:
            return Fork([(s, self.load(s, q, ty, mod, atomic)) for s, q in self.split_off(st, p)])
        obj = p.obj
        if isinstance(ty, tuple) and ty[0] in ('l', 's', 'a', 'v'):
            t = mod.tdef(ty[1]) if ty[0] == 's' else ty
            if t[0] == 'l':
                vals = []
                for k in range(len(t[1])):
                    o, et = mod.field(t, k)
                    vals.append(self.load(st, Ptr(obj, off + o, p.nul), et, mod, atomic))
                return tuple(vals)
            if t[0] == 'a':
                es = mod.sizeof(t[2])
                return tuple(self.load(st, Ptr(obj, off + i * es, p.nul), t[2], mod, atomic) for i in range(t[1]))
            raise Unsupported('load aggregate')
        size = mod.sizeof(ty)
        self.access(st, obj, off, size, False, atomic, ty)
        return self.load_raw(st, obj, off, size, ty)

    def load_raw(self, st, obj, off, size, ty):
        m = st.rm(obj)
        c = m.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            return self.retype(st, v, ty)
        if c is not None and c[0] > size and isinstance(ty, tuple) and ty[0] == 'i':
            v = c[1]
            if isinstance(v, int):
                return v & ((1 << (8 * size)) - 1)
            if isinstance(v, z3.BitVecRef):
                return zsimp(z3.Extract(8 * size - 1, 0, v))
        # overlapping cells
        ov = [(o, s, v) for o, (s, v) in m.cells.items() if o < off + size and off < o + s]
        if ov and isinstance(ty, tuple) and ty[0] == 'i':
            # compose from bytes
            bs = []
            for b in range(off, off + size):
                for o, s, v in ov:
                    if o <= b < o + s:
                        vv = v
                        if isinstance(vv, z3.BoolRef):
                            vv = bv(vv, 8 * s)
                        if isinstance(vv, int):
                            bs.append(z3.BitVecVal((vv >> (8 * (b - o))) & 255, 8))
                        elif isinstance(vv, z3.BitVecRef):
                            bs.append(z3.Extract(8 * (b - o) + 7, 8 * (b - o), vv))
                        else:
                            raise Unsupported('byte access to pointer in %r' % obj)
                        break
                else:
                    x = self.fill_byte(m, b)
                    bs.append(z3.BitVecVal(x, 8) if x is not None else fresh(8, 'uninit'))
            v = zsimp(z3.Concat(*reversed(bs)) if len(bs) > 1 else bs[0])
            return v
        if ov:
            # pointer load overlapping ints
            raise Unsupported('mixed-size access at %r+%d size %d (cells %s)' % (obj, off, size, ov[:3]))
        x = self.fill_byte(m, off)
        if x is not None:
            if ty == 'ptr':
                v = NULL if x == 0 else None
                if v is None:
                    raise Unsupported('pointer from memset')
            elif ty[0] == 'i':
                v = int.from_bytes(bytes([x] * size), 'little')
            else:
                v = ('float', '0.0')
            return v
        v = self.materialize(st, obj, off, size, ty)
        st.om(obj).cells[off] = (size, v)
        return self.retype(st, v, ty)

    def fill_byte(self, m, b):
        for lo, hi, x in reversed(m.regions):
            if lo <= b < hi:
                return x
        return None

    def retype(self, st, v, ty):
        if v is UNDEF:
            return self.undef(ty)
        if ty == 'ptr':
            if isinstance(v, (Ptr, Fn)):
                return v
            if isinstance(v, int):
                if v == 0:
                    return NULL
                o = Obj('int2ptr', kind='opaque')
                o.meta['int'] = v
                return Ptr(o, 0)
            if is_sym(v):
                pm = st.g.get('_p2i')
                if pm and v.get_id() in pm:
                    return pm[v.get_id()]
                raise Unsupported('int used as ptr')
            return v
        if isinstance(ty, tuple) and ty[0] == 'i':
            if isinstance(v, (Ptr, Fn)):
                return v if ty[1] == 64 else self.ptr2int(st, v)
            if ty[1] == 1 and isinstance(v, z3.BitVecRef):
                return from_bool(as_bool(zsimp(z3.Extract(0, 0, v)) if v.size() > 1 else v))
            if isinstance(v, z3.BitVecRef) and v.size() != ty[1]:
                if v.size() > ty[1]:
                    return zsimp(z3.Extract(ty[1] - 1, 0, v))
            if isinstance(v, z3.BoolRef) and ty[1] > 1:
                return bv(v, ty[1])
        return v

    def ptr2int(self, st, v):
        if isinstance(v, Ptr) and v.obj is None:
            return v.off & (2 ** 64 - 1) if isinstance(v.off, int) else v.off
        if isinstance(v, Fn):
            key = ('fn', v.name)
        else:
            key = v.obj.id
        d = st.g.setdefault('_addr', {})
        a = d.get(key)
        if a is None:
            a = d[key] = z3.BitVec('addr!%s' % (key,), 64)
            st.assume(a != 0)
            st.assume(z3.Extract(0, 0, a) == 0)
        if isinstance(v, Fn):
            pm = st.g.setdefault('_p2i', {})
            pm[a.get_id()] = v
            return a
        r = a if isinstance(v.off, int) and v.off == 0 else a + bv(v.off & (2 ** 64 - 1) if isinstance(v.off, int) else v.off, 64)
        if v.nul is not None:
            r = z3.If(v.nul, z3.BitVecVal(0, 64), r)
        pm = st.g.setdefault('_p2i', {})
        pm[r.get_id()] = v
        st.g.setdefault('_keep', []).append(r)
        return r

    def materialize(self, st, obj, off, size, ty):
        if obj.kind == 'vtbl':
            return Ptr(Obj('vfn', None, 'vfn', vcls=obj.meta['vcls'], slot=off // 8), 0)
        if obj.kind == 'lost':
            raise Unsupported('object created in an earlier loop iteration: ' + obj.name)
        if obj.kind == 'glob' and not obj.meta.get('mut'):
            v = self.init_global_cell(st, obj, off, 'ptr' if ty == 'ptr' else size, ty)
            if v is not None:
                if isinstance(v, tuple) and v and v[0] == 'zero':
                    return NULL if ty == 'ptr' else 0
                return v
        if obj.kind in ('stack', 'heap'):
            r = self.mat_hook(st, obj, off, size, ty)
            if r is not None:
                return r
            b = self.base_spec(st, obj, off)
            if b and b[2].is_shared(self, st, Ptr(obj, b[0])):
                return self.fresh_val(st, obj, off, ty, b[1], b[0])
            return self.undef(ty)
        r = self.mat_hook(st, obj, off, size, ty)
        if r is not None:
            return r
        return self.fresh_val(st, obj, off, ty)

    def mat_hook(self, st, obj, off, size, ty):
        h = obj.meta.get('mat')
        if h:
            r = h(self, st, obj, off, size, ty)
            if r is not None:
                return r
        b = self.base_spec(st, obj, off)
        if b:
            base, cls, spec = b
            f = getattr(spec, 'materialize', None)
            if f:
                r = f(self, st, Ptr(obj, base), off - base, size, ty)
                if r is not None:
                    return r
        return None

    def fresh_val(self, st, obj, off, ty, fcls=None, fbase=0):
        nm = '%s.%s' % (obj.name, off)
        if fcls is None:
            fcls = obj.cls
        if fcls and fcls in self.p.classes:
            f = self.p.field_at(fcls, off - fbase)
            if f:
                if fbase:
                    f = (f[0] + fbase,) + tuple(f[1:])
                nm = obj.name + '.' + f[2]
                if f[3] in ('bool', 'std::atomic<bool>') and ty == ity(8):
                    return z3.If(fresh_bool(nm), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                if ty == 'ptr':
                    if '_vptr$' in f[2]:
                        return Ptr(Obj('vtbl', None, 'vtbl', vcls=fcls if off == fbase else f[2].split('_vptr$')[1]), 0)
                    if f[3].startswith('std::function<'):
                        return self.sym_function(st, obj, f, off)
                    cls = None
                    if f[4] == 'ptr':
                        cls = f[3]
                    else:
                        m = re.match(r'std::(?:shared_ptr|unique_ptr|weak_ptr|atomic)<(.*?)\*?(?:, std::default_delete<.*)?>$', f[3])
                        if m and off == f[0]:
                            cls = m.group(1)
                    if f[3].startswith(('std::shared_ptr', 'std::weak_ptr')) and off == f[0] + 8:
                        o = Obj(nm + '.ctl', kind='ctl')
                        prim = self.load_raw(st, obj, f[0], 8, 'ptr')
                        return Ptr(o, 0, prim.nul)
                    o = Obj(nm, kind='sym', cls=cls)
                    nul = fresh_bool('null.' + nm)
                    return Ptr(o, 0, nul)
        if ty == 'ptr' and off == 0 and obj.cls in self.p.classes and self.p.polymorphic(obj.cls):
            return Ptr(Obj('vtbl', None, 'vtbl', vcls=obj.cls), 0)
        if ty == 'ptr':
            return Ptr(Obj(nm, kind='sym'), 0, fresh_bool('null.' + nm))
        if ty[0] == 'i':
            return fresh_bool(nm) if ty[1] == 1 else fresh(ty[1], nm)
        return UNDEF

    def sym_function(self, st, obj, f, off):
        """members of a symbolic std::function: _M_manager at +16, _M_invoker at +24"""
        rel = off - f[0]
        if rel == 16:
            o = Obj(obj.name + '.' + f[2] + '.manager', None, 'opaque')
            o.meta['fnptr'] = self.fn_manager
            return Ptr(o, 0, fresh_bool('null.' + f[2]))
        if rel == 24:
            o = Obj(obj.name + '.' + f[2] + '.invoker', None, 'opaque')
            o.meta['fnptr'] = self.fn_invoker
            o.meta['function'] = (obj, f[0], f[2])
            return Ptr(o, 0)
        return Ptr(Obj(obj.name + '.' + f[2] + '.data', None, 'opaque'), 0)

    def fn_manager(self, ex, st, c):
        # clone/destroy of an opaque callable: no effect on the code under test
        return 1

    def fn_invoker(self, ex, st, c):
        self.event(st, 'CALLFN', fn=c, args=c.args)
        h = self.call_hook
        if h:
            return h(self, st, c)
        raise Unsupported('call of an opaque std::function')

    def store(self, st, p, ty, v, mod, atomic=False):
        if not self.resolve_ptr(st, p, 'store'):
            return Kill('null store')
        off = self.conc_off(st, p)
        if off is None:
            out = []
            for s, q in self.split_off(st, p):
                r = self.store(s, q, ty, v, mod, atomic)
                out.append((s, r))
            return Fork(out)
        obj = p.obj
        if isinstance(ty, tuple) and ty[0] in ('l', 's', 'a', 'v'):
            t = mod.tdef(ty[1]) if ty[0] == 's' else ty
            if v is UNDEF:
                return None
            if t[0] == 'l':
                for k in range(len(t[1])):
                    o, et = mod.field(t, k)
                    self.store(st, Ptr(obj, off + o, p.nul), et, v[k], mod, atomic)
                return None
            if t[0] == 'a':
                es = mod.sizeof(t[2])
                for k in range(t[1]):
                    self.store(st, Ptr(obj, off + k * es, p.nul), t[2], v[k], mod, atomic)
                return None
        size = mod.sizeof(ty)
        self.access(st, obj, off, size, True, atomic, ty)
        if obj.kind == 'glob' and obj.meta.get('const'):
            self.prove(st, False, 'no write to a constant object', obj.name)
        self.store_raw(st, obj, off, size, v)

    def store_raw(self, st, obj, off, size, v):
        if isinstance(v, z3.BoolRef):
            v = bv(v, 8 * size)
        m = st.om(obj)
        st.wr.add(('cell', obj, off))
        c = m.cells.get(off)
        if c is None or c[0] != size:
            for o in [o for o, (s, _) in m.cells.items() if o < off + size and off < o + s]:
                s, vv = m.cells[o]
                if o < off or o + s > off + size:
                    # split
                    if isinstance(vv, int):
                        for b in range(s):
                            if not (off <= o + b < off + size):
                                m.cells[o + b] = (1, (vv >> (8 * b)) & 255)
                    elif isinstance(vv, z3.BitVecRef):
                        for b in range(s):
                            if not (off <= o + b < off + size):
                                m.cells[o + b] = (1, z3.Extract(8 * b + 7, 8 * b, vv))
                    else:
                        raise Unsupported('partial overwrite of pointer')
                    if o in m.cells and (o < off or o >= off + size):
                        if m.cells[o][0] == s:
                            del m.cells[o]
                else:
                    del m.cells[o]
        m.cells[off] = (size, v)

    def copy_mem(self, st, dst, src, n, mod):
        """memcpy with constant n"""
        if n == 0:
            return None
        if not self.resolve_ptr(st, src, 'memcpy src') or not self.resolve_ptr(st, dst, 'memcpy dst'):
            return Kill('null memcpy')
        so, do = self.conc_off(st, src), self.conc_off(st, dst)
        if so is None or do is None:
            raise Unsupported('memcpy symbolic offset')
        self.access(st, src.obj, so, n, False, False, None)
        self.access(st, dst.obj, do, n, True, False, None)
        sm = st.rm(src.obj)
        cells = [(o, s, v) for o, (s, v) in sm.cells.items() if o < so + n and so < o + s]
        regs = [(max(lo, so), min(hi, so + n), x) for lo, hi, x in sm.regions if lo < so + n and so < hi]
        covered = sum(s for _, s, _ in cells)
        if src.obj.kind in ('sym', 'glob') and covered < n:
            # materialise missing words lazily by 8/4/1 chunks using layout
            o = so
            while o < so + n:
                hit = [c for c in cells if c[0] <= o < c[0] + c[1]]
                if hit:
                    o = hit[0][0] + hit[0][1]
                    continue
                step = 8 if (o % 8 == 0 and o + 8 <= so + n) else 4 if (o % 4 == 0 and o + 4 <= so + n) else 1
                ty = ity(8 * step)
                if src.obj.cls and step == 8 and src.obj.cls in self.p.classes:
                    f = self.p.field_at(src.obj.cls, o)
                    if f and f[4] == 'ptr':
                        ty = 'ptr'
                v = self.load_raw(st, src.obj, o, step, ty)
                o += step
            sm = st.rm(src.obj)
            cells = [(o, s, v) for o, (s, v) in sm.cells.items() if o < so + n and so < o + s]
        dm = st.om(dst.obj)
        for o in [o for o, (s, _) in dm.cells.items() if o < do + n and do < o + s]:
            del dm.cells[o]
            st.wr.add(('cell', dst.obj, o))
        for lo, hi, x in regs:
            dm.regions.append((lo - so + do, hi - so + do, x))
        for o, s, v in cells:
            if o < so or o + s > so + n:
                raise Unsupported('memcpy splits a cell')
            dm.cells[o - so + do] = (s, v)
            st.wr.add(('cell', dst.obj, o - so + do))
        for o, a in list(sm.abs.items()):
            if so <= o < so + n:
                dm.abs[o - so + do] = a
                st.wr.add(('abs', dst.obj, o - so + do))
        return None

    # ------------------------------------------------------------ class specs / shared access
    def base_spec(self, st, obj, off):
        """find the registered ClassSpec whose sub-object covers off"""
        best = None
        for base, cls in st.types.get(obj.id, ()):
            sp = self.cls_specs.get(cls)
            if sp is not None and base <= off < base + sp.size(self):
                if best is None or base >= best[0]:
                    best = (base, cls, sp)
        if best is None and obj.cls in self.cls_specs:
            sp = self.cls_specs[obj.cls]
            if 0 <= off < sp.size(self):
                best = (0, obj.cls, sp)
        return best

    def access(self, st, obj, off, size, write, atomic, ty):
        if obj.kind == 'stack':
            return
        if obj.kind == 'glob':
            if obj.meta.get('container'):
                raise Unsupported('access to a global container ' + obj.name)
            if obj.meta.get('mut') and not obj.meta.get('tls') and not self.base_spec(st, obj, off):
                # a mutable global has an arbitrary value; others may change it
                k = ('_gep', obj.id, off)
                if atomic or st.g.get(k, st.epoch) != st.epoch:
                    st.om(obj).cells.pop(off, None)
                st.g[k] = st.epoch
        if not self.cls_specs:
            return
        b = self.base_spec(st, obj, off)
        if b:
            base, cls, sp = b
            sp.on_access(self, st, Ptr(obj, base), off - base, size, write, atomic)

    def set_type(self, st, p, cls):
        l = st.types.get(p.obj.id, ())
        if (p.off, cls) not in l:
            st.types[p.obj.id] = l + ((p.off, cls),)

    # ------------------------------------------------------------ ops
    def gep(self, st, mod, base, p, idx):
        if isinstance(p, Fn):
            raise Unsupported('gep on function')
        off = p.off
        t = base
        first = True
        for it, iv in idx:
            if first:
                sz = mod.sizeof(t) if t != ity(8) else 1
                off = self.addoff(off, iv, it, sz)
                first = False
                continue
            tt = mod.tdef(t[1]) if t[0] == 's' else t
            if tt[0] == 'l':
                o, e = mod.field(tt, iv)
                off = self.addoff(off, o, ity(64), 1)
                t = e
            elif tt[0] in ('a', 'v'):
                off = self.addoff(off, iv, it, mod.sizeof(tt[2]))
                t = tt[2]
            else:
                raise Unsupported('gep into %s' % (tt,))
        return Ptr(p.obj, off, p.nul)

    def addoff(self, off, iv, it, sz):
        w = it[1]
        if isinstance(iv, int):
            d = signed(iv, w) * sz
            if isinstance(off, int):
                return off + d
            return z3.simplify(off + d)
        if isinstance(iv, (Ptr, Fn)):
            raise Unsupported('pointer as index')
        x = z3.SignExt(64 - w, iv) if w < 64 else iv
        r = z3.simplify(bv(off & (2 ** 64 - 1) if isinstance(off, int) else off, 64) + x * sz)
        if z3.is_bv_value(r):
            return signed(r.as_long(), 64)
        return r

    def ptr_eq(self, st, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn):
                return a.name == b.name
            o = b if isinstance(a, Fn) else a
            if isinstance(o, Ptr) and o.obj is None:
                return False
            if isinstance(o, Ptr) and o.nul is not None:
                return False
            return False
        if a.obj is None and b.obj is None:
            return self.off_eq(a.off, b.off)
        if a.obj is None:
            return b.nul if b.nul is not None else False
        if b.obj is None:
            return a.nul if a.nul is not None else False
        if a.obj is b.obj:
            e = self.off_eq(a.off, b.off)
            if a.nul is None and b.nul is None or (a.nul is not None and b.nul is not None and a.nul.eq(b.nul)):
                return e
            na = a.nul if a.nul is not None else False
            nb = b.nul if b.nul is not None else False
            return Or(And(na, nb), And(Not(na), Not(nb), e))
        # opaque objects with identity terms
        ka, kb = a.obj.meta.get('ident'), b.obj.meta.get('ident')
        both = And(a.nul, b.nul) if a.nul is not None and b.nul is not None else False
        if ka is not None and kb is not None and ka[0] == kb[0]:
            e = And(bv(ka[1], 64) == bv(kb[1], 64), self.off_eq(a.off, b.off),
                    Not(a.nul) if a.nul is not None else True, Not(b.nul) if b.nul is not None else True)
            return Or(both, e)
        eq = st.g.get('_alias')
        if eq:
            k = (a.obj.id, b.obj.id) if a.obj.id < b.obj.id else (b.obj.id, a.obj.id)
            if k in eq:
                return Or(both, And(eq[k], Not(a.nul) if a.nul is not None else True,
                                    Not(b.nul) if b.nul is not None else True, self.off_eq(a.off, b.off)))
        return both

    def off_eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return as_bool(zsimp(bv(a & (2 ** 64 - 1) if isinstance(a, int) else a, 64) ==
                             bv(b & (2 ** 64 - 1) if isinstance(b, int) else b, 64)))

    def icmp(self, st, pred, ty, a, b):
        if ty == 'ptr' or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if not isinstance(a, (Ptr, Fn)):
                a = self.retype(st, a, 'ptr')
            if not isinstance(b, (Ptr, Fn)):
                b = self.retype(st, b, 'ptr')
            if pred in ('eq', 'ne'):
                e = self.ptr_eq(st, a, b)
                if pred == 'ne':
                    e = Not(e)
                return from_bool(e)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return self.icmp(st, pred, ity(64), a.off & (2**64-1) if isinstance(a.off, int) else a.off,
                                 b.off & (2**64-1) if isinstance(b.off, int) else b.off)
            raise Unsupported('pointer ordering')
        w = ty[1]
        if w == 1:
            a, b = as_bool(a), as_bool(b)
            if isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            else:
                za = z3.BoolVal(a) if isinstance(a, bool) else a
                zb = z3.BoolVal(b) if isinstance(b, bool) else b
                r = za == zb
            if pred == 'ne':
                r = Not(r)
            elif pred != 'eq':
                raise Unsupported('icmp i1 ' + pred)
            return from_bool(r if isinstance(r, bool) else z3.simplify(r))
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = signed(a, w), signed(b, w)
            r = {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
            return 1 if r else 0
        if not (is_sym(a) or isinstance(a, int)) or not (is_sym(b) or isinstance(b, int)):
            raise Unsupported('icmp on %r %r' % (a, b))
        a, b = bv(a, w), bv(b, w)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return zsimp(r)

    def binop(self, st, op, ty, a, b):
        w = ty[1]
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                r = (a.off - b.off)
                return r & (2 ** 64 - 1) if isinstance(r, int) else zsimp(r)
            a = self.ptr2int(st, a) if isinstance(a, (Ptr, Fn)) else a
            b = self.ptr2int(st, b) if isinstance(b, (Ptr, Fn)) else b
        if w == 1:
            a, b = as_bool(a), as_bool(b)
            if op == 'and':
                return from_bool(And(a, b))
            if op == 'or':
                return from_bool(Or(a, b))
            if op == 'xor':
                if isinstance(b, bool):
                    return from_bool(Not(a) if b else a)
                if isinstance(a, bool):
                    return from_bool(Not(b) if a else b)
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = signed(a, w), signed(b, w)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sa >> b) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.prove(st, False, 'no division by zero')
                return 0
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            if op == 'sdiv':
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & M
            if op == 'srem':
                r = abs(sa) % abs(sb)
                return (-r if sa < 0 else r) & M
        if op in ('sdiv', 'srem') and isinstance(b, int) and 0 < signed(b, w) and b & (b - 1) and w == 64:
            return self.divide(st, bv(a, w), b, w)[op == 'srem']
        a, b = bv(a, w), bv(b, w)
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = a * b
        elif op == 'and': r = a & b
        elif op == 'or': r = a | b
        elif op == 'xor': r = a ^ b
        elif op == 'shl': r = a << b
        elif op == 'lshr': r = z3.LShR(a, b)
        elif op == 'ashr': r = a >> b
        elif op == 'udiv': r = z3.UDiv(a, b)
        elif op == 'urem': r = z3.URem(a, b)
        elif op == 'sdiv': r = a / b
        elif op == 'srem': r = z3.SRem(a, b)
        else:
            raise Unsupported('binop ' + op)
        return zsimp(r)

    def divide(self, st, a, b, w):
        """signed division by a positive constant, by its defining equation (no divider circuit)"""
        k = ('_div', a.get_id(), b)
        r = st.g.get(k)
        if r is not None and r[2].eq(a):
            return r[0], r[1]
        q, m = fresh(w, 'quot'), fresh(w, 'rem')
        lim = (1 << (w - 1)) // b
        st.assume(z3.And(a == q * b + m, q >= -lim, q <= lim,
                         z3.If(a >= 0, z3.And(m >= 0, m < b, q >= 0), z3.And(m <= 0, m > -b, q <= 0))))
        st.g[k] = (q, m, a)
        return q, m

    def cast(self, st, op, ft, v, tt):
        if op == 'bitcast':
            if ft == tt:
                return v
            return self.retype(st, v, tt)
        if op == 'ptrtoint':
            if isinstance(v, (Ptr, Fn)):
                # keep as pointer (provenance); arithmetic converts on demand
                return v if tt == ity(64) else self.ptr2int(st, v)
            return v
        if op == 'inttoptr':
            return self.retype(st, v, 'ptr')
        if op in ('trunc', 'zext', 'sext'):
            fw, tw = ft[1], tt[1]
            if isinstance(v, (Ptr, Fn)):
                v = self.ptr2int(st, v)
            if op == 'trunc':
                if isinstance(v, int):
                    return v & ((1 << tw) - 1)
                if tw == 1:
                    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
                        x, y = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
                        if x == 1 and y == 0:
                            return v.arg(0)
                        if x == 0 and y == 1:
                            return z3.Not(v.arg(0))
                    return zsimp(z3.Extract(0, 0, v) == 1)
                return zsimp(z3.Extract(tw - 1, 0, v))
            if fw == 1:
                b = as_bool(v)
                if isinstance(b, bool):
                    if not b:
                        return 0
                    return 1 if op == 'zext' else (1 << tw) - 1
                one = 1 if op == 'zext' else (1 << tw) - 1
                return z3.If(b, z3.BitVecVal(one, tw), z3.BitVecVal(0, tw))
            if isinstance(v, int):
                return v if op == 'zext' else signed(v, fw) & ((1 << tw) - 1)
            return zsimp(z3.ZeroExt(tw - fw, v) if op == 'zext' else z3.SignExt(tw - fw, v))
        if op in ('uitofp', 'sitofp', 'fpext', 'fptrunc'):
            return ('float', v)
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ execution
    def tr(self, st, msg):
        st.trace.append(msg)

    def new_stack(self, st, name, size):
        o = Obj(name, size, 'stack')
        return o

    def push(self, st, fn, args, call=None, cont=None):
        if len(st.frames) > 90:
            raise Unsupported('call depth (recursion) at ' + dem(fn.name)[:120])
        fr = Frame(fn, call, cont)
        if len(args) != len(fn.params) and not fn.vararg:
            raise Unsupported('argument count for %s: %d vs %d' % (fn.name, len(args), len(fn.params)))
        for (ty, pn, at), v in zip(fn.params, args):
            fr.regs[pn] = v
        st.frames.append(fr)
        self.inlined.add(fn.name)
        # record dynamic/static type of `this` on constructor entry
        d = dem(fn.name)
        c = ctor_class(d)
        if c and args and isinstance(args[0], Ptr) and args[0].obj is not None and isinstance(args[0].off, int):
            self.set_type(st, args[0], c)
        for h in self.on_call_hooks:
            h(self, st, fn, d, args)

    def run_function(self, st, fn, args, cont=None):
        """explore fn called with args in st; returns list of end states (status 'ret'/'exc'/'killed')"""
        base = len(st.frames)
        self.push(st, fn, args, None, cont)
        ends = self.explore([st], base)
        return ends

    def explore(self, states, base, stop=None):
        work = list(states)
        out = []
        while work:
            st = work.pop()
            while True:
                if self.deadline and time.time() > self.deadline:
                    raise Budget('time budget exhausted in ' + self.root)
                if len(st.frames) <= base and stop is None:
                    out.append(st)
                    break
                if st.status == 'killed':
                    out.append(st)
                    break
                if stop is not None:
                    r = stop(st)
                    if r:
                        out.append(st)
                        break
                fr = st.frames[-1]
                if fr.fn is not None and fr.idx == 0 and fr.block in fr.fn.loops() and not (
                        self.loopstack and self.loopstack[-1] == (len(st.frames), fr.fn.name, fr.block) and fr.tag == 'cut'):
                    body = fr.fn.loops()[fr.block]
                    rec = fr.loopcnt.get(fr.block)
                    if rec is None or fr.prev not in body:
                        t = self.trial(st)
                        if t == 'once':
                            fr.loopcnt[fr.block] = (299, None, None)
                        elif t:
                            fr.loopcnt[fr.block] = (1, len(st.pc), st.epoch)
                        else:
                            work.extend(self.cut_loop(st))
                            break
                    else:
                        cnt, npc, ep = rec
                        if cnt < 300 and (npc is None or (len(st.pc) == npc and st.epoch == ep)):
                            fr.loopcnt[fr.block] = (cnt + 1, npc, ep)
                        else:
                            exits = self.cut_loop(st)
                            work.extend(exits)
                            break
                fr.tag = None if fr.tag == 'cut' else fr.tag
                r = self.run_block(st)
                if r is not None:
                    self.paths += max(0, len(r) - 1)
                    if self.paths > self.max_paths:
                        raise Budget('path budget exhausted in ' + self.root)
                    if not r:
                        break
                    st = r[0]
                    work.extend(r[1:])
        return out

    # ---- loops with inferred + declared invariants
    def trial(self, st):
        """one probing iteration: True if the loop is concrete (no new facts per iteration) or does not repeat"""
        depth = len(st.frames)
        fr = st.frames[-1]
        hdr, body = fr.block, fr.fn.loops()[fr.block]
        S = st.fork()
        S.frames[-1].tag = 'cut'

        def stop(s):
            if len(s.frames) < depth:
                return True
            f = s.frames[-1]
            return len(s.frames) == depth and f.idx == 0 and f.tag != 'cut' and (f.block == hdr or f.block not in body)
        self.loopstack.append((depth, fr.fn.name, hdr))
        self.mode += 1
        try:
            rs = self.explore([S], 0, stop)
            rs = [r for r in rs if r.status != 'killed' and len(r.frames) == depth and r.frames[-1].block == hdr]
            if all(len(r.pc) == len(st.pc) and r.epoch == st.epoch for r in rs):
                return True
            # left at the second test of a plain condition?
            if any(i.op in ('call', 'invoke', 'alloca') for i in fr.fn.blocks[hdr]):
                return False

            def left(s):
                f = s.frames[-1]
                return len(s.frames) < depth or (len(s.frames) == depth and f.idx == 0 and f.block != hdr)
            for r in rs:
                r.frames[-1].tag = 'cut'
                if any(x.status != 'killed' and len(x.frames) == depth and x.frames[-1].block in body
                       for x in self.explore([r.fork()], 0, left)):
                    return False
            return 'once'
        finally:
            self.mode -= 1
            self.loopstack.pop()

    def next_obj_id(self):
        return Obj('mark').id

    def fold(self, st):
        for f in self.folders:
            f(self, st)

    def loop_anchors(self, st):
        out = []
        for f in self.anchor_hooks:
            out += f(self, st)
        return out

    def valid_quick(self, st, c):
        if c is True or (is_sym(c) and z3.is_true(c)):
            return True
        if c is False or (is_sym(c) and z3.is_false(c)):
            return False
        old = self.timeout_ms
        self.timeout_ms = min(old, 3000)
        try:
            r, _ = self.check(st.pc + [z3.Not(c)])
        finally:
            self.timeout_ms = old
        return r == z3.unsat

    def cut_loop(self, st0):
        from .loops import cut_loop
        return cut_loop(self, st0)

    def kill(self, st, why):
        st.status = 'killed'
        st.trace.append('path ends: ' + why)

    def run_block(self, st):
        """execute until control transfer / fork. returns None (continue with st) or list of states"""
        fr = st.frames[-1]
        fn = fr.fn
        code = fn.blocks[fr.block]
        while True:
            ins = code[fr.idx]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget('step budget exhausted in ' + self.root)
            op = ins.op
            if op == 'load':
                p = self.operand(st, 'ptr', ins.a)
                pre = self.atomic_pre(st, p, ins.ty, 'load') if ins.b else None
                if pre is not None:
                    out = []
                    for s2 in pre:
                        v = self.load(s2, p, ins.ty, fn.mod, True)
                        if isinstance(v, Kill):
                            self.kill(s2, v.why)
                            out.append(s2)
                            continue
                        f2 = s2.frames[-1]
                        f2.regs[ins.res] = v
                        f2.idx += 1
                        out.extend(self.atomic_post(s2, p, ins.ty, 'load', v, v, None))
                    return out
                v = self.load(st, p, ins.ty, fn.mod, bool(ins.b))
                if isinstance(v, Kill):
                    self.kill(st, v.why)
                    return None
                if isinstance(v, Fork):
                    return self.deliver_fork(v, ins)
                fr.regs[ins.res] = v
                fr.idx += 1
            elif op == 'store':
                p = self.operand(st, 'ptr', ins.b)
                v = self.operand(st, ins.ty, ins.a)
                if ins.c:
                    pre = self.atomic_pre(st, p, ins.ty, 'store')
                    if pre is not None:
                        out = []
                        for s2 in pre:
                            old = self.load(s2, p, ins.ty, fn.mod, True)
                            self.store(s2, p, ins.ty, v, fn.mod, True)
                            s2.frames[-1].idx += 1
                            out.extend(self.atomic_post(s2, p, ins.ty, 'store', old, v, None))
                        return out
                r = self.store(st, p, ins.ty, v, fn.mod, bool(ins.c))
                if isinstance(r, Kill):
                    self.kill(st, r.why)
                    return None
                if isinstance(r, Fork):
                    return self.deliver_fork(r, ins)
                fr.idx += 1
            elif op == 'gep':
                p = self.operand(st, 'ptr', ins.a)
                fr.regs[ins.res] = self.gep(st, fn.mod, ins.ty, p, [(t, self.operand(st, t, x)) for t, x in ins.b])
                fr.idx += 1
            elif op == 'br':
                if ins.b is None:
                    self.jump(st, ins.a)
                    return None
                c = as_bool(self.operand(st, ity(1), ins.a))
                if isinstance(c, bool):
                    self.jump(st, ins.b if c else ins.c)
                    return None
                return self.branch(st, [(c, ins.b), (z3.Not(c), ins.c)])
            elif op in ('call', 'invoke'):
                return self.do_call(st, ins)
            elif op == 'ret':
                v = None if ins.a is None else self.operand(st, ins.ty, ins.a)
                return self.do_ret(st, v)
            elif op == 'icmp':
                a = self.operand(st, ins.ty, ins.a)
                b = self.operand(st, ins.ty, ins.b)
                fr.regs[ins.res] = self.icmp(st, ins.c, ins.ty, a, b)
                fr.idx += 1
            elif op == 'bin':
                a = self.operand(st, ins.ty, ins.a)
                b = self.operand(st, ins.ty, ins.b)
                if 'nsw' in ins.d and ins.c in ('add', 'sub', 'mul') and (is_sym(a) or is_sym(b)) and self.ovf_check(st, ins, fn):
                    self.check_nsw(st, ins, a, b)
                fr.regs[ins.res] = self.binop(st, ins.c, ins.ty, a, b)
                fr.idx += 1
            elif op == 'cast':
                v = self.operand(st, ins.b, ins.a)
                fr.regs[ins.res] = self.cast(st, ins.c, ins.b, v, ins.ty)
                fr.idx += 1
            elif op == 'alloca':
                o = Obj('%' + ins.res, fn.mod.sizeof(ins.ty) if ins.a is None else None, 'stack')
                fr.regs[ins.res] = Ptr(o, 0)
                fr.allocas.append(o)
                fr.idx += 1
            elif op == 'phi':
                # evaluate all phis of the block simultaneously
                vals = []
                i = fr.idx
                while code[i].op == 'phi':
                    ph = code[i]
                    for v, l in ph.a:
                        if l == fr.prev:
                            vals.append((ph.res, self.operand(st, ph.ty, v)))
                            break
                    else:
                        raise Unsupported('phi')
                    i += 1
                for r, v in vals:
                    fr.regs[r] = v
                fr.idx = i
            elif op == 'select':
                c = as_bool(self.operand(st, ity(1), ins.a))
                a = self.operand(st, ins.ty, ins.b)
                b = self.operand(st, ins.ty, ins.c)
                if isinstance(c, bool):
                    fr.regs[ins.res] = a if c else b
                    fr.idx += 1
                elif isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
                    s2 = st.fork()
                    out = []
                    for s, cc, v in ((st, c, a), (s2, z3.Not(c), b)):
                        if self.feasible(s, cc):
                            s.assume(cc)
                            s.frames[-1].regs[ins.res] = v
                            s.frames[-1].idx += 1
                            out.append(s)
                    return out
                else:
                    w = ins.ty[1]
                    if w == 1:
                        za = as_bool(a)
                        zb = as_bool(b)
                        za = z3.BoolVal(za) if isinstance(za, bool) else za
                        zb = z3.BoolVal(zb) if isinstance(zb, bool) else zb
                        fr.regs[ins.res] = zsimp(z3.If(c, za, zb))
                    else:
                        fr.regs[ins.res] = zsimp(z3.If(c, bv(a, w), bv(b, w)))
                    fr.idx += 1
            elif op == 'switch':
                v = self.operand(st, ins.ty, ins.a)
                w = ins.ty[1]
                if isinstance(v, int):
                    for c, l in ins.c:
                        if (c & ((1 << w) - 1)) == v:
                            self.jump(st, l)
                            return None
                    self.jump(st, ins.b)
                    return None
                alts = []
                for c, l in ins.c:
                    alts.append((v == z3.BitVecVal(c, w), l))
                alts.append((z3.And(*[v != z3.BitVecVal(c, w) for c, l in ins.c]) if ins.c else z3.BoolVal(True), ins.b))
                return self.branch(st, alts)
            elif op == 'extractvalue':
                v = self.operand(st, ins.ty, ins.a)
                for k in ins.b:
                    if v is UNDEF:
                        break
                    v = v[k]
                if v is UNDEF:
                    t = ins.ty
                    for k in ins.b:
                        t = t[1][k]
                    v = self.undef(t)
                fr.regs[ins.res] = v
                fr.idx += 1
            elif op == 'insertvalue':
                v = self.operand(st, ins.ty, ins.a)
                e = self.operand(st, ins.d, ins.b)
                v = list(v) if v is not UNDEF else [UNDEF] * 8
                if len(ins.c) != 1:
                    raise Unsupported('nested insertvalue')
                v[ins.c[0]] = e
                fr.regs[ins.res] = tuple(v)
                fr.idx += 1
            elif op == 'cmpxchg':
                return self.do_cmpxchg(st, ins)
            elif op == 'atomicrmw':
                return self.do_rmw(st, ins)
            elif op == 'unreachable':
                self.kill(st, 'unreachable')
                return None
            elif op == 'landingpad':
                return self.do_landingpad(st, ins)
            elif op == 'resume':
                return self.unwind(st)
            elif op == 'fence':
                fr.idx += 1
            elif op == 'asm':
                if ins.res:
                    raise Unsupported('inline asm with result')
                fr.idx += 1
            elif op in ('fcmp', 'fbin'):
                fr.regs[ins.res] = fresh_bool('fcmp') if op == 'fcmp' else ('float', None)
                fr.idx += 1
            else:
                raise Unsupported('exec ' + op)

    def ovf_check(self, st, ins, fn):
        d = dem(fn.name)
        return d.startswith('xdispatch::') and getattr(self, 'check_overflow', False)

    def check_nsw(self, st, ins, a, b):
        w = ins.ty[1]
        x, y = bv(a, w), bv(b, w)
        xs, ys = z3.SignExt(w, x), z3.SignExt(w, y)
        r = {'add': xs + ys, 'sub': xs - ys, 'mul': xs * ys}[ins.c]
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        self.prove(st, z3.And(r >= lo, r <= hi), 'no signed overflow')

    def jump(self, st, label):
        fr = st.frames[-1]
        fr.prev = fr.block
        fr.block = label
        fr.idx = 0

    def line_of(self, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.idx]
        return fr.fn.mod.dbg_line(ins.dbg)

    def branch(self, st, alts):
        out = []
        n = len(alts)
        ln = self.line_of(st)
        fname = dem(st.frames[-1].fn.name).split('(')[0]
        feas = []
        for c, l in alts:
            if self.feasible(st, c):
                feas.append((c, l))
        if not feas:
            self.kill(st, 'infeasible')
            return [st]
        for k, (c, l) in enumerate(feas):
            s = st.fork() if k < len(feas) - 1 else st
            if len(feas) > 1:
                s.assume(c)
                if 'xdispatch' in fname:
                    s.trace.append('%s:%s branch %s' % (fname, ln, l))
            self.jump(s, l)
            out.append(s)
        return out

    def deliver_fork(self, f, ins):
        out = []
        for s, v in f.items:
            if isinstance(v, Fork):
                out.extend(self.deliver_fork(v, ins))
                continue
            if isinstance(v, Kill):
                self.kill(s, v.why)
                out.append(s)
                continue
            fr = s.frames[-1]
            if ins.res is not None:
                fr.regs[ins.res] = v
            fr.idx += 1
            out.append(s)
        return out

    # ---- calls
    def do_call(self, st, ins):
        fr = st.frames[-1]
        callee = ins.a
        args = [self.operand(st, t, v) if t != 'metadata' else None for t, v, a in ins.b]
        if callee[0] == 'g':
            mod = fr.fn.mod
            sym = callee[1]
            if sym in mod.aliases:
                sym = mod.aliases[sym]
            return self.invoke(st, ins, mod, sym, args)
        fv = self.operand(st, 'ptr', callee)
        if isinstance(fv, Fn):
            return self.invoke(st, ins, fv.mod, fv.name, args)
        if isinstance(fv, Ptr) and fv.obj is not None and fv.obj.kind == 'vfn':
            return self.vinvoke(st, ins, fv.obj, args)
        if isinstance(fv, Ptr) and fv.obj is None:
            self.prove(st, False, 'no call through null', self.where(st))
            self.kill(st, 'null call')
            return [st]
        if isinstance(fv, Ptr) and fv.obj.meta.get('fnptr'):
            return self.opaque_fn(st, ins, fv, args)
        raise Unsupported('indirect call through %r in %s' % (fv, dem(fr.fn.name)[:100]))

    def opaque_fn(self, st, ins, fv, args):
        c = self.mkcall(st, ins, 'opaque_fn', 'opaque_fn ' + fv.obj.name, args)
        h = fv.obj.meta['fnptr']
        return self.finish_call(st, ins, h(self, st, c))

    def mkcall(self, st, ins, sym, name, args):
        c = Call()
        c.ins = ins
        c.sym = sym
        c.name = name
        c.args = args
        c.atys = [t for t, v, a in ins.b]
        c.attrs = [a for t, v, a in ins.b]
        c.ret = ins.ty
        c.fr = st.frames[-1]
        c.fn = None
        return c

    def lookup(self, name):
        r = self._mcache.get(name)
        if r is None:
            r = []
            for rx, h in self.contracts:
                if rx.search(name):
                    r.append(h)
            for rx, h in self.models:
                if rx.search(name):
                    r.append(h)
            self._mcache[name] = r
        return r

    def invoke(self, st, ins, mod, sym, args):
        name = dem(sym)
        for h in self.lookup(name):
            c = self.mkcall(st, ins, sym, name, args)
            c.fn = (mod, sym)
            # `this` and references
            for a, t in zip(args, c.attrs or ()):
                if 'nonnull' in t and isinstance(a, Ptr) and a.obj is None:
                    self.prove(st, False, 'no null dereference', name[:120])
                    return self.finish_call(st, ins, Kill('null'))
            r = h(self, st, c)
            if r is not SKIP:
                if self.mode == 0:
                    self.used_models[name.split('(')[0][:160]] = self.used_models.get(name.split('(')[0][:160], 0) + 1
                return self.finish_call(st, ins, r)
        if sym.startswith('llvm.'):
            return self.finish_call(st, ins, self.intrinsic(st, ins, sym, args))
        fn = self.p.find(sym, mod)
        if fn is None:
            raise Unsupported('no body and no contract for ' + name)
        self.push(st, fn, args, ins)
        return None

    def vinvoke(self, st, ins, vobj, args):
        cls, slot = vobj.meta['vcls'], vobj.meta['slot']
        name = self.vname(cls, slot)
        if name is None:
            raise Unsupported('virtual call: slot %s of %s' % (slot, cls))
        for h in self.lookup('virtual ' + name):
            c = self.mkcall(st, ins, 'virtual', 'virtual ' + name, args)
            r = h(self, st, c)
            if r is not SKIP:
                if self.mode == 0:
                    self.used_models['virtual ' + name] = self.used_models.get('virtual ' + name, 0) + 1
                return self.finish_call(st, ins, r)
        raise Unsupported('virtual call without contract: ' + name)

    def vname(self, cls, slot):
        """qualified name of virtual function `slot` of static class cls, from debug info"""
        if cls not in self.p.classes:
            return None
        m, mid = self.p.classes[cls]
        n = m.mdnode(mid)
        el = n.get('elements')
        bases = []
        if el:
            for e in m.mdnode(el[1]).get('list', []):
                if e is None:
                    continue
                d = m.mdnode(e)
                if d['_'] == 'DISubprogram' and 'virtualIndex' in d and int(d['virtualIndex']) == slot:
                    nm = d.get('name')
                    if nm.startswith('~'):
                        return '%s::%s' % (cls, nm)
                    return '%s::%s' % (cls, nm)
                if d['_'] == 'DISubprogram' and d.get('name', '').startswith('~') and 'virtualIndex' in d and slot == int(d['virtualIndex']) + 1:
                    return '%s::%s' % (cls, d['name'])
                if d.get('tag') == 'DW_TAG_inheritance':
                    tn, tk, tid = self.p.tyname(m, d['baseType'])
                    bases.append(tn)
        for b in bases:
            r = self.vname(b, slot)
            if r:
                return r
        return None

    def finish_call(self, st, ins, r):
        """deliver a handler result"""
        if isinstance(r, Fork):
            out = []
            for s, v in r.items:
                x = self.finish_call(s, ins, v)
                out.extend([s] if x is None else x)
            return out
        if isinstance(r, Kill):
            self.kill(st, r.why)
            return [st]
        if isinstance(r, Throw):
            st.exc = r.exc
            return self.unwind(st, from_call=ins)
        if isinstance(r, Inline):
            self.push(st, r.fn, r.args, ins, r.cont)
            return None
        fr = st.frames[-1]
        if ins.res is not None:
            fr.regs[ins.res] = r
        if ins.op == 'invoke':
            self.jump(st, ins.c)
        else:
            fr.idx += 1
        return None

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for o in fr.allocas:
            st.mem.pop(o.id, None)
            st.types.pop(o.id, None)
            st.dead.add(o.id)
        cont = fr.cont
        if cont is not None:
            v = cont(self, st, v)
        if fr.call is None:
            # root or continuation-driven
            if cont is not None and isinstance(v, (Inline, Fork, Throw, Kill)):
                if isinstance(v, Inline):
                    self.push(st, v.fn, v.args, None, v.cont)
                    return None
                if isinstance(v, Fork):
                    out = []
                    for s, x in v.items:
                        if isinstance(x, Inline):
                            self.push(s, x.fn, x.args, None, x.cont)
                        elif isinstance(x, Kill):
                            self.kill(s, x.why)
                        else:
                            s.ret = x
                            s.status = 'ret'
                        out.append(s)
                    return out
                if isinstance(v, Kill):
                    self.kill(st, v.why)
                    return [st]
                if isinstance(v, Throw):
                    st.exc = v.exc
                    return self.unwind(st)
            st.ret = v
            st.status = 'ret'
            return [st]
        r = self.finish_call(st, fr.call, v)
        return [st] if r is None else r

    # ---- exceptions
    def unwind(self, st, from_call=None):
        while st.frames:
            fr = st.frames[-1]
            if from_call is not None:
                ins = from_call
                from_call = None
                if ins.op == 'invoke':
                    self.jump(st, ins.d)
                    return [st]
            # pop this frame, look at its call site in the caller
            st.frames.pop()
            for o in fr.allocas:
                st.mem.pop(o.id, None)
                st.dead.add(o.id)
            if fr.call is None:
                break
            if fr.call.op == 'invoke':
                self.jump(st, fr.call.d)
                return [st]
        st.status = 'exc'
        return [st]

    def do_landingpad(self, st, ins):
        fr = st.frames[-1]
        exc = st.exc
        sel = 0
        for c in ins.a:
            if c[0] == 'catch':
                tv = self.operand(st, 'ptr', c[1])
                if isinstance(tv, Ptr) and tv.obj is None:
                    sel = 1
                    break
                tn = tv.obj.meta.get('gname', tv.obj.name)
                if exc_matches(exc, tn):
                    sel = self.typeid(tn)
                    break
        fr.regs[ins.res] = (Ptr(exc['obj'], 0), sel)
        fr.idx += 1
        return None

    def typeid(self, tn):
        d = self.__dict__.setdefault('_tids', {})
        if tn not in d:
            d[tn] = len(d) + 2
        return d[tn]

    def tid(self, st):
        t = st.g.get('_tid')
        if t is None:
            t = z3.BitVec('tid', 64)
            st.assume(t != 0)
            st.g['_tid'] = t
        return t

    # ---- intrinsics
    def intrinsic(self, st, ins, sym, args):
        if sym.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.va_')):
            return None
        if sym.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = args[2]
            if not isinstance(n, int):
                n = zsimp(n)
                if not isinstance(n, int):
                    raise Unsupported('memcpy symbolic length')
            return self.copy_mem(st, args[0], args[1], n, st.frames[-1].fn.mod)
        if sym.startswith('llvm.memset'):
            p, b, n = args[0], args[1], args[2]
            if not isinstance(n, int) or not isinstance(b, int):
                raise Unsupported('symbolic memset')
            if n == 0:
                return None
            if not self.resolve_ptr(st, p, 'memset'):
                return Kill('null memset')
            off = self.conc_off(st, p)
            self.access(st, p.obj, off, n, True, False, None)
            m = st.om(p.obj)
            for o in [o for o, (s, _) in m.cells.items() if o < off + n and off < o + s]:
                del m.cells[o]
                st.wr.add(('cell', p.obj, o))
            m.regions.append((off, off + n, b))
            return None
        if sym.startswith('llvm.eh.typeid.for'):
            return self.typeid(args[0].obj.meta.get('gname', args[0].obj.name))
        if sym.startswith('llvm.trap'):
            self.prove(st, False, 'trap not reached')
            return Kill('trap')
        if re.match(r'llvm\.(umax|umin|smax|smin)\.', sym):
            w = ins.ty[1]
            k = sym.split('.')[1]
            c = self.icmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], ins.ty, args[0], args[1])
            c = as_bool(c)
            if isinstance(c, bool):
                return args[0] if c else args[1]
            return zsimp(z3.If(c, bv(args[0], w), bv(args[1], w)))
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', sym)
        if m:
            w = int(m.group(3))
            a, b = bv(args[0], w), bv(args[1], w)
            ext = z3.ZeroExt if m.group(1) == 'u' else z3.SignExt
            ea, eb = ext(w, a), ext(w, b)
            r = {'add': ea + eb, 'sub': ea - eb, 'mul': ea * eb}[m.group(2)]
            lo = z3.Extract(w - 1, 0, r)
            return (zsimp(lo), zsimp(ext(w, lo) != r))
        if sym.startswith(('llvm.threadlocal.address', 'llvm.launder', 'llvm.strip')):
            return args[0]
        if sym.startswith('llvm.is.constant'):
            return 0
        if sym.startswith('llvm.expect'):
            return args[0]
        if sym.startswith('llvm.x86.sse2.pause'):
            return None
        raise Unsupported('intrinsic ' + sym)

    # ---- atomics
    def atomic_pre(self, st, p, ty, op):
        """interference before an atomic access to shared data; None if not spec'd, else list of states"""
        if not isinstance(p, Ptr) or p.obj is None:
            return None
        b = self.base_spec(st, p.obj, p.off if isinstance(p.off, int) else 0)
        if not b or not isinstance(p.off, int):
            return None
        base, cls, sp = b
        if not sp.is_shared(self, st, Ptr(p.obj, base)):
            return None
        st.epoch += 1
        r = sp.atomic_pre(self, st, Ptr(p.obj, base), p.off - base, ty, op)
        return [st] if r is None else r

    def atomic_post(self, st, p, ty, op, old, new, ok):
        b = self.base_spec(st, p.obj, p.off)
        if b:
            base, cls, sp = b
            if sp.is_shared(self, st, Ptr(p.obj, base)):
                r = sp.atomic_post(self, st, Ptr(p.obj, base), p.off - base, op, old, new)
                return [st] if r is None else r
        return [st]

    def do_cmpxchg(self, st, ins):
        fn = st.frames[-1].fn
        p = self.operand(st, 'ptr', ins.a)
        exp = self.operand(st, ins.ty, ins.b)
        new = self.operand(st, ins.ty, ins.c)
        if not self.resolve_ptr(st, p, 'cmpxchg'):
            self.kill(st, 'null')
            return [st]
        pre = self.atomic_pre(st, p, ins.ty, 'cas')
        states = [st] if pre is None else pre
        out = []
        for s in states:
            old = self.load(s, p, ins.ty, fn.mod, True)
            eq = as_bool(self.icmp(s, 'eq', ins.ty, old, exp))
            # success
            succ = s.fork()
            if self.feasible(succ, eq):
                if not isinstance(eq, bool):
                    succ.assume(eq)
                self.store(succ, p, ins.ty, new, fn.mod, True)
                f = succ.frames[-1]
                f.regs[ins.res] = (exp, 1)
                f.idx += 1
                if pre is not None:
                    out.extend(self.atomic_post(succ, p, ins.ty, 'cas', exp, new, True))
                else:
                    out.append(succ)
            fail = s.fork()
            if not self.feasible(fail, Not(eq)):
                pass
            else:
                if not isinstance(eq, bool):
                    fail.assume(Not(eq))
                f = fail.frames[-1]
                f.regs[ins.res] = (old, 0)
                f.idx += 1
                if pre is not None:
                    out.extend(self.atomic_post(fail, p, ins.ty, 'load', old, old, False))
                else:
                    out.append(fail)
            if ins.d and pre is not None:  # weak: may fail spuriously
                sp = s
                if self.feasible(sp, eq):
                    if not isinstance(eq, bool):
                        sp.assume(eq)
                    sp.trace.append('spurious failure of compare_exchange_weak at %s' % self.where(sp))
                    f = sp.frames[-1]
                    f.regs[ins.res] = (old, 0)
                    f.idx += 1
                    out.extend(self.atomic_post(sp, p, ins.ty, 'load', old, old, False))
        return out

    def do_rmw(self, st, ins):
        fn = st.frames[-1].fn
        p = self.operand(st, 'ptr', ins.a)
        v = self.operand(st, ins.ty, ins.b)
        if not self.resolve_ptr(st, p, 'atomicrmw'):
            self.kill(st, 'null')
            return [st]
        pre = self.atomic_pre(st, p, ins.ty, 'rmw')
        states = [st] if pre is None else pre
        out = []
        for s in states:
            old = self.load(s, p, ins.ty, fn.mod, True)
            if ins.c == 'xchg':
                new = v
            elif ins.c in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.binop(s, ins.c, ins.ty, old, v)
            else:
                raise Unsupported('atomicrmw ' + ins.c)
            self.store(s, p, ins.ty, new, fn.mod, True)
            f = s.frames[-1]
            f.regs[ins.res] = old
            f.idx += 1
            if pre is not None:
                out.extend(self.atomic_post(s, p, ins.ty, 'rmw', old, new, True))
            else:
                out.append(s)
        return out

    # ------------------------------------------------------------ events
    def event(self, st, kind, **kw):
        st.ev.append((kind, {k: v for k, v in kw.items()}))
        st.epoch += 1
        for m in getattr(self, 'monitors', ()):
            m(self, st, kind, kw)


EXC_BASES = {
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'],
    'user': ['_ZTISt9exception'],
}


def exc_matches(exc, tn):
    t = exc['type']
    return t == tn or tn in EXC_BASES.get(t, [])


_ctor = {}


def ctor_class(d):
    r = _ctor.get(d)
    if r is None:
        r = _ctor[d] = _ctor_class(d) or ''
    return r


def split_name(d):
    """qualified function name without parameter list / return type, template-aware -> list of components"""
    depth = 0
    out = []
    cur = ''
    i = 0
    n = len(d)
    while i < n:
        c = d[i]
        if c in '<{' or (c == '(' and depth > 0):
            depth += 1
            cur += c
        elif c in '>}' or (c == ')' and depth > 0):
            if c == '>' and cur.endswith('-'):
                cur += c
            else:
                depth -= 1
                cur += c
        elif c == '(' and depth == 0:
            if d.startswith('(anonymous namespace)', i):
                cur += '(anonymous namespace)'
                i += len('(anonymous namespace)')
                continue
            break
        elif c == ' ' and depth == 0 and not cur.startswith('operator'):
            cur = ''
            out = []
        elif c == ':' and depth == 0 and d[i:i + 2] == '::':
            out.append(cur)
            cur = ''
            i += 1
        else:
            cur += c
        i += 1
    out.append(cur)
    return out


def _ctor_class(d):
    # A::B<..>::B(...)
    parts = split_name(d)
    if len(parts) >= 2:
        last = parts[-1]
        cls = re.sub(r'<.*$', '', parts[-2])
        lastb = re.sub(r'<.*$', '', last)
        if lastb == cls:
            return '::'.join(parts[:-1])
    return None
