"""Assumed contracts for the C++ runtime and standard library (the trusted base).

Everything not listed here (shared_ptr, unique_ptr, std::function, lock_guard,
unique_lock, chrono arithmetic, tuple, std::bind ...) is executed from the real
libstdc++ code in the extracted IR.
"""
import re
import z3
from .ir import Unsupported, dem, ity
from .sym import (Obj, Ptr, Fn, NULL, UNDEF, Fork, Inline, Throw, Kill, SKIP, And, Or, Not, Implies, is_sym, bv,
                  fresh, fresh_bool, zsimp, as_bool, from_bool, signed, split_name)

REG = []


def model(rx):
    def deco(f):
        REG.append((re.compile(rx), f))
        return f
    return deco


def meth(name):
    p = split_name(name)
    return p[-1], p[-2] if len(p) > 1 else ''


_tp = {}


def targ(name, cont):
    """first template argument of `cont<...>` in a demangled name"""
    k = (name, cont)
    if k in _tp:
        return _tp[k]
    i = name.index(cont + '<') + len(cont) + 1
    d = 0
    j = i
    while True:
        c = name[j]
        if c in '<({':
            d += 1
        elif c in ')}':
            d -= 1
        elif c == '>' and name[j - 1] != '-':
            if d == 0:
                break
            d -= 1
        elif c == ',' and d == 0:
            break
        j += 1
    r = name[i:j].strip()
    _tp[k] = r
    return r


# ------------------------------------------------------------------ memory
@model(r'^operator new(\[\])?\(unsigned long')
def op_new(ex, st, c):
    n = c.args[0]
    o = Obj('heap', n if isinstance(n, int) else None, 'heap')
    return Ptr(o, 0)


@model(r'^operator delete(\[\])?\(void\*')
def op_delete(ex, st, c):
    p = c.args[0]
    if isinstance(p, Ptr) and p.obj is not None:
        if p.obj.id in st.dead:
            ex.prove(st, False, 'no double delete', repr(p.obj))
            return Kill('double delete')
        ex.event(st, 'DELETE', obj=p.obj)
        st.dead.add(p.obj.id)
    return None


# ------------------------------------------------------------------ exceptions / termination
@model(r'^__cxa_allocate_exception$')
def cxa_alloc(ex, st, c):
    return Ptr(Obj('exc', None, 'heap'), 0)


@model(r'^__cxa_free_exception$')
def cxa_free(ex, st, c):
    return None


@model(r'^__cxa_throw$')
def cxa_throw(ex, st, c):
    ti = c.args[1]
    return Throw({'type': ti.obj.meta.get('gname', ti.obj.name), 'obj': c.args[0].obj})


@model(r'^__cxa_rethrow$')
def cxa_rethrow(ex, st, c):
    e = st.exc or st.g.get('_curexc')
    if e is None:
        raise Unsupported('rethrow without exception')
    return Throw(e)


@model(r'^__cxa_begin_catch$')
def cxa_begin(ex, st, c):
    st.g['_curexc'] = st.exc
    return c.args[0]


@model(r'^__cxa_end_catch$')
def cxa_end(ex, st, c):
    return None


@model(r'^(__clang_call_terminate|std::terminate\(\)|abort|std::abort|__assert_fail)')
def terminate(ex, st, c):
    h = ex.terminate_hook
    if h:
        r = h(ex, st, c)
        if r is not None:
            return r
    ex.prove(st, False, 'no std::terminate / assertion failure', ex.where(st))
    return Kill('terminate')


@model(r'^std::(logic_error|runtime_error|exception|bad_alloc|out_of_range|invalid_argument|system_error|bad_weak_ptr|length_error|bad_function_call)::')
def exc_members(ex, st, c):
    m, _ = meth(c.name)
    if m == 'what':
        return Ptr(Obj('what', None, 'opaque'), 0)
    return None


@model(r'^std::uncaught_exception')
def unc(ex, st, c):
    return 1 if st.exc is not None else 0


@model(r'^std::__throw_(\w+)')
def std_throw(ex, st, c):
    m = re.search(r'std::__throw_(\w+)', c.name).group(1)
    t = {'bad_weak_ptr': '_ZTISt12bad_weak_ptr', 'system_error': '_ZTISt12system_error', 'logic_error': '_ZTISt11logic_error',
         'bad_alloc': '_ZTISt9bad_alloc', 'out_of_range': '_ZTISt12out_of_range', 'out_of_range_fmt': '_ZTISt12out_of_range',
         'length_error': '_ZTISt11logic_error', 'bad_function_call': '_ZTISt9exception',
         'bad_array_new_length': '_ZTISt9bad_alloc'}.get(m, '_ZTISt9exception')
    return Throw({'type': t, 'obj': Obj('exc', None, 'heap')})


# ------------------------------------------------------------------ static initialisation
@model(r'^__cxa_guard_acquire$')
def guard_acq(ex, st, c):
    k = ('_guard', c.args[0].obj.id)
    if st.g.get(k):
        return 0
    st.g[k] = True
    return 1


@model(r'^__cxa_guard_(release|abort)$')
def guard_rel(ex, st, c):
    return None


@model(r'^__cxa_(atexit|thread_atexit)$')
def atexit(ex, st, c):
    return 0


@model(r'^__tls_init$|^TLS (wrapper|init) function')
def tls_wrap(ex, st, c):
    h = ex.tls_hook
    if h:
        return h(ex, st, c)
    return SKIP


# ------------------------------------------------------------------ mutex / condition variable / threads
def lock_key(p):
    return (p.obj.id, p.off)


def do_acquire(ex, st, p):
    k = lock_key(p)
    if any(h[0] == k for h in st.held):
        ex.prove(st, False, 'no self-deadlock: mutex already held by this thread', repr(p))
        return Kill('self deadlock')
    b = ex.base_spec(st, p.obj, p.off)
    if ex.lock_order and st.held:
        ex.lock_order(ex, st, p)
    st.held.append((k, p))
    st.epoch += 1
    if b and b[2].is_shared(ex, st, Ptr(p.obj, b[0])):
        return b[2].acquire(ex, st, Ptr(p.obj, b[0]), p.off - b[0])
    return None


def do_release(ex, st, p):
    k = lock_key(p)
    if not any(h[0] == k for h in st.held):
        ex.prove(st, False, 'unlock of a mutex held by this thread', repr(p))
        return Kill('unlock not held')
    b = ex.base_spec(st, p.obj, p.off)
    st.epoch += 1
    r = None
    if b and b[2].is_shared(ex, st, Ptr(p.obj, b[0])):
        r = b[2].release(ex, st, Ptr(p.obj, b[0]), p.off - b[0])
    st.held = [h for h in st.held if h[0] != k]
    return r


@model(r'^std::(recursive_)?mutex::lock\(\)$')
def mutex_lock(ex, st, c):
    p = c.args[0]
    if not ex.resolve_ptr(st, p, 'mutex'):
        return Kill('null')
    return do_acquire(ex, st, p)


@model(r'^std::(recursive_)?mutex::try_lock\(\)$')
def mutex_try(ex, st, c):
    p = c.args[0]
    s2 = st.fork()
    if any(h[0] == lock_key(p) for h in st.held):
        return 0
    r = do_acquire(ex, st, p)
    if isinstance(r, Fork):
        return Fork([(s, 1) for s, _ in r.items] + [(s2, 0)])
    return Fork([(st, 1), (s2, 0)])


@model(r'^std::(recursive_)?mutex::unlock\(\)$')
def mutex_unlock(ex, st, c):
    return do_release(ex, st, c.args[0])


@model(r'^std::condition_variable::(condition_variable|~condition_variable)\(')
def cv_ctor(ex, st, c):
    return None


@model(r'^std::condition_variable::notify_(one|all)\(\)')
def cv_notify(ex, st, c):
    p = c.args[0]
    all_ = 'notify_all' in c.name
    ex.event(st, 'NOTIFY', cv=p, all=all_)
    b = ex.base_spec(st, p.obj, p.off)
    if b and b[2].is_shared(ex, st, Ptr(p.obj, b[0])):
        b[2].notify(ex, st, Ptr(p.obj, b[0]), p.off - b[0], all_)
    return None


def ul_mutex(ex, st, ul):
    """mutex pointer inside a std::unique_lock"""
    return ex.load_raw(st, ul.obj, ul.off, 8, 'ptr')


def cv_wait_core(ex, st, c, cv, ul, timed):
    m = ul_mutex(ex, st, ul)
    if not any(h[0] == lock_key(m) for h in st.held):
        ex.prove(st, False, 'condition_variable::wait with the lock held')
        return Kill('wait without lock')
    ex.prove(st, True, 'condition_variable::wait with the lock held')
    others = [h for h in st.held if h[0] != lock_key(m)]
    ex.prove(st, not others, 'no other lock held while waiting', str(others))
    b = ex.base_spec(st, cv.obj, cv.off)
    if b and b[2].is_shared(ex, st, Ptr(cv.obj, b[0])):
        b[2].before_wait(ex, st, Ptr(cv.obj, b[0]), cv.off - b[0], timed)
    ex.event(st, 'WAIT', cv=cv, timed=timed)
    r = do_release(ex, st, m)
    if isinstance(r, (Fork, Kill)):
        raise Unsupported('forking release')
    r = do_acquire(ex, st, m)
    return r


@model(r'^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)')
def cv_wait(ex, st, c):
    return cv_wait_core(ex, st, c, c.args[0], c.args[1], False)


@model(r'^std::cv_status std::condition_variable::__wait_until_impl<')
def cv_wait_until(ex, st, c):
    atime = ex.load(st, c.args[2], ity(64), st.frames[-1].fn.mod)
    r = cv_wait_core(ex, st, c, c.args[0], c.args[1], True)
    st.g['timedwait'] = True

    def fin(s):
        out = []
        s2 = s.fork()
        out.append((s, 0))
        now = advance(ex, s2)
        s2.assume(now >= bv(atime, 64))
        if ex.feasible(s2):
            out.append((s2, 1))
        return out
    if isinstance(r, Fork):
        return Fork([x for s, _ in r.items for x in fin(s)])
    if isinstance(r, Kill):
        return r
    return Fork(fin(st))


# time: a monotone clock, bounded far away from overflow
def advance(ex, st):
    old = st.g.get('_now')
    n = fresh(64, 'now')
    st.assume(n >= (old if old is not None else 0))
    st.assume(n < (1 << 61))
    st.g['_now'] = n
    return n


def ns_norm(st, d, ns, ex):
    """(c * x) * ns == x * (c * ns) where nothing overflows"""
    d = z3.simplify(bv(d, 64))
    if ex is not None and z3.is_app_of(d, z3.Z3_OP_BMUL) and d.num_args() == 2 and z3.is_bv_value(d.arg(0)):
        c, x = d.arg(0).as_signed_long(), d.arg(1)
        if 0 < c < (1 << 32) and ex.valid_quick(st, And(x >= 0, x < (1 << 60) // (ns * c))):
            return ns_norm(st, x, ns * c, ex)
    return d, ns


def ns_of(st, d, ns, ex=None):
    """d * ns, kept symbolic: multiplications are only unfolded where a proof needs them (with_ns)"""
    d, ns = ns_norm(st, d, ns, ex)
    k = (d.get_id(), ns)
    m = st.g.get('_nsof', {})
    if k not in m:
        if z3.is_bv_value(d):
            p = z3.BitVecVal(d.as_signed_long() * ns, 64)
        else:
            p = fresh(64, 'ns')
            st.assume(Implies(And(d >= 0, d < (1 << 60) // ns), And(p >= 0, p < (1 << 60), (p == 0) == (d == 0))))
        m = dict(m)
        m[k] = (p, d)
        st.g['_nsof'] = m
    return m[k][0]


def valid_ns(ex, st, c):
    if ex.valid_quick(st, c):
        return True
    m = st.g.get('_nsof', {})
    s = st.fork()
    for (i, ns), (p, d) in m.items():
        if not z3.is_bv_value(p):
            s.assume(Implies(And(d >= 0, d < (1 << 60) // ns), p == d * ns))
    return ex.valid(s, c)


@model(r'^std::chrono::_V2::(steady|system)_clock::now\(\)')
def clock_now(ex, st, c):
    return advance(ex, st)


@model(r'std::this_thread::sleep_for<')
def sleep_for(ex, st, c):
    k = re.search(r'std::this_thread::sleep_for<long, std::ratio<1l, (\d+)l>', c.name)
    d = ex.load(st, c.args[0], ity(64), st.frames[-1].fn.mod)
    ex.event(st, 'SLEEP', d=d, per=int(k.group(1)) if k else None)
    old = st.g.get('_now')
    n = advance(ex, st)
    if k and old is not None:
        ns = 1000000000 // int(k.group(1))
        db, ns = ns_norm(st, d, ns, ex)
        st.assume(Implies(And(db >= 0, db < (1 << 60) // ns), n >= old + ns_of(st, db, ns, ex)))
    return None


@model(r'^std::this_thread::yield\(\)')
def th_yield(ex, st, c):
    st.epoch += 1
    return None


@model(r'^std::this_thread::get_id\(\)')
def th_id(ex, st, c):
    return ex.tid(st)


@model(r'^pthread_self$')
def p_self(ex, st, c):
    return ex.tid(st)


@model(r'^std::thread::hardware_concurrency')
def hwc(ex, st, c):
    return fresh(32, 'hwconc')


@model(r'^std::thread::_M_start_thread\(')
def start_thread(ex, st, c):
    this, up = c.args[0], c.args[1]
    statep = ex.load_raw(st, up.obj, up.off, 8, 'ptr') if isinstance(up, Ptr) else up
    # the new thread takes ownership of the state object
    ex.store_raw(st, up.obj, up.off, 8, NULL)
    idv = fresh(64, 'newtid')
    st.assume(idv != 0)
    ex.store_raw(st, this.obj, this.off, 8, idv)
    ex.event(st, 'THREAD', state=statep, thread=this)
    return None


@model(r'^std::thread::detach\(\)')
def th_detach(ex, st, c):
    ex.store_raw(st, c.args[0].obj, c.args[0].off, 8, 0)
    ex.event(st, 'DETACH', thread=c.args[0])
    return None


@model(r'^std::thread::join\(\)')
def th_join(ex, st, c):
    ex.event(st, 'JOIN', thread=c.args[0])
    ex.store_raw(st, c.args[0].obj, c.args[0].off, 8, 0)
    return None


# ------------------------------------------------------------------ tracing, streams, strings, environment
TRACING = z3.BitVec('tracing enabled', 1)


@model(r'^xdispatch::trace_utils::is_(trace|debug)_enabled\(\)')
def tr_en(ex, st, c):
    return getattr(ex, 'tracing', TRACING)


@model(r'^xdispatch::(trace_utils::)?trace_stream::|xdispatch::trace_stream& xdispatch::operator<<|^xdispatch::trace_stream::')
def tr_stream(ex, st, c):
    if c.args and isinstance(c.args[0], Ptr):
        return c.args[0]
    return None


@model(r'std::(basic_)?ostream|std::basic_ostream|std::__cxx11::basic_o?stringstream|std::basic_ios|std::ios_base|^std::endl')
def streams(ex, st, c):
    d = c.name
    n, cl = meth(d)
    if c.ret == 'ptr':
        return c.args[0]
    if c.attrs and 'sret' in c.attrs[0]:
        set_str(ex, st, c.args[0], ('sym', 'stream'))
        return None
    if c.ret == 'void' or c.ret is None:
        return None
    raise Unsupported('stream ' + d[:100])


def set_str(ex, st, p, tok):
    st.om(p.obj).abs[p.off] = tok
    st.wr.add(('abs', p.obj, p.off))


def get_str(ex, st, p):
    m = st.rm(p.obj)
    t = m.abs.get(p.off)
    if t is None:
        t = ('sym', '%s+%s' % (p.obj.name, p.off))
        st.om(p.obj).abs[p.off] = t
    return t


def cstr_tok(ex, st, p):
    if p.obj is None:
        return ('null',)
    if p.obj.kind == 'glob' and p.obj.meta.get('init') and p.obj.meta['init'][2] and p.obj.meta['init'][2][0] == 'str':
        b = p.obj.meta['init'][2][1][p.off:]
        return ('lit', b.split(b'\0')[0].decode('latin1'))
    if 'cstr' in p.obj.meta:
        return p.obj.meta['cstr']
    return ('sym', repr(p.obj))


STR = r'std::__cxx11::basic_string<char'


@model(r'^' + STR + r'|' + STR + r'.*> (std::operator\+|std::__cxx11::to_string)|^std::__cxx11::to_string|^bool std::operator(==|!=)<char|^std::__str_concat|' + STR + r'.*std::__str_concat')
def string(ex, st, c):
    n, cl = meth(c.name)
    a = c.args
    if n.startswith('basic_string'):
        if len(a) > 1 and isinstance(a[1], Ptr):
            sig = c.name[c.name.index('basic_string', 30) if False else 0:]
            if re.search(r'basic_string(<std::allocator<char>, void>|<std::allocator<char>>)?\(char const\*', c.name) or 'basic_string<' in n:
                set_str(ex, st, a[0], cstr_tok(ex, st, a[1]))
            elif re.search(r'basic_string\((std::__cxx11::)?basic_string<char', c.name) or 'basic_string(std::__cxx11' in c.name:
                set_str(ex, st, a[0], get_str(ex, st, a[1]))
            else:
                set_str(ex, st, a[0], cstr_tok(ex, st, a[1]))
        else:
            set_str(ex, st, a[0], ('lit', ''))
        return None
    if n.startswith('~basic_string'):
        return None
    if n == 'operator=':
        src = a[1]
        if '(char const*)' in c.name:
            set_str(ex, st, a[0], cstr_tok(ex, st, src))
        else:
            set_str(ex, st, a[0], get_str(ex, st, src))
        return a[0]
    if n.startswith('operator+') and not n.startswith('operator+='):
        l = get_tok(ex, st, c, 1)
        r = get_tok(ex, st, c, 2)
        set_str(ex, st, a[0], cat(l, r))
        return None
    if n in ('append', 'operator+=', 'push_back'):
        set_str(ex, st, a[0], cat(get_str(ex, st, a[0]), cstr_tok(ex, st, a[1]) if 'char const*' in c.name else get_str(ex, st, a[1]) if isinstance(a[1], Ptr) else ('sym', 'ch')))
        return a[0]
    if n in ('c_str', 'data'):
        o = Obj('cstr', None, 'opaque')
        o.meta['cstr'] = get_str(ex, st, a[0])
        return Ptr(o, 0)
    if n.startswith('to_string'):
        v = a[1] if c.attrs and 'sret' in c.attrs[0] else a[0]
        set_str(ex, st, a[0], ('num', str(v)))
        return None
    if n in ('empty',):
        t = get_str(ex, st, a[0])
        if t[0] == 'lit':
            return 1 if t[1] == '' else 0
        return st.g.setdefault(('_strempty', t), fresh_bool('strempty'))
    if n in ('size', 'length'):
        t = get_str(ex, st, a[0])
        if t[0] == 'lit':
            return len(t[1])
        return st.g.setdefault(('_strlen', t), fresh(64, 'strlen'))
    if n.startswith('operator==') or n.startswith('operator!='):
        x, y = get_tok(ex, st, c, 0), get_tok(ex, st, c, 1)
        if x == y:
            r = True
        elif x[0] == 'lit' and y[0] == 'lit':
            r = False
        else:
            r = st.g.setdefault(('_streq',) + tuple(sorted((x, y), key=str)), fresh_bool('streq'))
        if n.startswith('operator!='):
            r = Not(r)
        return from_bool(r)
    if c.ret == 'void':
        return None
    if n in ('substr', 'find', 'compare', 'rfind'):
        if c.attrs and 'sret' in c.attrs[0]:
            set_str(ex, st, a[0], ('sym', 'sub'))
            return None
        return fresh(c.ret[1], 'str')
    if c.ret == 'ptr':
        return a[0]
    raise Unsupported('string op ' + c.name[:150])


def get_tok(ex, st, c, i):
    sret = c.attrs and 'sret' in c.attrs[0]
    p = c.args[i]
    ps = params(c.name)
    k = i - (1 if sret else 0)
    if k < len(ps) and 'char const*' in ps[k] and 'basic_string' not in ps[k]:
        return cstr_tok(ex, st, p)
    if isinstance(p, Ptr):
        m = st.rm(p.obj).abs.get(p.off) if p.obj else None
        if m is not None:
            return m
        return cstr_tok(ex, st, p) if p.obj and p.obj.kind == 'glob' else get_str(ex, st, p)
    return ('sym', str(p))


def cat(a, b):
    if a[0] == 'lit' and b[0] == 'lit':
        return ('lit', a[1] + b[1])
    return ('cat', a, b)


def params(d):
    """top-level parameter types of a demangled signature"""
    # last balanced (...) group
    i = d.rfind(')')
    dep = 0
    j = i
    while j >= 0:
        if d[j] == ')':
            dep += 1
        elif d[j] == '(':
            dep -= 1
            if dep == 0:
                break
        j -= 1
    s = d[j + 1:i]
    out, cur, dep = [], '', 0
    for k, ch in enumerate(s):
        if ch in '<({':
            dep += 1
        elif ch in ')}' or (ch == '>' and s[k - 1] != '-'):
            dep -= 1
        if ch == ',' and dep == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


@model(r'^std::allocator<.*>::(allocator|~allocator)\(|^std::__new_allocator<.*>::(__new_allocator|~__new_allocator)\(')
def alloc_cd(ex, st, c):
    return None


@model(r'^strerror$|^strlen$|^getenv$')
def cstr_misc(ex, st, c):
    if c.name == 'strlen':
        t = cstr_tok(ex, st, c.args[0])
        if t[0] == 'lit':
            return len(t[1])
        return st.g.setdefault(('_strlen', t), fresh(64, 'strlen'))
    if c.name == 'getenv':
        o = Obj('env', None, 'opaque')
        return Ptr(o, 0, fresh_bool('noenv'))
    return Ptr(Obj(c.name, None, 'opaque'), 0)


@model(r'^xdispatch::thread_utils::set_current_thread_name')
def set_name(ex, st, c):
    return None


# ------------------------------------------------------------------ shared_ptr control blocks
CTL = r'std::_Sp_counted_base<\(__gnu_cxx::_Lock_policy\)2>::'


def ctl_concrete(ex, st, p):
    return p.obj is not None and p.obj.kind in ('heap', 'stack')


def cnt(ex, st, p, off):
    v = ex.load_raw(st, p.obj, p.off + off, 4, ity(32))
    return v


@model(r'^' + CTL + r'_M_add_ref_copy\(\)')
def add_ref(ex, st, c):
    p = c.args[0]
    if not ex.resolve_ptr(st, p, 'control block'):
        return Kill('null')
    if ctl_concrete(ex, st, p):
        v = cnt(ex, st, p, 8)
        ex.store_raw(st, p.obj, p.off + 8, 4, ex.binop(st, 'add', ity(32), v, 1))
    else:
        bump(st, p, 1)
    return None


def bump(st, p, d):
    k = ('_ref', p.obj.id)
    st.g[k] = st.g.get(k, 0) + d


@model(r'^' + CTL + r'_M_weak_add_ref\(\)')
def add_weak(ex, st, c):
    p = c.args[0]
    if ctl_concrete(ex, st, p):
        v = cnt(ex, st, p, 12)
        ex.store_raw(st, p.obj, p.off + 12, 4, ex.binop(st, 'add', ity(32), v, 1))
    return None


def vslot(ex, st, p, k):
    vp = ex.load_raw(st, p.obj, p.off, 8, 'ptr')
    return ex.load_raw(st, vp.obj, vp.off + 8 * k, 8, 'ptr')


def weak_dec(ex, st, p):
    v = cnt(ex, st, p, 12)
    n = ex.binop(st, 'sub', ity(32), v, 1)
    ex.store_raw(st, p.obj, p.off + 12, 4, n)
    if isinstance(n, int) and n == 0:
        f = vslot(ex, st, p, 3)
        return Inline(ex.p.find(f.name, f.mod), [p])
    return None


@model(r'^' + CTL + r'_M_release\(\)')
def release(ex, st, c):
    p = c.args[0]
    if not ex.resolve_ptr(st, p, 'control block'):
        return Kill('null')
    if not ctl_concrete(ex, st, p):
        bump(st, p, -1)
        h = p.obj.meta.get('on_release')
        if h:
            return h(ex, st, p)
        return None
    v = cnt(ex, st, p, 8)
    n = ex.binop(st, 'sub', ity(32), v, 1)
    if not isinstance(n, int):
        raise Unsupported('symbolic use count')
    ex.store_raw(st, p.obj, p.off + 8, 4, n)
    if n == 0:
        f = vslot(ex, st, p, 2)

        def cont(ex, st, r, p=p):
            w = weak_dec(ex, st, p)
            return w
        return Inline(ex.p.find(f.name, f.mod), [p], cont)
    if n > (1 << 31):
        ex.prove(st, False, 'no shared_ptr over-release')
        return Kill('over-release')
    return None


@model(r'^' + CTL + r'_M_weak_release\(\)')
def weak_release(ex, st, c):
    p = c.args[0]
    if ctl_concrete(ex, st, p):
        r = weak_dec(ex, st, p)
        return r
    return None


@model(r'^' + CTL + r'_M_get_use_count\(\)')
def use_count(ex, st, c):
    p = c.args[0]
    if ctl_concrete(ex, st, p) and not p.obj.meta.get('escaped'):
        return cnt(ex, st, p, 8)
    h = p.obj.meta.get('use_count')
    if h:
        return h(ex, st, p)
    st.epoch += 1
    v = fresh(64, 'use_count')
    k = st.g.get(('_ref', p.obj.id), 0)
    if k > 0:
        st.assume(z3.And(v >= k, v < (1 << 31)))
    return v


@model(r'^' + CTL + r'_M_add_ref_lock(_nothrow)?\(\)')
def add_ref_lock(ex, st, c):
    p = c.args[0]
    no = 'nothrow' in c.name
    if ctl_concrete(ex, st, p):
        v = cnt(ex, st, p, 8)
        if v == 0:
            if no:
                return 0
            return Throw({'type': '_ZTISt12bad_weak_ptr', 'obj': Obj('exc', None, 'heap')})
        ex.store_raw(st, p.obj, p.off + 8, 4, v + 1)
        return 1 if no else None
    h = p.obj.meta.get('weak_lock')
    if h:
        return h(ex, st, p, no)
    # alive or expired: nondeterministic, except objects whose life is guaranteed by a contract
    if p.obj.meta.get('alive'):
        bump(st, p, 1)
        return 1 if no else None
    s2 = st.fork()
    bump(st, p, 1)
    st.epoch += 1
    if no:
        return Fork([(st, 1), (s2, 0)])
    return Fork([(st, None), (s2, Throw({'type': '_ZTISt12bad_weak_ptr', 'obj': Obj('exc', None, 'heap')}))])


# ------------------------------------------------------------------ sequence containers
class Log:
    """an (unbounded, immutable) sequence of elements; mk(ex, st, idx, slot) initialises an element slot"""
    n = 0

    def __init__(self, name, mk, esize=16):
        self.name = name
        self.mk = mk
        self.esize = esize

    def slot(self, ex, st, idx):
        o = Obj('%s[%s]' % (self.name, idx), self.esize, 'heap')
        o.meta['ident'] = (self, idx)
        self.mk(ex, st, idx, o)
        st.om(o)
        o.meta['pristine'] = None
        return o


class Seq:
    """segments: ('s', slot) | ('r', log, lo, hi)"""
    __slots__ = ('segs', 'et')

    def __init__(self, segs=(), et=None):
        self.segs = tuple(segs)
        self.et = et

    def same(self, o):
        if not isinstance(o, Seq) or len(self.segs) != len(o.segs):
            return False
        for a, b in zip(self.segs, o.segs):
            if a[0] != b[0]:
                return False
            if a[0] == 's' and a[1] is not b[1]:
                return False
            if a[0] == 'r' and not (a[1] is b[1] and same_t(a[2], b[2]) and same_t(a[3], b[3])):
                return False
        return True

    def terms(self):
        out = []
        for s in self.segs:
            if s[0] == 'r':
                out += [bv(s[2], 64), bv(s[3], 64)]
        return out

    def shape(self):
        return tuple(('r', s[1].name) if s[0] == 'r' else ('s', s[1].id) for s in self.segs)

    def havoc(self, ex, st):
        segs = []
        for s in self.segs:
            if s[0] == 'r':
                lo, hi = fresh(64, s[1].name + '.lo'), fresh(64, s[1].name + '.hi')
                st.assume(z3.ULE(lo, hi))
                segs.append(('r', s[1], lo, hi))
            else:
                segs.append(s)
        return Seq(segs, self.et)

    def size(self):
        n = 0
        for s in self.segs:
            if s[0] == 's':
                n = n + 1 if isinstance(n, int) else z3.simplify(n + 1)
            else:
                d = zsimp(bv(s[3], 64) - bv(s[2], 64))
                n = zsimp(bv(n, 64) + bv(d, 64))
        return n

    def __repr__(self):
        return 'Seq(%s)' % ', '.join('%s[%s..%s)' % (s[1].name, s[2], s[3]) if s[0] == 'r' else repr(s[1]) for s in self.segs)


def same_t(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def seq_get(ex, st, p):
    m = st.rm(p.obj)
    s = m.abs.get(p.off)
    if s is None:
        h = None
        b = ex.base_spec(st, p.obj, p.off)
        if b:
            h = getattr(b[2], 'mat_seq', None)
            if h:
                s = h(ex, st, Ptr(p.obj, b[0]), p.off - b[0])
        if s is None and p.obj.meta.get('mat_seq'):
            s = p.obj.meta['mat_seq'](ex, st, p)
        if s is None:
            if p.obj.kind in ('stack', 'heap'):
                raise Unsupported('container used before construction: %r' % p)
            raise Unsupported('symbolic container without spec: %r' % p)
        st.om(p.obj).abs[p.off] = s
    return s


def seq_access(ex, st, p, write):
    """a container member call is an access to the field"""
    b = ex.base_spec(st, p.obj, p.off)
    if b and p.obj.kind != 'stack':
        b[2].on_access(ex, st, Ptr(p.obj, b[0]), p.off - b[0], 8, write, False)


def seq_set(ex, st, p, s):
    st.om(p.obj).abs[p.off] = s
    st.wr.add(('abs', p.obj, p.off))
    h = ex.seq_hook
    if h:
        h(ex, st, p, s)


def iter_obj(ex, st, p):
    k = ('_iter', p.obj.id, p.off)
    o = st.g.get(k)
    if o is None:
        o = Obj('iter', None, 'iter')
        o.meta['seq'] = p
        st.g[k] = o
        st.g.setdefault('_iters', {})
    return o


def elem_type(name):
    for c in ('list', 'vector', 'deque', '_List_iterator', '_List_const_iterator', '__normal_iterator', 'set'):
        if c + '<' in name:
            return targ(name, c)
    return None


def fold_seq(ex, st, s):
    """turn untouched log slots adjacent to a range back into the range"""
    out = []
    ch = False
    for x in s.segs:
        if ex.fold_elem and x[0] == 'r' and len(s.segs) > 1 and ex.valid(st, bv(x[2], 64) == bv(x[3], 64)):
            ch = True           # empty range
            continue
        if x[0] == 's' and x[1].meta.get('ident') and pristine(ex, st, x[1]):
            log, i = x[1].meta['ident']
            x = ('r', log, i, zsimp(bv(i, 64) + 1))
            ch = True
        elif x[0] == 's' and ex.fold_elem:
            y = ex.fold_elem(ex, st, out, x[1])
            if y is not None:
                x = y
                ch = True
        if x[0] == 'r' and out and out[-1][0] == 'r' and out[-1][1] is x[1] and (same_t(zs(out[-1][3]), zs(x[2])) or ex.fold_elem and ex.valid(st, bv(out[-1][3], 64) == bv(x[2], 64))):
            out[-1] = ('r', x[1], out[-1][2], x[3])
            ch = True
            continue
        out.append(x)
    return Seq(out, s.et) if ch else s


def zs(x):
    return x if isinstance(x, int) else z3.simplify(x)


def pristine(ex, st, slot):
    m = st.mem.get(slot.id)
    if m is None or slot.id in st.dead:
        return False
    p = slot.meta.get('pristine_cells')
    if p is None:
        return False
    from .loops import samev
    for o, c in p.items():
        if not samev(m.cells.get(o), c):
            return False
    return True


def folder(ex, st):
    for oid, m in list(st.mem.items()):
        for off, s in list(m.abs.items()):
            if isinstance(s, Seq):
                n = fold_seq(ex, st, s)
                if n is not s:
                    if oid not in st.own:
                        m = st.mem[oid] = m.copy()
                        st.own.add(oid)
                    m.abs[off] = n


def mk_slot(ex, st, log, i):
    o = log.slot(ex, st, i)
    o.meta['pristine_cells'] = dict(st.rm(o).cells)
    return o


def expand_at(ex, st, p, s, k, i):
    """materialise index i (a log index inside segment k) as a slot"""
    seg = s.segs[k]
    log, lo, hi = seg[1], seg[2], seg[3]
    o = mk_slot(ex, st, log, i)
    new = list(s.segs[:k])
    if not same_t(zs(lo), zs(i)):
        new.append(('r', log, lo, i))
    new.append(('s', o))
    nx = zsimp(bv(i, 64) + 1)
    if not (isinstance(hi, int) and isinstance(nx, int) and hi == nx) and not (is_sym(hi) and is_sym(nx) and hi.eq(nx)):
        new.append(('r', log, nx, hi))
    new += s.segs[k + 1:]
    return Seq(new, s.et), o


def seq_at(ex, st, p, pos):
    """-> list of (state, slot or None) for coordinate pos (None = out of range)"""
    s = seq_get(ex, st, p)
    base = 0
    out = []
    cur = st
    posb = bv(pos, 64) if not isinstance(pos, int) else pos
    for k, seg in enumerate(s.segs):
        if seg[0] == 's':
            c = as_bool(zsimp(bv(posb, 64) == bv(base, 64)))
            hit, cur2 = split(ex, cur, c)
            if hit is not None:
                out.append((hit, seg[1]))
            cur = cur2
            if cur is None:
                return out
            base = zsimp(bv(base, 64) + 1)
        else:
            ln = zsimp(bv(seg[3], 64) - bv(seg[2], 64))
            rel = zsimp(bv(posb, 64) - bv(base, 64))
            c = as_bool(zsimp(z3.ULT(bv(rel, 64), bv(ln, 64))))
            hit, cur2 = split(ex, cur, c)
            if hit is not None:
                i = zsimp(bv(seg[2], 64) + bv(rel, 64))
                s2, o = expand_at(ex, hit, p, s, k, i)
                hit.om(p.obj).abs[p.off] = s2
                hit.wr.add(('abs', p.obj, p.off))
                out.append((hit, o))
            cur = cur2
            if cur is None:
                return out
            base = zsimp(bv(base, 64) + bv(ln, 64))
    out.append((cur, None))
    return out


def split(ex, st, c):
    """-> (state where c, state where not c), None if infeasible"""
    if c is True:
        return st, None
    if c is False:
        return None, st
    a = ex.feasible(st, c)
    b = ex.feasible(st, Not(c))
    if a and b:
        s2 = st.fork()
        st.assume(c)
        s2.assume(Not(c))
        return st, s2
    if a:
        return st, None
    if b:
        return None, st
    return None, None


def special(ex, T, kind):
    """constructor/destructor of element type T from the extracted code; None if trivial"""
    if T.endswith('*') or T in ('int', 'unsigned long', 'unsigned int', 'long', 'bool', 'char', 'unsigned char'):
        return None
    last = split_name(T)[-1]
    base = re.sub(r'<.*$', '', last)
    if kind == 'dtor':
        pat = '%s::~%s()' % (T, base)
        c = ex.p.bydem.get(pat)
    elif kind == 'copy':
        c = ex.p.bydem.get('%s::%s(%s const&)' % (T, base, T))
    else:
        c = ex.p.bydem.get('%s::%s(%s&&)' % (T, base, T))
    if not c:
        return False
    for x in sorted(c, key=lambda n: 0 if ('C1' in n or 'D1' in n) else 1):
        f = ex.p.find(x)
        if f is not None:
            return f
    return False


def esize(ex, T):
    if T.endswith('*') or T in ('unsigned long', 'long'):
        return 8
    if T.startswith(('std::shared_ptr', 'std::weak_ptr')):
        return 16
    if T in ('int', 'unsigned int'):
        return 4
    if T in ex.p.classes:
        return ex.p.sizeof_cls(T)
    raise Unsupported('element type ' + T)


def raw_shared(ex, st, T):
    return T.startswith('std::shared_ptr<')


def construct(ex, st, dst, src, T, move, cont):
    """construct *dst = copy/move of *src, then cont(ex, st)"""
    if T.endswith('*'):
        v = ex.load(st, src, 'ptr', st.frames[-1].fn.mod)
        ex.store_raw(st, dst.obj, dst.off, 8, v)
        return cont(ex, st)
    f = special(ex, T, 'move' if move else 'copy')
    if f is False and raw_shared(ex, st, T):
        a = ex.load(st, src, 'ptr', st.frames[-1].fn.mod)
        b = ex.load(st, Ptr(src.obj, src.off + 8, src.nul), 'ptr', st.frames[-1].fn.mod)
        ex.store_raw(st, dst.obj, dst.off, 8, a)
        ex.store_raw(st, dst.obj, dst.off + 8, 8, b)
        if move:
            ex.store_raw(st, src.obj, src.off, 8, NULL)
            ex.store_raw(st, src.obj, src.off + 8, 8, NULL)
        elif isinstance(b, Ptr) and b.obj is not None:
            if ctl_concrete(ex, st, b):
                ex.store_raw(st, b.obj, b.off + 8, 4, cnt(ex, st, b, 8) + 1)
            else:
                bump(st, b, 1)
        return cont(ex, st)
    if f is False:
        f = special(ex, T, 'copy')
    if f is False or f is None:
        raise Unsupported('element constructor for ' + T)
    return Inline(f, [dst, src], lambda ex, st, r: cont(ex, st))


def destroy_slots(ex, st, slots, T, cont):
    """run destructors for slots in order, then cont"""
    if not slots:
        return cont(ex, st)
    o, rest = slots[0], slots[1:]
    f = special(ex, T, 'dtor')
    if f is None:
        return destroy_slots(ex, st, [], T, cont)
    if f is False:
        if raw_shared(ex, st, T):
            f = ex.p.find_any(r'^std::__shared_count<\(__gnu_cxx::_Lock_policy\)2>::~__shared_count\(\)')
            if f is None:
                raise Unsupported('no shared_ptr destructor in extracted code')
            return Inline(f, [Ptr(o, 8)], lambda ex, st, r: fin(ex, st))
        raise Unsupported('element destructor for ' + T)

    def fin(ex, st):
        st.dead.add(o.id)
        return destroy_slots(ex, st, rest, T, cont)
    return Inline(f, [Ptr(o, 0)], lambda ex, st, r: fin(ex, st))


CONT = r'(?:std::__cxx11::list|std::vector|std::deque)<'


@model(r'(^|^[\w:&<>*, ]+ )' + CONT)
def container(ex, st, c):
    parts = split_name(c.name)
    # the container must be the class of the called member
    if len(parts) < 2:
        return SKIP
    cl, m = parts[-2], parts[-1]
    if not re.match(r'(list|vector|deque)<', cl):
        return SKIP
    kind = cl[:cl.index('<')]
    T = targ(cl, kind)
    mm = re.sub(r'<.*$', '', m) if not m.startswith('operator') else m
    a = list(c.args)
    sret = bool(c.attrs and 'sret' in c.attrs[0])
    this = a[1] if sret else a[0]
    if mm.startswith('_') or mm == 'get_allocator':
        return SKIP
    if not ex.resolve_ptr(st, this, 'container'):
        return Kill('null container')
    P = Ptr(this.obj, this.off if isinstance(this.off, int) else ex.conc_off(st, this))
    R = lambda: seq_get(ex, st, P)
    if mm == kind:    # constructors
        ps = params(c.name)
        if not ps:
            seq_set(ex, st, P, Seq((), T))
            return None
        if len(ps) == 1 and ps[0].startswith(('std::__cxx11::list<', 'std::vector<')) and ps[0].endswith('&&'):
            src = Ptr(a[1].obj, a[1].off)
            s = seq_get(ex, st, src)
            seq_set(ex, st, P, s)
            seq_set(ex, st, src, Seq((), T))
            return None
        if len(ps) == 1 and ps[0].endswith('const&') and ps[0].startswith(('std::__cxx11::list<', 'std::vector<')):
            src = Ptr(a[1].obj, a[1].off)
            seq_access(ex, st, src, False)
            return copy_seq(ex, st, P, src, T, lambda ex, st: None)
        if len(ps) == 1 and 'allocator' in ps[0]:
            seq_set(ex, st, P, Seq((), T))
            return None
        raise Unsupported('container ctor ' + c.name[:200])
    if mm.startswith('~'):
        s = P.obj.id in st.mem and st.mem[P.obj.id].abs.get(P.off)
        if s is None or s is False:
            s = R()
        return clear_seq(ex, st, P, s, T, lambda ex, st: None)
    if mm in ('empty', 'size', 'begin', 'end', 'front', 'back', 'cbegin', 'cend', 'operator[]', 'at', 'capacity', 'data'):
        seq_access(ex, st, P, False)
    else:
        seq_access(ex, st, P, True)
    s = R()
    if mm == 'empty':
        n = s.size()
        if isinstance(n, int):
            return 1 if n == 0 else 0
        if any(x[0] == 's' for x in s.segs):
            return 0
        return from_bool(as_bool(zsimp(n == 0)))
    if mm == 'size':
        return s.size()
    if mm in ('begin', 'cbegin'):
        return Ptr(iter_obj(ex, st, P), 0)
    if mm in ('end', 'cend'):
        n = s.size()
        return Ptr(iter_obj(ex, st, P), n)
    if mm in ('reserve', 'shrink_to_fit', 'resize') and mm != 'resize':
        return None
    if mm in ('front', 'back'):
        pos = 0 if mm == 'front' else zsimp(bv(s.size(), 64) - 1)
        out = []
        for s1, slot in seq_at(ex, st, P, pos):
            if slot is None:
                ex.prove(s1, False, 'no %s() on an empty container' % mm)
                out.append((s1, Kill('front of empty')))
            else:
                ex.prove(s1, True, 'no %s() on an empty container' % mm)
                out.append((s1, Ptr(slot, 0)))
        return Fork(out)
    if mm in ('operator[]', 'at'):
        out = []
        for s1, slot in seq_at(ex, st, P, a[1]):
            if slot is None:
                ex.prove(s1, False, 'container index in range')
                out.append((s1, Kill('index')))
            else:
                out.append((s1, Ptr(slot, 0)))
        return Fork(out)
    if mm in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
        if len(a) == 1:
            o = Obj('elem', esize(ex, T), 'heap')
            for k in range(0, esize(ex, T), 8):
                ex.store_raw(st, o, k, 8, NULL)
            cur = R()
            seq_set(ex, st, P, Seq(cur.segs + (('s', o),), T))
            return Ptr(o, 0)
        src = a[1]
        ps = params(c.name)
        move = ps and ps[-1].endswith('&&')
        st_src_t = ps[-1] if ps else ''
        o = Obj('elem', esize(ex, T), 'heap')
        front = 'front' in mm

        def cont(ex, st, o=o, P=P, T=T):
            cur = seq_get(ex, st, P)
            seq_set(ex, st, P, Seq((('s', o),) + cur.segs if front else cur.segs + (('s', o),), T))
            return Ptr(o, 0)
        base_t = re.sub(r'( const)?&&?$', '', st_src_t).strip()
        if base_t != T and mm.startswith('emplace') and not T.endswith('*'):
            # converting construction T(Arg)
            cand = [n for d, ns in ex.p.bydem.items() for n in ns
                    if ctor_match(d, T, st_src_t)]
            for n in cand:
                f = ex.p.find(n)
                if f is not None:
                    st.set_t = None
                    return Inline(f, [Ptr(o, 0), src], lambda ex, st, r: cont(ex, st))
            raise Unsupported('emplace %s from %s' % (T, st_src_t))
        return construct(ex, st, Ptr(o, 0), src, T, move, cont)
    if mm in ('pop_front', 'pop_back'):
        pos = 0 if mm == 'pop_front' else zsimp(bv(s.size(), 64) - 1)
        return Fork([(s1, erase_slot(ex, s1, P, slot, T, mm, lambda ex, st: None)) for s1, slot in seq_at(ex, st, P, pos)])
    if mm == 'erase':
        i0 = it_pos(ex, st, P, a, 1, c)
        if len(params(c.name)) == 2:
            i1 = it_pos(ex, st, P, a, 2, c)
            return erase_range(ex, st, P, s, i0, i1, T)
        its = iter_obj(ex, st, P)
        return Fork([(s1, erase_slot(ex, s1, P, slot, T, 'erase', lambda ex, st: Ptr(its, i0))) for s1, slot in seq_at(ex, st, P, i0)])
    if mm == 'clear':
        return clear_seq(ex, st, P, s, T, lambda ex, st: None)
    if mm == 'swap':
        Q = Ptr(a[1].obj, a[1].off)
        seq_access(ex, st, Q, True)
        q = seq_get(ex, st, Q)
        seq_set(ex, st, P, q)
        seq_set(ex, st, Q, s)
        return None
    if mm == 'operator=':
        Q = Ptr(a[1].obj, a[1].off)
        q = seq_get(ex, st, Q)
        if params(c.name)[-1].endswith('&&'):
            def cont(ex, st):
                seq_set(ex, st, P, q)
                seq_set(ex, st, Q, Seq((), T))
                return this
            return clear_seq(ex, st, P, s, T, cont)
        return clear_seq(ex, st, P, s, T, lambda ex, st: copy_seq(ex, st, P, Q, T, lambda ex, st: this))
    raise Unsupported('container op ' + c.name[:160])


def ctor_match(d, T, argt):
    if not d.startswith(T + '::'):
        return False
    base = re.sub(r'<.*$', '', split_name(T)[-1])
    rest = d[len(T) + 2:]
    if not rest.startswith(base):
        return False
    ps = params(d)
    if len(ps) != 1:
        # hidden defaulted params (enable_if) do not appear in the signature
        return False
    strip = lambda t: re.sub(r'( const)?&&?$', '', t).strip()
    return strip(ps[0]) == strip(argt)


def it_pos(ex, st, P, a, k, c):
    v = a[k]
    if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'iter':
        return v.off if isinstance(v.off, int) else v.off
    if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'stack':
        v = ex.load_raw(st, v.obj, v.off, 8, 'ptr')
        if v.obj is not None and v.obj.kind == 'iter':
            return v.off
    raise Unsupported('iterator argument %r' % (v,))


def erase_slot(ex, st, P, slot, T, what, cont):
    if slot is None:
        ex.prove(st, False, 'no %s on an empty container / past the end' % what)
        return Kill('erase of nothing')
    s = seq_get(ex, st, P)
    k = [i for i, x in enumerate(s.segs) if x[0] == 's' and x[1] is slot][0]
    seq_set(ex, st, P, Seq(s.segs[:k] + s.segs[k + 1:], s.et))
    return destroy_slots(ex, st, [slot], T, cont)


def erase_range(ex, st, P, s, i0, i1, T):
    its = iter_obj(ex, st, P)
    n = s.size()
    e = as_bool(zsimp(bv(i0, 64) == bv(i1, 64)))
    out = []
    a, b = split(ex, st, e)
    if a is not None:
        out.append((a, Ptr(its, i0)))
    if b is not None:
        if isinstance(i0, int) and isinstance(i1, int) and all(x[0] == 's' for x in s.segs):
            sl = [x[1] for x in s.segs[i0:i1]]
            seq_set(ex, b, P, Seq(s.segs[:i0] + s.segs[i1:], s.et))
            out.append((b, destroy_slots(ex, b, sl, T, lambda ex, st: Ptr(its, i0))))
        else:
            h = ex.erase_hook
            if not h:
                raise Unsupported('range erase on a symbolic container')
            out.append((b, h(ex, b, P, s, i0, i1, T)))
    return Fork(out)


def clear_seq(ex, st, P, s, T, cont):
    """destroy all elements; a symbolic range of elements is reported as DROP event (its destructors belong to others)"""
    slots = [x[1] for x in s.segs if x[0] == 's']
    for x in s.segs:
        if x[0] == 'r':
            ex.event(st, 'DROP', seq=P, log=x[1], lo=x[2], hi=x[3], held=bool(st.held))
    seq_set(ex, st, P, Seq((), T))
    return destroy_slots(ex, st, slots, T, cont)


def copy_seq(ex, st, P, src, T, cont):
    s = seq_get(ex, st, src)
    new = []
    todo = []
    for x in s.segs:
        if x[0] == 'r':
            new.append(x)
        else:
            o = Obj('elem', esize(ex, T), 'heap')
            for k in ('ident', 'pristine_cells'):
                if k in x[1].meta and pristine(ex, st, x[1]):
                    o.meta[k] = x[1].meta[k]
            new.append(('s', o))
            todo.append((x[1], o))
    seq_set(ex, st, P, Seq(new, T))

    def step(ex, st, todo=todo):
        if not todo:
            return cont(ex, st)
        return nxt(ex, st, todo)

    def nxt(ex, st, todo):
        (a, b), rest = todo[0], todo[1:]
        return construct(ex, st, Ptr(b, 0), Ptr(a, 0), T, False, lambda ex, st: (nxt(ex, st, rest) if rest else cont(ex, st)))
    return step(ex, st)


# iterators: a coordinate into the container
IT = r'(?:std::_List_(?:const_)?iterator|__gnu_cxx::__normal_iterator)<'


@model(IT)
def iterator(ex, st, c):
    parts = split_name(c.name)
    m = parts[-1]
    cl = parts[-2] if len(parts) > 1 else ''
    a = c.args
    ma = re.match(r'(operator(?:==|!=|\+|-|<))<', m)
    if ma and not re.match(r'(_List|__normal)', cl):
        op = ma.group(1)
        x, y = itval(ex, st, a[0]), itval(ex, st, a[1])
        if op in ('operator==', 'operator!='):
            return from_bool(iter_eq(ex, st, x, y, op))
        if op == 'operator-' and x is not None and y is not None:
            return zsimp(bv(x.off, 64) - bv(y.off, 64))
        return SKIP
    if not re.match(r'(_List_iterator|_List_const_iterator|__normal_iterator)<', cl):
        return SKIP
    sret = bool(c.attrs and 'sret' in c.attrs[0])
    if m in ('operator++', 'operator--'):
        it = itval(ex, st, a[0])
        if it is None or it.obj is None or it.obj.kind != 'iter':
            return SKIP
        d = 1 if m == 'operator++' else -1
        new = Ptr(it.obj, padd(it.off, d))
        ex.store_raw(st, a[0].obj, a[0].off, 8, new)
        if 'int' in params(c.name):
            return it
        return a[0]
    if m in ('operator+', 'operator-'):
        it = itval(ex, st, a[0])
        if it is None or it.obj is None or it.obj.kind != 'iter':
            return SKIP
        d = a[1]
        if isinstance(d, (Ptr,)):
            return SKIP
        if m == 'operator-':
            d = -d if isinstance(d, int) else -d
        return Ptr(it.obj, padd(it.off, signed(d, 64) if isinstance(d, int) else d))
    if m in ('operator*', 'operator->'):
        it = itval(ex, st, a[0])
        if it is None or it.obj is None or it.obj.kind != 'iter':
            return SKIP
        P = it.obj.meta['seq']
        seq_access(ex, st, P, False)
        out = []
        for s1, slot in seq_at(ex, st, P, it.off):
            if slot is None:
                ex.prove(s1, False, 'no dereference of an end iterator')
                out.append((s1, Kill('end deref')))
            else:
                out.append((s1, Ptr(slot, 0)))
        return Fork(out)
    if m in ('operator==', 'operator!='):
        x, y = itval(ex, st, a[0]), itval(ex, st, a[1])
        return from_bool(iter_eq(ex, st, x, y, m))
    return SKIP


@model(r'^bool std::operator(==|!=)\(std::_List_|^std::operator(==|!=)\(std::_List_')
def list_it_eq(ex, st, c):
    x, y = itval(ex, st, c.args[0]), itval(ex, st, c.args[1])
    return from_bool(iter_eq(ex, st, x, y, 'operator!=' if '!=' in c.name else 'operator=='))


def padd(o, d):
    if isinstance(o, int) and isinstance(d, int):
        return o + d
    return zsimp(bv(o, 64) + bv(d, 64))


def itval(ex, st, p):
    """iterators are passed by reference to the iterator object or by value"""
    if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'iter':
        return p
    if isinstance(p, Ptr) and p.obj is not None:
        return ex.load_raw(st, p.obj, p.off, 8, 'ptr')
    return None


def iter_eq(ex, st, x, y, op):
    if x.obj is not y.obj:
        e = False
    else:
        e = ex.off_eq(x.off, y.off)
    return Not(e) if '!=' in op else e


@model(r'std::swap<.*(std::__cxx11::list|std::vector)<.*\((std::__cxx11::list|std::vector)<')
def swap_cont(ex, st, c):
    P, Q = [Ptr(x.obj, x.off) for x in c.args[:2]]
    seq_access(ex, st, P, True)
    seq_access(ex, st, Q, True)
    p, q = seq_get(ex, st, P), seq_get(ex, st, Q)
    seq_set(ex, st, P, q)
    seq_set(ex, st, Q, p)
    return None


# std::find / std::remove over our iterators: left to specs (erase_hook) or unrolled when concrete
@model(r'std::remove<__gnu_cxx::__normal_iterator<')
def std_remove(ex, st, c):
    h = ex.remove_hook
    if h:
        return h(ex, st, c)
    return SKIP


@model(r'std::find<__gnu_cxx::__normal_iterator<')
def std_find(ex, st, c):
    h = ex.find_hook
    if h:
        return h(ex, st, c)
    return SKIP


@model(r'^__atomic_is_lock_free$')
def is_lock_free(ex, st, c):
    n = c.args[0]
    return 1 if isinstance(n, int) and n in (1, 2, 4, 8) else 0


@model(r'^xdispatch::thread_utils::cpu_relax\(\)')
def cpu_relax(ex, st, c):
    st.epoch += 1
    return None


@model(r'^__errno_location$')
def errno_location(ex, st, c):
    o = Obj('errno', 4, 'stack')
    ex.store_raw(st, o, 0, 4, fresh(32, 'errno'))
    return Ptr(o, 0)
