"""Cutting loops with inductive invariants.

cut_loop havocs everything one iteration of the real loop body may write, infers
template invariants over the havocked values (Houdini: start from all candidate
facts that hold on entry, drop those an iteration does not preserve), adds the
invariants a spec declares (ex.loop_inv), proves entry and preservation, and
returns the states that leave the loop.  No iteration bound is involved.
"""
import time
import z3
from .ir import Unsupported
from .sym import (Ptr, Fn, NULL, UNDEF, Obj, is_sym, bv, fresh, fresh_bool, zsimp, And, Or, Not)

MAXPHASE = 16


def get_loc(st, loc):
    """-> value or None when absent"""
    k = loc[0]
    if k == 'cell':
        m = st.mem.get(loc[1].id)
        if m is None:
            return None
        c = m.cells.get(loc[2])
        return None if c is None else c
    if k == 'abs':
        m = st.mem.get(loc[1].id)
        return None if m is None else m.abs.get(loc[2])
    if k == 'g':
        return st.g.get(loc[1])
    raise AssertionError(k)


def set_loc(st, loc, v):
    k = loc[0]
    if k == 'cell':
        m = st.om(loc[1])
        if v is None:
            m.cells.pop(loc[2], None)
        else:
            m.cells[loc[2]] = v
    elif k == 'abs':
        m = st.om(loc[1])
        if v is None:
            m.abs.pop(loc[2], None)
        else:
            m.abs[loc[2]] = v
    elif k == 'g':
        if v is None:
            st.g.pop(loc[1], None)
        else:
            st.g[loc[1]] = v


def is_num(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, z3.BitVecRef)


def samev(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(samev(x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and samev(a.off, b.off) and (a.nul is b.nul or (a.nul is not None and b.nul is not None and a.nul.eq(b.nul)))
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        return False
    if hasattr(a, 'same'):
        return a.same(b)
    try:
        return type(a) == type(b) and a == b
    except Exception:
        return False


def width(loc, v):
    if loc[0] == 'cell':
        return 8 * v[0]
    return 64


def num_of(loc, v):
    """numeric components of a location's value: list of BV terms / ints"""
    if v is None:
        return []
    if loc[0] == 'cell':
        v = v[1]
    if isinstance(v, Ptr):
        return [v.off if not isinstance(v.off, int) else v.off & (2**64 - 1)] if v.obj is not None else []
    if is_num(v):
        return [v]
    if hasattr(v, 'terms'):
        return v.terms()
    return []


def houdini(ex, st, cs):
    """names of the facts that hold in every model of st"""
    live = {n: c for n, c in cs.items() if not z3.is_false(c)}
    ok = {n for n, c in live.items() if z3.is_true(c)}
    for n in ok:
        del live[n]
    s = None
    while live:
        if s is None:
            s = z3.Solver()
            s.set('timeout', 3000)
            for c in st.pc:
                if c is not True:
                    s.add(c)
        s.push()
        s.add(z3.Not(z3.And(*live.values())) if len(live) > 1 else z3.Not(next(iter(live.values()))))
        ex.queries += 1
        r = s.check()
        if r == z3.unsat:
            return ok | set(live)
        if r == z3.unknown:
            s.pop()
            return ok | {n for n, c in live.items() if ex.valid_quick(st, c)}
        m = s.model()
        s.pop()
        drop = [n for n, c in live.items() if not z3.is_true(m.eval(c, model_completion=True))]
        if not drop:
            return ok | {n for n, c in live.items() if ex.valid_quick(st, c)}
        for n in drop:
            del live[n]
    return ok


def cut_loop(ex, S):
    depth = len(S.frames)
    fr = S.frames[-1]
    fn, hdr = fr.fn, fr.block
    body = fn.loops()[hdr]
    key = (depth, fn.name, hdr)
    if fn.blocks[hdr][0].op == 'phi':
        raise Unsupported('loop header with phi')

    def stop(st):
        if len(st.frames) < depth:
            return 'exit'
        if len(st.frames) == depth:
            f = st.frames[-1]
            if f.idx == 0:
                if f.block == hdr:
                    return None if f.tag == 'cut' else 'back'
                if f.block not in body:
                    return 'exit'
        return None

    def run(G):
        ex.loopstack.append(key)
        G.frames[-1].tag = 'cut'
        try:
            rs = ex.explore([G], 0, stop)
        finally:
            ex.loopstack.pop()
        back, exits, dead = [], [], []
        for r in rs:
            if r.status == 'killed':
                dead.append(r)
                continue
            k = stop(r)
            (back if k == 'back' else exits).append(r)
        return back, exits, dead

    note = {'fn': fn.name}
    if hasattr(ex, 'entry_note'):
        note.update(ex.entry_note(ex, S))
    # monitors held at the header: the header is treated as a release/re-acquire point
    # when their invariants hold there (more interference than reality: sound)
    mons = []
    for h in S.held:
        p = h[1]
        b = ex.base_spec(S, p.obj, p.off)
        if b and b[2].is_shared(ex, S, Ptr(p.obj, b[0])):
            mons.append((b[2], Ptr(p.obj, b[0]), p.off - b[0]))

    def monitors_ok(st):
        t = st.fork()
        old, ex.dry = ex.dry, []
        om, ex.mode = ex.mode, 0
        try:
            pend = {k for k in t.g if isinstance(k, tuple) and k and k[0] == 'pend'}
            for sp, base, lo in mons:
                sp.release(ex, t, base, lo)
            ok = all(ex.dry) and not ({k for k in t.g if isinstance(k, tuple) and k and k[0] == 'pend'} - pend)
        finally:
            ex.dry, ex.mode = old, om
        return ok

    if mons and not all(sp.virtual_release(ex, S, base) for sp, base, lo in mons):
        mons = []
    if mons and not monitors_ok(S):
        mons = []
    fallback = [False]

    def guarded(loc):
        if loc[0] == 'g':
            return False
        for sp, base, lo in mons:
            if loc[1] is base.obj:
                f = sp.field(ex, loc[2] - base.off)
                if f is not None and sp.kind_of(f[2]) == 'protected':
                    return True
        return False

    ex.fold(S)
    base_objs = set(S.mem.keys())
    lim = ex.next_obj_id()
    hav = {}      # loc tuple (hashable key) -> loc
    removed = set()
    phases = set()
    opaque_locs = set()

    def key_of(loc):
        if loc[0] in ('cell', 'abs'):
            return (loc[0], loc[1].id, loc[2])
        return loc

    def diff(B, G):
        """locations changed by one iteration"""
        ch = []
        for w in B.wr:
            kind, obj, off = w
            if obj.id > lim or obj.id not in B.mem and obj.id not in S.mem:
                continue
            if obj.kind == 'stack' and obj.id not in base_objs:
                continue
            if obj.id in B.dead:
                if obj.id not in S.dead and obj.id in base_objs and obj.kind == 'stack':
                    raise Unsupported('loop kills a stack object')
                continue
            loc = (kind, obj, off)
            if guarded(loc):
                continue
            b = get_loc(B, loc)
            if b is not None and key_of(loc) not in hav and samev(b, get_loc(G, loc)):
                continue          # written, but restored by the end of the iteration
            ch.append(loc)
        for k in set(B.g) | set(S.g):
            if isinstance(k, str) and k.startswith('_'):
                continue
            if isinstance(k, tuple) and isinstance(k[0], str) and k[0].startswith('_'):
                continue
            a, b = B.g.get(k), G.g.get(k)
            if not samev(a, b):
                ch.append(('g', k))
        return ch

    # the values each havocked location takes at the header, per phase
    def phase_val(loc, v):
        """concrete representation used as phase key, or None if havockable numerically"""
        if v is None:
            return ('absent',)
        x = v[1] if loc[0] == 'cell' else v
        if isinstance(x, Ptr):
            if x.obj is not None and x.obj.id > lim and x.obj.kind != 'iter':
                return ('ptr', 'inner')      # created inside the loop
            return ('ptr', x.obj.id if x.obj else 0)
        if isinstance(x, Fn):
            return ('fn', x.name)
        if loc[0] == 'cell' and v[0] == 1 and isinstance(x, int):
            return ('b', x)
        if is_num(x):
            return ('num',)
        if isinstance(x, z3.BoolRef):
            return ('bool',)
        if hasattr(x, 'shape'):
            return ('abs', x.shape())
        if x is UNDEF:
            return ('undef',)
        if isinstance(x, tuple) and x and x[0] == 'float':
            return ('float',)
        return ('lit', repr(x))

    def pkey(st):
        out = []
        for k in sorted(hav, key=str):
            loc = hav[k]
            if k in removed:
                continue
            out.append((k, phase_val(loc, get_loc(st, loc))))
        return (tuple(out), tuple((o.id, f) for o, f in [(h[0], h[1]) for h in S.held]) if False else tuple(held_key(st)))

    def held_key(st):
        return [str(h) for h in st.held]

    def make(rep):
        """generic header state for the phase represented by state rep (entry or back-edge state)"""
        G = S.fork()
        G.epoch = max(S.epoch, rep.epoch) + 1
        if held_key(rep) != held_key(S):
            raise Unsupported('lock set changes across loop iterations')
        for k, loc in hav.items():
            if k in removed:
                set_loc(G, loc, None)
                continue
            v = get_loc(rep, loc)
            if v is None:
                set_loc(G, loc, None)
                continue
            if loc[0] == 'cell':
                size, x = v
                nv = hv(G, x, 8 * size, k)
                set_loc(G, loc, (size, nv))
            else:
                set_loc(G, loc, hv(G, v, 64, k))
        if mons:
            old, ex.dry = ex.dry, []
            om, ex.mode = ex.mode, 0
            try:
                for sp, base, lo in mons:
                    sp.release(ex, G, base, lo)
            finally:
                ex.dry, ex.mode = old, om
            for sp, base, lo in mons:
                sp.acquire(ex, G, base, lo)
        G.wr = set()
        G.ev = list(S.ev) + [('LOOP', note)]
        G.frames[-1].loopcnt = dict(S.frames[-1].loopcnt)
        return G

    def hv(G, x, w, k):
        nm = 'loop.%s' % (k[-1],)
        if isinstance(x, Ptr):
            if x.obj is None:
                return x
            if x.obj.id > lim and x.obj.kind not in ('iter',):
                # object created inside the loop and still referenced at the header
                o = Obj('lost(%s)' % x.obj.name, kind='lost')
                return Ptr(o, 0, x.nul)
            e = get_off_const(k)
            return Ptr(x.obj, x.off if e else fresh(64, nm), x.nul)
        if isinstance(x, z3.BoolRef):
            return fresh_bool(nm)
        if isinstance(x, int) and not isinstance(x, bool) and w == 8:
            return x          # phase value
        if isinstance(x, bool):
            return x
        if is_num(x):
            return fresh(x.size() if is_sym(x) else w, nm)
        if hasattr(x, 'havoc'):
            return x.havoc(ex, G)
        return x

    offvary = set()

    def get_off_const(k):
        return k not in offvary

    def terms(st):
        out = {}
        for k, loc in hav.items():
            if k in removed:
                continue
            v = get_loc(st, loc)
            for i, t in enumerate(num_of(loc, v)):
                w = t.size() if is_sym(t) else (8 * v[0] if loc[0] == 'cell' and not isinstance(v[1], Ptr) else 64)
                if w < 32:
                    continue
                out[(k, i)] = bv(t, w)
        return out

    anchors = {}
    def collect_anchors():
        anchors.clear()
        m = 0
        for o in [o for f in S.frames[-2:] for o in f.allocas]:
            om = S.mem.get(o.id)
            if om is None:
                continue
            for off, (size, v) in om.cells.items():
                if size >= 4 and is_num(v) and ('cell', o.id, off) not in hav and m < 10:
                    anchors[('a', o.id, off)] = bv(v, 8 * size)
                    m += 1
                elif isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'iter' and is_sym(v.off) and ('cell', o.id, off) not in hav and m < 10:
                    anchors[('a', 'it', o.id, off)] = v.off
                    m += 1
        for k, v in S.g.items():
            if isinstance(k, str) and k.startswith('_'):
                continue
            if is_num(v) and ('g', k) not in hav and m < 16:
                anchors[('a', k)] = bv(v, 64)
                m += 1
        # constants the loop body compares against
        n = 0
        for b in sorted(body, key=str):
            for ins in fn.blocks[b]:
                if ins.op == 'icmp' and isinstance(ins.ty, tuple) and ins.ty[0] == 'i' and ins.ty[1] in (32, 64):
                    for x in (ins.a, ins.b):
                        if x[0] == 'c' and 1 < x[1] < (1 << 31) and n < 6 and ('a', 'c', ins.ty[1], x[1]) not in anchors:
                            anchors[('a', 'c', ins.ty[1], x[1])] = z3.BitVecVal(x[1], ins.ty[1])
                            n += 1
                # i = (i + 1) % K and i & (K - 1) stay below K
                if ins.op == 'bin' and ins.c in ('srem', 'urem', 'and') and isinstance(ins.ty, tuple) and ins.ty[0] == 'i' and ins.ty[1] in (32, 64):
                    for x in (ins.a, ins.b):
                        if x[0] == 'c' and 1 < x[1] < (1 << 31) and n < 8:
                            k = x[1] if ins.c == 'and' else x[1] - 1
                            if ('a', 'c', ins.ty[1], k) not in anchors:
                                anchors[('a', 'c', ins.ty[1], k)] = z3.BitVecVal(k, ins.ty[1])
                                n += 1
        for t in ex.loop_anchors(S):
            anchors[('a', 'x', t.get_id())] = t

    def candidates(rep):
        """facts over header terms that hold in rep -> dict name -> fn(terms)->bool"""
        e = terms(rep)
        e0 = terms(S)
        C = {}
        ks = sorted(e, key=str)
        def add(nm, f):
            C[nm] = f
        for i, a in enumerate(ks):
            w = e[a].size()
            ea = e0.get(a)
            if ea is not None and ea.size() == w:
                add(('ge0', a), lambda T, a=a, ea=ea: z3.UGE(T[a], ea))
                add(('le0', a), lambda T, a=a, ea=ea: z3.ULE(T[a], ea))
                if w == 64 and a[0][0] == 'cell':
                    add(('sge0', a), lambda T, a=a, ea=ea: T[a] >= ea)
            if a[0][0] == 'abs' and w == 64:
                add(('zero', a), lambda T, a=a: T[a] == 0)
            for an, t in anchors.items():
                if t.size() != w:
                    continue
                add(('leA', a, an), lambda T, a=a, t=t: z3.ULE(T[a], t))
                add(('geA', a, an), lambda T, a=a, t=t: z3.UGE(T[a], t))
                add(('eqA', a, an), lambda T, a=a, t=t: T[a] == t)
            for b in ks[i + 1:]:
                if e[b].size() != w:
                    continue
                eb = e0.get(b)
                if ea is not None and eb is not None and ea.size() == w and eb.size() == w:
                    add(('dif', a, b), lambda T, a=a, b=b, ea=ea, eb=eb: T[a] - T[b] == ea - eb)
                    add(('sum', a, b), lambda T, a=a, b=b, ea=ea, eb=eb: T[a] + T[b] == ea + eb)
                add(('eq', a, b), lambda T, a=a, b=b: T[a] == T[b])
                add(('le', a, b), lambda T, a=a, b=b: z3.ULE(T[a], T[b]))
                add(('ge', a, b), lambda T, a=a, b=b: z3.UGE(T[a], T[b]))
        for F in ex.loop_fns:
            for a in ks:
                for b in ks:
                    if a != b and e[a].size() == 64 and e[b].size() == 64:
                        add(('fn', F.name(), a, b), lambda T, a=a, b=b, F=F: T[b] == F(T[a]))
                for an, t in anchors.items():
                    if e[a].size() == 64 and t.size() == 64:
                        add(('fnA', F.name(), a, an), lambda T, a=a, t=t, F=F: t == F(T[a]))
        ok = houdini(ex, rep, {n: z3.simplify(f(e)) for n, f in C.items()})
        return {n: f for n, f in C.items() if n in ok}

    def spec_invs(st):
        out = []
        for f in ex.loop_inv:
            out += f(ex, st) or []
        return out

    t0 = time.time()
    ex.mode += 1
    try:
        for attempt in range(12):
            collect_anchors()
            reps = {pkey(S): S}
            cands = {pkey(S): candidates(S)}
            restart = False
            changed = True
            rounds = 0
            while changed and not restart:
                rounds += 1
                if rounds > 14:
                    raise Unsupported('loop invariant inference did not converge')
                changed = False
                for pk in list(reps):
                    if time.time() - t0 > 240:
                        raise Unsupported('loop invariant inference takes too long in ' + fn.name)
                    G = make(reps[pk])
                    T = terms(G)
                    for n, f in cands[pk].items():
                        G.assume(f(T))
                    for n, c in spec_invs(G):
                        G.assume(c)
                    if not ex.feasible(G):
                        continue
                    Gref = G.fork()
                    back, exits, dead = run(G)
                    if mons and not all(monitors_ok(B) for B in back):
                        mons.clear()
                        restart = True
                        break
                    for B in back:
                        ex.fold(B)
                        for loc in diff(B, Gref):
                            k = key_of(loc)
                            if k not in hav:
                                hav[k] = loc
                                restart = True
                            v = get_loc(B, loc)
                            if v is None and k not in removed and loc[0] != 'g':
                                removed.add(k)
                                restart = True
                            if loc[0] == 'cell' and v is not None and isinstance(v[1], Ptr) and k not in offvary:
                                r = get_loc(reps[pk], loc)
                                if r is not None and isinstance(r[1], Ptr) and r[1].obj is v[1].obj and not samev(r[1].off, v[1].off):
                                    offvary.add(k)
                                    restart = True
                        if held_key(B) != held_key(S):
                            raise Unsupported('lock set changes across loop iterations in ' + fn.name)
                    if restart:
                        break
                    for B in back:
                        bk = pkey(B)
                        if bk not in reps:
                            if len(reps) >= MAXPHASE:
                                raise Unsupported('too many loop phases')
                            reps[bk] = B
                            cands[bk] = candidates(B)
                            changed = True
                        else:
                            TB = terms(B)
                            cs = {}
                            for n in list(cands[bk]):
                                try:
                                    cs[n] = z3.simplify(cands[bk][n](TB))
                                except KeyError:
                                    pass
                            ok = houdini(ex, B, cs)
                            for n in list(cands[bk]):
                                if n not in ok:
                                    del cands[bk][n]
                                    changed = True
            if not restart:
                break
        else:
            raise Unsupported('loop write set did not converge')
    finally:
        ex.mode -= 1

    def monitors_prove(st):
        t = st.fork()
        for sp, base, lo in mons:
            sp.release(ex, t, base, lo)

    # final pass: record obligations, collect exits
    monitors_prove(S)
    for n, c in spec_invs(S):
        ex.prove(S, c, 'loop invariant on entry: ' + n)
    out = []
    for pk in list(reps):
        G = make(reps[pk])
        T = terms(G)
        for n, f in cands[pk].items():
            G.assume(f(T))
        for n, c in spec_invs(G):
            G.assume(c)
        if not ex.feasible(G):
            continue
        G.trace.append('loop in %s (arbitrary iteration)' % fn.name[:80])
        nev = len(G.ev)
        back, exits, dead = run(G)
        for B in back:
            ex.fold(B)
            monitors_prove(B)
            for f in getattr(ex, 'rounds', ()):
                f(ex, B, B.ev[nev:], mons)
            for n, c in spec_invs(B):
                ex.prove(B, c, 'loop invariant preserved: ' + n)
            bk = pkey(B)
            if bk in cands:
                TB = terms(B)
                cs = []
                for n, f in cands[bk].items():
                    try:
                        cs.append(f(TB))
                    except KeyError:
                        pass
                if cs and ex.mode == 0:
                    ex.prove(B, z3.And(*cs) if len(cs) > 1 else cs[0], 'inferred loop invariant preserved')
            ex.ended.append(B)
        for E in exits:
            E.wr = E.wr | S.wr | {(hav[k][0], hav[k][1], hav[k][2]) for k in hav if hav[k][0] in ('cell', 'abs')}
            out.append(E)
        # killed paths (infeasible, noreturn) simply end
    return out

