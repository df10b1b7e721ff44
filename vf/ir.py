"""LLVM IR (textual, opaque pointers, clang -O0) parser.

Only what clang 18 emits for the code under /repo is supported; anything else
raises Unsupported, which a check reports as an error, never as a violation.
Functions are parsed lazily.
"""
import re, subprocess


class Unsupported(Exception):
    pass


TOK = re.compile(r'''\s*(
   ;.*                                  |
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*" |
   [%@]"(?:[^"])*"                      |
   [%@][-\w.$]+                         |
   "(?:[^"])*"                          |
   ![\w.]*                              |
   \#\d+                                |
   \.\.\.                               |
   -?\d+\.\d+(?:[eE][+-]?\d+)?          |
   -?\d+                                |
   [A-Za-z_$][\w.$]*                    |
   [(){}\[\]<>,=*:|]
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise Unsupported('token: ' + s[pos:pos + 60])
        t = m.group(1)
        pos = m.end()
        if t[0] == ';':
            break
        out.append(t)
    return out


def unq(n):
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n


# ---- types: ('i',n) 'ptr' 'void' ('s',name) ('a',n,t) ('l',[t],packed) 'double' 'float' 'metadata' 'label' 'token' 'x86_fp80'
INT = re.compile(r'i(\d+)$')
_ity = {}


def ity(n):
    t = _ity.get(n)
    if t is None:
        t = _ity[n] = ('i', n)
    return t


ATTRS = set('''noundef nonnull signext zeroext nocapture noalias returned readonly readnone writeonly nest
immarg dead_on_unwind writable noreturn nounwind inreg noinline nofpclass swiftself local_unnamed_addr unnamed_addr dso_local
tail musttail notail fastcc ccc coldcc linkonce_odr weak_odr internal private external hidden protected
default available_externally linkonce weak common appending dllexport comdat allocptr allocalign nofree'''.split())


class P:
    """token stream parser"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported('expected %s at %s' % (x, ' '.join(self.t[max(0, self.i - 6):self.i + 6])))

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = 'ptr'
        elif t in ('void', 'double', 'float', 'metadata', 'label', 'token', 'x86_fp80', 'fp128', 'half'):
            r = t
        elif t[0] == '%':
            r = ('s', unq(t)[1:])
        elif t == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            r = ('a', n, e)
        elif t == '{':
            es = []
            if not self.eat('}'):
                while True:
                    es.append(self.type())
                    if self.eat('}'):
                        break
                    self.need(',')
            r = ('l', tuple(es), False)
        elif t == '<':
            if self.eat('{'):
                es = []
                if not self.eat('}'):
                    while True:
                        es.append(self.type())
                        if self.eat('}'):
                            break
                        self.need(',')
                self.need('>')
                r = ('l', tuple(es), True)
            else:
                n = int(self.next())
                self.need('x')
                e = self.type()
                self.need('>')
                r = ('v', n, e)
        else:
            m = INT.match(t)
            if not m:
                raise Unsupported('type ' + t + ' in ' + ' '.join(self.t)[:200])
            r = ity(int(m.group(1)))
        # function types: ret (args)
        if self.peek() == '(':
            self.next()
            args = []
            if not self.eat(')'):
                while True:
                    if self.eat('...'):
                        args.append('...')
                    else:
                        args.append(self.type())
                        self.attrs()
                    if self.eat(')'):
                        break
                    self.need(',')
            r = ('f', r, tuple(args))
        return r

    def attrs(self):
        """skip parameter attributes, return dict of interesting ones"""
        d = {}
        while True:
            t = self.peek()
            if t is None:
                return d
            if t in ATTRS:
                d[t] = True
                self.next()
            elif t in ('align', 'addrspace'):
                self.next()
                if self.eat('('):
                    self.next()
                    self.need(')')
                else:
                    self.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'memory', 'allocsize', 'captures', 'range'):
                self.next()
                self.need('(')
                dep = 1
                while dep:
                    x = self.next()
                    if x == '(':
                        dep += 1
                    elif x == ')':
                        dep -= 1
            elif t in ('sret', 'byval', 'elementtype', 'byref', 'inalloca'):
                self.next()
                self.need('(')
                d[t] = self.type()
                self.need(')')
            elif t[0] == '#':
                self.next()
            else:
                return d

    def value(self, ty):
        """operand: ('r',name) ('g',name) ('c',val) ('null',) ('undef',) ('zero',) ('ce',op,...)  ('agg',[..])"""
        t = self.next()
        if t[0] == '%':
            return ('r', unq(t)[1:])
        if t[0] == '@':
            return ('g', unq(t)[1:])
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if re.match(r'-?\d+$', t):
            return ('c', int(t))
        if re.match(r'-?\d+\.\d+', t) or t.startswith('0x'):
            return ('f', t)
        if t == 'getelementptr':
            self.eat('inbounds')
            while self.peek() in ('nuw', 'nusw', 'inrange'):
                self.next()
                if self.eat('('):
                    while not self.eat(')'):
                        self.next()
            self.need('(')
            base = self.type()
            self.need(',')
            self.type()
            p = self.value('ptr')
            idx = []
            while self.eat(','):
                self.eat('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.need(')')
            return ('ce', 'gep', base, p, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.need('(')
            ft = self.type()
            v = self.value(ft)
            self.need('to')
            tt = self.type()
            self.need(')')
            return ('ce', 'cast', t, ft, v, tt)
        if t in ('sub', 'add', 'mul', 'and', 'or', 'xor'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.need('(')
            ty1 = self.type()
            a = self.value(ty1)
            self.need(',')
            self.type()
            b = self.value(ty1)
            self.need(')')
            return ('ce', 'bin', t, ty1, a, b)
        if t == 'icmp':
            pred = self.next()
            self.need('(')
            ty1 = self.type()
            a = self.value(ty1)
            self.need(',')
            self.type()
            b = self.value(ty1)
            self.need(')')
            return ('ce', 'icmp', pred, ty1, a, b)
        if t in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[t]
            inner = False
            if t == '<' and self.eat('{'):
                inner = True
            es = []
            if not self.eat(close if not inner else '}'):
                while True:
                    et = self.type()
                    es.append((et, self.value(et)))
                    if self.eat('}' if inner else close):
                        break
                    self.need(',')
            if inner:
                self.need('>')
            return ('agg', es)
        if t.startswith('c"'):
            raw = t[2:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i + 1] == '\\':
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(raw[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(raw[i]))
                    i += 1
            return ('str', bytes(b))
        if t[0] == '!':
            # metadata operand: swallow
            if self.peek() == '(':
                d = 0
                while True:
                    x = self.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            return ('md', t)
        if ty == 'metadata':
            return ('md', t)
        if t == 'asm':
            return ('asm',)
        raise Unsupported('value ' + t + ' in ' + ' '.join(self.t)[:300])


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'b', 'c', 'd', 'dbg', 'line')

    def __init__(self, op, res=None, ty=None, a=None, b=None, c=None, d=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.b = b
        self.c = c
        self.d = d
        self.dbg = None

    def __repr__(self):
        return '<%s %s %s %s %s>' % (self.res, self.op, self.a, self.b, self.c)


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
FBIN = set('fadd fsub fmul fdiv frem fneg'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast fptoui fptosi uitofp sitofp fptrunc fpext addrspacecast'.split())


def strip_md(line):
    # drop ", !dbg !12" and friends
    i = line.find(', !')
    dbg = None
    if i >= 0:
        m = re.search(r'!dbg !(\d+)', line[i:])
        if m:
            dbg = int(m.group(1))
        return line[:i], dbg
    return line, None


class Function:
    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.blocks = None
        self._loops = None
        self._live = None

    # ---- CFG helpers
    def succs(self, label):
        i = self.blocks[label][-1]
        if i.op == 'br':
            return [i.a] if i.b is None else [i.b, i.c]
        if i.op == 'switch':
            return [i.b] + [l for _, l in i.c]
        if i.op == 'invoke':
            return [i.c, i.d]
        return []

    def loops(self):
        """header -> set(body blocks)"""
        if self._loops is not None:
            return self._loops
        color = {}
        back = []
        stack = [(self.entry, iter(self.succs(self.entry)))]
        color[self.entry] = 1
        while stack:
            n, it = stack[-1]
            adv = False
            for s in it:
                if color.get(s) is None:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    adv = True
                    break
                elif color[s] == 1:
                    back.append((n, s))
            if not adv:
                color[n] = 2
                stack.pop()
        preds = {}
        for b in color:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        loops = {}
        for n, h in back:
            body = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(preds.get(x, []))
        self._loops = loops
        return loops

    def live_in(self, label):
        """registers read in blocks reachable from label (coarse, sound over-approximation of liveness)"""
        if self._live is None:
            self._live = {}
        if label in self._live:
            return self._live[label]
        seen = set()
        work = [label]
        used = set()
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            for i in self.blocks[b]:
                collect_regs(i, used)
            work.extend(self.succs(b))
        # registers that are defined on every path before use are still included; harmless
        self._live[label] = used
        return used


def collect_regs(i, out):
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'r' and isinstance(x[1], str):
                out.add(x[1])
            else:
                for y in x:
                    if isinstance(y, (tuple, list)):
                        go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    for f in (i.a, i.b, i.c, i.d):
        if isinstance(f, (tuple, list)):
            go(f)


class Module:
    def __init__(self, path):
        self.path = path
        with open(path) as f:
            self.lines = f.read().split('\n')
        self.fdefs = {}
        self.fdecl = {}
        self.globals = {}
        self.types = {}
        self.aliases = {}
        self.md = {}
        self.fcache = {}
        self._sizes = {}
        self._ctypes = None
        self._mdc = {}
        L = self.lines
        n = len(L)
        i = 0
        namere = re.compile(r'@("[^"]*"|[-\w.$]+)\(')
        while i < n:
            l = L[i]
            if l:
                c = l[0]
                if c == 'd':
                    if l.startswith('define '):
                        m = namere.search(l)
                        name = m.group(1).strip('"')
                        s = i
                        while L[i] != '}':
                            i += 1
                        self.fdefs[name] = (s, i)
                    elif l.startswith('declare '):
                        m = namere.search(l)
                        self.fdecl[m.group(1).strip('"')] = i
                elif c == '@':
                    m = re.match(r'@("[^"]*"|[-\w.$]+) = ', l)
                    name = m.group(1).strip('"')
                    if re.search(r'= .*\balias\b ', l) and not re.search(r'\b(global|constant)\b', l):
                        m2 = re.search(r'ptr @("[^"]*"|[-\w.$]+)', l)
                        self.aliases[name] = m2.group(1).strip('"')
                    else:
                        self.globals[name] = i
                elif c == '%':
                    m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)$', l)
                    self.types[m.group(1).strip('"')] = m.group(2)
                elif c == '!':
                    m = re.match(r'!(\d+) = ', l)
                    if m:
                        self.md[int(m.group(1))] = i
            i += 1
        self._tparsed = {}
        self._gcache = {}

    # ---- types
    def tdef(self, name):
        t = self._tparsed.get(name)
        if t is None:
            src = self.types.get(name)
            if src is None or src.strip() == 'opaque':
                raise Unsupported('opaque type ' + name)
            t = self._tparsed[name] = P(tokenize(src), self).type()
        return t

    def size_align(self, t):
        r = self._sizes.get(t)
        if r is not None:
            return r
        if t == 'ptr':
            r = (8, 8)
        elif t == 'double':
            r = (8, 8)
        elif t == 'float':
            r = (4, 4)
        elif t == 'x86_fp80':
            r = (16, 16)
        elif t[0] == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            r = (a, min(a, 16)) if b > 0 else (0, 1)
        elif t[0] == 's':
            r = self.size_align(self.tdef(t[1]))
        elif t[0] in ('a', 'v'):
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif t[0] == 'l':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        else:
            raise Unsupported('sizeof ' + str(t))
        self._sizes[t] = r
        return r

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field(self, t, idx):
        """(offset, type) of struct field"""
        if t[0] == 's':
            t = self.tdef(t[1])
        if t[0] == 'l':
            off = 0
            for k, e in enumerate(t[1]):
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                if k == idx:
                    return off, e
                off += s
        raise Unsupported('field %s %s' % (t, idx))

    # ---- functions
    def func(self, name):
        f = self.fcache.get(name)
        if f is not None:
            return f
        s, e = self.fdefs[name]
        f = Function(name, self)
        self.parse_header(f, self.lines[s])
        self.parse_body(f, s + 1, e)
        self.fcache[name] = f
        return f

    def parse_header(self, f, line):
        i = line.find(' !dbg')
        hdr = line
        toks = tokenize(hdr.rstrip('{ '))
        p = P(toks, self)
        p.next()  # define
        while p.peek() in ATTRS:
            p.next()
        p.attrs()
        f.retattrs = {}
        f.ret = p.type()
        nm = p.next()
        p.need('(')
        f.params = []
        f.vararg = False
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    f.vararg = True
                else:
                    ty = p.type()
                    at = p.attrs()
                    pn = unq(p.next())[1:]
                    f.params.append((ty, pn, at))
                if p.eat(')'):
                    break
                p.need(',')
        m = re.search(r'!dbg !(\d+)', line)
        f.dbg = int(m.group(1)) if m else None

    def parse_body(self, f, s, e):
        blocks = {}
        cur = None
        f.entry = None
        L = self.lines
        i = s
        while i < e:
            l = L[i]
            i += 1
            if not l:
                continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                if m:
                    lab = m.group(1).strip('"')
                    cur = blocks[lab] = []
                    if f.entry is None:
                        f.entry = lab
                    continue
                continue
            if cur is None:
                f.entry = '0'
                cur = blocks['0'] = []
            ls = l.strip()
            if ls.startswith(('switch ',)) and ls.endswith('['):
                while not L[i].strip().startswith(']'):
                    ls += ' ' + L[i].strip()
                    i += 1
                ls += ' ' + L[i].strip()
                i += 1
            elif ' invoke ' in l or ls.startswith('invoke '):
                if ' unwind label ' not in ls:
                    ls += ' ' + L[i].strip()
                    i += 1
            elif 'landingpad' in ls:
                while i < e and L[i].strip().startswith(('catch', 'cleanup', 'filter')):
                    ls += ' ' + L[i].strip()
                    i += 1
            elif 'llvm.dbg.' in ls or ls.startswith('#dbg'):
                continue
            ins = self.parse_instr(ls)
            if ins is not None:
                cur.append(ins)
        f.blocks = blocks

    def parse_instr(self, ls):
        ls, dbg = strip_md(ls)
        p = P(tokenize(ls), self)
        res = None
        if p.t[0][0] == '%' and len(p.t) > 1 and p.t[1] == '=':
            res = unq(p.next())[1:]
            p.next()
        op = p.next()
        ins = self._instr(op, res, p)
        ins.dbg = dbg
        return ins

    def _instr(self, op, res, p):
        if op == 'alloca':
            ty = p.type()
            cnt = None
            if p.eat(',') and p.peek() != 'align':
                ct = p.type()
                cnt = p.value(ct)
            return Instr('alloca', res, ty, cnt)
        if op == 'load':
            atomic = p.eat('atomic')
            p.eat('volatile')
            ty = p.type()
            p.need(',')
            p.type()
            v = p.value('ptr')
            return Instr('load', res, ty, v, atomic)
        if op == 'store':
            atomic = p.eat('atomic')
            p.eat('volatile')
            ty = p.type()
            v = p.value(ty)
            p.need(',')
            p.type()
            a = p.value('ptr')
            return Instr('store', None, ty, v, a, atomic)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            base = p.type()
            p.need(',')
            p.type()
            v = p.value('ptr')
            idx = []
            while p.eat(','):
                it = p.type()
                idx.append((it, p.value(it)))
            return Instr('gep', res, base, v, idx)
        if op == 'br':
            if p.eat('label'):
                return Instr('br', None, None, unq(p.next())[1:])
            p.type()
            c = p.value(ity(1))
            p.need(',')
            p.need('label')
            a = unq(p.next())[1:]
            p.need(',')
            p.need('label')
            b = unq(p.next())[1:]
            return Instr('br', None, None, c, a, b)
        if op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.need(',')
            p.need('label')
            d = unq(p.next())[1:]
            p.need('[')
            cs = []
            while not p.eat(']'):
                p.type()
                c = p.value(ty)
                p.need(',')
                p.need('label')
                cs.append((c[1], unq(p.next())[1:]))
            return Instr('switch', None, ty, v, d, cs)
        if op == 'ret':
            ty = p.type()
            if ty == 'void':
                return Instr('ret', None, ty, None)
            return Instr('ret', None, ty, p.value(ty))
        if op == 'unreachable':
            return Instr('unreachable')
        if op in ('call', 'invoke', 'tail', 'notail', 'musttail'):
            if op in ('tail', 'notail', 'musttail'):
                p.next()
                op = 'call'
            while p.peek() in ('nnan', 'fast', 'ninf'):
                p.next()
            p.attrs()
            ty = p.type()
            if isinstance(ty, tuple) and ty[0] == 'f':
                ty = ty[1]
            if p.peek() == 'asm':
                return Instr('asm', res, ty)
            callee = p.value('ptr')
            p.need('(')
            args = []
            if not p.eat(')'):
                while True:
                    at = p.type()
                    attrs = p.attrs()
                    if at == 'metadata':
                        args.append((at, ('md', None), attrs))
                        # swallow to , or )
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x == '(':
                                d += 1
                            if x == ')':
                                d -= 1
                    else:
                        args.append((at, p.value(at), attrs))
                    if p.eat(')'):
                        break
                    p.need(',')
            ins = Instr(op, res, ty, callee, args)
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.need('label')
                ins.c = unq(p.next())[1:]
                p.need('unwind')
                p.need('label')
                ins.d = unq(p.next())[1:]
            return ins
        if op in BIN:
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.append(p.next())
            ty = p.type()
            a = p.value(ty)
            p.need(',')
            b = p.value(ty)
            return Instr('bin', res, ty, a, b, op, fl)
        if op in FBIN:
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract'):
                p.next()
            ty = p.type()
            a = p.value(ty)
            b = None
            if p.eat(','):
                b = p.value(ty)
            return Instr('fbin', res, ty, a, b, op)
        if op in CASTS:
            p.eat('nneg')
            ty = p.type()
            v = p.value(ty)
            p.need('to')
            tt = p.type()
            return Instr('cast', res, tt, v, ty, op)
        if op == 'icmp':
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.need(',')
            b = p.value(ty)
            return Instr('icmp', res, ty, a, b, pred)
        if op == 'fcmp':
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.need(',')
            b = p.value(ty)
            return Instr('fcmp', res, ty, a, b, pred)
        if op == 'phi':
            ty = p.type()
            inc = []
            while True:
                p.need('[')
                v = p.value(ty)
                p.need(',')
                l = unq(p.next())[1:]
                p.need(']')
                inc.append((v, l))
                if not p.eat(','):
                    break
            return Instr('phi', res, ty, inc)
        if op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.need(',')
            ty = p.type()
            a = p.value(ty)
            p.need(',')
            p.type()
            b = p.value(ty)
            return Instr('select', res, ty, c, a, b)
        if op == 'extractvalue':
            ty = p.type()
            v = p.value(ty)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Instr('extractvalue', res, ty, v, idx)
        if op == 'insertvalue':
            ty = p.type()
            v = p.value(ty)
            p.need(',')
            et = p.type()
            e = p.value(et)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Instr('insertvalue', res, ty, v, e, idx, et)
        if op == 'landingpad':
            ty = p.type()
            clauses = []
            while p.peek():
                x = p.next()
                if x == 'cleanup':
                    clauses.append(('cleanup',))
                elif x == 'catch':
                    ct = p.type()
                    clauses.append(('catch', p.value(ct)))
                elif x == 'filter':
                    ct = p.type()
                    clauses.append(('filter', p.value(ct)))
                else:
                    break
            return Instr('landingpad', res, ty, clauses)
        if op == 'resume':
            ty = p.type()
            return Instr('resume', None, ty, p.value(ty))
        if op == 'cmpxchg':
            weak = p.eat('weak')
            p.eat('volatile')
            p.type()
            a = p.value('ptr')
            p.need(',')
            ty = p.type()
            e = p.value(ty)
            p.need(',')
            p.type()
            n = p.value(ty)
            return Instr('cmpxchg', res, ty, a, e, n, weak)
        if op == 'atomicrmw':
            p.eat('volatile')
            rop = p.next()
            p.type()
            a = p.value('ptr')
            p.need(',')
            ty = p.type()
            v = p.value(ty)
            return Instr('atomicrmw', res, ty, a, v, rop)
        if op == 'fence':
            return Instr('fence')
        if op == 'freeze':
            ty = p.type()
            return Instr('cast', res, ty, p.value(ty), ty, 'bitcast')
        raise Unsupported('instruction ' + op)

    # ---- globals
    def gvar(self, name):
        """(type, init operand or None, is_const, thread_local)"""
        g = self._gcache.get(name)
        if g is not None:
            return g
        line = self.lines[self.globals[name]]
        line, _ = strip_md(line)
        toks = tokenize(line)
        p = P(toks, self)
        p.next()
        p.need('=')
        tls = False
        ext = False
        while p.peek() not in ('global', 'constant'):
            t = p.next()
            if t == 'thread_local':
                tls = True
                if p.eat('('):
                    p.next()
                    p.need(')')
            if t in ('external', 'extern_weak'):
                ext = True
        const = p.next() == 'constant'
        ty = p.type()
        init = None
        if p.peek() not in (None, ',') and not ext:
            init = p.value(ty)
        g = self._gcache[name] = (ty, init, const, tls)
        return g

    # ---- debug info
    def mdnode(self, n):
        r = self._mdc.get(n)
        if r is None:
            line = self.lines[self.md[n]]
            body = line.split(' = ', 1)[1]
            m = re.match(r'(?:distinct )?!(\w*)[({](.*)[)}]$', body)
            kind, rest = m.group(1), m.group(2)
            d = {'_': kind}
            if kind == '':
                d['list'] = [int(x[1:]) if x.startswith('!') and x[1:].isdigit() else None for x in
                             [y.strip() for y in rest.split(',')]]
            else:
                for k, v in re.findall(r'(\w+): ("(?:[^"])*"|[^,"]+)', rest):
                    v = v.strip()
                    if v.startswith('"'):
                        v = v[1:-1]
                    elif v.startswith('!') and v[1:].isdigit():
                        v = int(v[1:])
                        d[k] = ('!', v)
                        continue
                    d[k] = v
            r = self._mdc[n] = d
        return r

    def dbg_line(self, n):
        if n is None or n not in self.md:
            return None
        d = self.mdnode(n)
        return d.get('line')

    def qualname(self, mid):
        """qualified name of a type from its scope chain"""
        d = self.mdnode(mid)
        nm = d.get('name')
        sc = d.get('scope')
        k = 0
        while isinstance(sc, tuple) and nm and k < 12:
            s = self.mdnode(sc[1])
            if s['_'] == 'DINamespace':
                if s.get('name'):
                    nm = s['name'] + '::' + nm
            elif s['_'] == 'DICompositeType':
                nm = s.get('name', '?') + '::' + nm
            else:
                break
            sc = s.get('scope')
            k += 1
        return nm

    def enumerators(self, name):
        """values of an enumeration, from debug info"""
        for l in self.lines:
            if l.startswith('!') and 'DW_TAG_enumeration_type' in l and 'name: "%s"' % name in l and 'elements' in l:
                d = self.mdnode(int(re.match(r'!(\d+) ', l).group(1)))
                out = {}
                for e in self.mdnode(d['elements'][1])['list']:
                    x = self.mdnode(e)
                    out[x['name']] = int(x['value'])
                return out
        return None

    def ctypes(self):
        """typeinfo identifier -> metadata id for every complete class"""
        if self._ctypes is None:
            self._ctypes = {}
            pat = re.compile(r'!(\d+) = (?:distinct )?!DICompositeType\(tag: DW_TAG_(?:class|structure)_type.*identifier: "([^"]+)"')
            for l in self.lines:
                if l.startswith('!') and 'DICompositeType' in l and 'identifier' in l:
                    m = pat.match(l)
                    if m and 'DIFlagFwdDecl' not in l:
                        self._ctypes[m.group(2)] = int(m.group(1))
                elif l.startswith('!') and 'vtableHolder' in l and 'DICompositeType' in l and 'DIFlagFwdDecl' not in l:
                    # classes with a key function carry no identifier
                    m = re.match(r'!(\d+) = ', l)
                    q = self.qualname(int(m.group(1)))
                    if q and '<' not in q:
                        self._ctypes[q] = int(m.group(1))
        return self._ctypes


_dem = {}


def demangle(names):
    todo = [n for n in names if n not in _dem]
    if todo:
        p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(todo), capture_output=True, text=True)
        if p.returncode != 0:
            p = subprocess.run(['c++filt'], input='\n'.join(todo), capture_output=True, text=True)
        out = p.stdout.split('\n')
        for a, b in zip(todo, out):
            _dem[a] = b
    return [_dem[n] for n in names]


def dem(n):
    r = _dem.get(n)
    if r is None:
        demangle([n])
        r = _dem[n]
    return r
