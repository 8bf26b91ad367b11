"""Reader for textual LLVM-18 IR (the subset clang emits for our witness units).

Gives typed functions with basic blocks, natural-loop structure, global
initialisers and source locations (from !dbg).  Nothing here executes code.
"""
import re, struct

# ----------------------------------------------------------------- types
I1, I8, I16, I32, I64 = (('i', n) for n in (1, 8, 16, 32, 64))
PTR = ('ptr',)
VOID = ('void',)
F32, F64 = ('f', 32), ('f', 64)

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<comment>;[^\n]*)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")?)
 | (?P<attr>\#[0-9]+)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<fp>[-+]?[0-9]+\.[0-9]*(?:e[-+]?[0-9]+)?)
 | (?P<hex>(?:u|s)?0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<int>[-+]?[0-9]+)
 | (?P<word>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tokenize: ' + s[i:i + 80])
        k = m.lastgroup
        i = m.end()
        if k in ('ws', 'comment'):
            continue
        out.append((k, m.group(k)))
    return out


def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


class Instr:
    __slots__ = ('op', 'dest', 'ty', 'args', 'x', 'dbg', 'flags', 'text')

    def __init__(self, op, dest=None, ty=None, args=(), x=None, flags=()):
        self.op, self.dest, self.ty, self.args, self.x, self.flags = op, dest, ty, args, x, flags
        self.dbg = None
        self.text = None

    def __repr__(self):
        return '<%s %s>' % (self.op, self.text and self.text.strip())


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.phis = []
        self.succs = []
        self.preds = []


class Function:
    def __init__(self, name, rty, params):
        self.name, self.rty, self.params = name, rty, params  # params: [(ty,name,attrs)]
        self.blocks = {}
        self.order = []
        self.linkage = ''
        self.decl = False
        self.vararg = False
        self.dbg = None
        self.loops = None


class Global:
    def __init__(self, name, ty, init, const, linkage):
        self.name, self.ty, self.init, self.const, self.linkage = name, ty, init, const, linkage


LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending',
        'extern_weak', 'linkonce_odr', 'weak_odr', 'external'}
FNSKIP = {'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected', 'dllimport', 'dllexport',
          'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'thread_local'}
PATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
         'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'noreturn', 'allocptr', 'allocalign',
         'captures', 'writable', 'dead_on_unwind', 'nounwind', 'inrange'}
PATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'byref',
             'preallocated', 'inalloca', 'nofpclass'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
         'fpext', 'fptrunc', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn',
         'disjoint', 'nneg', 'volatile', 'atomic', 'samesign'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] in ('p', 'word', 'dots')

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise SyntaxError('expected %r got %r in %r' % (v, self.peek(), self.t[max(0, self.i - 8):self.i + 8]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.at('addrspace'):
                    self.next(); self.next(); self.next(); self.next()
            elif v == 'void':
                t = VOID
            elif v == 'float':
                t = F32
            elif v == 'double':
                t = F64
            elif v == 'half':
                t = ('f', 16)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v == 'fp128':
                t = ('f', 128)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('metadata',)
            elif v == 'token':
                t = ('token',)
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise SyntaxError('type? ' + v)
        elif k == 'local':
            t = ('named', unq(v))
        elif (k, v) == ('p', '['):
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif (k, v) == ('p', '{'):
            t = self._struct('}', False)
        elif (k, v) == ('p', '<'):
            if self.at('{'):
                self.next()
                t = self._struct('}', True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise SyntaxError('type? %r' % ((k, v),))
        # function type
        while self.at('(') and self._looks_fnty():
            self.next()
            ps = []
            va = False
            while not self.at(')'):
                if self.eat('...'):
                    va = True
                else:
                    ps.append(self.type())
                self.eat(',')
            self.expect(')')
            t = ('fn', t, tuple(ps), va)
        return t

    def _looks_fnty(self):
        # in "call void (ptr, ...) @f(...)" a '(' after the type starts a function type
        return self.peek(1)[1] in (')', '...') and self.peek(1)[0] in ('p', 'dots') or \
            (self.peek(1)[0] == 'word' and (re.fullmatch(r'i\d+|ptr|float|double|void|metadata|x86_fp80', self.peek(1)[1]) is not None)
             and self.peek(2)[1] in (',', ')'))

    def _struct(self, end, packed):
        fs = []
        while not self.at(end):
            fs.append(self.type())
            self.eat(',')
        self.expect(end)
        return ('st', tuple(fs), packed)

    def skip_pattrs(self):
        al = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PATTR:
                self.next()
                al[v] = True
                if self.at('('):
                    self._skip_paren()
            elif k == 'word' and v in PATTR_ARG:
                self.next()
                if v == 'align' and self.peek()[0] == 'int':
                    al[v] = int(self.next()[1])
                elif self.at('('):
                    if v in ('byval', 'sret', 'elementtype', 'byref'):
                        self.next()
                        al[v] = self.type()
                        self.expect(')')
                    else:
                        self._skip_paren()
            elif k == 'word' and v == 'range':
                self.next(); self._skip_paren()
            elif k == 'str':
                self.next()
                if self.at('='):
                    self.next(); self.next()
            else:
                return al

    def _skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            k, v = self.next()
            if k == 'p' and v == '(':
                d += 1
            if k == 'p' and v == ')':
                d -= 1

    def value(self, ty):
        k, v = self.next()
        if k == 'local':
            return ('l', unq(v))
        if k == 'glob':
            return ('g', unq(v))
        if k == 'int':
            return ('c', int(v))
        if k == 'fp':
            return ('f', fbits(float(v), self.mod.resolve(ty)))
        if k == 'hex':
            return ('f', hexfp(v, self.mod.resolve(ty)))
        if k == 'cstr':
            return ('str', cbytes(v))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison', 'none'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'asm':
                while self.peek()[0] in ('word',):
                    self.next()
                self.next(); self.expect(','); self.next()
                return ('asm',)
            if v == 'blockaddress':
                self._skip_paren()
                return ('undef',)
            if v == 'getelementptr':
                fl = []
                while self.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    fl.append(self.next()[1])
                    if self.at('('):
                        if fl[-1] == 'inrange':
                            self._skip_paren()
                self.expect('(')
                sty = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.eat('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.eat(','):
                        break
                self.expect(')')
                return ('ce', 'gep', sty, ops)
            if v in CASTS:
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ce', v, (t, x), t2)
            if v in BINOPS or v in ('icmp', 'select'):
                while self.peek()[0] == 'word' and self.peek()[1] in FLAGS:
                    self.next()
                pred = None
                if v == 'icmp':
                    pred = self.next()[1]
                self.expect('(')
                ops = []
                while True:
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.eat(','):
                        break
                self.expect(')')
                return ('ce', v, pred, ops)
        if k == 'p' and v in '[{<':
            if v == '<' and self.at('{'):
                self.next()
                r = self._agg('}')
                self.expect('>')
                return r
            return self._agg({'[': ']', '{': '}', '<': '>'}[v])
        if k == 'meta':
            # metadata operand
            if v == '!' and self.at('{'):
                d = 0
                while True:
                    kk, vv = self.next()
                    if vv == '{':
                        d += 1
                    if vv == '}':
                        d -= 1
                        if d == 0:
                            break
            elif self.at('('):
                self._skip_paren()
            return ('meta', v)
        raise SyntaxError('value? %r %r' % ((k, v), self.t[max(0, self.i - 10):self.i + 6]))

    def _agg(self, end):
        els = []
        while not self.at(end):
            t = self.type()
            els.append((t, self.value(t)))
            self.eat(',')
        self.expect(end)
        return ('agg', els)

    def tv(self):
        t = self.type()
        self.skip_pattrs()
        return (t, self.value(t))


def fbits(x, ty):
    if ty == F32:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    if ty == F64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    if ty == ('f', 80):
        return ('ld', x)
    return 0


def hexfp(v, ty):
    if v[2] in 'KLMHR':
        b = int(v[3:], 16)
        return b if ty != ('f', 80) else ('x80', b)
    b = int(v, 16)
    if ty == F32:
        # double pattern holding a float; convert exactly (keep NaN payload)
        e = (b >> 52) & 0x7ff
        m = b & ((1 << 52) - 1)
        s = b >> 63
        if e == 0x7ff:
            return (s << 31) | 0x7f800000 | (m >> 29)
        return struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', b))[0]))[0]
    return b


def cbytes(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.meta, self.aliases = {}, {}, {}, {}, {}
        self._parse(text)
        self._szc = {}

    # --- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'st':
            if t[2]:
                return 1
            return max([self.align(f) for f in t[1]] + [1])
        raise ValueError(t)

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            a = self.align(t)
            b = (t[1] + 7) // 8
            return (b + a - 1) // a * a
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'st':
            o = self.offsets(t)
            return o[-1]
        raise ValueError(t)

    def offsets(self, t):
        """field offsets of a struct, with the total size appended"""
        t = self.resolve(t)
        c = self.__dict__.setdefault('_off', {})
        r = c.get(t)
        if r is not None:
            return r
        o = 0
        res = []
        for f in t[1]:
            a = 1 if t[2] else self.align(f)
            o = (o + a - 1) // a * a
            res.append(o)
            o += self.size(f)
        a = self.align(t)
        o = (o + a - 1) // a * a
        res.append(o)
        c[t] = res
        return res

    def store_size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return (t[1] + 7) // 8
        if t == ('f', 80):
            return 10
        return self.size(t)

    # --- parse
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        pend_funcs = []
        pend_globals = []
        while i < n:
            L = lines[i]
            if L.startswith('%') and ' = type ' in L:
                nm, rest = L.split(' = type ', 1)
                p = P(tokenize(rest), self)
                self.types[unq(nm.strip())] = p.type()
            elif L.startswith('@'):
                pend_globals.append(L)
            elif L.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                pend_funcs.append(lines[i:j])
                i = j
            elif L.startswith('declare'):
                pend_funcs.append([L])
            elif L.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', L)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            i += 1
        for L in pend_globals:
            self._global(L)
        for fl in pend_funcs:
            self._func(fl)

    def _global(self, L):
        p = P(tokenize(L), self)
        name = unq(p.next()[1])
        p.expect('=')
        linkage = 'external'
        const = False
        while True:
            k, v = p.peek()
            if k == 'word' and v in LINK:
                linkage = v
                p.next()
            elif k == 'word' and v == 'thread_local':
                p.next()
                if p.at('('):
                    p._skip_paren()
            elif k == 'word' and v in FNSKIP | {'externally_initialized'}:
                p.next()
            elif k == 'word' and v == 'addrspace':
                p.next(); p._skip_paren()
            elif k == 'word' and v in ('constant', 'global'):
                const = v == 'constant'
                p.next()
                break
            elif k == 'word' and v == 'alias':
                p.next()
                p.type()
                p.expect(',')
                t = p.type()
                self.aliases[name] = p.value(t)
                return
            else:
                raise SyntaxError('global ' + L[:120])
        ty = p.type()
        init = None
        if linkage not in ('extern_weak',) and p.peek()[0] != 'eof' and not p.at(','):
            init = p.value(ty)
        self.globals[name] = Global(name, ty, init, const, linkage)

    def _func(self, fl):
        head = fl[0]
        p = P(tokenize(head), self)
        isdecl = p.next()[1] == 'declare'
        linkage = 'external'
        while True:
            k, v = p.peek()
            if k == 'word' and v in LINK:
                linkage = v
                p.next()
            elif k == 'word' and v in FNSKIP:
                p.next()
            elif k == 'meta':
                p.next()
                p.next()
            else:
                break
        rattrs = p.skip_pattrs()
        rty = p.type_noparen() if hasattr(p, 'type_noparen') else p.type()
        p.skip_pattrs()
        name = unq(p.next()[1])
        p.expect('(')
        params = []
        va = False
        cnt = 0
        while not p.at(')'):
            if p.eat('...'):
                va = True
                break
            t = p.type()
            al = p.skip_pattrs()
            pn = None
            if p.peek()[0] == 'local':
                pn = unq(p.next()[1])
            elif p.peek()[0] == 'meta':
                p.next()
            if pn is None:
                pn = str(cnt)
            cnt += 1
            params.append((t, pn, al))
            p.eat(',')
        f = Function(name, rty, params)
        f.vararg = va
        f.linkage = linkage
        f.decl = isdecl
        m = re.search(r'!dbg !(\d+)', head)
        if m:
            f.dbg = int(m.group(1))
        f.noreturn = False
        self.funcs[name] = f
        if isdecl:
            return
        cur = None
        first = True
        i = 1
        while i < len(fl):
            L = fl[i]
            i += 1
            s = L.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):(\s|$)', L)
            if m:
                nm = m.group(1).strip('"')
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                first = False
                continue
            if cur is None:
                # unnamed entry: number = params count
                nm = str(cnt)
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
            # multi-line: switch ... [ ... ]; landingpad clauses; invoke
            if s.startswith('switch') and not s.rstrip().endswith(']') and '[' in s and ']' not in s.split('[', 1)[1]:
                while ']' not in fl[i]:
                    s += ' ' + fl[i].strip()
                    i += 1
                s += ' ' + fl[i].strip()
                i += 1
            elif (' invoke ' in s or s.startswith('invoke')) and ' unwind label' not in s:
                s += ' ' + fl[i].strip()
                i += 1
            elif 'landingpad' in s:
                while i < len(fl) and re.match(r'^\s+(cleanup|catch|filter)\b', fl[i]):
                    s += ' ' + fl[i].strip()
                    i += 1
            ins = self._instr(s)
            ins.text = s
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.instrs.append(ins)
        for b in f.blocks.values():
            t = b.instrs[-1]
            if t.op == 'br':
                b.succs = [t.x] if isinstance(t.x, str) else list(t.x)
            elif t.op == 'switch':
                b.succs = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'invoke':
                b.succs = [t.x['normal'], t.x['unwind']]
            else:
                b.succs = []
            for s_ in b.succs:
                f.blocks[s_].preds.append(b.name)

    def _instr(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
        # strip trailing metadata attachments
        core = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', s)
        core = re.sub(r'(, ![a-zA-Z_.]+ !(?:[0-9]+|\{[^}]*\}|DIExpression\([^)]*\)))+\s*$', '', core)
        p = P(tokenize(core), self)
        dest = None
        if p.peek()[0] == 'local' and p.peek(1) == ('p', '='):
            dest = unq(p.next()[1])
            p.next()
        ins = self._instr2(p, dest)
        ins.dbg = dbg
        return ins

    def _instr2(self, p, dest):
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        flags = []

        def fl():
            while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
                flags.append(p.next()[1])

        if op == 'fneg':
            fl()
            t, a = p.tv()
            return Instr('fneg', dest, t, [(t, a)])
        if op in BINOPS:
            fl()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Instr(op, dest, t, [(t, a), (t, b)], flags=tuple(flags))
        if op in ('icmp', 'fcmp'):
            fl()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Instr(op, dest, I1, [(t, a), (t, b)], x=pred)
        if op in CASTS:
            fl()
            t = p.type()
            a = p.value(t)
            p.expect('to')
            t2 = p.type()
            return Instr(op, dest, t2, [(t, a)], flags=tuple(flags))
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type()
            n = None
            if p.eat(','):
                if p.at('align'):
                    pass
                else:
                    n = p.tv()
            return Instr('alloca', dest, PTR, [n] if n else [], x=t)
        if op == 'load':
            fl()
            t = p.type()
            p.expect(',')
            a = p.tv()
            return Instr('load', dest, t, [a], flags=tuple(flags))
        if op == 'store':
            fl()
            a = p.tv()
            p.expect(',')
            b = p.tv()
            return Instr('store', None, VOID, [a, b], flags=tuple(flags))
        if op == 'getelementptr':
            fl()
            t = p.type()
            ops = []
            while p.eat(','):
                ops.append(p.tv())
            return Instr('gep', dest, PTR, ops, x=t, flags=tuple(flags))
        if op == 'br':
            if p.at('label'):
                p.next()
                return Instr('br', x=unq(p.next()[1]))
            c = p.tv()
            p.expect(',')
            p.expect('label')
            a = unq(p.next()[1])
            p.expect(',')
            p.expect('label')
            b = unq(p.next()[1])
            return Instr('br', args=[c], x=(a, b))
        if op == 'switch':
            v = p.tv()
            p.expect(',')
            p.expect('label')
            d = unq(p.next()[1])
            p.expect('[')
            cs = []
            while not p.at(']'):
                t = p.type()
                c = p.value(t)
                p.expect(',')
                p.expect('label')
                cs.append((c[1], unq(p.next()[1])))
            return Instr('switch', args=[v], x=(d, cs))
        if op == 'ret':
            if p.at('void'):
                return Instr('ret')
            return Instr('ret', args=[p.tv()])
        if op == 'unreachable':
            return Instr('unreachable')
        if op == 'resume':
            return Instr('resume', args=[p.tv()])
        if op == 'landingpad':
            t = p.type()
            cl = []
            while p.peek()[0] == 'word':
                w = p.next()[1]
                if w == 'cleanup':
                    cl.append(('cleanup',))
                else:
                    cl.append((w, p.tv()))
            return Instr('landingpad', dest, t, x=cl)
        if op == 'phi':
            fl()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                l = unq(p.next()[1])
                p.expect(']')
                inc.append((v, l))
                if not p.eat(','):
                    break
            return Instr('phi', dest, t, x=inc)
        if op == 'select':
            fl()
            c = p.tv()
            p.expect(',')
            a = p.tv()
            p.expect(',')
            b = p.tv()
            return Instr('select', dest, a[0], [c, a, b])
        if op in ('call', 'invoke'):
            fl()
            while p.peek()[0] == 'word' and p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.skip_pattrs()
            t = p.type()
            p.skip_pattrs()
            if t[0] == 'fn':
                rt = t[1]
            else:
                rt = t
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.at(')'):
                ty = p.type()
                al = p.skip_pattrs()
                args.append((ty, p.value(ty)) + ((al,) if al else ({},)))
                p.eat(',')
            p.expect(')')
            x = {'callee': callee}
            if op == 'invoke':
                while p.peek()[0] == 'attr' or p.at('['):
                    p.next()
                while not p.at('to'):
                    p.next()
                p.expect('to')
                p.expect('label')
                x['normal'] = unq(p.next()[1])
                p.expect('unwind')
                p.expect('label')
                x['unwind'] = unq(p.next()[1])
            return Instr(op, dest, rt, args, x=x, flags=tuple(flags))
        if op == 'extractvalue':
            a = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()[1]))
            return Instr(op, dest, None, [a], x=idx)
        if op == 'insertvalue':
            a = p.tv()
            p.expect(',')
            b = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()[1]))
            return Instr(op, dest, a[0], [a, b], x=idx)
        if op == 'freeze':
            a = p.tv()
            return Instr(op, dest, a[0], [a])
        if op in ('atomicrmw', 'cmpxchg', 'fence', 'va_arg', 'insertelement', 'extractelement', 'shufflevector',
                  'indirectbr', 'callbr', 'catchswitch', 'catchpad', 'cleanuppad'):
            return Instr(op, dest, None, [], x=None)
        raise SyntaxError('instr? ' + op)

    # --- source locations
    def loc(self, n):
        """(file, line, function) of a !dbg id"""
        c = self.__dict__.setdefault('_loc', {})
        if n in c:
            return c[n]
        r = ('?', 0, '?')
        t = self.meta.get(n) if n is not None else None
        if t:
            m = re.search(r'line: (\d+)', t)
            line = int(m.group(1)) if m else 0
            r = (self._file(n), line, self._subp(n))
        c[n] = r
        return r

    def _file(self, n, d=0):
        t = self.meta.get(n, '')
        if 'DIFile(' in t:
            m = re.search(r'filename: "([^"]*)"', t)
            dm = re.search(r'directory: "([^"]*)"', t)
            return m.group(1)
        m = re.search(r'file: !(\d+)', t)
        if m:
            return self._file(int(m.group(1)), d + 1)
        m = re.search(r'scope: !(\d+)', t)
        if m and d < 30:
            return self._file(int(m.group(1)), d + 1)
        return '?'

    def _subp(self, n, d=0):
        t = self.meta.get(n, '')
        if 'DISubprogram(' in t:
            m = re.search(r'name: "([^"]*)"', t)
            return m.group(1) if m else '?'
        m = re.search(r'scope: !(\d+)', t)
        if m and d < 30:
            return self._subp(int(m.group(1)), d + 1)
        return '?'


# ----------------------------------------------------------------- CFG helpers
def rpo(f):
    seen, out = set(), []
    st = [(f.order[0], iter(f.blocks[f.order[0]].succs))]
    seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succs)))
                break
        else:
            out.append(b)
            st.pop()
    out.reverse()
    return out


def dominators(f):
    order = rpo(f)
    idx = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in f.blocks[b].preds if p in idom]
            n = ps[0]
            for q in ps[1:]:
                a, c = q, n
                while a != c:
                    while idx[a] > idx[c]:
                        a = idom[a]
                    while idx[c] > idx[a]:
                        c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n
                ch = True
    return idom, order


def loops(f):
    """{header: set(blocks)} of natural loops; marks irreducible edges as errors"""
    if f.loops is not None:
        return f.loops
    idom, order = dominators(f)

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]

    idx = {b: i for i, b in enumerate(order)}
    res = {}
    for b in order:
        for s in f.blocks[b].succs:
            if idx[s] <= idx[b]:
                if not dom(s, b):
                    raise ValueError('irreducible loop in ' + f.name)
                body = res.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += [q for q in f.blocks[x].preds if q in idx]
    f.loops = res
    return res


def load(path):
    with open(path) as fh:
        return Module(fh.read())
