"""Abstract interpreter for LLVM IR.

State  = SSA environments of the live frames + region memory (blocks whose
         contents are segment lists with symbolic boundaries) + relational
         numeric constraints (num.Num).
Loops  = fixpoints over loop-head states partitioned by heap shape, joined with
         an affine-hull + candidate-inequality join (constraints can only be
         dropped after the first joins, so iteration terminates).
Nothing is executed and no satisfiability query is made over program paths.
"""
import math, struct as _struct
from . import ir
from .num import LE, ZERO, ONE, Num, SYM, fresh, term, affine_join, const

MAXHEADS = 48
MAXITER = 24
OOM = 1 << 47


class Ptr:
    __slots__ = ('b', 'off')

    def __init__(self, b, off=ZERO):
        self.b, self.off = b, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.b == o.b and self.off == o.off

    def __hash__(self):
        return hash((self.b, self.off))

    def __repr__(self):
        return 'null' if self.b == 0 and self.off == ZERO else '&%s+%r' % (self.b, self.off)


NULL = Ptr(0)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Agg%r' % (self.v,)


class Block:
    __slots__ = ('size', 'status', 'kind', 'segs', 'site', 'cellular', 'name', 'ro')

    def __init__(self, size, kind, segs, site, cellular, name='', ro=False, status='live'):
        self.size, self.kind, self.segs, self.site = size, kind, segs, site
        self.cellular, self.name, self.ro, self.status = cellular, name, ro, status

    def copy(self, **kw):
        b = Block(self.size, self.kind, self.segs, self.site, self.cellular, self.name, self.ro, self.status)
        for k, v in kw.items():
            setattr(b, k, v)
        return b


class Frame:
    __slots__ = ('fn', 'env', 'call', 'stack')

    def __init__(self, fn, env, call=None):
        self.fn, self.env, self.call, self.stack = fn, env, call, []

    def copy(self):
        f = Frame(self.fn, dict(self.env), self.call)
        f.stack = list(self.stack)
        return f


class State:
    __slots__ = ('frames', 'mem', 'num', 'trace', 'ghost')

    def __init__(self):
        self.frames, self.mem, self.num, self.trace, self.ghost = [], {}, Num(), (), {}

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.num = self.num.copy()
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        return s


class Split(Exception):
    def __init__(self, alts, why=''):
        self.alts = alts
        self.why = why


class Stop(Exception):
    """path ends (after an alarm or an assume(false))"""


class Unsupported(Exception):
    pass


class Array:
    """an opaque array: contents are terms elem(A, byte offset, width)"""
    __slots__ = ('id', 'name', 'lo', 'hi', 'uninit', 'size', 'terms')

    def __init__(self, id, name, lo=None, hi=None, uninit=False, size=None):
        self.id, self.name, self.lo, self.hi, self.uninit, self.size = id, name, lo, hi, uninit, size
        self.terms = {}


def f2b(x, w):
    if w == 32:
        try:
            return _struct.unpack('<I', _struct.pack('<f', x))[0]
        except OverflowError:
            return 0x7f800000 if x > 0 else 0xff800000
    return _struct.unpack('<Q', _struct.pack('<d', x))[0]


def b2f(b, w):
    if w == 32:
        return _struct.unpack('<f', _struct.pack('<I', b))[0]
    return _struct.unpack('<d', _struct.pack('<Q', b))[0]


class Interp:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = {'nsw': False, 'uninit': False, 'maxrec': 10, 'part_consts': False, 'leak': True, 'budget': 400000,
                  'hooks': {}, 'mutable_globals': 'any'}
        self.o.update({'small': None, 'hsizes': [0, 1, 3], 'hist': 2, 'iters': 80, 'maxpaths': 600})
        self.o.update(opts or {})
        self.truncated = False
        self.arrays = []
        self.sized = False
        self.alarms = []
        self.unsupported = []
        self.oblig = {}
        self.funcs_seen = set()
        self.loops_seen = {}
        self.checks = {}
        self.nblk = 0
        self.nondet = 0
        self.steps = 0
        self.live_cache = {}
        self.globs = {}
        self.typeids = {}
        self.cur = None
        self.quiet = 0

    # ------------------------------------------------------------ utilities
    def newid(self):
        self.nblk += 1
        return self.nblk

    def new_array(self, name, **kw):
        a = Array(len(self.arrays), name, **kw)
        self.arrays.append(a)
        return a.id

    def loc(self, st=None):
        if self.cur is None:
            return ('?', 0, '?')
        ins = self.cur
        return self.m.loc(ins.dbg)

    def stack_locs(self, st):
        out = []
        l = self.loc()
        out.append('%s:%d (%s)' % (l[0], l[1], l[2]))
        for f in reversed(st.frames[:-1]):
            if f.call is not None:
                l = self.m.loc(f.call[2].dbg)
                out.append('%s:%d (%s)' % (l[0], l[1], l[2]))
        return out

    def ob(self, kind):
        self.oblig[kind] = self.oblig.get(kind, 0) + 1

    def alarm(self, st, kind, msg, definite=False):
        if self.o.get('dbg') == 3:
            print('ALARM', kind, msg, '\n  '.join(self.describe(st)))
        if not st.num.feasible() or self.infeasible_fp(st):
            raise Stop()
        l = self.stack_locs(st)
        self.alarms.append({'kind': kind, 'msg': msg, 'where': l, 'definite': definite, 'trace': list(st.trace[-12:]),
                            'facts': st.num.dump()[:40] if definite is not None else []})

    # ------------------------------------------------------------ numerics
    def u(self, st, e, w):
        n = st.num
        e = n.nf(e)
        M = 1 << w
        if not e.t:
            return LE(e.c % M)
        lo, hi = n.bounds(e)
        if lo is not None and hi is not None:
            k = lo // M
            if hi // M == k:
                return e - k * M if k else e
        if n.prove_ge(e) and n.prove_ge(LE(M - 1) - e):
            return e
        if n.prove_ge(-e - 1) and n.prove_ge(e + M):
            return e + M
        if n.prove_ge(e - M) and n.prove_ge(LE(2 * M - 1) - e):
            return e - M
        if lo is not None and hi is not None and hi // M - lo // M == 1:
            B = (hi // M) * M
            if n.prove_ge(e - B):
                return e - B
            if n.prove_ge(LE(B - 1) - e):
                return e - (B - M)
            raise Split([[('ge', e - B)], [('ge', LE(B - 1) - e)]], 'wrap')
        # many-range: exact mod through a quotient symbol
        q, r = self.divpow2(st, e, w)
        return r

    def s(self, st, e, w):
        H = 1 << (w - 1)
        return self.u(st, e + H, w) - H

    def divc(self, st, e, c):
        """floor division of (mathematical) e by constant c>0 -> (q, r)"""
        if c == 1:
            return e, ZERO
        n = st.num
        e = n.nf(e)
        if c & (c - 1) == 0:
            return self.divpow2(st, e, c.bit_length() - 1)
        H = LE(e.c // c, tuple((s_, k // c) for s_, k in e.t if k % c == 0))
        L = LE(e.c % c, tuple((s_, k) for s_, k in e.t if k % c))
        if not L.t:
            return H, L
        lo, hi = n.bounds(L)
        if lo is not None and hi is not None and lo // c == hi // c:
            k = lo // c
            return H + k, L - k * c
        q = term(('div', L, c), 'q', None if lo is None else lo // c, None if hi is None else hi // c)
        r = L - q * c
        n.add_ge(r)
        n.add_ge(LE(c - 1) - r)
        return H + q, r

    def divpow2(self, st, e, k):
        n = st.num
        M = 1 << k
        for _ in range(80):
            e = n.nf(e)
            H = LE(e.c >> k, tuple((s_, c // M) for s_, c in e.t if c % M == 0))
            L = LE(e.c & (M - 1), tuple((s_, c) for s_, c in e.t if c % M))
            if not L.t:
                return H, L
            lo, hi = n.bounds(L)
            if lo is not None and hi is not None and lo >> k == hi >> k:
                j = lo >> k
                return H + j, L - j * M
            if n.prove_ge(L) and n.prove_ge(LE(M - 1) - L):
                return H, L
            # a low part whose high part may be put back
            back = None
            for s_, c in L.t:
                key = SYM[s_].key
                if key and key[0] == 'sl' and key[3] == 'r' and (c << key[2]) % M == 0:
                    hi_ = term(('sl', key[1], key[2], 'q'), 'hi')
                    cand = L + hi_ * (c << key[2])
                    if n.prove_ge(cand) and n.prove_ge(LE(M - 1) - cand):
                        back = (H - hi_ * ((c << key[2]) // M), cand)
                        break
            if back:
                return back
            # cut a symbol: coefficient 2^j (j<k), non-negative, too wide
            done = False
            if L.c == 0 or True:
                for s_, c in L.t:
                    if c > 0 and c & (c - 1) == 0:
                        j = c.bit_length() - 1
                        l, h = n.symb(s_)
                        if l is not None and l >= 0 and h is not None and (h << j) >= M and len(L.t) == 1 and L.c == 0:
                            x = LE(0, ((s_, 1),))
                            q = term(('sl', s_, k - j, 'q'), 'hi', 0, h >> (k - j))
                            r = term(('sl', s_, k - j, 'r'), 'lo', 0, (1 << (k - j)) - 1)
                            n._elim(s_, q * (1 << (k - j)) + r)
                            done = True
                            break
                        if l is not None and l >= 0 and h is not None and (h << j) >= M and L.c % (1 << j) == 0 and len(L.t) > 1:
                            # several terms: slicing helps only when the rest is small
                            pass
            if done:
                continue
            q = term(('div', L, M), 'q', None if lo is None else lo >> k, None if hi is None else hi >> k)
            r = L - q * M
            n.add_ge(r)
            n.add_ge(LE(M - 1) - r)
            return H + q, r
        raise Unsupported('divpow2')

    def bitslice(self, st, e, lo, hi):
        """bits [lo,hi) of a non-negative e"""
        q, _ = self.divpow2(st, e, lo)
        _, r = self.divpow2(st, q, hi - lo)
        return st.num.nf(r)

    def support(self, st, e):
        """set of possibly-one bits as a mask, or None"""
        e = st.num.nf(e)
        if e.c < 0:
            return None
        m = e.c
        for s_, c in e.t:
            if c <= 0 or c & (c - 1):
                return None
            l, h = st.num.symb(s_)
            if l is None or l < 0 or h is None:
                return None
            b = ((1 << h.bit_length()) - 1) * c
            if b & m:
                return None
            m |= b
        return m

    def band(self, st, a, b, w):
        a, b = self.u(st, a, w), self.u(st, b, w)
        if not a.t and not b.t:
            return LE(a.c & b.c)
        if a == b:
            return a
        if not a.t:
            a, b = b, a
        if not b.t:
            m = b.c
            r = ZERO
            i = 0
            while m >> i:
                if (m >> i) & 1:
                    j = i
                    while (m >> j) & 1:
                        j += 1
                    if j >= w:
                        q, _ = self.divpow2(st, a, i)
                        sl = q
                    else:
                        sl = self.bitslice(st, a, i, j)
                    r = r + sl * (1 << i)
                    i = j
                else:
                    i += 1
            return st.num.nf(r)
        if self.disjoint(st, a, b):
            return ZERO
        ha, hb = st.num.bounds(a)[1], st.num.bounds(b)[1]
        hs = [x for x in (ha, hb) if x is not None]
        return term(('and', frozenset([a, b]), w), 'and', 0, min(hs) if hs else (1 << w) - 1)

    def disjoint(self, st, a, b):
        """non-negative a, b without a common one bit"""
        sa, sb = self.support(st, a), self.support(st, b)
        if sa is not None and sb is not None:
            return sa & sb == 0
        n = st.num
        a, b = n.nf(a), n.nf(b)
        for x, y in ((a, b), (b, a)):
            g = x.c
            for _, k in x.t:
                g |= k
            g &= -g
            if g > 1:
                l, h = n.bounds(y)
                if l is not None and h is not None and l >= 0 and h < g:
                    return True
        return False

    def bor(self, st, a, b, w):
        a, b = self.u(st, a, w), self.u(st, b, w)
        if not a.t and not b.t:
            return LE(a.c | b.c)
        if a == b:
            return a
        if self.disjoint(st, a, b):
            return a + b
        if not a.t:
            a, b = b, a
        if not b.t:
            return self.band(st, a, LE(((1 << w) - 1) ^ b.c), w) + b
        sh = w
        ha, hb = st.num.bounds(a)[1], st.num.bounds(b)[1]
        if ha is not None and hb is not None:
            sh = max(ha.bit_length(), hb.bit_length())
        if w == 1:
            raise Split([[('eq', a)], [('eq', a - 1)]], 'or')
        return term(('or', frozenset([a, b]), w), 'or', 0, (1 << sh) - 1)

    def bxor(self, st, a, b, w):
        a, b = self.u(st, a, w), self.u(st, b, w)
        if not a.t and not b.t:
            return LE(a.c ^ b.c)
        if a == b:
            return ZERO
        if not a.t:
            a, b = b, a
        if not b.t:
            m = b.c
            if m == 0:
                return a
            keep = self.band(st, a, LE(((1 << w) - 1) ^ m), w)
            r = keep
            i = 0
            while m >> i:
                if (m >> i) & 1:
                    j = i
                    while (m >> j) & 1:
                        j += 1
                    sl = self.bitslice(st, a, i, j)
                    r = r + (LE((1 << (j - i)) - 1) - sl) * (1 << i)
                    i = j
                else:
                    i += 1
            return st.num.nf(r)
        if self.disjoint(st, a, b):
            return a + b
        if w == 1:
            raise Split([[('eq', a)], [('eq', a - 1)]], 'xor')
        ha, hb = st.num.bounds(a)[1], st.num.bounds(b)[1]
        sh = w if ha is None or hb is None else max(ha.bit_length(), hb.bit_length())
        return term(('xor', frozenset([a, b]), w), 'xor', 0, (1 << sh) - 1)

    def canon(self, st, e):
        """congruence: array terms whose index became known get their canonical name"""
        n = st.num
        for _ in range(4):
            e = n.nf(e)
            ch = False
            for s_, _k in e.t:
                k = SYM[s_].key
                if k and k[0] == 'elem':
                    off = n.nf(k[2])
                    for (o2, w2), t2 in list(self.arrays[k[1]].terms.items()):
                        if w2 == k[3] and t2.t[0][0] != s_ and n.nf(o2) == off:
                            d = n.nf(LE(0, ((s_, 1),)) - t2)
                            if d.t or d.c:
                                n.add_eq(d)
                                ch = True
                    if off != k[2] and not ch:
                        d = n.nf(LE(0, ((s_, 1),)) - self.elem(st, k[1], off, k[3]))
                        if d.t or d.c:
                            n.add_eq(d)
                            ch = True
                elif k and k[0] == 'uf':
                    k2 = k[:2] + tuple(self.canon(st, a) for a in k[2:])
                    if k2 != k:
                        d = n.nf(LE(0, ((s_, 1),)) - term(k2, 'uf', SYM[s_].lo, SYM[s_].hi))
                        if d.t or d.c:
                            n.add_eq(d)
                            ch = True
                elif k and k[0] == 'tab':
                    off = n.nf(k[2])
                    if off != k[2]:
                        r = self.read_seg(st, None, (ZERO, ZERO, ('tab', k[1], ZERO)), off, k[3])
                        if r is not None and isinstance(r, LE):
                            n.add_eq(LE(0, ((s_, 1),)) - r)
                            ch = True
            if not ch:
                return e
        return e

    FPOPS = frozenset(['fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'])

    def refp(self, st, e, memo):
        """congruence: float terms rebuilt from what is now known of their operands"""
        n = st.num
        e = n.nf(e)
        out = e
        for s_, c in e.t:
            k = SYM[s_].key
            if not k or k[0] not in self.FPOPS:
                continue
            r = memo.get(s_)
            if r is None:
                memo[s_] = r = LE(0, ((s_, 1),))
                if k[0][:4] in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                    ab = tuple(k[1])
                    ab = ab + ab[:2 - len(ab)]
                    ab2 = [self.refp(st, x, memo) for x in ab]
                    if any(x != y for x, y in zip(ab, ab2)):
                        r = self.fbin(st, k[0], k[2], *ab2, quiet=True)
                else:
                    x = self.refp(st, k[1], memo)
                    if x != k[1]:
                        w1 = {'fpext': 32, 'fptrunc': 64}.get(k[0])
                        if not x.t and (w1 or k[0] in ('sitofp', 'uitofp')):
                            r = LE(f2b(b2f(x.c % (1 << w1), w1), k[2])) if w1 else LE(f2b(float(x.c), k[2]))
                        elif x.t:
                            y = SYM[s_]
                            r = term((k[0], x) + k[2:], k[0], y.lo, y.hi)
                memo[s_] = r
            out = out + (r - LE(0, ((s_, 1),))) * c
        return n.nf(out)

    def infeasible_fp(self, st):
        """the facts of this path contradict the value of a float term"""
        n = st.num.copy()
        syms = set(n.bnd) | set(n.eqs)
        for e in n.ges:
            syms.update(e.syms())
        memo, hit = {}, False
        for s_ in sorted(syms):
            k = SYM[s_].key
            if k and k[0] in self.FPOPS:
                e = LE(0, ((s_, 1),))
                k2 = self.refp1(st, s_, memo)
                if k2 != e and n.nf(k2 - e) != ZERO:
                    n.add_eq(n.nf(k2 - e))
                    hit = True
        return hit and not n.feasible()

    def refp1(self, st, s_, memo):
        n = st.num
        if s_ in n.eqs:
            # its own definition, not the value it was given
            k = SYM[s_].key
            if k[0] in ('fadd', 'fsub', 'fmul', 'fdiv'):
                ab = tuple(k[1])
                ab = ab + ab[:2 - len(ab)]
                ab2 = [self.refp(st, x, memo) for x in ab]
                if any(x != y for x, y in zip(ab, ab2)):
                    return self.fbin(st, k[0], k[2], *ab2, quiet=True)
            return LE(0, ((s_, 1),))
        return self.refp(st, LE(0, ((s_, 1),)), memo)

    def hasfp(self, e):
        for s_, _c in e.t:
            k = SYM[s_].key
            if k and k[0] in self.FPOPS:
                return True
        return False

    def decide(self, st, kind, e, why='cond'):
        """truth of (e kind 0) where kind in ge/eq; splits when unknown"""
        n = st.num
        e = self.canon(st, e)
        if self.hasfp(e):
            memo = {}
            self.refp(st, e, memo)
            for s_, r in memo.items():
                d = n.nf(LE(0, ((s_, 1),)) - r)
                if d.t:
                    n.add_eq(d)
                elif d.c:
                    n.bad = True
            if n.bad:
                raise Stop()
            e = n.nf(e)
        if kind == 'ge':
            if n.prove_ge(e):
                return True
            if n.prove_ge(-e - 1):
                return False
            raise Split([[('ge', e)], [('ge', -e - 1)]], why)
        e = n.nf(e)
        if n.prove_ne(e):
            return False
        if n.prove_eq(e):
            return True
        raise Split([[('eq', e)], [('ne', e)]], why)

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, kind, cellular, name='', segs=None, uninit=True, ro=False):
        b = self.newid()
        if segs is None:
            a = self.new_array(name or kind, uninit=uninit)
            segs = ((ZERO, size, ('arr', a, ZERO)),)
        st.mem[b] = Block(size, kind, segs, self.loc(), cellular, name, ro)
        return b

    def global_block(self, st, name):
        key = ('glob', name)
        bid = 'G:' + name
        if bid in st.mem:
            return bid
        g = self.m.globals[name]
        size = self.m.size(g.ty)
        c = self.globs.get(name)
        if c is None:
            if g.const and g.init is not None:
                raw = self.flat(g.ty, g.init)
                c = ('const', raw)
            else:
                c = ('mut', None)
            self.globs[name] = c
        if c[0] == 'const':
            segs = ((ZERO, LE(size), ('tab', name, ZERO)),)
            st.mem[bid] = Block(LE(size), 'global', segs, ('global', 0, name), False, name, True)
        else:
            segs = None
            if self.o['mutable_globals'] == 'init' and g.init is not None:
                raw = self.flat(g.ty, g.init)
                segs = tuple((LE(o), LE(o + w), ('fill', v, w)) for o, w, v in raw)
            if not segs:
                a = self.new_array(name)
                segs = ((ZERO, LE(size), ('arr', a, ZERO)),)
            st.mem[bid] = Block(LE(size), 'global', segs, ('global', 0, name), self.m.resolve(g.ty)[0] != 'arr', name, False)
        return bid

    def flat(self, ty, v, base=0):
        """[(offset,width,value)] of a constant initialiser (pointers as Ptr)"""
        ty = self.m.resolve(ty)
        k = ty[0]
        out = []
        if v[0] in ('zero', 'undef'):
            if k == 'st':
                offs = self.m.offsets(ty)
                for f, o in zip(ty[1], offs):
                    out += self.flat(f, v, base + o)
            elif k in ('arr', 'vec'):
                es = self.m.size(ty[2])
                for i in range(ty[1]):
                    out += self.flat(ty[2], v, base + i * es)
            elif k == 'ptr':
                out.append((base, 8, NULL))
            else:
                out.append((base, self.m.store_size(ty), ZERO))
            return out
        if v[0] == 'str':
            return [(base + i, 1, LE(x)) for i, x in enumerate(v[1])]
        if v[0] == 'agg':
            if k == 'st':
                offs = self.m.offsets(ty)
                for (t, x), o in zip(v[1], offs):
                    out += self.flat(t, x, base + o)
            else:
                es = self.m.size(ty[2])
                for i, (t, x) in enumerate(v[1]):
                    out += self.flat(t, x, base + i * es)
            return out
        if v[0] == 'c':
            w = self.m.store_size(ty)
            return [(base, w, LE(v[1] % (1 << (8 * w))))]
        if v[0] == 'f':
            return [(base, self.m.store_size(ty), LE(v[1]) if isinstance(v[1], int) else ZERO)]
        if v[0] == 'null':
            return [(base, 8, NULL)]
        if v[0] == 'g':
            return [(base, 8, Ptr(('fn', v[1]))) if v[1] in self.m.funcs else (base, 8, Ptr('G:' + v[1]))]
        return [(base, self.m.store_size(ty), fresh('ginit'))]

    def block(self, st, p, what):
        """block of a pointer about to be dereferenced; alarms on null/dangling"""
        self.ob('deref')
        b = p.b
        if isinstance(b, str) and b.startswith('G:') and b not in st.mem:
            self.global_block(st, b[2:])
        if b == 0:
            self.alarm(st, 'null-deref', '%s through a null pointer' % what, True)
            raise Stop()
        if isinstance(b, tuple):
            self.alarm(st, 'wild-deref', '%s through an unknown pointer %r' % (what, b), True)
            raise Stop()
        blk = st.mem.get(b)
        if blk is None:
            raise Unsupported('lost block %r' % (b,))
        if blk.status != 'live':
            self.alarm(st, 'use-after-free', '%s of %s memory (%s allocated at %s:%d)' % (
                what, blk.status, blk.kind, blk.site[0], blk.site[1]), True)
            raise Stop()
        return blk

    def bounds_check(self, st, blk, off, n, what):
        self.ob('bounds')
        num = st.num
        bad = None
        if not num.prove_ge(off):
            bad = off
            if num.prove_ge(-off - 1):
                self.alarm(st, 'out-of-bounds', '%s at offset %r before the start of a %s block (%s)' % (
                    what, num.nf(off), blk.kind, blk.name), True)
                raise Stop()
        e = blk.size - off - n
        if not num.prove_ge(e):
            if num.prove_ge(-e - 1):
                self.alarm(st, 'out-of-bounds', '%s of %d byte(s) at offset %r past the end of a %s block of size %r (%s)' % (
                    what, n if isinstance(n, int) else -1, num.nf(off), blk.kind, num.nf(blk.size), blk.name), True)
                raise Stop()
            self.alarm(st, 'out-of-bounds', '%s at offset %r not shown to stay inside a %s block of size %r (%s)' % (
                what, num.nf(off), blk.kind, num.nf(blk.size), blk.name))
            num.add_ge(e)
        if bad is not None:
            self.alarm(st, 'out-of-bounds', '%s at offset %r not shown to be >= 0 in a %s block (%s)' % (
                what, num.nf(off), blk.kind, blk.name))
            num.add_ge(bad)
        if not num.feasible():
            raise Stop()

    def elem(self, st, A, off, w):
        a = self.arrays[A]
        off = st.num.nf(off)
        r = a.terms.get((off, w))
        if r is not None:
            return r
        for (o2, w2), t2 in a.terms.items():
            if w2 == w and o2.t and st.num.nf(o2) == off:
                return t2
        lo, hi = 0, (1 << (8 * w)) - 1
        if a.lo is not None and w == 1:
            lo = a.lo
        if a.hi is not None and w == 1:
            hi = a.hi
        r = term(('elem', A, off, w), '%s[%r]' % (a.name, off), lo, hi)
        a.terms[(off, w)] = r
        return r

    def as_elem(self, v):
        if isinstance(v, LE) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            k = SYM[v.t[0][0]].key
            if k and k[0] == 'elem':
                return k
        return None

    def find_seg(self, st, blk, off, n):
        """index of the segment containing [off, off+n); Split/None when it straddles"""
        num = st.num
        off = num.nf(off)
        segs = blk.segs
        for i, (lo, hi, d) in enumerate(segs):
            last = i == len(segs) - 1
            if last or num.prove_ge(hi - off - n):
                if i == 0 or num.prove_ge(off - lo):
                    return i
                # off < lo possible: straddles previous (or unknown order)
                if num.prove_ge(lo - off - 1):
                    return None
                raise Split([[('ge', off - lo)], [('ge', lo - off - 1)]], 'seg')
            if num.prove_ge(off - hi):
                continue
            if n == 1 or True:
                alts = [[('ge', hi - off - n)], [('ge', off - hi)]]
                if n > 1:
                    alts.append([('ge', off - hi + n - 1), ('ge', hi - off - 1)])
                al2 = [a for a in alts if num.with_(a).feasible()]
                if len(al2) > 1 or not al2:
                    raise Split(alts, 'seg')
                if al2[0] is alts[0]:
                    if i == 0 or num.prove_ge(off - lo):
                        return i
                    return None
                if al2[0] is alts[1]:
                    continue
                return None
        return None

    def read_seg(self, st, blk, seg, off, w):
        lo, hi, d = seg
        num = st.num
        if d[0] == 'arr':
            if self.o['uninit'] and self.arrays[d[1]].uninit and not self.quiet:
                self.alarm(st, 'uninitialised', 'read of uninitialised %s memory (%s)' % (blk.kind, blk.name))
            return self.elem(st, d[1], d[2] + (off - lo), w)
        if d[0] == 'fill':
            v, vw = d[1], d[2]
            if vw == w:
                rel = num.nf(off - lo)
                if all(k % w == 0 for _, k in rel.t) and rel.c % w == 0:
                    return v
                if rel.t or True:
                    if isinstance(v, LE):
                        nv = num.nf(v)
                        if not nv.t and nv.c in (0, (1 << (8 * w)) - 1):
                            return v
                    return None
            if isinstance(v, LE):
                nv = num.nf(v)
                if not nv.t:
                    byts = (nv.c % (1 << (8 * vw))).to_bytes(vw, 'little')
                    if len(set(byts)) == 1:
                        return LE(int.from_bytes(bytes([byts[0]]) * w, 'little'))
                rel = num.nf(off - lo)
                if not rel.t and vw > w and (rel.c % vw) + w <= vw:
                    k = rel.c % vw
                    return self.bitslice(st, self.u(st, v, 8 * vw), 8 * k, 8 * (k + w))
            return None
        if d[0] == 'tab':
            tab = self.globs[d[1]][1]
            rel = num.nf(d[2] + (off - lo))
            if not rel.t:
                return self.tab_read(tab, rel.c, w)
            key = ('tabrange', d[1], w)
            rng = self.globs.get(key)
            if rng is None:
                vals = [x[2].c for x in tab if x[1] == w and isinstance(x[2], LE) and not x[2].t]
                rng = (min(vals), max(vals)) if vals and len(vals) == len(tab) else (0, (1 << (8 * w)) - 1)
                self.globs[key] = rng
            v = self.tab_shape(st, d[1], tab, rel, w)
            if v is not None:
                return v
            l, h = num.bounds(rel)
            if l is not None and h is not None and h - l <= 64 * w and all(k % w == 0 for _, k in rel.t):
                vals = [self.tab_read(tab, o, w) for o in range(l - (l - rel.c) % w, h + 1, w)]
                vals = [x.c for x in vals if isinstance(x, LE)]
                if vals:
                    rng = (min(vals), max(vals))
            return term(('tab', d[1], rel, w), 'tab', rng[0], rng[1])
        raise Unsupported('seg ' + d[0])

    def tab_shape(self, st, name, tab, rel, w):
        """a constant table whose entries are, over the whole index range that
        is possible here, k + i, k + i/d or k + i%d of the index i: the value
        as a term"""
        import math
        num = st.num
        g = 0
        for _, k in rel.t:
            g = math.gcd(g, k)
        r0 = rel.c % g
        i = LE((rel.c - r0) // g, tuple((s_, k // g) for s_, k in rel.t))
        l, h = num.bounds(i)
        if (l is None or l < 0) and num.prove_ge(i):
            l = 0
        hm = (tab[-1][0] + tab[-1][1] - r0 - w) // g
        if (h is None or h > hm) and num.prove_ge(LE(hm) - i):
            h = hm
        if l is None or h is None or l < 0 or h - l > 5000 or h < l:
            return None
        key = ('tabshape', name, w, g, r0, l, h)
        sh = self.globs.get(key)
        if sh is None:
            size = tab[-1][0] + tab[-1][1]
            if r0 + g * h + w > size:
                sh = ('none',)
            else:
                vs = [self.tab_read(tab, r0 + g * x, w) for x in range(l, h + 1)]
                if any(not isinstance(v, LE) or v.t for v in vs):
                    sh = ('none',)
                elif h - l < 2:
                    d = vs[-1].c - vs[0].c
                    sh = ('lin', vs[0].c - l * d, d)
                else:
                    sh = shape([v.c for v in vs], l)
            self.globs[key] = sh
        if sh[0] == 'lin':
            return LE(sh[1]) + i * sh[2]
        if sh[0] == 'div':
            return self.divc(st, i, sh[2])[0] + sh[1]
        if sh[0] == 'mod':
            return self.divc(st, i, sh[2])[1] + sh[1]
        return None

    def tab_read(self, tab, off, w):
        # tab is sorted by offset, mostly uniform width
        import bisect
        i = bisect.bisect_right([0], 0) and bisect.bisect_right(_Offs(tab), off) - 1
        o, tw, v = tab[i]
        if o == off and tw == w:
            return v
        # assemble bytes
        r = 0
        for k in range(w):
            i = bisect.bisect_right(_Offs(tab), off + k) - 1
            o, tw, v = tab[i]
            if not isinstance(v, LE) or v.t or off + k >= o + tw:
                return fresh('tabmix', 0, (1 << (8 * w)) - 1)
            r |= ((v.c >> (8 * (off + k - o))) & 255) << (8 * k)
        return LE(r)

    def read(self, st, p, w, what='read'):
        blk = self.block(st, p, what)
        self.bounds_check(st, blk, p.off, w, what)
        return self.read_raw(st, blk, p.off, w)

    def read_raw(self, st, blk, off, w):
        i = self.find_seg(st, blk, off, w)
        if i is not None:
            v = self.read_seg(st, blk, blk.segs[i], off, w)
            if v is not None:
                return v
        if w > 1 and w <= 16:
            # combine smaller pieces (struct coercions, unaligned access)
            r = ZERO
            k = 0
            while k < w:
                ok = False
                for pw in (8, 4, 2, 1):
                    if k + pw <= w and pw < w:
                        j = self.find_seg(st, blk, off + k, pw)
                        if j is None:
                            continue
                        v = self.read_seg(st, blk, blk.segs[j], off + k, pw)
                        if v is None:
                            continue
                        if isinstance(v, Ptr):
                            if k == 0 and pw == 8 and w == 8:
                                return v
                            v = self.addr(st, v)
                        r = r + self.u(st, v, 8 * pw) * (1 << (8 * k))
                        k += pw
                        ok = True
                        break
                if not ok:
                    return fresh('mix', 0, (1 << (8 * w)) - 1)
            return r
        return fresh('mix', 0, (1 << (8 * w)) - 1)

    def cut(self, st, segs, x):
        """segment list with a boundary at x"""
        num = st.num
        x = num.nf(x)
        out = []
        for i, (lo, hi, d) in enumerate(segs):
            nlo, nhi = num.nf(lo), num.nf(hi)
            if nlo == x:
                return segs if not out else tuple(out) + tuple(segs[i:])
            if nhi == x:
                continue_ = True
            if num.prove_ge(x - nhi):
                out.append((lo, hi, d))
                continue
            if num.prove_ge(nlo - x):
                return tuple(out) + tuple(segs[i:])
            # is lo < x < hi certain?
            if not num.prove_ge(x - nlo - 1):
                raise Split([[('ge', x - nlo - 1)], [('ge', nlo - x)]], 'cut')
            if not num.prove_ge(nhi - x - 1):
                raise Split([[('ge', nhi - x - 1)], [('ge', x - nhi)]], 'cut')
            if d[0] in ('arr', 'tab'):
                a = (lo, x, d)
                b = (x, hi, (d[0], d[1], d[2] + (x - lo)))
            else:
                v, w = d[1], d[2]
                rel = num.nf(x - lo)
                nv = num.nf(v) if isinstance(v, LE) else None
                uni = nv is not None and not nv.t and len(set((nv.c % (1 << (8 * w))).to_bytes(w, 'little'))) == 1
                if uni and w > 1:
                    d1 = ('fill', LE((nv.c % 256)), 1)
                    a, b = (lo, x, d1), (x, hi, d1)
                elif all(k % w == 0 for _, k in rel.t) and rel.c % w == 0:
                    a, b = (lo, x, d), (x, hi, d)
                elif not rel.t and isinstance(v, LE):
                    base = rel.c // w * w
                    k = rel.c - base
                    uu = self.u(st, v, 8 * w)
                    p1 = self.bitslice(st, uu, 0, 8 * k)
                    p2 = self.bitslice(st, uu, 8 * k, 8 * w)
                    res = list(out)
                    if base:
                        res.append((lo, lo + base, d))
                    res.append((lo + base, x, ('fill', p1, k)))
                    res.append((x, lo + base + w, ('fill', p2, w - k)))
                    rest = num.nf(hi - (lo + base + w))
                    if rest != ZERO:
                        res.append((lo + base + w, hi, d))
                    return tuple(res) + tuple(segs[i + 1:])
                else:
                    A = self.new_array('frag')
                    a, b = (lo, x, ('arr', A, ZERO)), (x, hi, ('arr', A, x - lo))
            return tuple(out) + (a, b) + tuple(segs[i + 1:])
        return tuple(out)

    def merge2(self, st, p, q):
        num = st.num
        dp, dq = p[2], q[2]
        if dp[0] == dq[0] and dp[0] in ('arr', 'tab') and dp[1] == dq[1]:
            if num.nf(dq[2] - dp[2] - (q[0] - p[0])) == ZERO:
                return (p[0], q[1], dp)
            return None
        if dp[0] == 'fill' and dq[0] == 'fill':
            if dp[2] == dq[2]:
                a, b = dp[1], dq[1]
                if a == b or (isinstance(a, LE) and isinstance(b, LE) and num.nf(a) == num.nf(b) and not num.nf(a).t):
                    return (p[0], q[1], dp)
                ka, kb = self.as_elem(a), self.as_elem(b)
                if ka and kb and ka[1] == kb[1] and ka[3] == kb[3] == dp[2] and num.nf(p[1] - p[0]) == LE(dp[2]) \
                        and num.nf(q[1] - q[0]) == LE(dp[2]) and num.nf(kb[2] - ka[2]) == LE(dp[2]):
                    return (p[0], q[1], ('arr', ka[1], ka[2]))
            return None
        if dp[0] == 'arr' and dq[0] == 'fill':
            k = self.as_elem(dq[1])
            if k and k[1] == dp[1] and k[3] == dq[2] and num.nf(q[1] - q[0]) == LE(dq[2]) and \
                    num.nf(k[2] - dp[2] - (q[0] - p[0])) == ZERO:
                return (p[0], q[1], dp)
        if dp[0] == 'fill' and dq[0] == 'arr':
            k = self.as_elem(dp[1])
            if k and k[1] == dq[1] and k[3] == dp[2] and num.nf(p[1] - p[0]) == LE(dp[2]) and \
                    num.nf(dq[2] - k[2]) == LE(dp[2]):
                return (p[0], q[1], ('arr', dq[1], k[2]))
        return None

    def coalesce(self, st, segs):
        num = st.num
        out = []
        for s_ in segs:
            if num.nf(s_[1] - s_[0]) == ZERO:
                continue
            if out:
                m = self.merge2(st, out[-1], s_)
                if m:
                    out[-1] = m
                    continue
            out.append(s_)
        # merging may enable further merges to the left
        ch = True
        while ch:
            ch = False
            for i in range(len(out) - 1):
                m = self.merge2(st, out[i], out[i + 1])
                if m:
                    out[i:i + 2] = [m]
                    ch = True
                    break
        return tuple(out)

    def splice(self, st, blk, lo, hi, new):
        segs = self.cut(st, blk.segs, lo)
        segs = self.cut(st, segs, hi)
        num = st.num
        lo, hi = num.nf(lo), num.nf(hi)
        pre, post = [], []
        for s_ in segs:
            nl, nh = num.nf(s_[0]), num.nf(s_[1])
            if num.prove_ge(lo - nh):
                pre.append(s_)
            elif num.prove_ge(nl - hi):
                post.append(s_)
        segs = tuple(pre) + tuple(new) + tuple(post)
        if not blk.cellular:
            segs = self.coalesce(st, segs)
        else:
            segs = tuple(s_ for s_ in segs if num.nf(s_[1] - s_[0]) != ZERO)
        return blk.copy(segs=segs)

    def write(self, st, p, w, v, what='write'):
        blk = self.block(st, p, what)
        if blk.ro:
            self.alarm(st, 'write-const', 'write to constant object ' + blk.name, True)
            raise Stop()
        self.bounds_check(st, blk, p.off, w, what)
        d = ('fill', v, w)
        if not blk.cellular:
            k = self.as_elem(v)
            if k and k[3] == w:
                d = ('arr', k[1], k[2])
        nb = self.splice(st, blk, p.off, p.off + w, [(p.off, p.off + w, d)])
        st.mem[p.b] = nb

    def extract(self, st, blk, lo, n):
        """segments of [lo, lo+n) rebased to 0"""
        num = st.num
        hi = lo + n
        segs = self.cut(st, blk.segs, lo)
        segs = self.cut(st, segs, hi)
        out = []
        lo, hi = num.nf(lo), num.nf(hi)
        for s_ in segs:
            nl, nh = num.nf(s_[0]), num.nf(s_[1])
            if num.prove_ge(lo - nh) or num.prove_ge(nl - hi):
                continue
            out.append((nl - lo, nh - lo, s_[2]))
        return out

    def memcpy(self, st, d, s_, n, move=False):
        num = st.num
        n = self.u(st, n, 64)
        if num.nf(n) == ZERO:
            return
        if not num.prove_ge(n - 1):
            raise Split([[('eq', n)], [('ge', n - 1)]], 'memcpy0')
        sb = self.block(st, s_, 'memcpy read')
        self.bounds_check(st, sb, s_.off, n, 'memcpy read')
        db = self.block(st, d, 'memcpy write')
        self.bounds_check(st, db, d.off, n, 'memcpy write')
        if d.b == s_.b and not move:
            self.ob('overlap')
            if num.nf(d.off - s_.off) != ZERO and not num.prove_ge(d.off - s_.off - n) and not num.prove_ge(s_.off - d.off - n):
                self.alarm(st, 'overlap', 'memcpy with overlapping ranges')
        segs = self.extract(st, sb, s_.off, n)
        new = [(d.off + a, d.off + b, x) for a, b, x in segs]
        st.mem[d.b] = self.splice(st, db, d.off, d.off + n, new)

    def addr(self, st, p):
        """integer address of a pointer"""
        if p.b == 0:
            return p.off
        if isinstance(p.b, tuple) and p.b[0] == 'opq':
            return LE(0, ((p.b[1], 1),)) + p.off
        base = term(('addr', p.b), 'addr', 1 << 12, 1 << 46)
        # 16-byte aligned bases
        q = term(('addrq', p.b), 'addrq', 1 << 8, 1 << 42)
        if st.num.nf(base - q * 16) != ZERO:
            st.num.add_eq(base - q * 16)
        return base + p.off

    def to_ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        e = st.num.nf(v)
        if not e.t:
            if e.c == 0:
                return NULL
            return Ptr(0, e)
        # address of a known block plus offset?
        for s_, k in e.t:
            key = SYM[s_].key
            if k == 16 and key and key[0] == 'addrq' and key[1] in st.mem:
                return Ptr(key[1], e - LE(0, ((s_, 16),)))
            if k == 1 and key and key[0] == 'addr' and key[1] in st.mem:
                return Ptr(key[1], e - LE(0, ((s_, 1),)))
        if len(e.t) == 1 and e.c == 0 and e.t[0][1] == 1:
            return Ptr(('opq', e.t[0][0]))
        x = fresh('optr', 0, (1 << 64) - 1)
        st.num.add_eq(x - e)
        return Ptr(('opq', x.t[0][0]))

    def to_int(self, st, v):
        if isinstance(v, Ptr):
            return self.addr(st, v)
        return v

    # ------------------------------------------------------------ operands
    def val(self, st, ty, v):
        k = v[0]
        if k == 'l':
            try:
                return st.frames[-1].env[v[1]]
            except KeyError:
                raise Unsupported('undefined SSA %s in %s' % (v[1], st.frames[-1].fn.name))
        if k == 'c':
            return LE(v[1])
        if k == 'null':
            return NULL
        if k == 'f':
            if isinstance(v[1], int):
                return LE(v[1])
            return term(('ld', v[1]), 'ld')
        if k == 'g':
            n = v[1]
            if n in self.m.aliases:
                return self.val(st, ty, self.m.aliases[n])
            if n in self.m.funcs:
                return Ptr(('fn', n))
            return Ptr('G:' + n)
        if k in ('undef', 'zero'):
            ty = self.m.resolve(ty)
            if ty[0] == 'st':
                return Agg([self.val(st, t, v) for t in ty[1]])
            if ty[0] in ('arr', 'vec'):
                return Agg([self.val(st, ty[2], v)] * ty[1])
            if ty[0] == 'ptr':
                return NULL
            if k == 'zero':
                return ZERO
            w = ty[1] if ty[0] in ('i', 'f') else 64
            return fresh('undef', 0, (1 << w) - 1)
        if k == 'ce':
            if v[1] == 'gep':
                return self.gep(st, v[2], [(t, self.val(st, t, x)) for t, x in v[3]])
            if v[1] in ir.CASTS:
                t, x = v[2]
                return self.cast(st, v[1], t, self.val(st, t, x), v[3])
            if v[1] in ir.BINOPS:
                (t, a), (_, b) = v[3]
                return self.binop(st, v[1], t, self.val(st, t, a), self.val(st, t, b), ())
            if v[1] == 'icmp':
                (t, a), (_, b) = v[3]
                return self.icmp(st, v[2], t, self.val(st, t, a), self.val(st, t, b))
        if k == 'agg':
            return Agg([self.val(st, t, x) for t, x in v[1]])
        raise Unsupported('operand %r' % (v,))

    def gep(self, st, sty, ops):
        p = ops[0][1]
        if not isinstance(p, Ptr):
            p = self.to_ptr(st, p)
        off = p.off
        ty = sty
        for i, (t, x) in enumerate(ops[1:]):
            if i == 0:
                sz = self.m.size(ty)
                off = off + self.s(st, x, t[1]) * sz if sz else off
                continue
            ty = self.m.resolve(ty)
            if ty[0] == 'st':
                idx = st.num.nf(x).c
                off = off + self.m.offsets(ty)[idx]
                ty = ty[1][idx]
            else:
                ty = ty[2]
                off = off + self.s(st, x, t[1]) * self.m.size(ty)
        return Ptr(p.b, st.num.nf(off))

    def cast(self, st, op, t, v, t2):
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            if t2[0] == 'ptr' and not isinstance(v, Ptr):
                return self.to_ptr(st, v)
            if t2[0] != 'ptr' and isinstance(v, Ptr):
                return self.to_int(st, v)
            return v
        if op == 'ptrtoint':
            v = self.addr(st, v) if isinstance(v, Ptr) else v
            return v
        if op == 'inttoptr':
            return self.to_ptr(st, v)
        v = self.to_int(st, v) if isinstance(v, Ptr) else v
        if op == 'zext':
            return self.u(st, v, t[1])
        if op == 'sext':
            return self.s(st, v, t[1])
        if op == 'trunc':
            e = st.num.nf(v)
            w = t2[1]
            lo, hi = st.num.bounds(e)
            if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < (1 << w):
                return e
            if w == 1:
                _, r = self.divpow2(st, self.u(st, e, t[1]), 1)
                return r
            _, r = self.divpow2(st, self.u(st, e, t[1]) if e.t else e, w)
            return r
        # floating conversions
        w1 = t[1]
        if op in ('fpext', 'fptrunc'):
            e = st.num.nf(v)
            if not e.t and w1 in (32, 64) and t2[1] in (32, 64):
                return LE(f2b(b2f(e.c % (1 << w1), w1), t2[1]))
            return term((op, e, t2[1]), op, 0, (1 << t2[1]) - 1)
        if op in ('sitofp', 'uitofp'):
            e = self.s(st, v, w1) if op == 'sitofp' else self.u(st, v, w1)
            e = st.num.nf(e)
            if not e.t and t2[1] in (32, 64):
                return LE(f2b(float(e.c), t2[1]))
            return term((op, e, t2[1]), op, 0, (1 << t2[1]) - 1)
        if op in ('fptosi', 'fptoui'):
            e = st.num.nf(v)
            w = t2[1]
            if not e.t and w1 in (32, 64):
                x = b2f(e.c % (1 << w1), w1)
                if x == x and abs(x) < 2 ** 70:
                    return LE(int(x))
            return term((op, e, w), op, -(1 << (w - 1)) if op == 'fptosi' else 0, (1 << (w - 1)) - 1 if op == 'fptosi' else (1 << w) - 1)
        raise Unsupported('cast ' + op)

    def binop(self, st, op, t, a, b, flags):
        if t[0] == 'f':
            return self.fbin(st, op, t[1], a, b)
        if t[0] != 'i':
            raise Unsupported('binop on %r' % (t,))
        w = t[1]
        num = st.num
        if isinstance(a, Ptr):
            a = self.addr(st, a)
        if isinstance(b, Ptr):
            b = self.addr(st, b)
        if op in ('add', 'sub', 'mul'):
            if self.o['nsw'] and 'nsw' in flags:
                sa, sb = self.s(st, a, w), self.s(st, b, w)
                if op == 'add':
                    r = sa + sb
                elif op == 'sub':
                    r = sa - sb
                else:
                    r = self.lmul(st, sa, sb, w, True)
                self.ob('signed-overflow')
                H = 1 << (w - 1)
                lo_ok, hi_ok = num.prove_ge(r + H), num.prove_ge(LE(H - 1) - r)
                if not (lo_ok and hi_ok):
                    # does it overflow in some sub-case?
                    if not lo_ok and num.with_([('ge', -r - H - 1)]).feasible() or \
                            not hi_ok and num.with_([('ge', r - H)]).feasible():
                        self.alarm(st, 'signed-overflow', 'signed %s may overflow %d bits: %r' % (op, w, num.nf(r)))
                    num.add_ge(r + H)
                    num.add_ge(LE(H - 1) - r)
                    if not num.feasible():
                        raise Stop()
                return r
            if op == 'add':
                return num.nf(a + b)
            if op == 'sub':
                return num.nf(a - b)
            return self.lmul(st, a, b, w, False)
        if op == 'shl':
            e = self.u(st, b, w)
            if not e.t:
                if e.c >= w:
                    self.alarm(st, 'shift', 'shift amount %d >= %d' % (e.c, w), True)
                    raise Stop()
                return num.nf(a * (1 << e.c))
            self.shift_ok(st, e, w)
            lo, hi = num.bounds(e)
            if hi - lo <= 8:
                raise Split([[('eq', e - k)] for k in range(lo, hi + 1)], 'shl')
            return term(('shl', num.nf(a), e, w), 'shl', 0, (1 << w) - 1)
        if op in ('lshr', 'ashr'):
            e = self.u(st, b, w)
            if not e.t:
                if e.c >= w:
                    self.alarm(st, 'shift', 'shift amount %d >= %d' % (e.c, w), True)
                    raise Stop()
                x = self.u(st, a, w) if op == 'lshr' else self.s(st, a, w)
                return self.divpow2(st, x, e.c)[0]
            self.shift_ok(st, e, w)
            lo, hi = num.bounds(e)
            if hi - lo <= 8:
                raise Split([[('eq', e - k)] for k in range(lo, hi + 1)], 'shr')
            return term((op, num.nf(a), e, w), op, 0, (1 << w) - 1)
        if op == 'and':
            return self.band(st, a, b, w)
        if op == 'or':
            return self.bor(st, a, b, w)
        if op == 'xor':
            return self.bxor(st, a, b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            sg = op[0] == 's'
            x = self.s(st, a, w) if sg else self.u(st, a, w)
            y = self.s(st, b, w) if sg else self.u(st, b, w)
            self.ob('div')
            if not num.prove_ne(y):
                self.alarm(st, 'div-by-zero', 'division by %r' % num.nf(y), num.prove_eq(y))
                num.add_ne(y)
                if not num.feasible():
                    raise Stop()
            if not y.t and y.c != 0:
                c = y.c
                if not sg:
                    q, r = self.divc(st, x, c)
                else:
                    neg = c < 0
                    c = abs(c)
                    if self.decide(st, 'ge', x, 'sdiv'):
                        q, r = self.divc(st, x, c)
                    else:
                        q, r = self.divc(st, -x, c)
                        q, r = -q, -r
                    if neg:
                        q = -q
                return num.nf(q if op[1:] == 'div' else r)
            l, h = num.bounds(x)
            if op == 'urem':
                yh = num.bounds(y)[1]
                return term((op, num.nf(x), num.nf(y), w), op, 0, min(z for z in (h, None if yh is None else yh - 1) if z is not None) if (h is not None or yh is not None) else None)
            if op == 'udiv':
                return term((op, num.nf(x), num.nf(y), w), op, 0, h)
            return term((op, num.nf(x), num.nf(y), w), op, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        raise Unsupported('binop ' + op)

    def shift_ok(self, st, e, w):
        self.ob('shift')
        if not st.num.prove_ge(LE(w - 1) - e):
            self.alarm(st, 'shift', 'shift amount %r may reach %d' % (st.num.nf(e), w))
            st.num.add_ge(LE(w - 1) - e)
            if not st.num.feasible():
                raise Stop()

    def lmul(self, st, a, b, w, signed):
        num = st.num
        a, b = num.nf(a), num.nf(b)
        if not b.t:
            c = b.c
            return num.nf(a * c)
        if not a.t:
            return num.nf(b * a.c)
        al, ah = num.bounds(a)
        bl, bh = num.bounds(b)
        if None in (al, ah, bl, bh):
            lo = hi = None
        else:
            ps = [al * bl, al * bh, ah * bl, ah * bh]
            lo, hi = min(ps), max(ps)
        if signed or (lo is not None and lo >= 0 and hi < (1 << w)):
            return term(('mul', frozenset([a, b]) if a != b else (a, a)), 'mul', lo, hi)
        return term(('mulw', frozenset([a, b]) if a != b else (a, a), w), 'mul', 0, (1 << w) - 1)

    # ---- floating point: values are bit patterns
    def fparts(self, st, x, w):
        """(neg?, magnitude) of the pattern; splits on the sign"""
        H = 1 << (w - 1)
        x = self.u(st, x, w)
        neg = self.decide(st, 'ge', x - H, 'sign')
        return neg, (x - H if neg else x)

    def fkey(self, st, x, w):
        """None for NaN, else an integer ordered like the float"""
        neg, mag = self.fparts(st, x, w)
        inf = 0x7f800000 if w == 32 else 0x7ff0000000000000
        if self.decide(st, 'ge', mag - inf - 1, 'nan'):
            return None
        return -mag if neg else mag

    def fcmp(self, st, pred, w, a, b):
        if pred == 'true':
            return ONE
        if pred == 'false':
            return ZERO
        ka, kb = self.fkey(st, a, w), self.fkey(st, b, w)
        if ka is None or kb is None:
            return ONE if pred[0] == 'u' else ZERO
        if pred == 'ord':
            return ONE
        if pred == 'uno':
            return ZERO
        p = pred[1:]
        d = kb - ka
        if p == 'eq':
            r = self.decide(st, 'eq', d)
        elif p == 'ne':
            r = not self.decide(st, 'eq', d)
        elif p == 'lt':
            r = self.decide(st, 'ge', d - 1)
        elif p == 'le':
            r = self.decide(st, 'ge', d)
        elif p == 'gt':
            r = self.decide(st, 'ge', -d - 1)
        else:
            r = self.decide(st, 'ge', -d)
        return ONE if r else ZERO

    def fbin(self, st, op, w, a, b, quiet=False):
        a, b = st.num.nf(a), st.num.nf(b)
        if not a.t and not b.t and w in (32, 64):
            x, y = b2f(a.c % (1 << w), w), b2f(b.c % (1 << w), w)
            try:
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                return LE(f2b(r, w))
            except Exception:
                pass
        if op == 'fmul' and w in (32, 64):
            one = f2b(1.0, w)
            for x, y in ((a, b), (b, a)):
                if not x.t and x.c % (1 << w) == one:
                    return y
                if not x.t and x.c % (1 << w) == one | 1 << (w - 1):
                    H = 1 << (w - 1)
                    if quiet:
                        y = st.num.nf(y)
                        if st.num.prove_ge(y - H):
                            return y - H
                        if st.num.prove_ge(LE(H - 1) - y):
                            return y + H
                        continue
                    y = self.u(st, y, w)
                    return y - H if self.decide(st, 'ge', y - H, 'sign') else y + H
        key = (op, frozenset([a, b]) if op in ('fadd', 'fmul') and a != b else (a, b), w)
        return term(key, op, 0, (1 << w) - 1)

    def icmp(self, st, pred, t, a, b):
        num = st.num
        if isinstance(a, Ptr) or isinstance(b, Ptr) or t[0] == 'ptr':
            a = self.to_ptr(st, a)
            b = self.to_ptr(st, b)
            if a.b == b.b:
                a, b = a.off, b.off
                if pred[0] == 'u':
                    pred = 's' + pred[1:]
                return self.icmp_s(st, pred, a, b)
            if pred in ('eq', 'ne') and not isinstance(a.b, tuple) and not isinstance(b.b, tuple):
                return ONE if pred == 'ne' else ZERO
            if pred in ('eq', 'ne') and (isinstance(a.b, tuple) and a.b[0] == 'fn' or isinstance(b.b, tuple) and b.b[0] == 'fn'):
                return ONE if pred == 'ne' else ZERO
            if pred not in ('eq', 'ne') and a.b != 0 and b.b != 0:
                self.ob('ptr-order')
                self.alarm(st, 'ptr-order', 'ordering comparison of pointers into different objects')
            a, b = self.addr(st, a), self.addr(st, b)
            return self.icmp_s(st, pred if pred in ('eq', 'ne') else 's' + pred[1:], a, b)
        w = t[1]
        if pred in ('eq', 'ne'):
            d = num.nf(a - b)
            lo, hi = num.bounds(d)
            M = 1 << w
            if lo is not None and hi is not None and -M < lo and hi < M:
                # equal mod 2^w iff difference is exactly 0
                return self.icmp_s(st, pred, d, ZERO)
            a, b = self.u(st, a, w), self.u(st, b, w)
            return self.icmp_s(st, pred, a, b)
        if pred[0] == 'u':
            a, b = self.u(st, a, w), self.u(st, b, w)
        else:
            a, b = self.s(st, a, w), self.s(st, b, w)
        return self.icmp_s(st, pred, a, b)

    def icmp_s(self, st, pred, a, b):
        d = st.num.nf(a - b)
        if pred == 'eq':
            r = self.decide(st, 'eq', d)
        elif pred == 'ne':
            r = not self.decide(st, 'eq', d)
        else:
            p = pred[1:]
            if p == 'lt':
                r = self.decide(st, 'ge', -d - 1)
            elif p == 'le':
                r = self.decide(st, 'ge', -d)
            elif p == 'gt':
                r = self.decide(st, 'ge', d - 1)
            else:
                r = self.decide(st, 'ge', d)
        return ONE if r else ZERO

    def truth(self, st, v):
        e = st.num.nf(v)
        if not e.t:
            return bool(e.c & 1)
        return not self.decide(st, 'eq', self.u(st, e, 1), 'bool')

    # ------------------------------------------------------------ stepping
    def typed_read(self, st, p, ty):
        ty = self.m.resolve(ty)
        if ty[0] in ('st', 'arr'):
            if ty[0] == 'st':
                offs = self.m.offsets(ty)
                return Agg([self.typed_read(st, Ptr(p.b, p.off + o), t) for t, o in zip(ty[1], offs)])
            es = self.m.size(ty[2])
            return Agg([self.typed_read(st, Ptr(p.b, p.off + i * es), ty[2]) for i in range(ty[1])])
        w = self.m.store_size(ty)
        v = self.read(st, p, w)
        if ty[0] == 'ptr':
            return self.to_ptr(st, v)
        if isinstance(v, Ptr):
            if w == 8:
                return v  # integer-typed view of a pointer cell (aggregate copies)
            v = self.addr(st, v)
        if ty == ir.I1:
            e = st.num.nf(v)
            lo, hi = st.num.bounds(e)
            if hi is not None and hi <= 1 and lo is not None and lo >= 0:
                return e
            return self.divpow2(st, self.u(st, e, 8), 1)[1]
        return v

    def typed_write(self, st, p, ty, v):
        ty = self.m.resolve(ty)
        if isinstance(v, Agg):
            if ty[0] == 'st':
                offs = self.m.offsets(ty)
                for t, o, x in zip(ty[1], offs, v.v):
                    self.typed_write(st, Ptr(p.b, p.off + o), t, x)
                return
            es = self.m.size(ty[2])
            for i, x in enumerate(v.v):
                self.typed_write(st, Ptr(p.b, p.off + i * es), ty[2], x)
            return
        w = self.m.store_size(ty)
        if isinstance(v, LE) and ty[0] == 'i':
            e = st.num.nf(v)
            if not e.t:
                v = LE(e.c % (1 << ty[1]))
            elif not self.as_elem(v):
                lo, hi = st.num.bounds(e)
                if lo is None or lo < 0 or hi is None or hi >= (1 << ty[1]):
                    v = self.u(st, v, ty[1])
        self.write(st, p, w, v)

    def is_cellular(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'arr':
            return False
        if ty[0] == 'st':
            return all(self.is_cellular(f) for f in ty[1]) or self.m.size(ty) <= 128
        return True

    def step(self, st, ins):
        """executes a non-terminator, non-call instruction in place"""
        op = ins.op
        env = st.frames[-1].env
        if op == 'load':
            p = self.to_ptr(st, self.val(st, *ins.args[0]))
            env[ins.dest] = self.typed_read(st, p, ins.ty)
        elif op == 'store':
            v = self.val(st, *ins.args[0])
            p = self.to_ptr(st, self.val(st, *ins.args[1]))
            self.typed_write(st, p, ins.args[0][0], v)
        elif op == 'gep':
            ops = [(t, self.val(st, t, x)) for t, x in ins.args]
            env[ins.dest] = self.gep(st, ins.x, ops)
        elif op in ir.BINOPS:
            (t, a), (_, b) = ins.args
            env[ins.dest] = self.binop(st, op, t, self.val(st, t, a), self.val(st, t, b), ins.flags)
        elif op == 'icmp':
            (t, a), (_, b) = ins.args
            env[ins.dest] = self.icmp(st, ins.x, t, self.val(st, t, a), self.val(st, t, b))
        elif op == 'fcmp':
            (t, a), (_, b) = ins.args
            env[ins.dest] = self.fcmp(st, ins.x, t[1], self.val(st, t, a), self.val(st, t, b))
        elif op in ir.CASTS:
            t, a = ins.args[0]
            env[ins.dest] = self.cast(st, op, t, self.val(st, t, a), ins.ty)
        elif op == 'fneg':
            t, a = ins.args[0]
            H = 1 << (t[1] - 1)
            env[ins.dest] = self.u(st, self.val(st, t, a) + H, t[1])
        elif op == 'select':
            c, a, b = ins.args
            r = self.truth(st, self.val(st, *c))
            env[ins.dest] = self.val(st, *(a if r else b))
        elif op == 'alloca':
            sz = LE(self.m.size(ins.x))
            cell = self.is_cellular(ins.x)
            if ins.args:
                n = self.u(st, self.val(st, *ins.args[0]), ins.args[0][0][1])
                sz = self.lmul(st, n, sz, 64, False)
                cell = False
            b = self.alloc(st, sz, 'stack', cell, '%' + str(ins.dest))
            st.frames[-1].stack.append(b)
            env[ins.dest] = Ptr(b)
        elif op == 'extractvalue':
            v = self.val(st, *ins.args[0])
            for i in ins.x:
                v = v.v[i]
            env[ins.dest] = v
        elif op == 'insertvalue':
            a = self.val(st, *ins.args[0])
            b = self.val(st, *ins.args[1])

            def ins_(a, idx):
                if not idx:
                    return b
                l = list(a.v)
                l[idx[0]] = ins_(l[idx[0]], idx[1:])
                return Agg(l)
            env[ins.dest] = ins_(a, ins.x)
        elif op == 'freeze':
            env[ins.dest] = self.val(st, *ins.args[0])
        else:
            raise Unsupported('instruction ' + op)

    # ------------------------------------------------------------ execution
    def exec_blocks(self, fn, work, region, header):
        """work: [(st, block, prev, doneflag)].  Returns outcomes."""
        loops = ir.loops(fn)
        idx = self._rpo(fn)
        out = []
        import heapq
        heap = []
        cnt = 0
        for w in work:
            heapq.heappush(heap, (idx[w[1]], cnt, w))
            cnt += 1

        def go(st, succ, frm):
            nonlocal cnt
            if region is not None and (succ not in region or succ == header):
                out.append(('edge', st, frm, succ))
            else:
                heapq.heappush(heap, (idx[succ], cnt, (st, succ, frm, False)))
                cnt += 1

        while heap:
            _, _, (st, blk, prev, after_phi) = heapq.heappop(heap)
            if blk in loops and not after_phi:
                entries = [(st, prev)]
                while heap and heap[0][2][1] == blk and not heap[0][2][3]:
                    _, _, w = heapq.heappop(heap)
                    entries.append((w[0], w[2]))
                for o in self.exec_loop(fn, blk, entries):
                    if o[0] == 'edge':
                        go(o[1], o[3], o[2])
                    else:
                        out.append(o)
                continue
            if not after_phi:
                self.phis(fn, st, blk, prev)
            for o in self.exec_block(fn, st, blk):
                if o[0] == 'edge':
                    go(o[1], o[3], o[2])
                else:
                    out.append(o)
        return out

    def _rpo(self, fn):
        r = self.live_cache.get(('rpo', fn.name))
        if r is None:
            r = {b: i for i, b in enumerate(self._loop_rpo(fn))}
            self.live_cache[('rpo', fn.name)] = r
        return r

    def _loop_rpo(self, fn):
        # order in which every block of a loop precedes the blocks after the loop
        order = ir.rpo(fn)
        loops = ir.loops(fn)
        idx = {b: i for i, b in enumerate(order)}

        def emit(blocks, hdr):
            # topological order of the DAG with inner loops collapsed
            inner = {}
            for h, body in loops.items():
                if h != hdr and h in blocks and body <= blocks:
                    for b in body:
                        # outermost inner loop
                        cur = inner.get(b)
                        if cur is None or len(loops[cur]) < len(body):
                            inner[b] = h
            reps = {}
            for b in blocks:
                reps[b] = inner.get(b, b)
            nodes = set(reps.values())
            succ = {n: set() for n in nodes}
            for b in blocks:
                for s in fn.blocks[b].succs:
                    if s in blocks and s != hdr and reps[s] != reps[b]:
                        succ[reps[b]].add(reps[s])
            indeg = {n: 0 for n in nodes}
            for n in nodes:
                for s in succ[n]:
                    indeg[s] += 1
            import heapq as hq
            ready = [(idx[n], n) for n in nodes if indeg[n] == 0]
            hq.heapify(ready)
            res = []
            while ready:
                _, n = hq.heappop(ready)
                if n in inner.values() and n != hdr and reps.get(n) == n and n in loops:
                    res += emit(loops[n], n)
                else:
                    res.append(n)
                for s in succ[n]:
                    indeg[s] -= 1
                    if indeg[s] == 0:
                        hq.heappush(ready, (idx[s], s))
            return res

        r = emit(set(order), None)
        if len(r) != len(order):
            return order
        return r

    def phis(self, fn, st, blk, prev):
        B = fn.blocks[blk]
        if B.phis:
            vals = []
            for ph in B.phis:
                for v, l in ph.x:
                    if l == prev:
                        vals.append((ph.dest, self.val(st, ph.ty, v)))
                        break
                else:
                    raise Unsupported('phi without incoming ' + str(prev))
            for d, v in vals:
                st.frames[-1].env[d] = v

    def exec_block(self, fn, st, blk):
        instrs = fn.blocks[blk].instrs
        out = []
        work = [(st, 0, 0)]
        while work:
            st, i, ns = work.pop()
            dead = False
            while True:
                ins = instrs[i]
                self.cur = ins
                self.steps += 1
                if self.steps > self.o['budget']:
                    raise Unsupported('step budget exceeded')
                try:
                    if ins.op in ('call', 'invoke'):
                        res = self.call(fn, st, blk, i, ins)
                        if res is not None:
                            for kind, s2, val in res:
                                if kind == 'ret':
                                    if ins.dest is not None:
                                        s2.frames[-1].env[ins.dest] = val
                                    if ins.op == 'invoke':
                                        out.append(('edge', s2, blk, ins.x['normal']))
                                    else:
                                        work.append((s2, i + 1, 0))
                                elif kind == 'unwind':
                                    if ins.op == 'invoke':
                                        s2.ghost['exc'] = val
                                        out.append(('edge', s2, blk, ins.x['unwind']))
                                    else:
                                        out.append(('unwind', s2, val))
                            dead = True
                        elif ins.op == 'invoke':
                            out.append(('edge', st, blk, ins.x['normal']))
                            dead = True
                    elif ins.op == 'br':
                        if isinstance(ins.x, str):
                            out.append(('edge', st, blk, ins.x))
                        else:
                            r = self.truth(st, self.val(st, *ins.args[0]))
                            l = self.m.loc(ins.dbg)
                            st.trace = st.trace[-30:] + ('%s:%d %s' % (l[0].split('/')[-1], l[1], 'T' if r else 'F'),)
                            out.append(('edge', st, blk, ins.x[0] if r else ins.x[1]))
                        dead = True
                    elif ins.op == 'switch':
                        t, v = ins.args[0]
                        v = self.val(st, t, v)
                        e = self.u(st, v, t[1])
                        tgt = None
                        for c, l in ins.x[1]:
                            if self.decide(st, 'eq', e - (c % (1 << t[1]))):
                                tgt = l
                                break
                        out.append(('edge', st, blk, tgt or ins.x[0]))
                        dead = True
                    elif ins.op == 'ret':
                        v = self.val(st, *ins.args[0]) if ins.args else None
                        out.append(('ret', st, v))
                        dead = True
                    elif ins.op == 'unreachable':
                        dead = True
                    elif ins.op == 'resume':
                        out.append(('unwind', st, st.ghost.get('exc')))
                        dead = True
                    elif ins.op == 'landingpad':
                        self.landingpad(st, ins)
                    else:
                        self.step(st, ins)
                except Split as s:
                    if ns > 60:
                        raise Unsupported('split limit at %s: %s' % (ins.text.strip()[:100], s.why))
                    for alt in s.alts:
                        n = st.num.with_(alt)
                        if n.bad or not n.feasible():
                            continue
                        s2 = st.copy()
                        s2.num = n
                        work.append((s2, i, ns + 1))
                    dead = True
                except Stop:
                    dead = True
                if dead:
                    break
                i += 1
        return out

    def landingpad(self, st, ins):
        exc = st.ghost.get('exc')
        tag = exc[0] if exc else None
        sel = 0
        for c in ins.x:
            if c[0] == 'catch':
                v = c[1][1]
                if v[0] == 'null':
                    sel = 1
                    break
                if v[0] == 'g' and v[1] == tag:
                    sel = self.typeid(v[1])
                    break
        st.frames[-1].env[ins.dest] = Agg([exc[1] if exc else NULL, LE(sel)])

    def typeid(self, n):
        return self.typeids.setdefault(n, len(self.typeids) + 2)

    # ------------------------------------------------------------ calls
    def call(self, fn, st, blk, i, ins):
        """None: done in place; else list of (kind, state, value)"""
        c = ins.x['callee']
        if c[0] == 'asm':
            return None
        cv = self.val(st, ir.PTR, c)
        if not (isinstance(cv, Ptr) and isinstance(cv.b, tuple) and cv.b[0] == 'fn'):
            h = self.o['hooks'].get('indirect')
            if h:
                return h(self, st, ins, cv)
            self.alarm(st, 'wild-call', 'call through unknown pointer %r' % (cv,))
            raise Stop()
        name = cv.b[1]
        args = []
        if name.startswith('llvm.dbg') or name.startswith('llvm.experimental.noalias'):
            return None
        for a in ins.args:
            if a[0][0] == 'metadata':
                args.append(None)
            else:
                args.append(self.val(st, a[0], a[1]))
        h = self.o['hooks'].get(name)
        if h:
            return h(self, st, ins, args)
        f = self.m.funcs[name]
        if not f.decl and self.o.get('uf') and name.replace('nanostlL', 'nanostl') in str(self.o['uf']).split(',') and self.pure_fn(name):
            if all(isinstance(a, LE) for a in args):
                self.funcs_seen.add(name)
                st.frames[-1].env[ins.dest] = term(('uf', name) + tuple(st.num.nf(a) for a in args), 'uf', 0, (1 << 8 * self.m.size(f.rty)) - 1)
                return None
        if not f.decl:
            return self.call_fn(st, blk, i, ins, f, args)
        return self.external(st, ins, name, args)

    def pure_fn(self, name, stack=()):
        """effect analysis: the function writes only its own locals and reads no
        mutable global, so equal arguments give equal results"""
        k = ('pure', name)
        if k in self.live_cache:
            return self.live_cache[k]
        f = self.m.funcs.get(name)
        if f is None or name in stack:
            return False
        ok = True
        if f.decl:
            ok = name.startswith('llvm.') and not name.startswith('llvm.mem')
        else:
            local = set()
            ch = True
            while ch:
                ch = False
                for B in f.blocks.values():
                    for i in B.instrs:
                        if i.dest not in local and (i.op == 'alloca' or (i.op in ('getelementptr', 'bitcast') and i.args[0][1][0] == 'l' and i.args[0][1][1] in local)):
                            local.add(i.dest)
                            ch = True
            for B in f.blocks.values():
                for i in B.instrs:
                    if i.op == 'store' and not (i.args[1][1][0] == 'l' and i.args[1][1][1] in local):
                        ok = False
                    elif i.op == 'load' and i.args[0][1][0] == 'g' and not self.m.globals[i.args[0][1][1]].const:
                        ok = False
                    elif i.op in ('atomicrmw', 'cmpxchg', 'fence'):
                        ok = False
                    elif i.op in ('call', 'invoke'):
                        c = i.x['callee']
                        if c[0] != 'g' or not (c[1].startswith('llvm.dbg') or c[1].startswith('llvm.lifetime') or self.pure_fn(c[1], stack + (name,))):
                            ok = False
        self.live_cache[k] = ok
        return ok

    def call_fn(self, st, blk, i, ins, f, args):
        depth = sum(1 for fr in st.frames if fr.fn is f)
        if depth >= self.o['maxrec']:
            self.alarm(st, 'recursion', 'recursion of %s not bounded (depth %d)' % (f.name, depth))
            raise Stop()
        self.funcs_seen.add(f.name)
        st.frames[-1].call = (blk, i, ins)
        # byval arguments get their own copy
        env = {}
        fr = Frame(f, env)
        for (t, n, al), v, a in zip(f.params, args, ins.args):
            if 'byval' in al:
                sz = self.m.size(al['byval'])
                b = self.alloc(st, LE(sz), 'stack', self.is_cellular(al['byval']), 'byval')
                self.memcpy(st, Ptr(b), v, LE(sz))
                fr.stack.append(b)
                v = Ptr(b)
            env[n] = v
        st.frames.append(fr)
        cur = self.cur
        res = self.exec_blocks(f, [(st, f.order[0], None, False)], None, None)
        self.cur = cur
        out = []
        for o in res:
            s2 = o[1]
            fr2 = s2.frames.pop()
            for b in fr2.stack:
                if b in s2.mem:
                    s2.mem[b] = s2.mem[b].copy(status='out-of-scope', segs=())
            s2.frames[-1].call = None
            out.append((o[0], s2, o[2]))
        if len(out) > 6:
            out = self.dedupe(out)
        return out

    def dedupe(self, out):
        return out

    def free(self, st, p, fam):
        self.ob('free')
        if p.b == 0 and st.num.prove_eq(p.off):
            return
        if isinstance(p.b, (tuple, str)) or p.b == 0:
            self.alarm(st, 'bad-free', 'delete of a pointer that was not allocated (%r)' % (p,), True)
            raise Stop()
        blk = st.mem[p.b]
        if blk.status == 'freed':
            self.alarm(st, 'double-free', 'memory allocated at %s:%d is deleted twice' % (blk.site[0], blk.site[1]), True)
            raise Stop()
        if blk.kind not in ('new', 'new[]'):
            self.alarm(st, 'bad-free', 'delete of %s memory' % blk.kind, True)
            raise Stop()
        if blk.kind != fam:
            self.alarm(st, 'mismatched-free', 'memory from %s released with %s' % (blk.kind, 'delete' if fam == 'new' else 'delete[]'), True)
        if not st.num.prove_eq(p.off):
            self.alarm(st, 'bad-free', 'delete of an interior pointer (offset %r)' % st.num.nf(p.off), st.num.prove_ne(p.off))
        st.mem[p.b] = blk.copy(status='freed', segs=())

    def any_int(self, name, w, signed=False):
        if signed:
            return fresh(name, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return fresh(name, 0, (1 << w) - 1)

    def cstring(self, st, p):
        if isinstance(p, Ptr) and isinstance(p.b, str) and p.b.startswith('G:'):
            g = self.m.globals.get(p.b[2:])
            if g and g.init and g.init[0] == 'str':
                o = st.num.nf(p.off).c
                return g.init[1][o:].split(b'\0')[0].decode('latin1')
        return '?'

    def external(self, st, ins, name, args):
        env = st.frames[-1].env
        num = st.num

        def ret(v):
            if ins.dest is not None:
                env[ins.dest] = v

        if name in ('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            n = self.u(st, args[0], 64)
            num.add_ge(LE(OOM) - n)
            if not num.feasible():
                raise Stop()
            kind = 'new' if name.startswith('_Znw') else 'new[]'
            b = self.alloc(st, num.nf(n), kind, kind == 'new', kind)
            ret(Ptr(b))
            return None
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
            self.free(st, self.to_ptr(st, args[0]), 'new')
            return None
        if name in ('_ZdaPv', '_ZdaPvm'):
            self.free(st, self.to_ptr(st, args[0]), 'new[]')
            return None
        if name.startswith('llvm.lifetime.start'):
            p = args[-1]
            blk = st.mem[p.b]
            a = self.new_array(blk.name, uninit=True)
            st.mem[p.b] = blk.copy(status='live', segs=((ZERO, blk.size, ('arr', a, ZERO)),))
            return None
        if name.startswith('llvm.lifetime.end'):
            p = args[-1]
            st.mem[p.b] = st.mem[p.b].copy(status='out-of-scope', segs=())
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            self.memcpy(st, self.to_ptr(st, args[0]), self.to_ptr(st, args[1]), args[2], 'move' in name)
            ret(args[0])
            return None
        if name.startswith('llvm.memset') or name == 'memset':
            n = self.u(st, args[2], 64)
            p = self.to_ptr(st, args[0])
            if num.nf(n) == ZERO:
                ret(p)
                return None
            if not num.prove_ge(n - 1):
                raise Split([[('eq', n)], [('ge', n - 1)]], 'memset0')
            blk = self.block(st, p, 'memset')
            self.bounds_check(st, blk, p.off, n, 'memset')
            v = self.u(st, args[1], 8)
            nb = self.splice(st, blk, p.off, p.off + n, [(p.off, p.off + n, ('fill', v, 1))])
            st.mem[p.b] = nb
            ret(p)
            return None
        if name.startswith('llvm.umul.with.overflow'):
            w = ins.args[0][0][1]
            a, b = self.u(st, args[0], w), self.u(st, args[1], w)
            r = self.lmul(st, a, b, w, True)
            ov = self.decide(st, 'ge', r - (1 << w), 'umulo')
            ret(Agg([r, ONE if ov else ZERO]))
            return None
        if name.startswith('llvm.uadd.with.overflow'):
            w = ins.args[0][0][1]
            a, b = self.u(st, args[0], w), self.u(st, args[1], w)
            r = a + b
            ov = self.decide(st, 'ge', r - (1 << w), 'uaddo')
            ret(Agg([r, ONE if ov else ZERO]))
            return None
        if name.startswith('llvm.umax') or name.startswith('llvm.umin') or name.startswith('llvm.smax') or name.startswith('llvm.smin'):
            w = ins.args[0][0][1]
            g = self.u if name[5] == 'u' else self.s
            a, b = g(st, args[0], w), g(st, args[1], w)
            ge = self.decide(st, 'ge', a - b, 'max')
            mx = name[6:8] == 'ma'
            ret((a if ge else b) if mx else (b if ge else a))
            return None
        if name.startswith('llvm.abs'):
            w = ins.args[0][0][1]
            a = self.s(st, args[0], w)
            ret(a if self.decide(st, 'ge', a, 'abs') else -a)
            return None
        if name.startswith('llvm.fabs'):
            w = ins.args[0][0][1]
            _, mag = self.fparts(st, args[0], w)
            ret(mag)
            return None
        if name.startswith('llvm.bswap') or name.startswith('llvm.fsh') or name.startswith('llvm.ct') or name.startswith('llvm.usub.sat'):
            w = ins.ty[1]
            ret(term((name,) + tuple(num.nf(a) if isinstance(a, LE) else a for a in args), 'intr', 0, (1 << w) - 1))
            return None
        if name.startswith('llvm.assume'):
            if not self.truth(st, args[0]):
                raise Stop()
            return None
        if name.startswith('llvm.expect'):
            ret(args[0])
            return None
        if name in ('llvm.stacksave.p0', 'llvm.stacksave'):
            ret(NULL)
            return None
        if name.startswith('llvm.stackrestore') or name.startswith('llvm.prefetch') or name.startswith('llvm.invariant') or name.startswith('llvm.var.annotation'):
            return None
        if name.startswith('llvm.is.constant'):
            ret(ZERO)
            return None
        if name.startswith('llvm.objectsize'):
            ret(LE(-1))
            return None
        if name.startswith('llvm.trap') or name in ('abort', '_ZSt9terminatev', '__assert_fail', '_ZSt10unexpectedv', 'exit', '__clang_call_terminate'):
            self.ob('abort')
            h = self.o['hooks'].get('abort')
            if h:
                return h(self, st, ins, args)
            self.alarm(st, 'abort', 'reaches %s' % name, None)
            raise Stop()
        if name.startswith('llvm.eh.typeid.for'):
            n = args[0].b[2:] if isinstance(args[0].b, str) else '?'
            ret(LE(self.typeid(n)))
            return None
        if name == '__cxa_allocate_exception':
            b = self.alloc(st, self.u(st, args[0], 64), 'exception', True, 'exception')
            ret(Ptr(b))
            return None
        if name == '__cxa_free_exception':
            st.mem[args[0].b] = st.mem[args[0].b].copy(status='freed', segs=())
            return None
        if name == '__cxa_throw':
            tag = args[1].b[2:] if isinstance(args[1].b, str) else '?'
            return [('unwind', st, (tag, args[0]))]
        if name == '__cxa_rethrow':
            return [('unwind', st, st.ghost.get('exc'))]
        if name == '__cxa_begin_catch':
            ret(args[0])
            return None
        if name == '__cxa_end_catch':
            return None
        if name == '__cxa_guard_acquire':
            ret(ZERO)
            return None
        if name in ('__cxa_guard_release', '__cxa_atexit'):
            ret(ZERO)
            return None
        # ---- witness vocabulary
        if name.startswith('ns_'):
            r = self.ns(st, ins, name, args, ret)
            if r is not NotImplemented:
                return r
        raise Unsupported('external function ' + name)

    def ns(self, st, ins, name, args, ret):
        num = st.num
        if name in ('ns_u64', 'ns_u32', 'ns_u16', 'ns_u8'):
            ret(self.any_int('any', int(name[4:])))
            return None
        if name in ('ns_i64', 'ns_i32', 'ns_i16', 'ns_i8'):
            ret(self.any_int('any', int(name[4:]), True))
            return None
        if name not in ('ns_check', 'ns_assume', 'ns_reach'):
            self.nondet += 1
        if name == 'ns_shard':
            ret(LE(self.o.get('shard') or 0))
            return None
        if name in ('ns_size', 'ns_hsize'):
            mx = num.nf(args[0]).c
            if self.o['small'] is None:
                ret(fresh('n', 0, mx))
                return None
            self.sized = True
            alts = []
            for k in (self.o['small'] if name == 'ns_size' else self.o['hsizes']):
                if k <= mx:
                    s2 = st.copy()
                    s2.frames[-1].env[ins.dest] = LE(k)
                    alts.append(('ret', s2, LE(k)))
            return alts
        if name == 'ns_havoc':
            p = self.to_ptr(st, args[0])
            n = self.u(st, args[1], 64)
            if num.nf(n) == ZERO:
                return None
            if not num.prove_ge(n - 1):
                raise Split([[('eq', n)], [('ge', n - 1)]], 'havoc0')
            blk = self.block(st, p, 'havoc')
            self.bounds_check(st, blk, p.off, n, 'havoc')
            a = self.new_array('any', uninit=False)
            st.mem[p.b] = self.splice(st, blk, p.off, p.off + n, [(p.off, p.off + n, ('arr', a, ZERO))])
            return None
        if name == 'ns_bool':
            ret(fresh('b', 0, 1))
            return None
        if name == 'ns_float':
            ret(self.any_int('flt', 32))
            return None
        if name == 'ns_double':
            ret(self.any_int('dbl', 64))
            return None
        if name == 'ns_assume':
            if not self.truth(st, args[0]):
                raise Stop()
            return None
        if name == 'ns_check':
            ident = self.cstring(st, args[1])
            self.checks.setdefault(ident, [0, 0])
            self.ob('check')
            ok = self.truth(st, args[0])
            self.checks[ident][0] += 1
            if not ok:
                self.alarm(st, 'check', ident)
                self.checks[ident][1] += 1
                raise Stop()
            return None
        if name == 'ns_fail':
            ident = self.cstring(st, args[0])
            self.alarm(st, 'check', ident)
            raise Stop()
        if name == 'ns_reach':
            ident = self.cstring(st, args[0])
            self.checks.setdefault('reach:' + ident, [0, 0])[0] += 1
            return None
        if name == 'ns_coarsen':
            return None
        if name in ('ns_buf', 'ns_cstr'):
            n = self.u(st, args[0], 64)
            num.add_ge(LE(OOM) - n)
            if not num.feasible():
                raise Stop()
            n = num.nf(n)
            if name == 'ns_buf':
                b = self.alloc(st, n, 'arg', False, 'buf', uninit=False)
            else:
                a = self.new_array('str', lo=1)
                if num.prove_eq(n):
                    segs = ((ZERO, LE(1), ('fill', ZERO, 1)),)
                else:
                    if not num.prove_ge(n - 1):
                        raise Split([[('eq', n)], [('ge', n - 1)]], 'cstr')
                    segs = ((ZERO, n, ('arr', a, ZERO)), (n, n + 1, ('fill', ZERO, 1)))
                b = self.alloc(st, n + 1, 'arg', False, 'cstr', segs=segs)
            ret(Ptr(b))
            return None
        if name == 'ns_heap_clean':
            self.leak_check(st)
            return None
        if name == 'ns_live':
            # is [p, p+n) inside one live block?
            p = self.to_ptr(st, args[0])
            n = self.u(st, args[1], 64)
            ok = ZERO
            if not isinstance(p.b, tuple) and p.b in st.mem and st.mem[p.b].status == 'live' and num.prove_ge(p.off) and \
                    num.prove_ge(st.mem[p.b].size - p.off - n):
                ok = ONE
            ret(ok)
            return None
        if name == 'ns_init':
            # is the n-byte object at p initialised (not raw storage)?
            p = self.to_ptr(st, args[0])
            n = num.nf(args[1]).c
            ok = ZERO
            if not isinstance(p.b, tuple) and p.b in st.mem and st.mem[p.b].status == 'live':
                blk = st.mem[p.b]
                i = self.find_seg(st, blk, p.off, n)
                if i is not None:
                    d = blk.segs[i][2]
                    if d[0] != 'arr' or not self.arrays[d[1]].uninit:
                        ok = ONE
            ret(ok)
            return None
        if name == 'ns_poison':
            p = self.to_ptr(st, args[0])
            n = num.nf(args[1])
            blk = self.block(st, p, 'poison')
            a = self.new_array('dead', uninit=True)
            st.mem[p.b] = self.splice(st, blk, p.off, p.off + n, [(p.off, p.off + n, ('arr', a, ZERO))])
            return None
        if name == 'ns_throw_maybe':
            s2 = st.copy()
            s2.num = s2.num.copy()
            return [('ret', st, None), ('unwind', s2, ('ns_exc', NULL))]
        if name == 'ns_same_block':
            a, b = self.to_ptr(st, args[0]), self.to_ptr(st, args[1])
            ret(ONE if a.b == b.b else ZERO)
            return None
        if name == 'ns_dump':
            print('DUMP', self.cstring(st, args[0]), '\n  '.join([''] + self.describe(st)))
            return None
        return NotImplemented

    def describe(self, st):
        out = []
        for i, b in st.mem.items():
            if b.status == 'live':
                out.append('blk %s %s size=%r cell=%s: %s' % (i, b.kind, st.num.nf(b.size), b.cellular, '; '.join(
                    '[%r,%r)%s' % (st.num.nf(lo), st.num.nf(hi), self.dd(st, d)) for lo, hi, d in b.segs)))
        out.append('num: ' + ', '.join(st.num.dump()))
        return out

    def dd(self, st, d):
        if d[0] == 'arr':
            return '%s#%d@%r' % (self.arrays[d[1]].name, d[1], st.num.nf(d[2]))
        if d[0] == 'fill':
            return '=%r/%d' % (st.num.nf(d[1]) if isinstance(d[1], LE) else d[1], d[2])
        return repr(d)

    def leak_check(self, st):
        self.ob('leak')
        for i, b in st.mem.items():
            if b.status == 'live' and b.kind in ('new', 'new[]'):
                self.alarm(st, 'leak', 'memory allocated at %s:%d (%s) is never released' % (b.site[0], b.site[1], b.site[2]), True)

    # ------------------------------------------------------------ driver
    def run(self, fname, args=(), setup=None):
        f = self.m.funcs[fname]
        st = State()
        # bottom frame
        fr = Frame(f, {})
        for (t, n, al), v in zip(f.params, args):
            fr.env[n] = v
        st.frames = [fr]
        if setup:
            setup(self, st)
        self.funcs_seen.add(fname)
        res = self.exec_blocks(f, [(st, f.order[0], None, False)], None, None)
        for o in res:
            s2 = o[1]
            if o[0] == 'unwind':
                self.alarm(s2, 'exception', 'exception %r escapes' % (o[2],))
            elif self.o['leak']:
                self.cur = None
                self.leak_check(s2)
        return res

    # ------------------------------------------------------------ loops
    def liveness(self, fn):
        r = self.live_cache.get(fn.name)
        if r is not None:
            return r
        use, deff = {}, {}

        def uses(v, acc):
            if v[0] == 'l':
                acc.add(v[1])
            elif v[0] == 'agg':
                for _, x in v[1]:
                    uses(x, acc)

        def iuses(ins):
            acc = set()
            for a in ins.args:
                uses(a[1], acc)
            if ins.op in ('call', 'invoke'):
                uses(ins.x['callee'], acc)
            return acc
        phiuse = {}
        for b, B in fn.blocks.items():
            u, d = set(), set()
            for ph in B.phis:
                d.add(ph.dest)
                for v, l in ph.x:
                    acc = set()
                    uses(v, acc)
                    phiuse.setdefault(l, {}).setdefault(b, set()).update(acc)
            for ins in B.instrs:
                u |= iuses(ins) - d
                if ins.dest is not None:
                    d.add(ins.dest)
            use[b], deff[b] = u, d
        livein = {b: set() for b in fn.blocks}
        ch = True
        order = list(reversed(ir.rpo(fn)))
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in fn.blocks[b].succs:
                    o |= livein[s] - {p.dest for p in fn.blocks[s].phis}
                    o |= phiuse.get(b, {}).get(s, set())
                n = use[b] | (o - deff[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        liveout = {}
        for b in fn.blocks:
            o = set()
            for s in fn.blocks[b].succs:
                o |= livein[s] - {p.dest for p in fn.blocks[s].phis}
                o |= phiuse.get(b, {}).get(s, set())
            liveout[b] = o
        # after phis at block start: livein (uses upward exposed incl. phi dests)
        after = {}
        for b, B in fn.blocks.items():
            cur = set(liveout[b])
            for i in range(len(B.instrs) - 1, -1, -1):
                ins = B.instrs[i]
                if ins.op in ('call', 'invoke'):
                    after[(b, i)] = set(cur) - {ins.dest}
                if ins.dest is not None:
                    cur.discard(ins.dest)
                cur |= iuses(ins)
            after[(b, 'start')] = cur
        self.live_cache[fn.name] = after
        return after

    def live_names(self, st, fn, header):
        out = []
        for fr in st.frames[:-1]:
            L = self.liveness(fr.fn)
            out.append(sorted(L[(fr.call[0], fr.call[1])]) if fr.call else sorted(fr.env))
        L = self.liveness(fn)
        out.append(sorted(L[(header, 'start')]))
        return out

    def signature(self, st, names, level):
        """canonical heap shape reachable from live values -> (sig, order of blocks)"""
        order = []
        pos = {}
        apos = {}
        sig = []

        def vs(v):
            if isinstance(v, Ptr):
                if v.b == 0:
                    return 'n'
                if isinstance(v.b, tuple):
                    return v.b if v.b[0] == 'fn' else 'o'
                if isinstance(v.b, str):
                    if v.b not in st.mem:
                        return v.b
                if v.b not in pos:
                    pos[v.b] = len(order)
                    order.append(v.b)
                return ('p', pos[v.b])
            if isinstance(v, Agg):
                return tuple(vs(x) for x in v.v)
            return 'i'

        for fr, ns in zip(st.frames, names):
            sig.append(fr.fn.name)
            for n in ns:
                if n in fr.env:
                    sig.append((n, vs(fr.env[n])))
        i = 0
        while i < len(order):
            b = order[i]
            i += 1
            blk = st.mem[b]
            s = [blk.kind, blk.status, blk.cellular, blk.ro]
            if blk.status == 'live' and not blk.ro:
                for lo, hi, d in blk.segs:
                    if d[0] == 'fill':
                        v = d[1]
                        if isinstance(v, LE):
                            nv = st.num.nf(v)
                            if blk.cellular:
                                if not nv.t and (d[2] == 1 or self.o['part_consts']):
                                    s.append(('k', repr(lo), nv.c))
                            elif level == 0:
                                s.append(('f', d[2], nv.c if not nv.t else 'x'))
                            elif level == 1:
                                s.append(('f', d[2]))
                        else:
                            s.append((repr(st.num.nf(lo)) if blk.cellular else '', vs(v)))
                    elif not blk.cellular:
                        if level == 0:
                            s.append(('a', apos.setdefault(d[1], len(apos)) if d[0] == 'arr' else d[1]))
                        elif level == 1:
                            s.append(('a',))
            sig.append(tuple(s))
        return tuple(sig), order

    def coarsen(self, st):
        for i, b in list(st.mem.items()):
            if b.status != 'live' or b.cellular or b.ro or b.kind in ('arg',):
                continue
            out = []
            run = None
            for lo, hi, d in b.segs:
                keep = d[0] == 'fill' and isinstance(d[1], LE) and d[2] == 1 and st.num.nf(d[1]) == ZERO
                if keep:
                    out.append((lo, hi, d))
                    run = None
                else:
                    if run is None:
                        a = self.new_array('any', uninit=False)
                        out.append((lo, hi, ('arr', a, ZERO)))
                        run = len(out) - 1
                    else:
                        out[run] = (out[run][0], hi, out[run][2])
            st.mem[i] = b.copy(segs=tuple(out))

    def exec_loop(self, fn, header, entries):
        body = ir.loops(fn)[header]
        key = (fn.name, header)
        self.loops_seen[key] = self.loops_seen.get(key, 0) + 1
        coarse = self._has_coarsen(fn, body)
        sts = []
        for st, prev in entries:
            try:
                self.phis(fn, st, header, prev)
            except Split:
                raise Unsupported('split in phi')
            if coarse:
                self.coarsen(st)
            sts.append(st)
        if self.o['small'] is not None:
            return self._unroll(fn, header, body, sts, coarse)
        saved = self.alarms
        level = 0
        while True:
            r = self._fix(fn, header, body, [s.copy() for s in sts], level, coarse)
            if r is not None:
                break
            level += 1
            if level > 2:
                raise Unsupported('loop at %s in %s does not stabilise' % (header, fn.name))
        outs, alarms = r
        self.alarms = saved + alarms
        return outs

    def _unroll(self, fn, header, body, sts, coarse):
        """small-size mode: iterations are followed one by one (bounded)"""
        outs = []
        cur = sts
        cap = self.o['hist'] if coarse else self.o['iters']
        for it in range(cap + 1):
            cur0, cur = cur, []
            for st in cur0:
                old = None if coarse or it > 8 else st.copy()
                mark = (len(SYM), self.nondet)
                o = self.exec_blocks(fn, [(st, header, None, True)], body, header)
                mark2 = (len(SYM), self.nondet)
                for x in o:
                    if x[0] == 'edge' and x[3] == header:
                        s2 = x[1]
                        self.phis(fn, s2, header, x[2])
                        if old is not None and mark == mark2 and self.stuck(old, s2, self.live_names(s2, fn, header), mark2):
                            self.stuck_alarm(fn, header, s2, True)
                            continue
                        cur.append(s2)
                    else:
                        outs.append(x)
            if not cur:
                return outs
            if len(cur) > self.o['maxpaths']:
                self.truncated = True
                cur = cur[:self.o['maxpaths']]
        self.truncated = True
        return outs

    # ---- loops that make no progress
    def snapshot(self, st, num, names, regs=False):
        """everything later steps can depend on, in normal form"""
        def c(v):
            if isinstance(v, LE):
                return num.nf(v)
            if isinstance(v, Ptr):
                return ('p', v.b, num.nf(v.off))
            if isinstance(v, Agg):
                return tuple(c(x) for x in v.v)
            return v
        out = []
        for fr, ns in zip(st.frames, names):
            out.append(tuple((n, c(fr.env[n])) for n in ns if n in fr.env))
        if regs:
            return out
        mem = []
        for i, b in st.mem.items():
            segs = tuple((c(lo), c(hi), d[0], c(d[1]), c(d[2])) for lo, hi, d in b.segs)
            mem.append((str(i), b.status, c(b.size) if isinstance(b.size, LE) else b.size, segs))
        mem.sort(key=lambda m: m[0])
        return out, mem

    def stuck(self, st, new, names, mark):
        """an iteration that met no input and led from st to an equal state:
        the same iteration follows again, for ever"""
        if mark != (len(SYM), self.nondet) or st.ghost != new.ghost:
            return False
        return self.snapshot(st, new.num, names) == self.snapshot(new, new.num, names)

    def stuck_alarm(self, fn, header, new, definite):
        cur = self.cur
        for i in fn.blocks[header].instrs:
            if i.dbg is not None:
                self.cur = i
        try:
            self.alarm(new, 'nontermination', 'the loop can repeat the same iteration for ever: nothing it reads has changed when it comes round again', definite)
        except Stop:
            pass
        self.cur = cur

    def probe(self, fn, header, body, base, new):
        """general mode: new came round from base; does one more iteration leave
        everything as it was?"""
        names = self.live_names(new, fn, header)
        if self.snapshot(base, new.num, names, True) != self.snapshot(new, new.num, names, True):
            return
        saved, self.alarms = self.alarms, []
        hit = None
        try:
            st = new
            for _ in range(2):
                nxt = None
                mark = (len(SYM), self.nondet)
                for y in self.exec_blocks(fn, [(st.copy(), header, None, True)], body, header):
                    if y[0] == 'edge' and y[3] == header:
                        s2 = y[1]
                        self.phis(fn, s2, header, y[2])
                        if self.stuck(st, s2, names, mark):
                            hit = s2
                            break
                        nxt = s2
                if hit is not None or nxt is None:
                    break
                st = nxt
        except (Split, Unsupported):
            pass
        self.alarms = saved
        if hit is not None:
            self.stuck_alarm(fn, header, hit, False)

    def _has_coarsen(self, fn, body):
        k = ('co', fn.name)
        c = self.live_cache.get(k)
        if c is None:
            c = {b for b, B in fn.blocks.items() if any(i.op == 'call' and i.x['callee'] == ('g', 'ns_coarsen') for i in B.instrs)}
            self.live_cache[k] = c
        # only the loop whose header region directly holds the marker (innermost)
        if not (c & body):
            return False
        for h, bd in ir.loops(fn).items():
            if bd < body and (bd & c):
                return bool((c & body) - bd)
        return True

    def _fix(self, fn, header, body, entries, level, coarse):
        heads = {}
        order = []

        def merge(st):
            names = self.live_names(st, fn, header)
            self.prune(st, names)
            sig, blks = self.signature(st, names, level)
            self.drop_unreachable(st, blks)
            h = heads.get(sig)
            if h is None:
                J, _ = self.join(st, blks, st, blks, names, True, level)
                h = {'st': J, 'blks': None, 'dirty': True, 'outs': [], 'n': 1}
                h['sig'], h['blks'] = self.signature(J, names, level)
                heads[sig] = h
                order.append(sig)
                return True
            g = h['st']
            gs, gb = self.signature(g, names, level)
            J, stable = self.join(g, gb, st, blks, names, h['n'] <= 3, level)
            if stable:
                return False
            h['n'] += 1
            h['st'] = J
            h['dirty'] = True
            return True

        self.alarms = []
        for s in entries:
            merge(s)
        for it in range(MAXITER):
            if len(heads) > MAXHEADS:
                return None
            todo = [s for s in order if heads[s]['dirty']]
            if not todo:
                break
            for sg in todo:
                h = heads[sg]
                h['dirty'] = False
                self.alarms = []
                o = self.exec_blocks(fn, [(h['st'].copy(), header, None, True)], body, header)
                h['outs'] = [x for x in o if not (x[0] == 'edge' and x[3] == header)]
                h['alarms'] = self.alarms
                backs = [x for x in o if x[0] == 'edge' and x[3] == header]
                kept = []
                if self.o.get('dbg') == 2:
                    if self.o.get('dbg1') == fn.name[-len(str(self.o.get('dbg1'))):]: print('\n'.join('   ' + y for y in self.describe(h['st'])))
                    print('ITER', fn.name[-20:], header, it, 'level', level, 'heads', len(heads), 'backs', len(backs), 'steps', self.steps)
                for _, st, frm, _h in backs:
                    self.phis(fn, st, header, frm)
                    if coarse:
                        self.coarsen(st)
                    else:
                        kept.append(st.copy())
                    merge(st)
                h['backs'] = kept
                if len(heads) > MAXHEADS:
                    return None
        else:
            return None
        outs, al = [], []
        for sg in order:
            outs += heads[sg]['outs']
            al += heads[sg]['alarms']
        if not coarse:
            self.alarms = []
            for sg in order:
                for x in heads[sg].get('backs', ()):
                    self.probe(fn, header, body, heads[sg]['st'], x)
            al += self.alarms
        return outs, al

    def prune(self, st, names):
        for fr, ns in zip(st.frames, names):
            k = set(ns)
            for n in list(fr.env):
                if n not in k:
                    del fr.env[n]

    def drop_unreachable(self, st, blks):
        keep = set(blks)
        for i in list(st.mem):
            if i not in keep:
                b = st.mem[i]
                if b.status == 'live' and b.kind in ('new', 'new[]') and self.o['leak']:
                    self.alarms.append({'kind': 'leak', 'msg': 'memory allocated at %s:%d (%s) becomes unreachable without being released' % b.site,
                                        'where': self.stack_locs(st), 'definite': True, 'trace': list(st.trace[-12:]), 'facts': []})
                if isinstance(i, str):
                    if not b.ro:
                        continue
                del st.mem[i]

    # ---- join of two states of equal signature
    def join(self, G, gb, N, nb, names, widen_ok, level):
        same = G is N
        gn, nn = G.num, N.num
        memo = {}
        fr_defs = []   # (sym id, e1, e2)
        arrmemo = {}
        partners = set()
        pairs = {}
        recording = True
        missed = []
        mine = set()

        def jint(a, b, hint='j'):
            if a == b and gn.nf(a) == nn.nf(a):
                partners.add(a)
                return a
            x, y = gn.nf(a), nn.nf(b)
            if x == y:
                partners.add(x)
                return x
            if x.t and nn.nf(x) == y:
                partners.add(x)
                return x
            if y.t and gn.nf(y) == x:
                partners.add(y)
                return y
            ka, kb = self.as_elem(a), self.as_elem(b)
            el = ka and kb and ka[3] == kb[3] and (ka[1] == kb[1] or (ka[1], kb[1]) in arrmemo)
            if recording:
                if ka and kb and not el:
                    missed.append(1)
                if el:
                    jint(ka[2], kb[2])
                else:
                    pairs.setdefault((x, y), hint)
                return a
            k = memo.get((x, y))
            if k is None and el:
                off = jint(ka[2], kb[2])
                aid = ka[1] if ka[1] == kb[1] else arrmemo[(ka[1], kb[1])]
                arr = self.arrays[aid]
                w = ka[3]
                k = term(('elem', aid, off, w), '%s[%r]' % (arr.name, off),
                         arr.lo if arr.lo is not None and w == 1 else 0,
                         arr.hi if arr.hi is not None and w == 1 else (1 << (8 * w)) - 1)
                arr.terms[(off, w)] = k
                if k.t[0][0] not in [d[0] for d in fr_defs]:
                    fr_defs.append((k.t[0][0], x, y))
                memo[(x, y)] = k
            partners.add(k)
            return k

        def settle():
            """names for the differing pairs: plain symbols first, then whatever is
            not an affine image of those"""
            ren = {}
            first = [p for p in pairs if len(p[0].t) == 1 and p[0].t[0][1] == 1 and p[0].c == 0]
            rest = [p for p in pairs if p not in set(first)]
            for x, y in first:
                k = fresh(pairs[(x, y)])
                s_ = x.t[0][0]
                if s_ not in ren:
                    ren[s_] = (k, y)
                fr_defs.append((k.t[0][0], x, y))
                memo[(x, y)] = k
            for x, y in sorted(rest, key=lambda p: (len(p[0].t), abs(p[0].c))):
                if x.t:
                    my = {s_: (ren[s_][1] if s_ in ren else nn.nf(LE(0, ((s_, 1),)))) for s_, _ in x.t}
                    if nn.nf(x.subst(my)) == y and all(s_ in ren or nn.nf(LE(0, ((s_, 1),))) == LE(0, ((s_, 1),)) for s_, _ in x.t):
                        memo[(x, y)] = x.subst({s_: ren[s_][0] for s_, _ in x.t if s_ in ren})
                        continue
                # keep the common divisor: offsets of whole elements stay whole
                g = math.gcd(8, x.c - y.c)
                for _, c_ in x.t + y.t:
                    g = math.gcd(g, c_)
                r = x.c % g
                x1, y1 = [LE((e.c - r) // g, tuple((s_, c_ // g) for s_, c_ in e.t)) for e in (x, y)]
                k = memo.get((x1, y1))
                if k is None:
                    k = fresh(pairs[(x, y)])
                    fr_defs.append((k.t[0][0], x1, y1))
                    memo[(x1, y1)] = k
                memo[(x, y)] = k * g + const(r)

        bmap = {}
        rev = {}
        for x, y in zip(gb, nb):
            bmap[(x, y)] = x

        def jptr(p, q):
            if p.b == 0 or isinstance(p.b, tuple):
                if p.b == q.b:
                    return Ptr(p.b, jint(p.off, q.off, 'o'))
                # two unknown pointers
                s = fresh('optr', 0, (1 << 64) - 1)
                return Ptr(('opq', s.t[0][0]), ZERO)
            nbk = bmap.get((p.b, q.b), p.b)
            return Ptr(nbk, jint(p.off, q.off, 'o'))

        def jval(v, w_):
            if isinstance(v, Ptr) and isinstance(w_, Ptr):
                return jptr(v, w_)
            if isinstance(v, Agg) and isinstance(w_, Agg):
                return Agg([jval(x, y) for x, y in zip(v.v, w_.v)])
            if isinstance(v, Ptr):
                v = self.addr(G, v)
            if isinstance(w_, Ptr):
                w_ = self.addr(N, w_)
            return jint(v, w_)

        def build():
            J = State()
            J.trace = N.trace
            J.ghost = dict(N.ghost)
            for f1, f2, ns in zip(G.frames, N.frames, names):
                f = Frame(f1.fn, {}, f1.call)
                for n in ns:
                    if n in f1.env and n in f2.env:
                        f.env[n] = jval(f1.env[n], f2.env[n])
                f.stack = [b for b in f1.stack]
                J.frames.append(f)
            stackmap = {}

            def jarr(A, B):
                if A == B:
                    return A
                k = arrmemo.get((A, B))
                if k is None:
                    if self.o.get('dbg'):
                        print('JARR', self.arrays[A].name, A, self.arrays[B].name, B, level, names and J.frames[-1].fn.name)
                    a, b = self.arrays[A], self.arrays[B]
                    lo = min(a.lo, b.lo) if a.lo is not None and b.lo is not None else None
                    hi = max(a.hi, b.hi) if a.hi is not None and b.hi is not None else None
                    k = self.new_array('any', lo=lo, hi=hi, uninit=a.uninit or b.uninit)
                    arrmemo[(A, B)] = k
                return k

            for x, y in zip(gb, nb):
                b1, b2 = G.mem[x], N.mem[y]
                size = jint(b1.size, b2.size, 'sz')
                if b1.status != 'live' or b1.ro:
                    J.mem[x] = b1.copy(size=size)
                    continue
                if b1.segs == b2.segs and same:
                    segs = b1.segs
                    for lo, hi, d in segs:
                        if not b1.cellular:
                            partners.add(gn.nf(lo)); partners.add(gn.nf(hi))
                        if d[0] == 'fill' and isinstance(d[1], LE):
                            partners.add(gn.nf(d[1]))
                elif b1.cellular:
                    segs = self.join_cells(G, b1, N, b2, jval, jarr)
                elif len(b1.segs) == len(b2.segs) and level < 2 and all(
                        s1[2][0] == s2[2][0] and (s1[2][0] != 'fill' or (s1[2][2] == s2[2][2])) and
                        (s1[2][0] != 'tab' or s1[2][1] == s2[2][1]) for s1, s2 in zip(b1.segs, b2.segs)):
                    segs = []
                    prev = ZERO
                    for k, (s1, s2) in enumerate(zip(b1.segs, b2.segs)):
                        hi = size if k == len(b1.segs) - 1 else jint(s1[1], s2[1], 'hi')
                        d1, d2 = s1[2], s2[2]
                        if d1[0] == 'fill':
                            d = ('fill', jval(d1[1], d2[1]), d1[2])
                            # a run of differing, non-constant values is an opaque piece
                            if isinstance(d[1], LE) and not isinstance(d1[1], Ptr) and d[1] != d1[1] and \
                                    not (gn.nf(s1[1] - s1[0]) == LE(d1[2]) and nn.nf(s2[1] - s2[0]) == LE(d1[2])):
                                d = ('arr', self.new_array('any'), ZERO)
                                if self.o.get('dbg'):
                                    print('RUNLOSS', b1.segs, b2.segs, level)
                        elif d1[0] == 'tab':
                            d = ('tab', d1[1], jint(d1[2], d2[2]))
                        else:
                            A = jarr(d1[1], d2[1])
                            d = ('arr', A, jint(d1[2], d2[2], 'ao'))
                        gen = d[0] == 'arr' and d1[0] == 'arr' and d[1] != d1[1]
                        if gen and level >= 1 and segs and lastgen:
                            # adjacent generalised pieces become one piece of unknown contents
                            pd = segs[-1][2]
                            if pd[1] not in mine:
                                pd = ('arr', self.new_array('any'), ZERO)
                                mine.add(pd[1])
                            segs[-1] = (segs[-1][0], hi, pd)
                        else:
                            segs.append((prev, hi, d))
                        lastgen = gen
                        prev = hi
                    segs = tuple(segs)
                else:
                    if self.o.get('dbg'):
                        print('SEGLOSS', b1.segs, b2.segs, level)
                    segs = ((ZERO, size, ('arr', self.new_array('any', uninit=False), ZERO)),)
                J.mem[x] = b1.copy(size=size, segs=segs)
            return J

        build()
        if missed and arrmemo:
            pairs.clear()
            build()
        recording = False
        settle()
        partners.clear()
        J = build()
        # ---- numeric part
        live = set()

        def addsy(e):
            for s, _ in e.t:
                live.add(s)

        def addv(v):
            if isinstance(v, LE):
                addsy(v)
            elif isinstance(v, Ptr):
                addsy(v.off)
                if isinstance(v.b, tuple) and v.b[0] == 'opq':
                    live.add(v.b[1])
            elif isinstance(v, Agg):
                for z in v.v:
                    addv(z)
        for f in J.frames:
            for v in f.env.values():
                addv(v)
        for b in J.mem.values():
            addsy(b.size)
            for lo, hi, d in b.segs:
                addsy(lo)
                addsy(hi)
                if d[0] == 'fill':
                    addv(d[1])
                else:
                    addsy(d[2])
        # offsets inside live element terms
        ch = True
        while ch:
            ch = False
            for s in list(live):
                k = SYM[s].key
                if k and k[0] == 'elem':
                    for t_, _ in k[2].t:
                        if t_ not in live:
                            live.add(t_)
                            ch = True
        fmap1 = {s: e1 for s, e1, e2 in fr_defs}
        fmap2 = {s: e2 for s, e1, e2 in fr_defs}
        # keep symbols that occur in definitions of live symbols' nf (both sides)
        for s in list(live):
            if s not in fmap1:
                a, b = gn.nf(LE(0, ((s, 1),))), nn.nf(LE(0, ((s, 1),)))
                if a == b:
                    for t_, _ in a.t:
                        live.add(t_)
        keep = [s for s in fmap1] + [s for s in sorted(live) if s not in fmap1]
        keepset = set(keep)

        def toG(e):
            return gn.nf(e.subst(fmap1)) if fmap1 else gn.nf(e)

        def toN(e):
            return nn.nf(e.subst(fmap2)) if fmap2 else nn.nf(e)

        jn = J.num
        e1s = [LE(0, ((s, 1),)) - r for s, r in gn.eqs.items() if s not in fmap1] + [LE(0, ((s, 1),)) - e for s, e in fmap1.items()]
        e2s = [LE(0, ((s, 1),)) - r for s, r in nn.eqs.items() if s not in fmap2] + [LE(0, ((s, 1),)) - e for s, e in fmap2.items()]
        for e in affine_join(e1s, e2s, keep):
            jn.add_eq(e)
        # inequality candidates
        cands = []
        seen = set()

        def cand(e):
            e = jn.nf(e)
            if not e.t or e in seen:
                return
            seen.add(e)
            cands.append(e)

        ren1, ren2 = {}, {}
        for s, e1, e2 in fr_defs:
            if len(e1.t) == 1 and e1.t[0][1] == 1 and e1.c == 0:
                ren1.setdefault(e1.t[0][0], []).append(s)
            if len(e2.t) == 1 and abs(e2.t[0][1]) == 1:
                ren2.setdefault(e2.t[0][0], []).append((s, e2))

        glive = set(live) | set(ren1)

        def translate(e, ren, plain):
            """variants of e over keep symbols"""
            outs = [e]
            for s, _ in e.t:
                opts = []
                if s in keepset and s not in fmap1:
                    opts.append(LE(0, ((s, 1),)))
                for r in ren.get(s, []):
                    if plain:
                        opts.append(LE(0, ((r, 1),)))
                    else:
                        f, e2 = r  # f = k*s + c, k = +-1  ->  s = k*(f - c)
                        k = e2.t[0][1]
                        opts.append(LE(-e2.c, ((f, 1),)) * k)
                if not opts:
                    return []
                outs = [o if LE(0, ((s, 1),)) == op else ('sub', o, s, op) for o in outs for op in opts][:4]
                outs = [self._subx(o) for o in outs]
            return outs

        for b_ in J.mem.values():
            cand(b_.size)
            cand(LE(OOM) - b_.size)
        if not widen_ok:
            # new candidate facts are admitted again whenever the shape of the
            # equalities changes (which can happen only finitely often)
            used_ = set()
            r1_ = {}
            for s_, e1, e2 in fr_defs:
                if not (len(e1.t) == 1 and e1.t[0][1] == 1 and e1.c == 0) or e1.t[0][0] in used_ or e1.t[0][0] in live:
                    widen_ok = True
                    break
                used_.add(e1.t[0][0])
                r1_[e1.t[0][0]] = LE(0, ((s_, 1),))
            if not widen_ok:
                for s_, r_ in gn.eqs.items():
                    e = LE(0, ((s_, 1),)) - r_
                    if all(z in glive for z, _ in e.t) and not jn.prove_eq(e.subst(r1_)):
                        widen_ok = True
                        break
        pg = self.project(gn, glive)
        gcons = list(pg)
        stable = True
        must = []
        for e in gcons:
            tr = translate(e, ren1, True)
            for t_ in tr:
                cand(t_)
            must.append((e, tr))
        if widen_ok:
            pn = gcons if same else self.project(nn, set(live) | set(ren2))
            for e in pn:
                for t_ in translate(e, ren2, False):
                    cand(t_)
            fs = [LE(0, ((s, 1),)) for s in fmap1] + [v for v in memo.values() if len(v.t) == 1 and v.t[0][1] != 1]
            fs = [f for f in {jn.nf(f) for f in fs} if f.t]
            ps = [p for p in {jn.nf(p) for p in partners}]
            for f in fs:
                l1, h1 = gn.bounds(toG(f))
                l2, h2 = nn.bounds(toN(f))
                if l1 is not None and l2 is not None:
                    cand(f - min(l1, l2))
                if h1 is not None and h2 is not None:
                    cand(LE(max(h1, h2)) - f)
                cand(f)
                for p in ps:
                    if p == f:
                        continue
                    for d in (p - f, f - p):
                        d = jn.nf(d)
                        if not d.t:
                            continue
                        if self._holds(gn, toG(d)) and self._holds(nn, toN(d)):
                            cand(d)
                            if self._holds(gn, toG(d - 1)) and self._holds(nn, toN(d - 1)):
                                cand(d - 1)
                        elif self._holds(gn, toG(d + 1)) and self._holds(nn, toN(d + 1)):
                            cand(d + 1)
        for e in cands:
            if self._holds(gn, toG(e)) and self._holds(nn, toN(e)):
                jn.add_ge(e)
        # disequalities
        for num_, ren, plain in ((gn, ren1, True), (nn, ren2, False)):
            for d in num_.nes:
                for t_ in translate(d, ren, plain):
                    if gn.prove_ne(toG(t_)) and nn.prove_ne(toN(t_)):
                        jn.add_ne(t_)
        if same:
            return J, True
        # ---- stable?  J must be a renaming of G with no constraint lost
        why = self._unstable(G, gb, J, gn, jn, live, glive, fr_defs, arrmemo, gcons)
        if why and self.o.get('dbg'):
            print('UNSTABLE', why, [(SYM[s].name, e1, e2) for s, e1, e2 in fr_defs][:8])
        return J, not why

    def _unstable(self, G, gb, J, gn, jn, live, glive, fr_defs, arrmemo, gcons):
        used = set()
        for s, e1, e2 in fr_defs:
            if not (len(e1.t) == 1 and e1.t[0][1] == 1 and e1.c == 0):
                return 'not a renaming: %r' % e1
            x = e1.t[0][0]
            if x in used or x in live:
                return 'symbol %s is split' % SYM[x].name
            used.add(x)
        ua = set()
        for (A, B), k in arrmemo.items():
            if A in ua:
                return 'array %d is split' % A
            ua.add(A)
        surv = {d[1] for b in J.mem.values() for _, _, d in b.segs if d[0] == 'arr'}
        if ua & surv:
            return 'array generalised but survives'
        r1 = {e1.t[0][0]: LE(0, ((s, 1),)) for s, e1, e2 in fr_defs}
        for e in gcons:
            if not jn.prove_ge(e.subst(r1)):
                return 'lost %r >= 0' % e
        for s, r in gn.eqs.items():
            e = LE(0, ((s, 1),)) - r
            if all(z in glive for z, _ in e.t):
                if not jn.prove_eq(e.subst(r1)):
                    return 'lost %r == 0' % e
        for d in gn.nes:
            if all(z in glive for z, _ in d.t) and not jn.prove_ne(d.subst(r1)):
                return 'lost %r != 0' % d
        for x in gb:
            b1, bj = G.mem[x], J.mem[x]
            if b1.status == 'live' and not b1.ro:
                if len(b1.segs) != len(bj.segs) or any(s1[2][0] != s2[2][0] for s1, s2 in zip(b1.segs, bj.segs)):
                    return 'contents given up'
        return None

    def _subx(self, o):
        if isinstance(o, LE):
            return o
        _, e, s, op = o
        return e.subst({s: op})

    def _holds(self, num, e):
        return num.prove_ge(e)

    def project(self, num, keep):
        """inequalities implied over `keep` (dead symbols eliminated when cheap)"""
        rows = set(num.ges)
        dead = set()
        for e in rows:
            for s, _ in e.t:
                if s not in keep:
                    dead.add(s)
        for s in dead:
            lo, hi = num.symb(s)
            if lo is not None:
                rows.add(LE(-lo, ((s, 1),)))
            if hi is not None:
                rows.add(LE(hi, ((s, -1),)))
        for s in sorted(dead, key=lambda z: sum(1 for e in rows if any(y == z for y, _ in e.t))):
            P, Q, R = [], [], []
            for e in rows:
                k = dict(e.t).get(s, 0)
                (P if k > 0 else Q if k < 0 else R).append(e)
            if len(P) * len(Q) <= 40:
                for p in P:
                    kp = dict(p.t)[s]
                    for q in Q:
                        kq = -dict(q.t)[s]
                        e = num._norm(p * kq + q * kp)
                        if e.t:
                            lo, _ = num.bounds(e)
                            if lo is None or lo < 0:
                                R.append(e)
            rows = set(R)
        out = list(rows)
        for s in keep:
            b = num.bnd.get(s)
            if b:
                y = SYM[s]
                if b[0] is not None and b[0] != y.lo:
                    out.append(LE(-b[0], ((s, 1),)))
                if b[1] is not None and b[1] != y.hi:
                    out.append(LE(b[1], ((s, -1),)))
        # symbols in solved form keep their meaning through equalities
        return out

    def join_cells(self, G, b1, N, b2, jval, jarr):
        """cellular blocks: boundaries are constants"""
        pts = set()
        for b in (b1, b2):
            for lo, hi, d in b.segs:
                pts.add(lo.c)
                pts.add(hi.c)
        pts = sorted(pts)
        out = []

        def at(b, x):
            for lo, hi, d in b.segs:
                if lo.c <= x < hi.c:
                    return lo, hi, d
            return None
        for a, z in zip(pts, pts[1:]):
            s1, s2 = at(b1, a), at(b2, a)
            if s1 is None or s2 is None:
                continue
            d1, d2 = s1[2], s2[2]
            if d1[0] == 'fill' and d2[0] == 'fill' and s1[0] == s2[0] and s1[1] == s2[1] and d1[2] == d2[2] and \
                    (isinstance(d1[1], Ptr) == isinstance(d2[1], Ptr)):
                d = ('fill', jval(d1[1], d2[1]), d1[2])
            elif d1[0] == 'arr' and d2[0] == 'arr':
                A = jarr(d1[1], d2[1])
                d = ('arr', A, LE(a) if A != d1[1] else d1[2] + (LE(a) - s1[0]))
            elif d1[0] == 'fill' and d2[0] == 'fill' and d1[2] == d2[2] and d1[1] == d2[1]:
                d = d1
            else:
                d = ('arr', self.new_array('any', uninit=True), ZERO)
            if out and out[-1][2][0] == 'arr' and d[0] == 'arr' and out[-1][2][1] == d[1]:
                out[-1] = (out[-1][0], LE(z), out[-1][2])
            else:
                out.append((LE(a), LE(z), d))
        return tuple(out)


def shape(vs, l):
    n = len(vs)
    b = vs[1] - vs[0]
    if all(vs[x] == vs[0] + b * x for x in range(n)):
        return ('lin', vs[0] - b * l, b)
    for d in (10, 100, 1000, 2, 3, 4, 5, 7, 8, 12, 16, 24, 32, 60, 64):
        k = vs[0] - l // d
        if all(vs[x] == k + (l + x) // d for x in range(n)):
            return ('div', k, d)
        k = vs[0] - l % d
        if all(vs[x] == k + (l + x) % d for x in range(n)):
            return ('mod', k, d)
    return ('none',)


class _Offs:
    """bisect view on a flattened initialiser"""

    def __init__(self, tab):
        self.t = tab

    def __len__(self):
        return len(self.t)

    def __getitem__(self, i):
        return self.t[i][0]
