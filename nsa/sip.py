"""siphash against SipHash-2-4, for unknown key and message.

The compiled function is executed once per message length.  A value is a list of
bits, a bit an exclusive or of atoms: input bits, bits of a sum (hash-consed on
the multiset of its summands) or of a product of two bits.  Shifts, rotations,
byte (dis)assembly and xor are exact in this form, so two computations of the
same hash end in identical forms; a reference is built in the same forms.  A
difference is reported only if the two forms take different values for some
assignment of the input bits; otherwise it counts as not settled."""
import os, random
from . import driver, ir


class Top(Exception):
    pass


class Bad(Exception):
    pass


class Alg:
    """bits as xor-sets: bit 0 of the mask is the constant one, bit a is atom a"""

    def __init__(self):
        self.defs = [None]
        self.memo = {}
        self.sums = {}

    def atom(self, d):
        self.defs.append(d)
        return 1 << (len(self.defs) - 1)

    def inp(self, obj, n):
        return [[self.atom(('in', obj, i, b)) for b in range(8)] for i in range(n)]

    def const(self, v, w):
        return [v >> i & 1 for i in range(w)]

    def known(self, v):
        r = 0
        for i, b in enumerate(v):
            if b > 1:
                return None
            r |= b << i
        return r

    def add(self, x, y):
        w = len(x)
        if all(not p or not q for p, q in zip(x, y)):
            return [p or q for p, q in zip(x, y)]     # nothing to carry
        ts, c = [], 0
        for v in (x, y):
            s = self.sums.get(tuple(v))
            k = self.known(v)
            if s is not None:
                ts += s[0]
                c += s[1]
            elif k is not None:
                c += k
            else:
                ts.append(tuple(v))
        c %= 1 << w
        if not ts:
            return self.const(c, w)
        if len(ts) == 1 and c == 0:
            return list(ts[0])
        key = ('add', tuple(sorted(ts)), c, w)
        r = self.memo.get(key)
        if r is None:
            r = [self.atom((key, i)) for i in range(w)]
            self.memo[key] = r
            self.sums[tuple(r)] = (list(key[1]), c)
        return list(r)

    def band(self, p, q):
        if p == 0 or q == 0:
            return 0
        if p == 1 or p == q:
            return q
        if q == 1:
            return p
        if p ^ q == 1:
            return 0
        key = ('and', min(p, q), max(p, q))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.atom((key, 0))
        return r

    def bor(self, p, q):
        return self.band(p, q) ^ p ^ q

    def value(self, forms, rng):
        """the forms under one assignment of the input bits"""
        val = {}
        sums = {}

        def bit(m):
            r = m & 1
            m >>= 1
            a = 1
            while m:
                t = (m & -m).bit_length() - 1
                r ^= val[a + t]
                m &= m - 1
            return r
        for a in range(1, len(self.defs)):
            d = self.defs[a]
            if d[0] == 'in':
                val[a] = rng.getrandbits(1)
            elif d[0][0] == 'and':
                val[a] = bit(d[0][1]) & bit(d[0][2])
            else:
                s = sums.get(d[0])
                if s is None:
                    s = d[0][2]
                    for t in d[0][1]:
                        s += sum(bit(m) << i for i, m in enumerate(t))
                    sums[d[0]] = s
                val[a] = s >> d[1] & 1
        return [bit(m) for m in forms]


class Run:
    def __init__(self, mod, alg):
        self.m, self.g = mod, alg
        self.mem = {}
        self.steps = 0
        self.funcs = set()
        self.nobj = 0

    def cell(self, p, n, what):
        o = self.mem.get(p[1])
        if o is None:
            raise Top('object ' + str(p[1]))
        if p[2] < 0 or p[2] + n > len(o):
            raise Bad('%s %d byte(s) at offset %d of %s, which has %d' % (what, n, p[2], p[1], len(o)))
        return o

    def glob(self, name):
        raise Top('global ' + name)

    def call(self, fn, args):
        f = self.m.funcs.get(fn)
        if f is None or not f.blocks:
            if fn == '__assert_fail' or fn == 'abort':
                raise Bad('an assertion fails')
            raise Top('calls ' + fn)
        self.funcs.add(fn)
        g = self.g
        env = dict(zip([p[1] for p in f.params], args))

        def val(a):
            ty, v = a[0], a[1]
            if v[0] == 'l':
                r = env[v[1]]
                if r is None:
                    raise Top('undefined value')
                return r
            if v[0] == 'c' and ty[0] == 'i':
                return g.const(v[1] & ((1 << ty[1]) - 1), ty[1])
            if v[0] in ('null',):
                return ('P', None, 0)
            raise Top('operand %s' % (v,))

        def num(a):
            k = g.known(val(a))
            if k is None:
                raise Top('unknown number')
            return k

        def signed(a):
            k, w = num(a), a[0][1]
            return k - (1 << w) if k >> (w - 1) else k
        blk, prev = next(iter(f.blocks)), None
        while True:
            pend = {}
            for q in f.blocks[blk].phis:
                v = [t for t in q.x if t[1] == prev][0][0]
                pend[q.dest] = None if v[0] in ('undef', 'poison') else val((q.ty, v))
            env.update(pend)
            for ins in f.blocks[blk].instrs:
                self.steps += 1
                if self.steps > 200000:
                    raise Top('does not end')
                op, a = ins.op, ins.args
                if op == 'alloca':
                    self.nobj += 1
                    o = 'local%d' % self.nobj
                    n = self.m.size(ins.x) * (num(a[0]) if a else 1)
                    self.mem[o] = [None] * n
                    env[ins.dest] = ('P', o, 0)
                elif op == 'load':
                    p, n = val(a[0]), self.m.size(ins.ty)
                    if ins.ty[0] == 'ptr':
                        o = self.cell(p, 8, 'reads')
                        if not isinstance(o[p[2]], tuple):
                            raise Top('pointer from memory')
                        env[ins.dest] = o[p[2]]
                        continue
                    o = self.cell(p, n, 'reads')[p[2]:p[2] + n]
                    if any(not isinstance(b, list) for b in o):
                        raise Bad('reads bytes of %s that were never set' % p[1])
                    env[ins.dest] = [b for y in o for b in y][:ins.ty[1]]
                elif op == 'store':
                    v, p = val(a[0]), val(a[1])
                    if isinstance(v, tuple):
                        o = self.cell(p, 8, 'writes')
                        o[p[2]] = v
                        continue
                    n = (len(v) + 7) // 8
                    o = self.cell(p, n, 'writes')
                    if p[1] in ('in', 'k'):
                        raise Bad('writes to its input')
                    v = v + [0] * (8 * n - len(v))
                    for i in range(n):
                        o[p[2] + i] = v[8 * i:8 * i + 8]
                elif op == 'gep':
                    p = val(a[0])
                    t, off = ins.x, p[2]
                    for n, ia in enumerate(a[1:]):
                        k = signed(ia)
                        if n == 0:
                            off += k * self.m.size(t)
                        else:
                            t = self.m.resolve(t)
                            if t[0] == 'st':
                                off += self.m.offsets(t)[k]
                                t = t[1][k]
                            else:
                                t = t[2]
                                off += k * self.m.size(t)
                    env[ins.dest] = ('P', p[1], off)
                elif op in ('xor', 'and', 'or'):
                    x, y = val(a[0]), val(a[1])
                    fn2 = (lambda p, q: p ^ q) if op == 'xor' else g.band if op == 'and' else g.bor
                    env[ins.dest] = [fn2(p, q) for p, q in zip(x, y)]
                elif op in ('shl', 'lshr', 'ashr'):
                    x, k = val(a[0]), num(a[1])
                    if k >= len(x):
                        raise Bad('shifts by %d' % k)
                    env[ins.dest] = [0] * k + x[:len(x) - k] if op == 'shl' else x[k:] + [x[-1] if op == 'ashr' else 0] * k
                elif op in ('zext', 'trunc', 'sext'):
                    x, w = val(a[0]), ins.ty[1]
                    env[ins.dest] = x[:w] if op == 'trunc' else x + [x[-1] if op == 'sext' else 0] * (w - len(x))
                elif op == 'add':
                    env[ins.dest] = g.add(val(a[0]), val(a[1]))
                elif op in ('sub', 'mul', 'urem', 'udiv', 'srem', 'sdiv'):
                    w = ins.ty[1]
                    if op == 'sub' and isinstance(val(a[0]), list) and g.known(val(a[1])) is not None:
                        env[ins.dest] = g.add(val(a[0]), g.const(-num(a[1]) & ((1 << w) - 1), w))
                        continue
                    x, y = (signed if op[0] == 's' and op != 'sub' else num)(a[0]), (signed if op[0] == 's' and op != 'sub' else num)(a[1])
                    if op in ('urem', 'udiv', 'srem', 'sdiv') and y == 0:
                        raise Bad('division by zero')
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) if 'div' in op or 'rem' in op else 0
                    r = {'sub': x - y, 'mul': x * y, 'udiv': q, 'sdiv': q, 'urem': x - q * y, 'srem': x - q * y}[op]
                    env[ins.dest] = g.const(r & ((1 << w) - 1), w)
                elif op == 'icmp':
                    x, y = val(a[0]), val(a[1])
                    pr = ins.x
                    if isinstance(x, tuple) and isinstance(y, tuple):
                        if x[1] != y[1]:
                            if pr not in ('eq', 'ne'):
                                raise Top('order of unrelated pointers')
                            t = pr == 'ne'
                        else:
                            t = {'eq': x[2] == y[2], 'ne': x[2] != y[2], 'lt': x[2] < y[2], 'le': x[2] <= y[2], 'gt': x[2] > y[2], 'ge': x[2] >= y[2]}[pr[-2:]]
                    else:
                        x, y = (signed if pr[0] == 's' else num)(a[0]), (signed if pr[0] == 's' else num)(a[1])
                        t = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr[-2:]]
                    env[ins.dest] = [int(t)]
                elif op == 'ptrtoint':
                    raise Top('pointer arithmetic on integers')
                elif op == 'select':
                    env[ins.dest] = val(a[1] if num(a[0]) else a[2])
                elif op == 'freeze':
                    env[ins.dest] = val(a[0])
                elif op == 'br':
                    prev, blk = blk, (ins.x[0] if num(a[0]) else ins.x[1]) if a else ins.x
                    break
                elif op == 'switch':
                    k = num(a[0])
                    t = [l for c, l in ins.x[1] if (c[1] if isinstance(c, tuple) else c) & ((1 << a[0][0][1]) - 1) == k]
                    prev, blk = blk, t[0] if t else ins.x[0]
                    break
                elif op in ('call', 'invoke'):
                    c = ins.x['callee']
                    if c[0] != 'g':
                        raise Top('indirect call')
                    nm = c[1]
                    if nm.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental')):
                        continue
                    if nm.startswith(('llvm.memcpy', 'llvm.memmove')) or nm in ('memcpy', 'memmove'):
                        d, s, n = val(a[0]), val(a[1]), num(a[2])
                        if n:
                            src = list(self.cell(s, n, 'reads')[s[2]:s[2] + n])
                            o = self.cell(d, n, 'writes')
                            o[d[2]:d[2] + n] = src
                        if ins.dest is not None:
                            env[ins.dest] = d
                        continue
                    if nm.startswith('llvm.memset'):
                        d, v, n = val(a[0]), val(a[1]), num(a[2])
                        if n:
                            o = self.cell(d, n, 'writes')
                            o[d[2]:d[2] + n] = [list(v) for _ in range(n)]
                        continue
                    if nm.startswith('llvm.fshl'):
                        x, y, k = val(a[0]), val(a[1]), num(a[2]) % len(val(a[0]))
                        env[ins.dest] = (y + x)[len(x) - k:2 * len(x) - k]
                        continue
                    r = self.call(nm, [val(t) for t in a])
                    if ins.dest is not None:
                        env[ins.dest] = r
                elif op == 'ret':
                    return val(a[0]) if a else None
                else:
                    raise Top(op)
            else:
                raise Top('block without end')


def reference(g, msg, key, outlen):
    """SipHash-2-4 (Aumasson and Bernstein), 64 or 128 bits"""
    def word(bs):
        return [b for y in bs for b in y]

    def xor(x, y):
        return [p ^ q for p, q in zip(x, y)]

    def rotl(x, k):
        return x[64 - k:] + x[:64 - k]

    def c(v):
        return g.const(v, 64)
    k0, k1 = word(key[:8]), word(key[8:])
    v = [xor(c(0x736f6d6570736575), k0), xor(c(0x646f72616e646f6d), k1), xor(c(0x6c7967656e657261), k0), xor(c(0x7465646279746573), k1)]
    if outlen == 16:
        v[1] = xor(v[1], c(0xee))

    def rounds(n):
        for _ in range(n):
            v[0] = g.add(v[0], v[1]); v[1] = xor(rotl(v[1], 13), v[0]); v[0] = rotl(v[0], 32)
            v[2] = g.add(v[2], v[3]); v[3] = xor(rotl(v[3], 16), v[2])
            v[0] = g.add(v[0], v[3]); v[3] = xor(rotl(v[3], 21), v[0])
            v[2] = g.add(v[2], v[1]); v[1] = xor(rotl(v[1], 17), v[2]); v[2] = rotl(v[2], 32)
    n = len(msg)
    blocks = [word(msg[i:i + 8]) for i in range(0, n - n % 8, 8)]
    tail = word(msg[n - n % 8:])
    blocks.append(tail + [0] * (56 - len(tail)) + g.const(n & 0xff, 8))
    for m in blocks:
        v[3] = xor(v[3], m)
        rounds(2)
        v[0] = xor(v[0], m)
    v[2] = xor(v[2], c(0xee if outlen == 16 else 0xff))
    rounds(4)
    out = xor(xor(v[0], v[1]), xor(v[2], v[3]))
    if outlen == 16:
        v[1] = xor(v[1], c(0xdd))
        rounds(4)
        out = out + xor(xor(v[0], v[1]), xor(v[2], v[3]))
    return out


def one(mod, n, outlen):
    g = Alg()
    R = Run(mod, g)
    msg, key = g.inp('in', n), g.inp('k', 16)
    R.mem = {'in': msg, 'k': key, 'out': [None] * outlen}
    R.call('g_sip', [('P', 'in', 0), g.const(n, 64), ('P', 'k', 0), ('P', 'out', 0), g.const(outlen, 64)])
    out = R.mem['out']
    if any(b is None for b in out):
        raise Bad('leaves byte %d of the result unset' % out.index(None))
    got = [b for y in out for b in y]
    want = reference(g, msg, key, outlen)
    if got != want:
        rng = random.Random(1)
        for _ in range(16):
            v = g.value(got + want, rng)
            if v[:len(got)] != v[len(got):]:
                raise Bad('the result is not SipHash-2-4 of the message')
        raise Top('the forms differ, no assignment found that tells them apart')
    return R.funcs


def part(tier, only):
    out = []
    mod = err = None
    src = 'witness/sip.cc'
    for outlen in (8, 16):
        d = 'siphash-%d' % (8 * outlen)
        if only and d not in only:
            continue
        lens = list(range(0, 41)) + [64, 255, 256, 257] if tier == 'quick' else list(range(0, 300))
        v = dict(driver=d, src=src, mode='small', rule='for every message length the result bits are, as forms over key and message bits, those of SipHash-2-4', n_obligations=len(lens), n_discharged=0,
                 where=['src/hash.cc siphash'], kind='', detail='', res=None)
        bad, top, ok = [], [], 0
        try:
            if mod is None:
                mod = ir.load(driver.compile_ir(os.path.join(driver.VERIF, src), ['-I' + driver.REPO + '/src']))
            for n in lens:
                try:
                    one(mod, n, outlen)
                    ok += 1
                except Bad as e:
                    bad.append('message of %d bytes: %s' % (n, e))
                    break
                except (Top, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                    top.append('message of %d bytes: %s %s' % (n, type(e).__name__, e))
                    if len(top) > 3:
                        break
        except driver.CompileError as e:
            if driver.renamed(str(e), '__hashfunc.h'):
                top.append('no siphash to start from')
            else:
                v.update(outcome='violation', kind='does-not-compile', detail=str(e)[:300])
                out.append(v)
                continue
        v['n_discharged'] = ok
        if bad:
            v.update(outcome='violation', kind='hash', detail=bad[0])
        elif top:
            v.update(outcome='bounded', detail='not settled: ' + '; '.join(top[:3]))
        else:
            v.update(outcome='bounded', detail='%d message lengths' % len(lens))
        out.append(v)
    return out
