"""Accuracy of the math functions, decided from their IR.

Abstract interpretation over a partition of the argument range.  On a piece
[lo, hi] of the floats every floating value is over-approximated by a Taylor
model: a polynomial in t (x = c + h t, |t| <= 1) with the operations' real
results plus a remainder that bounds truncation and every rounding made so far.
Integers derived from bit patterns are tracked as the pattern of such a value
or as a Taylor model of the (exact) integer.  The reference function is
evaluated as a Taylor model too, so the difference keeps the correlation and
its range bounds the error for every float of the piece.  A branch that is not
decided on a piece is followed both ways; a piece that cannot be settled is
halved, down to single floats, where everything is exact."""
import math, struct
from . import ir

D = 6
U32 = 2.0 ** -24
EPS = 2.0 ** -50


class Split(Exception):
    pass


class Unsupported(Exception):
    pass


def f32(v):
    try:
        return struct.unpack('<f', struct.pack('<f', v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def bits32(v):
    return struct.unpack('<I', struct.pack('<f', v))[0]


def of_bits32(b):
    return struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]


def ordi(v):
    b = bits32(v)
    return b if b < 0x80000000 else -(b & 0x7fffffff)


def of_ord(o):
    return of_bits32(o) if o >= 0 else -of_bits32(-o)


# --- Taylor models -------------------------------------------------------
class T:
    """c[0..D] in t, |t|<=1, value within r of the polynomial"""
    __slots__ = ('c', 'r', '_h')

    def __init__(self, c, r=0.0):
        self.c, self.r, self._h = c, r, None

    def const(self):
        return self.r == 0 and not any(self.c[1:])

    def mag(self):
        return sum(map(abs, self.c)) + self.r

    def dev(self):
        return sum(map(abs, self.c[1:])) + self.r

    def hull(self):
        if self._h is None:
            d = self.dev()
            if d == 0:
                self._h = (self.c[0], self.c[0])
            else:
                m = EPS * (abs(self.c[0]) + d)
                # the first-order term dominates: even powers are one-sided
                up = dn = abs(self.c[1])
                for k in range(2, len(self.c)):
                    a = self.c[k]
                    if k % 2:
                        up += abs(a); dn += abs(a)
                    elif a > 0:
                        up += a
                    else:
                        dn -= a
                self._h = (self.c[0] - dn - self.r - m, self.c[0] + up + self.r + m)
        return self._h

    def __repr__(self):
        return 'T(%s +- %.3g)' % (', '.join('%.6g' % a for a in self.c), self.r)


def K(v):
    return T([v] + [0.0] * D)


def add(a, b, s=1.0):
    c = [x + s * y for x, y in zip(a.c, b.c)]
    if a.const() and b.const():
        return T(c)
    return T(c, a.r + b.r + EPS * 2 ** -2 * sum(map(abs, c)))


def sub(a, b):
    return add(a, b, -1.0)


def scale(a, k):
    """k a power of two, or any constant (slop added)"""
    m, _ = math.frexp(k)
    c = [x * k for x in a.c]
    return T(c, a.r * abs(k) + (0.0 if abs(m) == 0.5 or k == 0 else EPS * sum(map(abs, c))))


def mul(a, b):
    if b.const():
        return scale(a, b.c[0])
    if a.const():
        return scale(b, a.c[0])
    A, B = a.c, b.c
    c = [0.0] * (D + 1)
    tail = 0.0
    for i, x in enumerate(A):
        if x:
            for j, y in enumerate(B):
                if i + j <= D:
                    c[i + j] += x * y
                elif y:
                    tail += abs(x * y)
    sa, sb = sum(map(abs, A)), sum(map(abs, B))
    return T(c, (tail + sa * b.r + sb * a.r + a.r * b.r) * (1 + 1e-12) + EPS * sa * sb)


def series(a, u, co, rem):
    """sum co[k] u^k + [-rem, rem]"""
    r = K(co[-1])
    for k in reversed(co[:-1]):
        r = add(mul(r, u), K(k))
    return T(r.c, r.r + rem + EPS * sum(abs(k) for k in co) * 4)


def recip(a):
    lo, hi = a.hull()
    if lo <= 0 <= hi:
        raise Split
    c0 = a.c[0]
    u = scale(T([0.0] + a.c[1:], a.r), 1 / c0)
    U = u.mag()
    if U >= 0.9:
        raise Split
    r = series(a, u, [(-1.0) ** k for k in range(D + 1)], U ** (D + 1) / (1 - U))
    return scale(r, 1 / c0)


def div(a, b):
    return mul(a, recip(b))


def texp(a):
    c0 = a.c[0]
    u = T([0.0] + a.c[1:], a.r)
    U = u.mag()
    if U > 1:
        raise Split
    r = series(a, u, [1 / math.factorial(k) for k in range(D + 1)], U ** (D + 1) / math.factorial(D + 1) * math.exp(U))
    e = math.exp(c0)
    r = scale(r, e)
    return T(r.c, r.r + 1e-15 * (1 + abs(c0)) * r.mag())


def tlog(a):
    lo, hi = a.hull()
    c0 = a.c[0]
    if lo <= 0:
        raise Split
    u = scale(T([0.0] + a.c[1:], a.r), 1 / c0)
    U = u.mag()
    if U >= 0.9:
        raise Split
    r = series(a, u, [0.0] + [(-1.0) ** (k + 1) / k for k in range(1, D + 1)], U ** (D + 1) / (D + 1) / (1 - U))
    l = math.log(c0)
    return T([r.c[0] + l] + r.c[1:], r.r + 4e-16 * (1 + abs(l)))


def tsincos(a):
    c0 = a.c[0]
    u = T([0.0] + a.c[1:], a.r)
    U = u.mag()
    if U > 1.5:
        raise Split
    rem = U ** (D + 1) / math.factorial(D + 1)
    su = series(a, u, [0.0 if k % 2 == 0 else (-1.0) ** (k // 2) / math.factorial(k) for k in range(D + 1)], rem)
    cu = series(a, u, [0.0 if k % 2 else (-1.0) ** (k // 2) / math.factorial(k) for k in range(D + 1)], rem)
    s, c = math.sin(c0), math.cos(c0)
    slop = 4e-16
    S, C = add(scale(cu, s), scale(su, c)), sub(scale(cu, c), scale(su, s))
    return T(S.c, S.r + slop), T(C.c, C.r + slop)


def around(lo, hi):
    return T([(lo + hi) / 2] + [0.0] * D, (hi - lo) / 2 * (1 + 1e-12) + 1e-300)


def ttanh(a):
    lo, hi = a.hull()
    if lo >= 20:
        return around(1 - 1e-16, 1.0)
    if hi <= -20:
        return around(-1.0, -1 + 1e-16)
    if lo < 0 < hi:
        e = texp(scale(a, 2.0))
        return div(sub(e, K(1.0)), add(e, K(1.0)))
    e = texp(scale(tabs(a), -2.0))
    t = div(sub(K(1.0), e), add(K(1.0), e))
    return t if lo >= 0 else neg(t)


def terf(a):
    lo, hi = a.hull()
    if lo >= 6:
        return around(1 - 1e-16, 1.0)
    if hi <= -6:
        return around(-1.0, -1 + 1e-16)
    p = T(a.c, 0.0)
    g = scale(texp(scale(mul(p, p), -1.0)), 2 / math.sqrt(math.pi))
    d = T([k * p.c[k] for k in range(1, D + 1)] + [0.0])
    g = mul(g, d)
    c = [math.erf(p.c[0])] + [g.c[k] / (k + 1) for k in range(D)]
    return T(c, g.r + abs(g.c[D]) / (D + 1) + 1e-15 + 1.1283792 * a.r)


def neg(a):
    r = T([-k for k in a.c], a.r)
    if a._h is not None:
        r._h = (-a._h[1], -a._h[0])
    return r


def tabs(a):
    lo, hi = a.hull()
    if lo >= 0:
        return a
    if hi <= 0:
        return neg(a)
    m = max(-lo, hi)
    r = T([m / 2] + [0.0] * D, m / 2)
    r._h = (0.0, m)
    return r


# --- floating operations ---------------------------------------------------
def ulp_half(m, w):
    p, emin = (24, -149) if w == 32 else (53, -1074)
    if m == 0:
        return 0.0
    e = math.frexp(m)[1] - 1
    return 0.5 * 2.0 ** max(e - p + 1, emin)


MAXF = {32: 3.4028234e38, 64: 1.7e308}


def rnd(a, w, iv=None):
    """a real result rounded to a float of width w"""
    if a.const():
        return K(f32(a.c[0]) if w == 32 else a.c[0])
    lo, hi = a.hull()
    m = max(abs(lo), abs(hi))
    if m > MAXF[w]:
        if w == 32 and min(abs(lo), abs(hi)) > 3.40282357e38 and lo * hi > 0:
            return K(math.copysign(math.inf, lo))
        raise Split
    r = T(a.c, a.r + ulp_half(m, w))
    if iv is not None:
        # the endpoint arithmetic is monotone, rounding included
        lo, hi = r.hull()
        lo, hi = max(lo, iv[0]), min(hi, iv[1])
        if lo == hi:
            return K(lo)
        if lo < hi:
            r._h = (lo, hi)
    return r


def ival(op, a, b):
    (al, ah), (bl, bh) = a.hull(), b.hull()
    if op == 'fadd':
        lo, hi = al + bl, ah + bh
    elif op == 'fsub':
        lo, hi = al - bh, ah - bl
    else:
        if op == 'fdiv':
            if bl <= 0 <= bh:
                return None
            p = [al / bl, al / bh, ah / bl, ah / bh]
        elif a is b:
            p = [al * al, ah * ah] + ([0.0] if al <= 0 <= ah else [])
        else:
            p = [al * bl, al * bh, ah * bl, ah * bh]
        lo, hi = min(p), max(p)
    return f32(lo), f32(hi)


def fop(op, a, b, w):
    if a.const() and b.const():
        x, y = a.c[0], b.c[0]
        if w == 64 or not (math.isfinite(x) and math.isfinite(y)):
            if op == 'fdiv' and y == 0:
                v = math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
            else:
                v = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y
            return K(f32(v) if w == 32 else v)
        if op == 'fdiv':
            if y == 0:
                return K(math.nan if x == 0 else math.copysign(math.inf, x) * math.copysign(1, y))
            return K(f32(x / y))
        return K(f32(x + y if op == 'fadd' else x - y if op == 'fsub' else x * y))
    for z, o in ((a, b), (b, a)):
        if z.const() and not math.isfinite(z.c[0]):
            # infinity against a finite range; NaN
            k, (lo, hi) = z.c[0], o.hull()
            if k != k:
                return K(k)
            if op == 'fadd' or op == 'fsub':
                return K(k if op == 'fadd' or z is a else -k)
            if lo <= 0 <= hi:
                raise Split
            s = math.copysign(1.0, lo)
            return K(k * s if op == 'fmul' or z is a else math.copysign(0.0, k) * s)
    iv = ival(op, a, b) if w == 32 else None
    if op == 'fadd':
        return rnd(add(a, b), w, iv)
    if op == 'fsub':
        return rnd(sub(a, b), w, iv)
    if op == 'fmul':
        if b.const() and math.frexp(abs(b.c[0]))[0] == 0.5 and b.c[0] != 0:
            r = scale(a, b.c[0])
            lo, hi = r.hull()
            if max(abs(lo), abs(hi)) < MAXF[w] and (min(abs(lo), abs(hi)) > 2.0 ** -125 and lo * hi > 0):
                return r  # exact
            return rnd(r, w, iv)
        return rnd(mul(a, b), w, iv)
    if op == 'fdiv':
        return rnd(div(a, b), w, iv)
    raise Unsupported(op)


# --- integers: ('c', n) constant, ('b', T, off) pattern of a float plus a
# multiple of 2^23, ('t', T) an exact integer-valued model (non-negative) -----
def binade(lo, hi, c):
    if lo <= 0:
        raise Split
    k = math.frexp(c)[1] - 1
    if k < -126:
        raise Split
    return k


def b2t(v):
    _, a, off = v
    lo, hi = a.hull()
    if hi < 0:
        t = b2t(('b', scale(a, -1.0), off))[1]
        return ('t', add(t, K(2.0 ** 31)))
    k = binade(lo, hi, a.c[0] if a.c[0] > 0 else hi)
    s = 2.0 ** (23 - k)
    r = add(scale(a, s), K((k + 126) * 2.0 ** 23 + off))
    ex = max(0.0, hi - 2.0 ** (k + 1)) * s + max(0.0, 2.0 ** k - lo) * s
    if ex > 2.0 ** 22:
        raise Split
    return ('t', T(r.c, r.r + ex))


def t2f(v):
    """the float whose pattern is the integer"""
    a = v[1]
    lo, hi = a.hull()
    if lo < 2.0 ** 23 or hi >= 255 * 2.0 ** 23:
        raise Split
    k = int(a.c[0] // 2 ** 23) - 127
    s = 2.0 ** (k - 23)
    r = add(scale(sub(a, K((k + 127) * 2.0 ** 23)), s), K(2.0 ** k))
    ex = max(0.0, hi - (k + 128) * 2.0 ** 23) * s + max(0.0, (k + 127) * 2.0 ** 23 - lo) * s
    if ex > 2.0 ** (k - 1):
        raise Split
    return T(r.c, r.r + ex)


def b2f(v):
    _, a, off = v
    if off == 0:
        return a
    lo, hi = a.hull()
    k = off >> 23
    if min(abs(lo), abs(hi)) < 2.0 ** -126 or lo * hi <= 0:
        raise Split
    m, M = min(abs(lo), abs(hi)), max(abs(lo), abs(hi))
    if m * 2.0 ** k < 2.0 ** -126 or M * 2.0 ** k > MAXF[32]:
        raise Split
    return scale(a, 2.0 ** k)


class Undecided(Exception):
    pass


class Interp:
    def __init__(self, mod, decisions):
        self.m = mod
        self.dec = decisions
        self.pos = 0
        self.nal = 0
        self.mem = {}
        self.steps = 0
        self.funcs = set()

    def fork(self, options):
        """one of the possible outcomes, as the decision list says"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        if len(options) > 3 or len(self.dec) > 10:
            raise Split
        if self.pos < len(self.dec):
            n, k = self.dec[self.pos]
        else:
            n, k = len(options), 0
            self.dec.append((n, 0))
        self.pos += 1
        return options[k]

    # operands
    def val(self, env, ty, v):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        ty = self.m.resolve(ty)
        if k == 'c':
            return ('c', v[1] & ((1 << ty[1]) - 1))
        if k == 'f':
            return K(of_bits32(v[1]) if ty[1] == 32 else struct.unpack('<d', struct.pack('<Q', v[1]))[0])
        if k == 'null':
            return ('p', None, 0)
        if k == 'zero':
            return K(0.0) if ty[0] == 'f' else ('c', 0)
        if k == 'g':
            return ('p', ('g', v[1]), 0)
        if k == 'undef':
            return ('undef',)
        raise Unsupported('operand %s' % k)

    def run(self, fname, args):
        f = self.m.funcs.get(fname)
        if f is None or f.decl:
            raise Unsupported('call of undefined ' + fname)
        self.funcs.add(fname)
        env = {}
        for p, a in zip(f.params, args):
            env[p[1]] = a
        b, prev = f.blocks[f.order[0]], None
        while True:
            ph = [(i.dest, self.val(env, i.ty, [v for v, l in i.x if l == prev][0])) for i in b.phis]
            env.update(ph)
            for i in b.instrs:
                if i.op == 'phi':
                    continue
                self.steps += 1
                if self.steps > 20000:
                    raise Unsupported('too many steps')
                op = i.op
                if op == 'br':
                    nxt = i.x if not i.args else i.x[0 if self.truth(self.val(env, *i.args[0])) else 1]
                    break
                if op == 'switch':
                    v = self.toconst(self.val(env, *i.args[0]))
                    nxt = i.x[0]
                    w = self.m.resolve(i.args[0][0])[1]
                    for k, l in i.x[1]:
                        if k & ((1 << w) - 1) == v:
                            nxt = l
                    break
                if op == 'ret':
                    return self.val(env, *i.args[0]) if i.args else None
                if op == 'unreachable':
                    raise Unsupported('reaches unreachable')
                r = self.step(env, i)
                if i.dest is not None:
                    env[i.dest] = r
            prev, b = b.name, f.blocks[nxt]

    def truth(self, v):
        if v[0] == 'c':
            return v[1] & 1
        if v[0] == '?':
            return self.fork([1, 0])
        raise Unsupported('condition %s' % v[0])

    def toconst(self, v):
        if v[0] == 'c':
            return v[1]
        if v[0] == '?':
            return self.fork([1, 0])
        if v[0] == 'b':
            v = b2t(v)
        lo, hi = v[1].hull()
        return self.fork(range(math.ceil(lo), min(math.floor(hi), math.ceil(lo) + 5) + 1))

    # comparisons
    def fcmp(self, pred, a, b):
        if pred in ('true', 'false'):
            return ('c', int(pred == 'true'))
        if a.const() and b.const():
            x, y = a.c[0], b.c[0]
            un = x != x or y != y
            if pred == 'ord':
                return ('c', int(not un))
            if pred == 'uno':
                return ('c', int(un))
            if un:
                return ('c', int(pred[0] == 'u'))
            return ('c', int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]))
        if pred == 'ord':
            return ('c', 1)
        if pred == 'uno':
            return ('c', 0)
        for z in (a, b):
            if z.const() and not math.isfinite(z.c[0]):
                s = 1 if (z is a) == (z.c[0] > 0) else -1
                if z.c[0] != z.c[0]:
                    return ('c', int(pred[0] == 'u'))
                return ('c', int({'eq': False, 'ne': True, 'lt': s < 0, 'le': s < 0, 'gt': s > 0, 'ge': s > 0}[pred[1:]]))
        lo, hi = sub(a, b).hull()
        (al, ah), (bl, bh) = a.hull(), b.hull()
        return self.rel(pred[1:], max(lo, al - bh), min(hi, ah - bl))

    def rel(self, p, lo, hi):
        if p == 'lt':
            return ('c', 1) if hi < 0 else ('c', 0) if lo >= 0 else ('?',)
        if p == 'le':
            return ('c', 1) if hi <= 0 else ('c', 0) if lo > 0 else ('?',)
        if p == 'gt':
            return ('c', 1) if lo > 0 else ('c', 0) if hi <= 0 else ('?',)
        if p == 'ge':
            return ('c', 1) if lo >= 0 else ('c', 0) if hi < 0 else ('?',)
        if p == 'eq':
            return ('c', 0) if lo > 0 or hi < 0 else ('c', 1) if lo == hi == 0 else ('?',)
        if p == 'ne':
            return ('c', 1) if lo > 0 or hi < 0 else ('c', 0) if lo == hi == 0 else ('?',)

    def icmp(self, pred, a, b, w):
        if a[0] == 'p' or b[0] == 'p':
            eq = a == b
            return ('c', int(eq if pred == 'eq' else not eq))
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            if pred[0] == 's':
                x, y = sgn(x, w), sgn(y, w)
            p = pred if pred in ('eq', 'ne') else pred[1:]
            return ('c', int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]))
        if a[0] == '?' or b[0] == '?':
            return self.icmp(pred, ('c', self.toconst(a)), ('c', self.toconst(b)), w)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if pred[0] == 's' and a[0] == 'b' and a[2] == 0 and b[0] == 'c' and b[1] == 0:
            lo, hi = a[1].hull()      # sign of the float
            if lo > 0 or hi < 0:
                return self.rel(p, lo, hi)
        x = b2t(a)[1] if a[0] == 'b' else a[1] if a[0] == 't' else K(float(sgn(a[1], w) if pred[0] == 's' else a[1]))
        y = b2t(b)[1] if b[0] == 'b' else b[1] if b[0] == 't' else K(float(sgn(b[1], w) if pred[0] == 's' else b[1]))
        if pred[0] == 's':
            x, y = [add(z, K(-2.0 ** w)) if z.hull()[0] >= 2.0 ** (w - 1) else z for z in (x, y)]
        lo, hi = sub(x, y).hull()
        return self.rel(p, lo, hi)

    def iop(self, op, a, b, w):
        M = (1 << w) - 1
        if '?' in (a[0], b[0]):
            return self.iop(op, ('c', self.toconst(a)) if a[0] == '?' else a, ('c', self.toconst(b)) if b[0] == '?' else b, w)
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            if op in ('sdiv', 'srem'):
                x, y = sgn(x, w), sgn(y, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return ('c', (q if op == 'sdiv' else x - q * y) & M)
            if op == 'ashr':
                return ('c', (sgn(x, w) >> y) & M)
            return ('c', {'add': x + y, 'sub': x - y, 'mul': x * y, 'and': x & y, 'or': x | y, 'xor': x ^ y,
                          'shl': x << (y & 63), 'lshr': x >> (y & 63), 'udiv': x // y if y else 0, 'urem': x % y if y else 0}[op] & M)
        if a[0] == 'c' and op in ('add', 'and', 'or', 'xor', 'mul'):
            a, b = b, a
        if a[0] in ('undef', 'm') and b[0] == 'c' and op in ('and', 'or'):
            # a partly written word: bits not yet known, value of the others
            u, v = (M, 0) if a[0] == 'undef' else a[1:]
            u, v = (u & b[1], v & b[1]) if op == 'and' else (u & ~b[1], v | b[1])
            return ('m', u, v) if u else ('c', v)
        if 'undef' in (a[0], b[0]) or 'm' in (a[0], b[0]):
            raise Unsupported('use of an uninitialised value')
        if a[0] == 'b' and b[0] == 'c':
            v, off, k = a[1], a[2], b[1]
            lo, hi = v.hull()
            if op == 'and' and k == 0x7fffffff and off == 0:
                return ('b', tabs(v), 0)
            if op == 'and' and k == 0x80000000 and off == 0:
                if lo > 0 or hi < 0:
                    return ('c', k if hi < 0 else 0)
                return self.fork([('c', 0), ('c', k)])
            if op == 'or' and k == 0x80000000 and off == 0:
                return ('b', scale(tabs(v), -1.0), 0)
            if op in ('xor', 'add') and k == 0x80000000 and off == 0:
                return ('b', scale(v, -1.0), 0)
            if op in ('or', 'and', 'xor') and k == (0 if op != 'and' else M):
                return a
            if op == 'lshr' and k == 31 and off == 0:
                if lo > 0 or hi < 0:
                    return ('c', int(hi < 0))
                return self.fork([('c', 0), ('c', 1)])
            if op in ('add', 'sub') and k & 0x7fffff == 0:
                return ('b', v, off + sgn(k if op == 'add' else -k & M, w))
            if op == 'and' and k & 0x80000000 and off == 0 and (lo > 0):
                k &= 0x7fffffff
            if op == 'and' and k == 0x7fffff and hi < 0:
                a = ('b', scale(v, -1.0), off)
            if op == 'and' and k == 0x7f800000:
                q = self.iop('lshr', b2t(('b', tabs(v), off)), ('c', 23), w)
                return self.iop('shl', q, ('c', 23), w)
        if a[0] == 'b':
            a = b2t(a)
        if b[0] == 'b':
            b = b2t(b)
        x = a[1] if a[0] == 't' else K(float(a[1]))
        y = b[1] if b[0] == 't' else K(float(b[1]))
        if op == 'add' or op == 'sub':
            r = add(x, y) if op == 'add' else sub(x, y)
            lo, hi = r.hull()
            if lo >= 2.0 ** w:
                r = add(r, K(-2.0 ** w))
            elif hi < 0:
                r = add(r, K(2.0 ** w))
            elif lo < 0 or hi >= 2.0 ** w:
                raise Split
            return ('t', r)
        if b[0] != 'c':
            raise Unsupported('integer %s of two variables' % op)
        k = b[1]
        lo, hi = x.hull()
        if op == 'or':
            n = (k & -k).bit_length() - 1
            if lo < -0.5 or hi >= 2.0 ** n + 0.5:
                raise Split
            r = add(x, y)
            r._h = (lo + k, hi + k)
            return ('t', r)
        if op == 'and':
            n = k.bit_length()
            if k != (1 << n) - 1:
                hi_bits = self.iop('lshr', a, ('c', 0), w)
                raise Unsupported('mask %x' % k)
            q = self.fork(range(math.floor(max(lo, 0) / 2.0 ** n), math.floor(hi / 2.0 ** n) + 1))
            return self.cons(add(x, K(-float(q) * 2.0 ** n)), 0, 2.0 ** n - 1)
        if op in ('lshr', 'ashr', 'udiv', 'sdiv'):
            if op in ('sdiv', 'ashr') and (hi >= 2.0 ** (w - 1) or lo < 0 or (op == 'sdiv' and sgn(k, w) < 0)):
                raise Split
            d = float(1 << k) if op in ('lshr', 'ashr') else float(k)
            a0, a1 = math.floor(max(lo, 0) / d), math.floor(hi / d)
            if a1 - a0 <= 2:
                return self.fork([('c', v) for v in range(a0, a1 + 1)])
            r = scale(x, 1 / d)
            e = (d - 1) / d / 2
            return ('t', T([r.c[0] - e] + r.c[1:], r.r + e))
        if op == 'shl' or op == 'mul':
            d = float(1 << k) if op == 'shl' else float(k)
            r = scale(x, d)
            if r.hull()[1] >= 2.0 ** w:
                raise Split
            return ('t', r)
        raise Unsupported('integer %s' % op)

    def cons(self, t, lo, hi):
        a, b = t.hull()
        if a < lo - 1 or b > hi + 1:
            if a < lo - 2.0 ** 20 or b > hi + 2.0 ** 20:
                raise Split
        if a < lo or b > hi:
            t = T(t.c, t.r)
            t._h = (max(a, lo), min(b, hi))
        return ('t', t)

    def cast(self, v, fw, to):
        """reinterpret the bits"""
        if v[0:1] == ('undef',) if isinstance(v, tuple) else False:
            return v
        if to[0] == 'f':
            if isinstance(v, T):
                return v
            if to[1] != 32:
                if v[0] == 'c':
                    return K(struct.unpack('<d', struct.pack('<Q', v[1]))[0])
                raise Unsupported('64-bit pattern')
            if v[0] == 'c':
                return K(of_bits32(v[1]))
            if v[0] == 'b':
                return b2f(v)
            if v[0] == 't':
                lo, hi = v[1].hull()
                if lo >= 2.0 ** 31:
                    return scale(t2f(('t', add(v[1], K(-2.0 ** 31)))), -1.0)
                return t2f(v)
        if to[0] == 'i' and isinstance(v, T):
            if v.const():
                return ('c', bits32(v.c[0]) if fw == 32 else struct.unpack('<Q', struct.pack('<d', v.c[0]))[0])
            if fw != 32:
                raise Unsupported('64-bit pattern')
            return ('b', v, 0)
        return v

    def load(self, p, ty):
        ty = self.m.resolve(ty)
        if p[1] is not None and p[1][0] == 'g':
            g = self.m.globals[p[1][1]]
            if not g.const:
                raise Unsupported('load of a variable')
            return self.gval(g.ty, g.init, p[2], ty)
        v = self.mem.get((p[1], p[2]))
        if v is None:
            return ('undef',)
        v, t = v
        if t[0] != ty[0]:
            v = self.cast(v, t[1], ty)
        elif t != ty and t[0] == 'i':
            raise Unsupported('partial load')
        return v

    def gval(self, ty, init, off, want):
        ty = self.m.resolve(ty)
        while ty[0] in ('arr', 'st'):
            if init[0] == 'zero':
                return K(0.0) if want[0] == 'f' else ('c', 0)
            if ty[0] == 'arr':
                e = self.m.size(ty[2])
                k, off = divmod(off, e)
                nt = ty[2]
            else:
                o = self.m.offsets(ty)
                k = max(j for j in range(len(o) - 1) if o[j] <= off)
                off -= o[k]
                nt = ty[1][k]
            if init[0] == 'str':
                return ('c', int.from_bytes(init[1][k * e + off:k * e + off + want[1] // 8], 'little'))
            el = init[1][k]
            if not isinstance(el[0], str):
                el = el[1]
            ty, init = self.m.resolve(nt), el
        v = self.val({}, ty, init)
        return v if ty[0] == want[0] else self.cast(v, ty[1], want)

    def step(self, env, i):
        op = i.op
        A = lambda k: self.val(env, i.args[k][0], i.args[k][1])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return fop(op, A(0), A(1), self.m.resolve(i.ty)[1])
        if op == 'fneg':
            return neg(A(0))
        if op == 'fcmp':
            return self.fcmp(i.x, A(0), A(1))
        if op == 'icmp':
            t = self.m.resolve(i.args[0][0])
            return self.icmp(i.x, A(0), A(1), t[1] if t[0] == 'i' else 64)
        if op in ir.BINOPS:
            w = self.m.resolve(i.ty)[1]
            a, b = A(0), A(1)
            if w == 1 and '?' in (a[0], b[0]):
                ka, kb = a[0] == 'c', b[0] == 'c'
                if op == 'and' and ((ka and not a[1] & 1) or (kb and not b[1] & 1)):
                    return ('c', 0)
                if op == 'or' and ((ka and a[1] & 1) or (kb and b[1] & 1)):
                    return ('c', 1)
                if op == 'xor' and (ka or kb):
                    return ('?',)
                if op in ('and', 'or'):
                    return b if ka else a if kb else ('?',)
            return self.iop(op, a, b, w)
        if op == 'select':
            c = A(0)
            return A(1) if self.truth(c) else A(2)
        if op == 'freeze':
            return A(0)
        if op == 'alloca':
            self.nal += 1
            return ('p', ('a', self.nal), 0)
        if op == 'store':
            v, p = A(0), A(1)
            self.mem[(p[1], p[2])] = (v, self.m.resolve(i.args[0][0]))
            return None
        if op == 'load':
            return self.load(A(0), i.ty)
        if op == 'gep':
            p = A(0)
            t = i.x
            off = p[2]
            for n, (ty, v) in enumerate(i.args[1:]):
                k = self.toconst(self.val(env, ty, v))
                k = sgn(k, self.m.resolve(ty)[1])
                if n == 0:
                    off += k * self.m.size(t)
                else:
                    t = self.m.resolve(t)
                    if t[0] == 'st':
                        off += self.m.offsets(t)[k]
                        t = t[1][k]
                    else:
                        t = t[2]
                        off += k * self.m.size(t)
            return ('p', p[1], off)
        if op in ('fptosi', 'fptoui'):
            a = A(0)
            w = self.m.resolve(i.ty)[1]
            lo, hi = a.hull()
            if not (math.isfinite(lo) and math.isfinite(hi)):
                raise Unsupported('conversion of a non-finite value')
            if max(abs(lo), abs(hi)) >= 2.0 ** (w - 1):
                raise Unsupported('conversion out of range')
            lo, hi = math.trunc(lo), math.trunc(hi)
            if hi - lo > 4:
                raise Split
            return ('c', self.fork(range(lo, hi + 1)) & ((1 << w) - 1))
        if op in ('sitofp', 'uitofp'):
            v = A(0)
            w = self.m.resolve(i.args[0][0])[1]
            fw = self.m.resolve(i.ty)[1]
            if v[0] in ('b', 't'):
                t = b2t(v)[1] if v[0] == 'b' else v[1]
                if op == 'sitofp' and t.hull()[1] >= 2.0 ** (w - 1):
                    raise Split
                return rnd(t, fw)
            k = self.toconst(v)
            k = float(sgn(k, w) if op == 'sitofp' else k)
            return K(f32(k) if fw == 32 else k)
        if op == 'fpext':
            return A(0)
        if op == 'fptrunc':
            return rnd(A(0), 32)
        if op == 'bitcast':
            return self.cast(A(0), self.m.resolve(i.args[0][0])[1], self.m.resolve(i.ty))
        if op in ('zext', 'trunc', 'sext'):
            v = A(0)
            fw, tw = self.m.resolve(i.args[0][0])[1], self.m.resolve(i.ty)[1]
            if fw == 1 and v[0] == '?' and op == 'zext':
                return v
            if v[0] == 'c' or v[0] == '?':
                k = self.toconst(v)
                return ('c', (sgn(k, fw) if op == 'sext' else k) & ((1 << tw) - 1))
            if op == 'trunc' and tw == 1:
                return ('c', self.toconst(self.iop('and', v, ('c', 1), fw)))
            v = b2t(v) if v[0] == 'b' else v
            lo, hi = v[1].hull()
            if op == 'trunc' and hi >= 2.0 ** tw or op == 'sext' and hi >= 2.0 ** (fw - 1):
                raise Split
            return v
        if op == 'call':
            return self.call(env, i)
        raise Unsupported('instruction ' + op)

    def call(self, env, i):
        c = i.x['callee']
        if c[0] != 'g':
            raise Unsupported('indirect call')
        n = c[1]
        A = lambda k: self.val(env, i.args[k][0], i.args[k][1])
        if n.startswith('llvm.'):
            if n.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias')):
                return None
            if n.startswith('llvm.fabs'):
                return tabs(A(0))
            if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma.'):
                w = self.m.resolve(i.ty)[1]
                return fop('fadd', fop('fmul', A(0), A(1), w), A(2), w)
            if n.startswith('llvm.copysign'):
                a, b = A(0), A(1)
                lo, hi = b.hull()
                s = self.fork([1.0, -1.0]) if lo <= 0 <= hi and not b.const() else math.copysign(1.0, lo)
                return scale(tabs(a), s)
            if n.startswith('llvm.memcpy'):
                d, s, k = A(0), A(1), self.toconst(A(2))
                for (b, o), v in list(self.mem.items()):
                    if b == s[1] and s[2] <= o < s[2] + k:
                        self.mem[(d[1], d[2] + o - s[2])] = v
                if s[1] is not None and s[1][0] == 'g':
                    g = self.m.globals[s[1][1]]
                    for o in range(0, k, 4):
                        v = self.gval(g.ty, g.init, s[2] + o, ('f', 32) if 'f' in repr(self.m.resolve(g.ty)) else ('i', 32))
                        self.mem[(d[1], d[2] + o)] = (v, ('f', 32) if isinstance(v, T) else ('i', 32))
                return None
            raise Unsupported(n)
        return self.run(n, [self.val(env, a[0], a[1]) for a in i.args])


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


# --- pieces ----------------------------------------------------------------
def outcomes(mod, fname, x):
    """every abstract result of fname on the piece"""
    dec = []
    out = []
    fs = set()
    while True:
        I = Interp(mod, dec)
        out.append(I.run(fname, [x]))
        fs |= I.funcs
        while dec and dec[-1][1] + 1 >= dec[-1][0]:
            dec.pop()
        if not dec:
            return out, fs
        dec[-1] = (dec[-1][0], dec[-1][1] + 1)
        if len(out) > 64:
            raise Split


def piece(lo, hi):
    if lo == hi:
        return K(lo)
    c = (lo + hi) / 2
    h = max(hi - c, c - lo)
    if c + h < hi or c - h > lo:
        h *= 1 + 2.0 ** -50
    return T([c, h] + [0.0] * (D - 1))


def settle(mod, spec, lo, hi, budget):
    """(pieces, worst error/bound ratio seen, counterexample or None)"""
    fname, metric = spec['fn'], spec['metric']
    stack = [(ordi(lo), ordi(hi))]
    n, worst = 0, 0.0
    fs = set()
    while stack:
        a, b = stack.pop()
        x0, x1 = of_ord(a), of_ord(b)
        n += 1
        if n > budget:
            return n, worst, ('more', stack + [(a, b)]), fs
        x = piece(x0, x1)
        try:
            res, f = outcomes(mod, fname, x)
            fs |= f
            ok = True
            for r in res:
                e = ratio(metric, r, x)
                if e > 1:
                    ok = False
                    break
                worst = max(worst, e)
            if ok:
                continue
            if a == b:
                return n, worst, ('point', x0, x0, 'returns %.9g, %s' % (res[0].c[0], detail(metric, res[0], x))), fs
        except Split:
            if a == b:
                return n, worst, ('point', x0, x0, 'the result leaves the float range'), fs
        except (ZeroDivisionError, OverflowError, ValueError):
            if a == b:
                return n, worst, ('point', x0, x0, 'the result is not finite'), fs
        except Unsupported as e:
            if a == b or 'range' not in str(e):
                return n, worst, ('unsupported', x0, x1, str(e)), fs
        m = (a + b) // 2
        # a definite counterexample at the middle ends the search early
        if n % 16 == 0:
            for o in (m,):
                xm = of_ord(o)
                try:
                    r, _ = outcomes(mod, fname, K(xm))
                    if ratio(metric, r[0], K(xm)) > 1.0:
                        return n, worst, ('point', xm, xm, 'returns %.9g, %s' % (r[0].c[0], detail(metric, r[0], K(xm)))), fs
                except (Split, Unsupported, ZeroDivisionError, OverflowError, ValueError):
                    pass
        stack.append((m + 1, b))
        stack.append((a, m))
    return n, worst, None, fs


def ratio(metric, r, x):
    if not isinstance(r, T) or not all(math.isfinite(k) for k in r.c):
        return math.inf
    err, bound = metric(r, x)
    lo, hi = err.hull()
    bl, bh = bound.hull()
    bl = bl if bl > 0 or bh < 0 else max(bl, 0.0)
    e = max(abs(lo), abs(hi))
    bl = abs(bh) if bh < 0 else bl
    return e / bl if bl > 0 else math.inf if e > 0 else 0.0


def detail(metric, r, x):
    try:
        err, bound = metric(r, x)
        return 'error %.3g, allowed %.3g' % (abs(err.c[0]), abs(bound.c[0]))
    except Exception:
        return 'not finite'


def pieces(lo, hi, parts, tiny=2.0 ** -30):
    """initial partition: octaves, each in equal parts; one piece around zero"""
    def pos(a, b):
        out = []
        if a == 0:
            e = min(b, tiny)
            out.append((0.0, f32(e)))
            if e == b:
                return out
            a = of_ord(ordi(e) + 1)
        while a <= b:
            k = math.frexp(a)[1] - 1
            top = min(b, of_ord(ordi(2.0 ** (k + 1)) - 1) if k < 127 else of_bits32(0x7f7fffff))
            A, B = ordi(a), ordi(top)
            n = max(1, min(parts, B - A + 1))
            cuts = [A + (B - A + 1) * j // n for j in range(n + 1)]
            out += [(of_ord(cuts[j]), of_ord(cuts[j + 1] - 1)) for j in range(n)]
            if B + 1 > 0x7f7fffff:
                break
            a = of_ord(B + 1)
        return out
    if lo >= 0:
        return pos(lo, hi)
    if hi <= 0:
        return [(-b, -a) for a, b in pos(-hi, -lo)]
    return [(-b, -a) for a, b in pos(0.0, -lo)] + pos(0.0, hi)


# --- the claims ---------------------------------------------------------------
def m_abs(ref, c):
    return lambda r, x: (sub(r, ref(x)), K(c))


def m_rel(ref, c):
    def m(r, x):
        v = ref(x)
        return sub(r, v), scale(tabs(v), c)
    return m


def m_tan(c):
    """|r - tan x| <= c (1 + tan^2 x), multiplied by cos^2 x"""
    def m(r, x):
        s, k = tsincos(x)
        return mul(sub(mul(r, k), s), k), K(c)
    return m


def m_pow(n, c):
    """r^n against x, relative"""
    def m(r, x):
        p = r
        for _ in range(n - 1):
            p = mul(p, r)
        return sub(p, x), scale(tabs(x), c)
    return m


def tsinh(x):
    return scale(sub(texp(x), texp(neg(x))), .5)


def tcosh(x):
    return scale(add(texp(x), texp(neg(x))), .5)


def tpowy(y, sign):
    """|x|^y; sign: odd integer exponent"""
    def ref(x):
        lo, hi = x.hull()
        if lo <= 0 <= hi:
            raise Split
        v = texp(scale(tlog(tabs(x)), y))
        return neg(v) if sign and hi < 0 else v
    return ref


MINN, MAXN = of_bits32(0x00800000), of_bits32(0x7f7fffff)
L2, L10 = math.log(2.0), math.log(10.0)
NX = f32(1.1920929e-07)


def claims():
    C = []

    def c(name, fn, metric, lo, hi, text, tier='quick', parts=8):
        C.append(dict(name=name, fn=fn, metric=metric, lo=f32(lo), hi=f32(hi), text=text, tier=tier, parts=parts))
    s, k = (lambda x: tsincos(x)[0]), (lambda x: tsincos(x)[1])
    c('sin', 'a_sin', m_abs(s, 2e-6), -6.2832, 6.2832, '|sin(x) - exact| <= 2e-6 on [-2pi, 2pi]', parts=16)
    c('cos', 'a_cos', m_abs(k, 2e-6), -6.2832, 6.2832, '|cos(x) - exact| <= 2e-6 on [-2pi, 2pi]')
    c('tan', 'a_tan', m_tan(1e-6), -6.2832, 6.2832, '|tan(x) - exact| <= 1e-6 (1 + tan^2 x) on [-2pi, 2pi]')
    c('sin-wide', 'a_sin', m_abs(s, 1e-5), -1000, 1000, '|sin(x) - exact| <= 1e-5 on [-1000, 1000]', 'thorough', 16)
    c('cos-wide', 'a_cos', m_abs(k, 1e-5), -1000, 1000, '|cos(x) - exact| <= 1e-5 on [-1000, 1000]', 'thorough', 16)
    c('tan-wide', 'a_tan', m_tan(2e-4), -1000, 1000, '|tan(x) - exact| <= 2e-4 (1 + tan^2 x) on [-1000, 1000]', 'thorough', 16)
    c('exp', 'a_exp', m_rel(texp, 5e-5), -87, 87, 'relative error of exp(x) <= 5e-5 on [-87, 87]')
    c('fast_exp2', 'a_fast_exp2', m_rel(lambda x: texp(scale(x, L2)), 5e-5), -125, 125, 'relative error of fast_exp2(x) <= 5e-5 on [-125, 125]')
    c('log', 'a_log', m_abs(tlog, 2e-5), MINN, MAXN, '|log(x) - exact| <= 2e-5 for every positive normal float')
    c('log10', 'a_log10', m_abs(lambda x: scale(tlog(x), 1 / L10), 1e-5), MINN, MAXN, '|log10(x) - exact| <= 1e-5 for every positive normal float')
    c('fast_log2', 'a_fast_log2', m_abs(lambda x: scale(tlog(x), 1 / L2), 3e-5), MINN, MAXN, '|fast_log2(x) - exact| <= 3e-5 for every positive normal float')
    c('sqrt', 'a_sqrt', m_pow(2, 4e-3), MINN, MAXN, 'relative error of sqrt(x)^2 <= 4e-3 for every positive normal float')
    c('cbrt', 'a_cbrt', m_pow(3, 1e-5), NX, MAXN, 'relative error of cbrt(x)^3 <= 1e-5 for epsilon <= x')
    c('cbrt-negative', 'a_cbrt', m_pow(3, 1e-5), -MAXN, -NX, 'relative error of cbrt(x)^3 <= 1e-5 for x <= -epsilon')
    c('sinh', 'a_sinh', m_rel(tsinh, 1e-4), 1e-3, 80, 'relative error of sinh(x) <= 1e-4 on [0.001, 80]')
    c('sinh-negative', 'a_sinh', m_rel(tsinh, 1e-4), -80, -1e-3, 'relative error of sinh(x) <= 1e-4 on [-80, -0.001]')
    c('sinh-zero', 'a_sinh', m_abs(tsinh, 1e-6), -1, 1, '|sinh(x) - exact| <= 1e-6 on [-1, 1]')
    c('cosh', 'a_cosh', m_rel(tcosh, 1e-4), -80, 80, 'relative error of cosh(x) <= 1e-4 on [-80, 80]')
    c('tanh', 'a_tanh', m_abs(ttanh, 2e-5), -MAXN, MAXN, '|tanh(x) - exact| <= 2e-5 for every finite float')
    c('erf', 'a_erf', m_abs(terf, 5e-6), -MAXN, MAXN, '|erf(x) - exact| <= 5e-6 for every finite float')
    c('erfc', 'a_erfc', m_abs(lambda x: sub(K(1.0), terf(x)), 5e-6), -MAXN, MAXN, '|erfc(x) - exact| <= 5e-6 for every finite float')
    c('ierf', 'a_ierf', lambda r, x: (sub(terf(r), x), K(1e-4)), -0.9999999, 0.9999999, '|erf(ierf(x)) - x| <= 1e-4 for |x| < 1')
    for n, y, lim in (('half', .5, 1e30), ('third', f32(0.333333343), 1e30), ('three', 3.0, 1e10), ('neg1', -1.0, 1e30), ('neg2', -2.0, 1e15),
                      ('two', 2.0, 1e15), ('one', 1.0, 1e30), ('ten', 10.0, 1e3), ('five', 5.0, 1e6), ('onehalf', 1.5, 1e20)):
        odd = y == int(y) and int(y) & 1
        tol = 1e-4 * (1 + abs(y))
        lo = max(1 / lim, 1e-6)
        c('pow-%s' % n, 'a_pow_' + n, m_rel(tpowy(y, False), tol), lo, lim, 'relative error of pow(x, %g) <= %.2g on [%g, %g]' % (y, tol, lo, lim))
        if y == int(y):
            c('pow-%s-negative' % n, 'a_pow_' + n, m_rel(tpowy(y, odd), tol), -lim, -lo, 'relative error of pow(x, %g) <= %.2g on [-%g, -%g]' % (y, tol, lim, lo))
    for n, b in (('2', 2.0), ('10', 10.0), ('half', .5), ('e', f32(2.71828183))):
        m = 80 / abs(math.log(b))
        c('pow-of-%s' % n, 'a_pow_of_' + n, m_rel(lambda x, l=math.log(b): texp(scale(x, l)), 1e-3), -m, m, 'relative error of pow(%g, y) <= 1e-3 on [-%.0f, %.0f]' % (b, m, m))
    return C


_mod = _cl = None
BUDGET = 100000      # pieces per claim and initial piece
STEP = 250           # pieces per job


def _job(a):
    k, j, lo, hi = a
    spec = _cl[k]
    try:
        return (k, j) + settle(_mod, spec, lo, hi, STEP)
    except Exception as e:
        import traceback
        return k, j, 0, 0.0, ('internal', lo, hi, traceback.format_exc()[-400:]), set()


def part(tier, only):
    global _mod, _cl
    import os, time
    from multiprocessing import get_context
    from . import driver
    t0 = time.time()
    _mod = ir.load(driver.compile_ir(os.path.join(driver.VERIF, 'witness', 'mathacc.cc')))
    _cl = cl = claims()
    jobs = []
    for k, c in enumerate(cl):
        if (only and c['name'] not in only) or (c['tier'] == 'thorough' and tier != 'thorough' and not only):
            continue
        jobs += [(k, j, a, b) for j, (a, b) in enumerate(pieces(c['lo'], c['hi'], c['parts'] * (4 if tier == 'thorough' else 1)))]
    agg = {}
    with get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        while jobs:
            more = []
            for k, j, n, w, bad, fs in p.imap_unordered(_job, jobs, chunksize=max(1, min(16, len(jobs) // 64))):
                g = agg.setdefault(k, dict(n=0, worst=0.0, bad=[], fs=set(), per={}))
                g['n'] += n
                g['per'][j] = g['per'].get(j, 0) + n
                g['worst'] = max(g['worst'], w)
                g['fs'] |= fs
                if bad and bad[0] == 'more':
                    if g['per'][j] > BUDGET:
                        a, b = bad[1][-1]
                        g['bad'].append(('budget', of_ord(a), of_ord(b), 'not settled'))
                    else:
                        g['n'] -= 1
                        more += [(k, j, of_ord(a), of_ord(b)) for a, b in bad[1]]
                elif bad:
                    g['bad'].append(bad)
            # a claim with a counterexample needs no further work
            jobs = [m for m in more if not any(b[0] == 'point' for b in agg[m[0]]['bad'])]
    out = []
    for k in sorted(agg):
        c, g = cl[k], agg[k]
        rule = 'every float of every piece of the domain is within the stated error'
        where = ['include/nanomath.h (%s)' % ', '.join(sorted(g['fs'])[:6])]
        v = dict(driver=c['name'], src='witness/mathacc.cc', mode='general', rule=rule, n_obligations=g['n'], n_discharged=g['n'] - len(g['bad']), where=where,
                 kind='', detail='', res=None)
        bad = sorted(g['bad'], key=lambda b: ('point', 'unsupported', 'budget', 'internal').index(b[0]))
        if not bad:
            v['outcome'] = 'proved'
            v['detail'] = '%s; %d pieces, largest bound %.2f of the allowance' % (c['text'], g['n'], g['worst'])
        elif bad[0][0] in ('point', 'budget'):
            v['outcome'] = 'violation'
            v['kind'] = 'accuracy'
            b = bad[0]
            v['detail'] = '%s fails: %s' % (c['text'], 'at x = %.9g (0x%08x) %s' % (b[1], bits32(b[1]), b[3]) if b[0] == 'point' else 'no bound on [%.9g, %.9g]' % (b[1], b[2]))
        else:
            v['outcome'] = 'broken'
            v['detail'] = '%s: [%.9g, %.9g] %s' % (bad[0][0], bad[0][1], bad[0][2], bad[0][3])
        out.append(v)
    return out
