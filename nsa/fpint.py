"""floor and ceil for every float and double, decided from the IR.

The argument is x = n + f with integer n in a range (one binade at a time) and
f either 0 or anywhere in (0, 1).  Floating values are exact rational linear
forms a n + b f + c when the operation that made them is shown to be exact on
the whole class (an integer within the significand, the argument itself or a
power of two of it, the argument minus its truncation), otherwise an interval.
Conversions to integer are checked against the range of the integer type."""
import math
from fractions import Fraction as Q
from . import ir, fpacc
from .fpacc import Interp, K, T, Split, Unsupported, sgn


class L:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = Q(a), Q(b), Q(c)

    def __repr__(self):
        return '%s n + %s f + %s' % (self.a, self.b, self.c)


class U:
    """some value of [lo, hi]"""
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return '[%s, %s]' % (show(self.lo), show(self.hi))


class Bad(Exception):
    pass


def show(q):
    try:
        return '%.6g' % q
    except OverflowError:
        return '2^1024'


class Cls:
    def __init__(self, nlo, nhi, frac, w):
        self.nlo, self.nhi, self.frac, self.w = nlo, nhi, frac, w
        self.P = 24 if w == 32 else 53

    def name(self):
        r = 'n = %d' % self.nlo if self.nlo == self.nhi else 'n in [%s, %s]' % (show(Q(self.nlo)), show(Q(self.nhi)))
        return 'x = n%s, %s' % (' + f, 0 < f < 1' if self.frac else '', r)

    def rng(self, v):
        """(lo, lo attained, hi, hi attained)"""
        if isinstance(v, U):
            return Q(v.lo), True, Q(v.hi), True
        lo, hi = sorted((v.a * self.nlo, v.a * self.nhi))
        so = True
        if self.frac and v.b:
            so = False
            lo, hi = lo + min(v.b, 0), hi + max(v.b, 0)
        return lo + v.c, so, hi + v.c, so

    def sign(self, v):
        """set of possible signs"""
        lo, la, hi, ha = self.rng(v)
        s = set()
        if lo < 0:
            s.add(-1)
        if hi > 0:
            s.add(1)
        if lo < 0 < hi or (lo == 0 and la) or (hi == 0 and ha):
            s.add(0)
        return s

    def exact(self, v):
        """is the real value representable for every member of the class"""
        lo, _, hi, _ = self.rng(v)
        m = max(abs(lo), abs(hi))
        if not self.frac or v.b == 0:
            if v.a.denominator == 1 and v.c.denominator == 1 and m <= 2 ** self.P:
                return True
            if v.c == 0 and abs(v.a) and pow2(v.a) and self.scal(m, min(abs(lo), abs(hi))):
                return True
        if v.c == 0 and v.a == v.b and v.a != 0 and pow2(abs(v.a)):
            return abs(v.a) == 1 or self.scal(m, min(abs(lo), abs(hi)))
        if self.frac and v.a == 0 and abs(v.b) == 1:
            # the argument minus its truncation
            return v.c == 0 if self.nlo >= 0 else v.c == -v.b
        return False

    def scal(self, m, mn):
        emin, emax = (-126, 127) if self.w == 32 else (-1022, 1023)
        return mn >= Q(2) ** emin and m < Q(2) ** emax or m == 0


def pow2(q):
    q = abs(q)
    return (q.numerator & (q.numerator - 1)) == 0 and (q.denominator & (q.denominator - 1)) == 0 and q != 0


class IntInterp(Interp):
    def __init__(self, mod, dec, cls):
        Interp.__init__(self, mod, dec)
        self.k = cls

    def lin(self, v):
        if isinstance(v, (L, U)):
            return v
        if isinstance(v, T) and v.const():
            if not math.isfinite(v.c[0]):
                raise Unsupported('infinite constant')
            return L(0, 0, Q(v.c[0]))
        if v[0] == 'c':
            return v
        raise Unsupported('operand')

    def fl(self, v):
        """a real result rounded"""
        if isinstance(v, L) and self.k.exact(v):
            return v
        lo, _, hi, _ = self.k.rng(v)
        p, emin = (24, -149) if self.k.w == 32 else (53, -1074)
        # rounding is monotone: at most one ulp beyond the ends
        e = lambda q: abs(q) * Q(2) ** -(p - 1) + Q(2) ** emin
        return U(lo - e(lo), hi + e(hi))

    def comb(self, op, a, b):
        if isinstance(a, L) and isinstance(b, L):
            if op == 'fadd':
                return self.fl(L(a.a + b.a, a.b + b.b, a.c + b.c))
            if op == 'fsub':
                return self.fl(L(a.a - b.a, a.b - b.b, a.c - b.c))
            if op == 'fmul':
                if a.a == 0 and a.b == 0:
                    a, b = b, a
                if b.a == 0 and b.b == 0:
                    return self.fl(L(a.a * b.c, a.b * b.c, a.c * b.c))
            if op == 'fdiv' and b.a == 0 and b.b == 0 and b.c != 0:
                return self.fl(L(a.a / b.c, a.b / b.c, a.c / b.c))
        (al, _, ah, _), (bl, _, bh, _) = self.k.rng(a), self.k.rng(b)
        if op == 'fadd':
            return self.fl(U(al + bl, ah + bh))
        if op == 'fsub':
            return self.fl(U(al - bh, ah - bl))
        if op == 'fdiv':
            if bl <= 0 <= bh:
                raise Unsupported('division by an interval around zero')
            p = [al / bl, al / bh, ah / bl, ah / bh]
        else:
            p = [al * bl, al * bh, ah * bl, ah * bh]
        return self.fl(U(min(p), max(p)))

    def diff(self, a, b):
        if isinstance(a, L) and isinstance(b, L):
            return self.k.sign(L(a.a - b.a, a.b - b.b, a.c - b.c))
        (al, _, ah, _), (bl, _, bh, _) = self.k.rng(a), self.k.rng(b)
        return self.k.sign(U(al - bh, ah - bl))

    def decide(self, p, s):
        ok = {'eq': {0}, 'ne': {-1, 1}, 'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {0, 1}}[p]
        if s <= ok:
            return ('c', 1)
        if not s & ok:
            return ('c', 0)
        return ('?',)

    def sym(self, *vs):
        return any(isinstance(v, (L, U)) or (isinstance(v, tuple) and v[0] == 'L') for v in vs)

    def step(self, env, i):
        op = i.op
        A = lambda k: self.val(env, i.args[k][0], i.args[k][1])
        vs = [A(k) for k in range(len(i.args))] if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'fneg', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'icmp', 'sext', 'zext', 'trunc', 'add', 'sub', 'mul') else []
        if not self.sym(*vs):
            return Interp.step(self, env, i)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            for a, b in ((0, 1), (1, 0)):
                if isinstance(vs[a], T) and not math.isfinite(vs[a].c[0]):
                    raise Unsupported('infinite constant')
            return self.comb(op, self.lin(vs[0]), self.lin(vs[1]))
        if op == 'fneg':
            v = vs[0]
            return L(-v.a, -v.b, -v.c) if isinstance(v, L) else U(-v.hi, -v.lo)
        if op == 'fcmp':
            p = i.x
            if p in ('true', 'false', 'ord', 'uno'):
                return ('c', int(p in ('true', 'ord')))
            for z, s in ((0, -1), (1, 1)):
                if isinstance(vs[z], T) and not math.isfinite(vs[z].c[0]):
                    c = vs[z].c[0]
                    if c != c:
                        return ('c', int(p[0] == 'u'))
                    return self.decide(p[1:], {-1 if (c > 0) == (s > 0) else 1})
            return self.decide(p[1:], self.diff(self.lin(vs[0]), self.lin(vs[1])))
        if op in ('fptosi', 'fptoui'):
            w = self.m.resolve(i.ty)[1]
            v = vs[0]
            lo, hi = (-2 ** (w - 1), 2 ** (w - 1)) if op == 'fptosi' else (0, 2 ** w)
            rl, _, rh, _ = self.k.rng(v)
            if rl <= lo - 1 or rh >= hi:
                raise Bad('conversion to a %d-bit integer of a value up to %s' % (w, show(max(-rl, rh))))
            return self.trunc(v, w)
        if op in ('sitofp', 'uitofp'):
            v = vs[0][1]
            return self.fl(v)
        if op == 'fpext':
            return vs[0]
        if op == 'fptrunc':
            return self.fl(vs[0])
        if op in ('sext', 'zext', 'trunc'):
            v = vs[0]
            tw = min(self.m.resolve(i.ty)[1], self.m.resolve(i.args[0][0])[1])
            lo, _, hi, _ = self.k.rng(v[1])
            if op == 'zext' and lo < 0 or (op == 'trunc' and (lo < -2 ** (tw - 1) or hi >= 2 ** (tw - 1))):
                raise Bad('the integer does not keep its value when resized to %d bits' % self.m.resolve(i.ty)[1])
            return v
        ints = [v[1] if v[0] == 'L' else L(0, 0, sgn(v[1], self.m.resolve(i.args[0][0])[1])) if v[0] == 'c' else None for v in vs] if not any(isinstance(v, (L, U)) for v in vs) else None
        if ints is None or None in ints:
            raise Unsupported(op)
        a, b = ints
        if op == 'icmp':
            p = i.x if i.x in ('eq', 'ne') else i.x[1:]
            if i.x[0] == 'u' and (self.k.rng(a)[0] < 0 or self.k.rng(b)[0] < 0):
                raise Unsupported('unsigned comparison of signed values')
            return self.decide(p, self.diff(a, b))
        if op in ('add', 'sub'):
            s = 1 if op == 'add' else -1
            if isinstance(a, L) and isinstance(b, L):
                r = L(a.a + s * b.a, a.b + s * b.b, a.c + s * b.c)
            else:
                (al, _, ah, _), (bl, _, bh, _) = self.k.rng(a), self.k.rng(b)
                r = U(al + bl, ah + bh) if s > 0 else U(al - bh, ah - bl)
            w = self.m.resolve(i.ty)[1]
            lo, _, hi, _ = self.k.rng(r)
            if lo < -2 ** (w - 1) or hi >= 2 ** (w - 1):
                raise Bad('integer overflow: a value up to %s in %d bits' % (show(max(-lo, hi)), w))
            return ('L', r)
        raise Unsupported(op)

    def trunc(self, v, w):
        if isinstance(v, L):
            if v.a.denominator == 1 and v.c.denominator == 1 and (v.b == 0 or not self.k.frac):
                return self.intv(L(v.a, 0, v.c))
            if v.a.denominator == 1 and v.c.denominator == 1 and abs(v.b) == 1:
                # a n + c + b f, truncated toward zero
                base = L(v.a, 0, v.c) if v.b == 1 else L(v.a, 0, v.c - 1)
                lo, _, hi, _ = self.k.rng(base)
                if lo >= 0:
                    return self.intv(base)
                if hi <= -1:
                    return self.intv(L(base.a, 0, base.c + 1))
            lo, _, hi, _ = self.k.rng(v)
        else:
            lo, hi = v.lo, v.hi
        lo, hi = math.trunc(lo), math.trunc(hi)
        if hi - lo <= 1:
            return ('c', self.fork(range(lo, hi + 1)) & ((1 << w) - 1))
        return ('L', U(Q(lo), Q(hi)))

    def intv(self, v):
        return ('L', v)

    def call(self, env, i):
        n = i.x['callee'][1]
        if n.startswith('llvm.fabs'):
            v = self.val(env, *i.args[0])
            if self.sym(v):
                s = self.k.sign(v)
                n = L(-v.a, -v.b, -v.c) if isinstance(v, L) else U(-v.hi, -v.lo)
                if s <= {0, 1}:
                    return v
                if s <= {0, -1}:
                    return n
                lo, _, hi, _ = self.k.rng(v)
                return U(Q(0), max(-lo, hi))
        for p, f in (('llvm.floor', 0), ('llvm.ceil', 1)):
            if n.startswith(p):
                v = self.val(env, *i.args[0])
                if isinstance(v, L) and v.a == 1 and v.b == 1 and v.c == 0:
                    return L(1, 0, f if self.k.frac else 0)
        return Interp.call(self, env, i)

    def cast(self, v, fw, to):
        if self.sym(v):
            if to[0] == 'f':
                return v
            raise Unsupported('bits of a symbolic value')
        return Interp.cast(self, v, fw, to)


def classes(w):
    P = 23 if w == 32 else 52
    E = 128 if w == 32 else 1024
    out = [Cls(0, 0, False, w), Cls(0, 0, True, w), Cls(-1, -1, True, w)]
    for k in range(0, E):
        lo, hi = 2 ** k, 2 ** (k + 1) - 1
        out += [Cls(lo, hi, False, w), Cls(-hi, -lo, False, w)]
        if k < P:
            out += [Cls(lo, hi, True, w), Cls(-hi - 1, -lo - 1, True, w)]
    return out


CL = [('floor', 'f', 32, 0), ('ceil', 'f', 32, 1), ('floor', 'd', 64, 0), ('ceil', 'd', 64, 1)]


def part(tier, only):
    import os
    from . import driver
    mod = ir.load(driver.compile_ir(os.path.join(driver.VERIF, 'witness', 'mathint.cc')))
    out = []
    for name, ty, w, up in CL:
        d = '%s-%s' % (name, 'float' if w == 32 else 'double')
        if only and d not in only:
            continue
        fn = 'i_%s_%s' % (name, ty)
        n, bad, fs, broken = 0, [], set(), None
        for k in classes(w):
            dec = []
            n += 1
            try:
                while True:
                    I = IntInterp(mod, dec, k)
                    r = I.run(fn, [L(1, 1 if k.frac else 0, 0)])
                    fs |= I.funcs
                    want = L(1, 0, 1 if up and k.frac else 0)
                    r = I.lin(r)
                    if I.diff(r, want) != {0}:
                        raise Bad('returns %s instead of n%s' % (r, ' + 1' if up and k.frac else ''))
                    while dec and dec[-1][1] + 1 >= dec[-1][0]:
                        dec.pop()
                    if not dec:
                        break
                    dec[-1] = (dec[-1][0], dec[-1][1] + 1)
            except Bad as e:
                bad.append('%s: %s' % (k.name(), e))
            except (Unsupported, Split) as e:
                broken = '%s: %s' % (k.name(), e)
        for v in (math.inf, -math.inf, math.nan):
            n += 1
            try:
                r = Interp(mod, []).run(fn, [K(v)])
                if not (r.c[0] == v or (v != v and r.c[0] != r.c[0])):
                    bad.append('%g: returns %g' % (v, r.c[0]))
            except Unsupported as e:
                bad.append('%g: %s' % (v, e))
        v = dict(driver=d, src='witness/mathint.cc', mode='general', rule='every class of arguments returns the neighbouring integer', n_obligations=n, n_discharged=n - len(bad),
                 where=['include/nanomath.h ' + name] + bad[:5], kind='', detail='', res=None)
        if bad:
            v.update(outcome='violation', kind='rounding', detail='%s(%s): %s' % (name, 'float' if w == 32 else 'double', bad[0]))
        elif broken:
            v.update(outcome='broken', detail=broken)
        else:
            v.update(outcome='proved', detail='%d classes of arguments' % n)
        out.append(v)
    return out
