"""Shortest decimal of a binary value, decided from the IR.

For a fixed binary exponent the significand m is unknown (an integer in a range,
in a residue class).  Values are affine in m, the floor of an affine function of
m, or integers known through a zone: differences to the exact value X = kappa m
and to each other, each a multiple of its decimal unit.  A product with a table
entry and a shift is floor(a m + b); it enters the zone only when that equals
floor(alpha m + beta) for the exact power of ten for EVERY m of the range, which
the extremes of (u m + v) mod w decide.  Undecided branches are followed both
ways.  On every path the decimal returned must lie in the interval that rounds to
the value, have no shorter decimal in that interval and no closer one of its own
length."""
import os
import pickle
import random
from fractions import Fraction as Q
from math import gcd, floor, ceil
from . import ir, dec
from .dec import Unsupported, Bad, Infeasible

M = -1          # the significand, as a symbol of a form
SH = 24         # infinitesimals below an encoded bound
MASK = (1 << SH) - 1


def egcd(a, b):
    x, y, u, v = 1, 0, 0, 1
    while b:
        q = a // b
        a, b, x, u, y, v = b, a - q * b, u, x - q * u, v, y - q * v
    return a, x, y


def first(a, m, l, r):
    """least x >= 0 with l <= a x mod m <= r, or None (0 <= l <= r < m)"""
    a %= m
    if l == 0:
        return 0
    if a == 0:
        return None
    c = -(-l // a)
    if a * c <= r:
        return c
    # a x - m y in [l, r]  ->  m y mod a in [-r, -l]
    lo, hi = (-r) % a, (-l) % a
    if lo > hi:
        return None
    y = first(m % a, a, lo, hi)
    if y is None:
        return None
    return -(-(l + m * y) // a)


def hit(u, v, w, l, r, n):
    """some x in [0, n] with (u x + v) mod w in [l, r], or None"""
    if l > r or n < 0:
        return None
    best = None
    a, b = (l - v) % w, (r - v) % w
    for p, q in ((a, b),) if a <= b else ((a, w - 1), (0, b)):
        x = first(u % w, w, p, q)
        if x is not None and x <= n and (best is None or x < best):
            best = x
    return best


class F:
    """sum t[s] s + c; the integer is congruent to it modulo 2^w"""
    __slots__ = ('t', 'c')

    def __init__(self, t, c):
        self.t, self.c = t, c

    def __repr__(self):
        return ' + '.join(['%s*%s' % (v, 'm' if s == M else s) for s, v in self.t.items()] + [str(self.c)])


def fadd(a, b, k=1):
    ta, ca = (a.t, a.c) if isinstance(a, F) else ({}, a)
    tb, cb = (b.t, b.c) if isinstance(b, F) else ({}, b)
    t = dict(ta)
    for s, v in tb.items():
        n = t.get(s, 0) + k * v
        if n:
            t[s] = n
        else:
            t.pop(s, None)
    c = ca + k * cb
    return F(t, c) if t else whole(c)


def whole(c):
    return int(c) if isinstance(c, Q) and c.denominator == 1 else c


def fmul(a, k):
    if not isinstance(a, F):
        return whole(a * k)
    return F({s: v * k for s, v in a.t.items()}, a.c * k) if k else 0


class P:
    """conjunction of undecided facts, perhaps negated"""
    __slots__ = ('a', 'neg')

    def __init__(self, a, neg=False):
        self.a, self.neg = a, neg


class Dom:
    """what is known of m and of the zone variables"""

    def __init__(self, lo, hi, e2, unit=None):
        self.pos, self.out, self.found, self.at = 0, None, [0, set()], None
        self.lo, self.hi, self.mod, self.res = lo, hi, 1, 0
        self.nf = []                  # (a, b, d): d does not divide a m + b
        self.e2 = e2
        self.q0 = None
        self.ix = [0, 1]              # the variables in use
        self.u = [0, 0]               # unit of each zone variable; 0: the constant, X
        self.g = [0, 0]               # and what it is congruent to: r modulo g
        self.r = [0, 0]
        self.d = [[0, None], [None, 0]]
        self.bound = {}               # fl -> variable
        self.divs = {}
        self.exact = []               # (var, alpha, beta)

    fork = dec.Ctx.fork

    # m
    def mset(self):
        lo = self.lo + (self.res - self.lo) % self.mod
        hi = self.hi - (self.hi - self.res) % self.mod
        if lo > hi:
            raise Infeasible
        self.lo, self.hi = lo, hi

    def congruent(self, a, b, d, r=0):
        """assume a m + b = r mod d"""
        x = self.sol(a, b - r, d)
        if x is None:
            raise Infeasible
        s, t = x
        g = gcd(self.mod, t)
        if (s - self.res) % g:
            raise Infeasible
        _, p, _ = egcd(self.mod, t)
        n = self.mod * t // g
        self.res = (self.res + self.mod * ((s - self.res) // g * p % (t // g))) % n
        self.mod = n
        self.mset()

    @staticmethod
    def sol(a, b, d):
        """m = s mod t  <=>  d | a m + b (None: never)"""
        g = gcd(a, d)
        if b % g:
            return None
        t = d // g
        _, p, _ = egcd(a // g % t if t > 1 else 0, t)
        return (-(b // g) * p) % t, t

    def divisible(self, a, b, d):
        """does d divide a m + b: True, False or None (depends)"""
        # m = res + mod k
        A, B = a * self.mod, a * self.res + b
        x = self.sol(A, B, d)
        if x is None:
            return False
        s, t = x
        if t == 1:
            return True
        k0, k1 = (self.lo - self.res) // self.mod, (self.hi - self.res) // self.mod
        f = k0 + (s - k0) % t
        if f > k1:
            return False
        if k0 == k1:
            return True
        # in terms of m: m = res + mod s (mod mod t)
        S, T = self.res + self.mod * s, self.mod * t
        for p, q, e in self.nf:
            if (p * S + q) % e == 0 and (p * T) % e == 0:
                return False
        return None

    def integral(self, a, b):
        """is a m + b (rational coefficients) an integer"""
        a, b = Q(a), Q(b)
        n = a.denominator * b.denominator // gcd(a.denominator, b.denominator)
        return True if n == 1 else self.divisible(int(a * n), int(b * n), n)

    def mbounds(self, a, b):
        x, y = a * self.lo + b, a * self.hi + b
        return (x, y) if x <= y else (y, x)

    # zone
    def new(self, unit):
        n = len(self.u)
        for k in range(2, n):
            if k not in self.ix:
                n = k
                break
        else:
            self.u.append(0)
            self.g.append(0)
            self.r.append(0)
            for r in self.d:
                r.append(None)
            self.d.append([None] * (n + 1))
        self.u[n], self.g[n], self.r[n] = unit, unit, 0
        self.d[n][n] = 0
        self.ix.append(n)
        return n

    def keep(self, used):
        """forget the other variables (their consequences for these are already drawn)"""
        used = used | {0, 1} | set(self.bound.values())
        for v in [v for v in self.ix if v not in used]:
            self.ix.remove(v)
            for r in self.d:
                r[v] = None
            self.d[v] = [None] * len(self.u)
        for k in [k for k, y in self.divs.items() if y not in used or k[0] not in used]:
            del self.divs[k]

    def tight(self, i, j, e):
        g = gcd(self.g[i], self.g[j])
        if g <= 0:
            return e
        v = -((-e) >> SH)
        s = e & MASK
        r = (v - self.r[i] + self.r[j]) % g
        return (v - r if r else v - g if s else v) << SH

    def le(self, i, j, v, strict=False):
        """x_i - x_j <= v"""
        e = (v << SH) - (1 if strict else 0)
        if i == j:
            if e < 0:
                raise Infeasible
            return
        self.close([(i, j, self.tight(i, j, e))])

    def close(self, work):
        """shortest paths again after smaller entries; an entry that tightens is itself
        propagated"""
        d, ix = self.d, self.ix
        todo = {}
        for i, j, e in work:
            if d[i][j] is None or e < d[i][j]:
                if d[j][i] is not None and d[j][i] + e < 0:
                    raise Infeasible
                d[i][j] = e
                todo[i, j] = 1
        left = 4000
        while todo and left:
            left -= 1                 # what is not propagated is merely not known
            i, j = next(iter(todo))
            del todo[i, j]
            e = d[i][j]
            dj = [(b, e + y) for b, y in enumerate(d[j]) if y is not None and b != j] + [(j, e)]
            for a in ix:
                x = 0 if a == i else d[a][i]
                if x is None:
                    continue
                da = d[a]
                for b, y in dj:
                    z = x + y
                    if b != a and (da[b] is None or z < da[b]):
                        t = self.tight(a, b, z)
                        if d[b][a] is not None and d[b][a] + t < 0:
                            raise Infeasible
                        if t != z:
                            todo[a, b] = 1
                        da[b] = t

    def bounds(self, f):
        """rational bounds of a form, (lo, hi); None: unknown"""
        if not isinstance(f, F):
            return f, f
        t = f.t
        z = [s for s in t if isinstance(s, int) and s > 0]
        rest = [s for s in t if not (isinstance(s, int) and s > 0)]
        lo = hi = Q(f.c)
        if rest:
            l, h = self.lbounds({s: t[s] for s in rest})
            lo, hi = lo + l, hi + h
        if len(z) == 2 and t[z[0]] == -t[z[1]]:
            i, j = z if t[z[0]] > 0 else z[::-1]
            k = t[i]
            u, l = self.d[i][j], self.d[j][i]
            if u is None or l is None:
                raise Unsupported('unbounded')
            return lo - k * self.val(l), hi + k * self.val(u)
        for i in z:
            k = t[i]
            u, l = self.d[i][0], self.d[0][i]
            if u is None or l is None:
                raise Unsupported('unbounded')
            a, b = -k * self.val(l), k * self.val(u)
            lo, hi = lo + min(a, b), hi + max(a, b)
        return lo, hi

    @staticmethod
    def val(e):
        return -((-e) >> SH)

    def lbounds(self, t):
        """bounds of an integer form over m and floors: a floor is its argument less
        something in [0, 1)"""
        a = c = lo = hi = Q(0)
        sl = sh = False
        for s, k in t.items():
            if s == M:
                a += k
            else:
                a, c = a + k * s[1], c + k * s[2]
                if k > 0:
                    lo, sl = lo - k, True
                else:
                    hi, sh = hi - k, True
        x, y = self.mbounds(a, c)
        lo, hi = lo + x, hi + y
        if all(Q(k).denominator == 1 for k in t.values()):
            lo = Q(floor(lo) + 1 if sl else ceil(lo))
            hi = Q(ceil(hi) - 1 if sh else floor(hi))
        if len(t) == 1 and M not in t:
            (s, k), = t.items()
            x, y = self.mbounds(s[1], s[2])
            x, y = sorted((k * floor(x), k * floor(y)))
            lo, hi = max(lo, x), min(hi, y)
        return lo, hi

    def simp(self, f):
        """floors that have become exact"""
        if isinstance(f, F):
            if M in f.t and self.lo == self.hi:
                f = fadd(F({s: v for s, v in f.t.items() if s != M}, f.c), f.t[M] * self.lo) if len(f.t) > 1 else f.c + f.t[M] * self.lo
            for s in list(f.t) if isinstance(f, F) else ():
                if isinstance(s, tuple):
                    if self.lo == self.hi:
                        r = floor(s[1] * self.lo + s[2])
                    elif self.integral(s[1], s[2]):
                        r = F({M: s[1]}, s[2])
                    else:
                        x, y = self.mbounds(s[1], s[2])
                        if floor(x) != floor(y):
                            continue
                        r = floor(x)
                    k = f.t[s]
                    f = fadd(F({x: v for x, v in f.t.items() if x != s}, f.c), fmul(r, k))
                    if not isinstance(f, F):
                        break
            if isinstance(f, F) and not f.t:
                f = f.c
        if isinstance(f, Q):
            if f.denominator != 1:
                raise Unsupported('not an integer')
            f = int(f)
        return f

    def scale(self, q):
        """the zone counts in parts of 10^q units of the exact value"""
        if self.q0 is None:
            self.q0 = q
            self.one = 1000 * (Q(2) ** self.e2 / Q(10) ** q).denominator
            self.kap = 4 * Q(2) ** self.e2 / Q(10) ** q * self.one
            self.g[1], self.r[1] = int(self.kap * self.mod), int(self.kap * self.res)
            x, y = self.kap * self.lo, self.kap * self.hi
            self.le(1, 0, int(y))
            self.le(0, 1, -int(x))

    def power(self, a):
        """q with 4 * 2^e2 / 10^q nearest a"""
        x = Q(4) * Q(2) ** self.e2 / a
        q = len(str(floor(x))) - 1 if x >= 1 else -(len(str(floor(1 / x))) - 1)
        return min(range(q - 2, q + 3), key=lambda k: abs(x / Q(10) ** k - 1)), x

    def bind(self, s):
        """a zone variable for floor(a m + b)"""
        if s in self.bound:
            return self.bound[s]
        _, a, b = s
        if a <= 0:
            raise Unsupported('floor of a decreasing function')
        # the power of ten it stands for: 4 * 2^e2 / 10^q = a
        q, x = self.power(a)
        if abs(x / Q(10) ** q - 1) > Q(1, 1 << 30):
            raise Bad('a value is scaled by something that is no power of ten times the binary unit')
        al = Q(4) * Q(2) ** self.e2 / Q(10) ** q
        be = b
        if a != al:
            k = b / a * 4                      # offset in quarters of the unit
            if abs(k - round(k)) > Q(1, 1 << 20):
                raise Bad('an offset of %.6g quarter units' % float(k))
            be = al * round(k) / 4
        self.same(a, b, al, be)
        self.scale(q)
        U = Q(10) ** (q - self.q0) * self.one
        if U.denominator != 1 or (be * U).denominator != 1:
            raise Unsupported('scales too far apart')
        v = self.new(int(U))
        self.bound[s] = v
        self.exact.append((v, al, be, int(U)))
        self.le(v, 1, int(be * U))
        self.le(1, v, int(U - be * U), True)
        self.recheck(v)
        return v

    def retight(self, v):
        d = self.d
        self.close([(i, j, t) for k in self.ix if k != v for i, j in ((v, k), (k, v)) if d[i][j] is not None
                    for t in (self.tight(i, j, d[i][j]),) if t < d[i][j]])

    def recheck(self, only=None):
        if self.q0 is not None and self.g[1] != self.kap * self.mod:
            self.g[1], self.r[1] = int(self.kap * self.mod), int(self.kap * self.res)
            self.retight(1)
        for v, al, be, U in self.exact:
            if only in (None, v):
                r = self.integral(al, be)
                if r is True:
                    self.le(1, v, int(-be * U))
                elif r is False:
                    self.le(v, 1, int(be * U), True)
                n = al * self.mod
                if n.denominator == 1 and n * U != self.g[v]:
                    # floor(al (res + mod t) + be) = n t + floor(al res + be)
                    self.g[v], self.r[v] = int(n * U), floor(al * self.res + be) % int(n) * U
                    self.retight(v)

    def same(self, a, b, al, be):
        """floor(a m + b) = floor(al m + be) for every m of the range, or Bad"""
        if (a, b) == (al, be):
            return
        n = al.denominator * be.denominator // gcd(al.denominator, be.denominator)
        u, v = int(al * n), int(be * n)
        x, y = self.mbounds(a - al, b - be)
        cnt = self.hi - self.lo
        w = u * self.lo + v
        if y > 0:
            # too large by up to y: wrong where the fraction exceeds 1 - y
            h = hit(u, w, n, max(0, ceil(n * (1 - y))), n - 1, cnt)
            if h is not None:
                self.differ(a, b, al, be, self.lo + h, u, w, n, y, cnt)
        if x < 0:
            h = hit(u, w, n, 0, ceil(n * -x) - 1, cnt)
            if h is not None:
                self.differ(a, b, al, be, self.lo + h, u, w, n, x, cnt)

    def differ(self, a, b, al, be, m, u, w, n, slack, cnt):
        # the error grows with m: settle range by range
        if self.lo < self.hi:
            if floor(a * m + b) != floor(al * m + be):
                if (m - self.res) % self.mod == 0:
                    raise Bad('the scaled value is not the floor of the exact one for significand %d' % m, [m])
            # look at smaller ranges
            todo, cntr = [(self.lo, self.hi)], 0
            while todo:
                cntr += 1
                if cntr > 4000:
                    raise Unsupported('scaling not settled')
                lo, hi = todo.pop()
                xs = [(a - al) * lo + b - be, (a - al) * hi + b - be]
                x, y = min(xs), max(xs)
                bad = None
                W = u * lo + (w - u * self.lo)
                if y > 0:
                    bad = hit(u, W, n, max(0, ceil(n * (1 - y))), n - 1, hi - lo)
                if bad is None and x < 0:
                    bad = hit(u, W, n, 0, ceil(n * -x) - 1, hi - lo)
                if bad is None:
                    continue
                k = lo + bad
                if floor(a * k + b) != floor(al * k + be):
                    if (k - self.res) % self.mod == 0:
                        raise Bad('the scaled value is not the floor of the exact one for significand %d' % k, [k])
                if lo == hi:
                    continue
                # k itself is fine or outside the class: split around it
                h = (lo + hi) // 2
                todo += [(lo, h), (h + 1, hi)]
        elif floor(a * m + b) != floor(al * m + be):
            raise Bad('the scaled value is not the floor of the exact one for significand %d' % m, [m])

    def zone(self, f):
        """form over zone variables only"""
        f = self.simp(f)
        while isinstance(f, F) and any(isinstance(s, tuple) for s in f.t):
            s = next(s for s in f.t if isinstance(s, tuple))
            v = self.bind(s)
            k = f.t[s]
            f = fadd(F({x: w for x, w in f.t.items() if x != s}, f.c), F({v: Q(k, self.u[v])}, 0))
        if isinstance(f, F) and M in f.t:
            k = f.t[M]
            if self.q0 is None:
                if k <= 0:
                    raise Unsupported('no scale')
                self.scale(self.power(Q(k))[0])
            f = fadd(F({x: w for x, w in f.t.items() if x != M}, f.c), F({1: Q(k) / self.kap}, 0))
        return f

    def div(self, f, d):
        """floor(f / d) for a form f >= 0"""
        f = self.simp(f)
        if not isinstance(f, F):
            return f // d
        if all(s == M or isinstance(s, tuple) for s in f.t) and (d % 10 or M not in f.t):
            # multiples of d come out; floor((j + floor(x))/d) = floor((j + x)/d)
            out = {s: Q(k) / d for s, k in f.t.items() if s != M and k % d == 0}
            rest = [s for s in f.t if s != M and s not in out]
            if self.integral(f.t.get(M, 0), f.c) is not True:
                raise Unsupported('quotient of fractions')
            a, b = Q(f.t.get(M, 0)), Q(f.c)
            if len(rest) == 1 and f.t[rest[0]] == 1 and not (d % 10 == 0 and len(f.t) == 1):
                a, b = a + rest[0][1], b + rest[0][2]
                rest = []
            if not rest:
                return self.simp(fadd(F(out, 0), F({('fl', a / d, b / d): 1}, 0) if a else floor(b / d)))
        return self.zdiv(self.zone(f), d)

    def zdiv(self, f, d):
        if not isinstance(f, F):
            return f // d
        lo, hi = self.bounds(f)
        if lo // d == hi // d:
            return int(lo // d)
        z = list(f.t)
        if len(z) == 1 and z[0] != M and Q(f.t[z[0]]).numerator == 1 and f.t[z[0]] == (Q(1, self.u[z[0]]) if z[0] != 1 else f.t[1]):
            x, c = z[0], f.c
            U = Q(f.t[x]).denominator
            key = x, c, d, U
            if key not in self.divs:
                y = self.new(U * d)
                self.divs[key] = y
                self.le(y, x, int(c * U))
                self.le(x, y, int((d - 1 - c) * U))
            y = self.divs[key]
            return F({y: Q(1, self.u[y])}, 0)
        raise Unsupported('quotient of a combination')

    # facts
    def assume(self, at, yes):
        k, f, n = at
        if k == 'div':
            a, b = f
            if yes:
                self.congruent(a, b, n)
            elif n == 2:
                self.congruent(a, b, n, 1)
            else:
                self.nf.append((a, b, n))
                if self.divisible(a, b, n) is True:
                    raise Infeasible
            self.recheck()
        elif k == 'le':
            # f <= 0
            self.sign(f, 1) if yes else self.sign(fadd(fmul(f, -1), 1), 1)
        elif k == 'eq':
            if yes:
                self.sign(f, 1)
                self.sign(fmul(f, -1), 1)
            else:
                lo, hi = self.bounds(f)
                if lo == 0 == hi:
                    raise Infeasible
                j = 0
                if lo < 0 < hi:
                    j = self.fork(2)
                if hi == 0 or lo < 0 and j:
                    self.sign(fadd(f, 1), 1)
                elif lo == 0 or lo < 0:
                    self.sign(fadd(fmul(f, -1), 1), 1)

    def sign(self, f, _):
        """assume f <= 0"""
        if not isinstance(f, F):
            if f > 0:
                raise Infeasible
            return
        z = list(f.t)
        if z == [M]:
            a, b = f.t[M], f.c
            if a > 0:
                self.hi = min(self.hi, floor(Q(-b) / a))
            else:
                self.lo = max(self.lo, ceil(Q(b) / -a))
            if self.lo > self.hi:
                raise Infeasible
            self.mset()
            if self.q0 is not None:
                self.le(1, 0, int(self.kap * self.hi))
                self.le(0, 1, -int(self.kap * self.lo))
            return
        if all(isinstance(s, int) and s > 0 for s in z):
            if len(z) == 2 and f.t[z[0]] == -f.t[z[1]]:
                i, j = z if f.t[z[0]] > 0 else z[::-1]
                self.le(i, j, floor(-f.c / f.t[i]))
                return
            if len(z) == 1:
                i, k = z[0], f.t[z[0]]
                if k > 0:
                    self.le(i, 0, floor(Q(-f.c) / k))
                else:
                    self.le(0, i, floor(Q(-f.c) / -k))
        # otherwise nothing is learnt


class Interp(dec.Interp):
    def val(self, env, ty, v):
        return super().val(env, ty, v)

    def num(self, v):
        if isinstance(v, (int, F)):
            return v
        if isinstance(v, P):
            return int(self.decide(v))
        if isinstance(v, tuple) and v[0] == 'undef':
            raise Unsupported('use of an uninitialised value')
        raise Unsupported('not an integer')

    def conc(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, P):
            return int(self.decide(v))
        f = self.x.simp(v)
        if isinstance(f, int):
            return f
        lo, hi = self.x.bounds(self.x.zone(f))
        if lo == hi:
            return int(lo)
        raise Unsupported('a symbolic value where a known one is needed')

    def bit(self, v):
        if isinstance(v, F):
            v = self.x.simp(v)
            if isinstance(v, F):
                if self.x.bounds(v) != (0, 1):
                    raise Unsupported('truth of a symbolic value')
                return self.x.fork(2)
        return int(self.decide(v)) if isinstance(v, P) else v

    def decide(self, p):
        x = self.x
        left = [a for a in p.a]
        k = x.fork(2)
        if k == 0:
            for a in left:
                x.assume(a, True)
            return not p.neg
        # some fact fails: the first that does
        j = x.fork(len(left)) if len(left) > 1 else 0
        for a in left[:j]:
            x.assume(a, True)
        x.assume(left[j], False)
        return p.neg

    def get(self, f, w):
        """the value itself (forms count modulo 2^w)"""
        if not isinstance(f, F):
            return f & ((1 << w) - 1)
        f = self.x.simp(f)
        if not isinstance(f, F):
            return f & ((1 << w) - 1)
        if any(isinstance(s, int) and s > 0 for s in f.t):
            f = self.x.zone(f)
            if not isinstance(f, F):
                return f & ((1 << w) - 1)
        lo, hi = self.x.bounds(f)
        if lo // (1 << w) == hi // (1 << w):
            return fadd(f, -(int(lo // (1 << w)) << w))
        if any(s in self.x.bound for s in f.t):
            g = self.x.zone(f)
            lo, hi = self.x.bounds(g)
            if lo // (1 << w) == hi // (1 << w):
                return fadd(g, -(int(lo // (1 << w)) << w))
        if all(s == M or isinstance(s, tuple) for s in f.t):
            return fadd(f, fmul(self.x.div(f, 1 << w), 1 << w), -1)
        raise Unsupported('a value may wrap (%s bits)' % w)

    def residue(self, f):
        """f = A m + B - d floor((A m + B)/d): (A, B, d)"""
        if isinstance(f, F) and len(f.t) == 2 and M in f.t:
            s = next(s for s in f.t if s != M)
            if isinstance(s, tuple):
                d = -f.t[s]
                if d > 0 and s[1] * d == f.t[M] and s[2] * d == f.c:
                    a, b = Q(f.t[M]), Q(f.c)
                    n = a.denominator * b.denominator // gcd(a.denominator, b.denominator)
                    return int(a * n), int(b * n), int(d * n)
        return None

    def icmp(self, pred, a, b, w):
        if isinstance(a, tuple) and a[0] == 'p' or isinstance(b, tuple) and b[0] == 'p':
            return super().icmp(pred, a, b, w)
        if isinstance(a, P) or isinstance(b, P):
            p, o = (a, b) if isinstance(a, P) else (b, a)
            if isinstance(o, int) and pred in ('eq', 'ne') and o in (0, 1):
                return p if (pred == 'ne') == (o == 0) else P(p.a, not p.neg)
        a, b = self.num(a), self.num(b)
        if pred[0] == 's':
            a, b = [v if isinstance(v, F) else v - (1 << w) if v >> (w - 1) else v for v in (a, b)]
        fa, fb = a, b
        a, b = [self.get(v, w) if isinstance(v, F) else v for v in (a, b)]
        if pred in ('ult', 'ugt') and w >= 32:
            # carries and borrows
            (u, fu), (v, fv) = ((a, fa), (b, fb)) if pred == 'ult' else ((b, fb), (a, fa))
            lin = lambda f: not isinstance(f, F) or all(s == M or isinstance(s, tuple) for s in f.t)
            if all(lin(f) for f in (u, v, fu, fv)):
                for o, y, k in ((v, fadd(fu, v, -1), 1), (v, fadd(fu, fv, -1), 1), (u, fadd(u, fv, -1), -1), (u, fadd(fu, fv, -1), -1)):
                    lo, hi = self.x.bounds(y)
                    if lo < 0 or hi >= 1 << w:
                        continue
                    # o + k y wraps?
                    c = fmul(self.x.div(fadd(o, y, k), 1 << w), k)
                    if self.x.bounds(c)[0] >= 0 and self.x.bounds(c)[1] <= 1:
                        return c
        if isinstance(b, F) and not isinstance(a, F):
            a, b = b, a
            pred = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(pred[1:], pred) if pred not in ('eq', 'ne') else pred
            pred = pred if pred in ('eq', 'ne') else 'u' + pred
        p = pred if pred in ('eq', 'ne') else pred[1:]
        x = self.x
        r = self.residue(a)
        if r and b == 0 and p in ('eq', 'ne'):
            t = x.divisible(*r)
            if t is not None:
                return int(t == (p == 'eq'))
            return P([('div', r[:2], r[2])], p == 'ne')
        d = fadd(a, b, -1)
        if isinstance(d, F) and not all(s == M for s in d.t):
            if not any(isinstance(s, int) and s > 0 for s in d.t):
                lo, hi = x.bounds(d)
                for q, v in (('lt', hi < 0), ('ge', lo >= 0), ('le', hi <= 0), ('gt', lo > 0), ('ne', lo > 0 or hi < 0)):
                    if v and p == q:
                        return 1
                    if v and p == {'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le', 'ne': 'eq'}[q]:
                        return 0
            d = x.zone(d)
        if not isinstance(d, F):
            d = int(d)
            return int({'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[p])
        lo, hi = x.bounds(d)
        if p in ('eq', 'ne'):
            if lo > 0 or hi < 0:
                return int(p == 'ne')
            if lo == hi == 0:
                return int(p == 'eq')
            return P([('eq', d, 0)], p == 'ne')
        if p in ('gt', 'ge'):
            d, p, lo, hi = fmul(d, -1), {'gt': 'lt', 'ge': 'le'}[p], -hi, -lo
        if p == 'lt':
            d, lo, hi = fadd(d, 1), lo + 1, hi + 1
        if hi <= 0:
            return 1
        if lo > 0:
            return 0
        return P([('le', d, 0)])

    def iop(self, op, a, b, w, i=None):
        x = self.x
        if isinstance(a, P) or isinstance(b, P):
            p, o = (a, b) if isinstance(a, P) else (b, a)
            if op == 'and':
                if isinstance(o, int):
                    return p if o & 1 else 0
                if isinstance(o, P) and not p.neg and not o.neg:
                    return P(p.a + o.a)
            if op == 'or' and isinstance(o, int) and o in (0, 1):
                return 1 if o else p
            if op == 'xor' and isinstance(o, int) and o in (0, 1):
                return P(p.a, not p.neg) if o else p
        if op in ('and', 'or') and isinstance(a, tuple) and a[0] in ('undef', 'm') and isinstance(b, int):
            u, v = ((1 << w) - 1, 0) if a[0] == 'undef' else a[1:]
            u, v = (u & b, v & b) if op == 'and' else (u & ~b, v | b)
            return ('m', u, v) if u else v
        a, b = self.num(a), self.num(b)
        if isinstance(a, int) and isinstance(b, int):
            if w <= 64 and op in ('shl', 'lshr', 'ashr') and b >= w:
                raise Bad('shift by %d bits of a %d-bit value' % (b, w))
            return self.small(op, a, b, w, i)
        if op in ('add', 'sub'):
            return fadd(a, b, 1 if op == 'add' else -1)
        if op == 'or':
            # disjoint bits
            f, k = (a, b) if isinstance(a, F) else (b, a)
            if isinstance(k, int):
                f = self.get(f, w)
                if isinstance(f, int):
                    return f | k
                if x.bounds(f)[1] < (k & -k if k else 1 << w):
                    return fadd(f, k)
            elif isinstance(a, F) and isinstance(b, F):
                for f, g in ((a, b), (b, a)):
                    g = self.get(g, w)
                    n = min([(int(k) & -int(k)) for k in list(f.t.values()) + [f.c] if k and Q(k).denominator == 1] or [0])
                    if all(Q(k).denominator == 1 for k in f.t.values()) and n and x.bounds(g)[0] >= 0 and x.bounds(g)[1] < n:
                        return fadd(f, g)
            raise Unsupported('or of symbolic values')
        if op == 'mul':
            if not isinstance(a, int):
                a, b = b, a
            if not isinstance(a, int):
                raise Unsupported('product of symbolic values')
            if a >> (w - 1):
                a -= 1 << w
            return fmul(b, a)
        if op == 'shl' and isinstance(b, int):
            return fmul(a, 1 << b)
        if op == 'lshr' and isinstance(b, int):
            return x.div(self.get(a, w), 1 << b)
        if op == 'udiv' and isinstance(b, int):
            return x.div(self.get(a, w), b)
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b & (b + 1) == 0:
                f = self.get(a, w) if b.bit_length() < w else a
                return fadd(f, fmul(x.div(f, b + 1), b + 1), -1)
        if op == 'urem' and isinstance(b, int):
            f = self.get(a, w)
            if b % 10 and isinstance(f, F) and (any(isinstance(s, int) and s > 0 for s in f.t) or M not in f.t):
                v = x.new(1)
                x.le(v, 0, b - 1)
                x.le(0, v, 0)
                return F({v: Q(1)}, 0)
            return fadd(f, fmul(x.div(f, b), b), -1)
        raise Unsupported('%s of symbolic values' % op)

    def small(self, op, a, b, w, i):
        K = (1 << w) - 1
        sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        if op in ('add', 'sub'):
            if i is not None and 'nsw' in (i.flags or ()):
                r = sg(a) + sg(b) if op == 'add' else sg(a) - sg(b)
                if not -(1 << (w - 1)) <= r < 1 << (w - 1):
                    raise Bad('signed overflow')
            return (a + b if op == 'add' else a - b) & K
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
            raise Bad('division by zero')
        if op in ('sdiv', 'srem'):
            s, t = sg(a), sg(b)
            q = abs(s) // abs(t) * (1 if (s < 0) == (t < 0) else -1)
            return (q if op == 'sdiv' else s - q * t) & K
        r = {'mul': lambda: a * b, 'udiv': lambda: a // b, 'urem': lambda: a % b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
             'shl': lambda: a << b, 'lshr': lambda: a >> b, 'ashr': lambda: sg(a) >> b}.get(op)
        if r is None:
            raise Unsupported(op)
        return r() & K

    def load(self, p, ty):
        t = self.m.resolve(ty)
        if p[1] is not None and p[1][0] == 'a':
            if t[0] == 'st':
                o = self.m.offsets(t)
                return ('agg', [self.load(('p', p[1], p[2] + o[k]), e) for k, e in enumerate(t[1])])
            v = self.mem.get((p[1], p[2]))
            if v is not None and t[0] == 'i' and v[1] < t[1] // 8:
                # several values read as one
                parts, at = [], p[2]
                while at < p[2] + t[1] // 8:
                    v = self.mem.get((p[1], at))
                    if v is None:
                        break
                    parts.append((at - p[2],) + v)
                    at += v[1]
                else:
                    if not all(isinstance(q[1], int) for q in parts):
                        return ('cat', parts)
        return super().load(p, ty)

    def store(self, p, v, ty):
        if isinstance(v, tuple) and v[0] == 'cat':
            for o, x, n in v[1]:
                self.mem[(p[1], p[2] + o)] = (x, n)
            return True
        if isinstance(v, tuple) and v[0] == 'agg':
            t = self.m.resolve(ty)
            o = self.m.offsets(t)
            for k, x in enumerate(v[1]):
                self.mem[(p[1], p[2] + o[k])] = (x, self.m.size(t[1][k]))
            return True
        return False

    def step(self, env, i):
        op = i.op
        if op == 'store':
            v, p = self.val(env, *i.args[0]), self.val(env, *i.args[1])
            if p[1] is not None and p[1][0] == 'a':
                self.inb(p, self.m.size(i.args[0][0]))
                if self.store(p, v, i.args[0][0]):
                    return None
        if op == 'insertvalue':
            a, v = self.val(env, *i.args[0]), self.val(env, *i.args[1])
            n = len(self.m.resolve(i.args[0][0])[1])
            a = list(a[1]) if isinstance(a, tuple) and a[0] == 'agg' else [('undef',)] * n
            a[i.x[0]] = v
            return ('agg', a)
        if op == 'extractvalue':
            return self.val(env, *i.args[0])[1][i.x[0]]
        if op in ('zext', 'trunc', 'sext'):
            v = self.val(env, *i.args[0])
            fw, tw = self.m.resolve(i.args[0][0])[1], self.m.resolve(i.ty)[1]
            if isinstance(v, P):
                if op == 'sext' and fw == 1:
                    v = self.num(v)
                    return (1 << tw) - 1 if v else 0
                return v
            if isinstance(v, int):
                if op == 'sext' and v >> (fw - 1):
                    return v | ((1 << tw) - (1 << fw))
                return v & ((1 << tw) - 1)
            if isinstance(v, F):
                if op == 'trunc':
                    return v
                v = self.get(v, fw)
                if op == 'sext' and isinstance(v, F) and self.x.bounds(v)[1] >= 1 << (fw - 1):
                    raise Unsupported('sign of a symbolic value')
                if op == 'sext' and isinstance(v, int) and v >> (fw - 1):
                    return v | ((1 << tw) - (1 << fw))
                return v
            raise Unsupported(op)
        if op == 'select':
            c = self.val(env, *i.args[0])
            a, b = self.val(env, *i.args[1]), self.val(env, *i.args[2])
            if isinstance(c, P):
                if a == 1 and b == 0:
                    return c
                if a == 0 and b == 1:
                    return P(c.a, not c.neg)
                if b == 0 and isinstance(b, int):
                    return self.iop('and', c, a, 1)      # c && a
                c = int(self.decide(c))
            if isinstance(c, F):
                if a == 1 and b == 0:
                    return c
                c = self.bit(c)
            return a if c & 1 else b
        if op == 'freeze':
            return self.val(env, *i.args[0])
        return super().step(env, i)

    def enter(self, f, b, env):
        live = self.live(f)[b.name]
        for k in [k for k in env if k not in live]:
            del env[k]
        if len(self.x.ix) > 8:
            used = set()
            for e in self.frames:
                for v in e.values():
                    zones(v, used)
            for v in self.mem.values():
                zones(v, used)
            # what the last digits were found not to be is known of the coarsest
            x = self.x
            top = max([x.u[v] for v in used] or [0])
            x.keep(used | {v for v in x.ix if x.u[v] >= top})

    LIVE = {}

    def live(self, f):
        """names needed from the first instruction of each block on"""
        if f.name in self.LIVE:
            return self.LIVE[f.name]
        use, edge = {}, {}
        for b in f.blocks.values():
            need, seen = set(), set(i.dest for i in b.phis)
            for i in b.instrs:
                if i.op != 'phi':
                    need |= names((i.args, i.x))
            use[b.name] = need
            for i in b.phis:
                for v, l in i.x:
                    edge.setdefault((l, b.name), set()).update(names(v))
        live = {n: set(u) for n, u in use.items()}
        change = True
        while change:
            change = False
            for b in f.blocks.values():
                more = set()
                for s in b.succs:
                    more |= live[s] | edge.get((b.name, s), set())
                if not more <= live[b.name]:
                    live[b.name] |= more
                    change = True
        self.LIVE[f.name] = live
        return live

    def call(self, env, i):
        n = i.x['callee'][1] if i.x['callee'][0] == 'g' else ''
        if n.startswith('llvm.umul.with.overflow') or n.startswith('llvm.ctlz'):
            raise Unsupported(n)
        if n.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax', 'llvm.abs', 'llvm.usub', 'llvm.uadd', 'llvm.fshl', 'llvm.fshr')):
            raise Unsupported(n)
        return super().call(env, i)


def names(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'l':
        return {v[1]}
    if isinstance(v, dict):
        v = list(v.values())
    out = set()
    if isinstance(v, (tuple, list)):
        for y in v:
            out |= names(y)
    return out


def zones(v, out):
    """the zone variables a value mentions"""
    if isinstance(v, F):
        out.update(s for s in v.t if isinstance(s, int) and s > 0)
    elif isinstance(v, P):
        zones(v.a, out)
    elif isinstance(v, (tuple, list)):
        for y in v:
            zones(y, out)


# --- claims --------------------------------------------------------------------
FMT = {'f2d': (23, 8, 32), 'd2d': (52, 11, 64)}


def start(mod, fn, e, lo, hi, cls=()):
    """interpreter with the two outputs as memory; m in [lo, hi]"""
    Pb, EB, w = FMT[fn]
    bias = (1 << (EB - 1)) - 1
    e2 = max(e, 1) - bias - Pb - 2
    imp = (1 << Pb) if e else 0
    x = Dom(lo + imp, hi + imp, e2)
    for at, yes in cls:
        x.assume(at, yes)
    I = Interp(mod, x)
    I.size = {('a', 1): w // 8, ('a', 2): 4}
    m = F({M: 1}, -imp) if lo < hi else lo
    return I, x, [m, e, ('p', ('a', 1), 0), ('p', ('a', 2), 0)]


def analyse(mod, fn, e, lo, hi, cls=()):
    top = os.getpid()
    x = None
    try:
        I, x, args = start(mod, fn, e, lo, hi, cls)
        try:
            I.run('t_' + fn, args)
            judge(I, x, e, lo)
        except Infeasible:
            pass
        x.found[0] += 1
        x.found[1] |= I.funcs
    except BaseException as y:
        if isinstance(y, Bad):
            y = Bad(y.args[0], cands(x, y.args[1] if len(y.args) > 1 else []) if x else [], unsure(x) if x else [])
        if os.getpid() == top:
            raise y
        n = type(y).__name__
        x.found = (n, y.args) if n in ('Bad', 'Unsupported') else ('Unsupported', ('%s: %s' % (n, y),))
    if os.getpid() == top:
        return tuple(x.found)
    with os.fdopen(x.out, 'wb') as f:
        f.write(pickle.dumps(tuple(x.found)))
    os._exit(0)


def judge(I, x, e, lo):
    o, k = I.mem[(('a', 1), 0)][0], I.mem[(('a', 2), 0)][0]
    k = I.conc(k)
    k -= (k >> 31) << 32
    w = FMT_W(I)
    o = I.get(I.num(o), w)
    if x.q0 is None:
        x.scale(k)
    x.at = k
    o = x.zone(o)
    x.recheck()
    S = Q(10) ** (k - x.q0) * x.one       # the decimal unit, in zone units
    q = Q(2) ** x.e2 / Q(10) ** x.q0 * x.one
    low, high = (1 if lo == 0 else 2) * q, 2 * q    # half gaps
    if S.denominator != 1 or q.denominator != 1:
        raise Unsupported('result at a finer scale')
    S, low, high = int(S), int(low), int(high)
    even = x.divisible(1, 0, 2)
    if not isinstance(o, F):
        o = F({}, o)
    z = [s for s in o.t]
    if len(z) > 1 or z and (z[0] <= 0 or o.t[z[0]] * S != 1):
        raise Unsupported('result is not one scaled value: %r' % o)
    v, c = z[0] if z else 0, int(o.c * S)
    closed = even is True
    # 1. in the interval:  X - low <= v + c <= X + high
    for i, j, t, what in ((v, 1, high - c, 'above'), (1, v, low + c, 'below')):
        b = x.d[i][j]
        if b is None or b > ((t << SH) if closed else (t << SH) - 1):
            raise Bad('the decimal can lie %s the interval that reads back as the value' % what)
    # 2. nothing shorter:  no multiple of 10 S in the interval
    def none(build, what):
        old = [r[:] for r in x.d], x.u[:], x.g[:], x.r[:], x.ix[:]
        try:
            build()
        except Infeasible:
            return
        finally:
            x.d, x.u, x.g, x.r, x.ix = old
        raise Bad(what)

    def shorter():
        y = x.new(10 * S)
        x.le(y, 1, high, not closed)
        x.le(1, y, low, not closed)
    none(shorter, 'a decimal with fewer digits can read back as the value')
    # 3. nothing closer of the same length

    def up():
        x.le(v, 1, -(S // 2) - c, True)
        x.le(v, 1, high - c - S, not closed)

    def down():
        x.le(1, v, -(S // 2) + c, True)
        x.le(1, v, low + c - S, not closed)
    if S % 2:
        raise Unsupported('unit')
    none(up, 'the next larger decimal can be closer')
    none(down, 'the next smaller decimal can be closer')


def FMT_W(I):
    return I.size[('a', 1)] * 8


def exact(mod, fn, e, m):
    """what is wrong for one value, or None"""
    Pb, EB, w = FMT[fn]
    I, x, args = start(mod, fn, e, m, m)
    name = lambda: '%s for significand %#x, exponent field %d' % (fn, m, e)
    try:
        I.run('t_' + fn, args)
    except Bad as y:
        return '%s: %s' % (name(), y.args[0])
    o, k = I.mem[(('a', 1), 0)][0], I.mem[(('a', 2), 0)][0]
    if not isinstance(o, int) or not isinstance(k, int):
        raise Unsupported('result')
    k -= (k >> 31) << 32
    sig = m + ((1 << Pb) if e else 0)
    u = Q(2) ** (x.e2)
    X = 4 * sig * u
    lo, hi = X - (1 if m == 0 and e > 1 else 2) * u, X + 2 * u
    closed = sig % 2 == 0
    inside = lambda y: lo <= y <= hi if closed else lo < y < hi
    T = Q(10) ** k
    V = o * T
    if not inside(V):
        return '%s: prints %dE%d, which does not read back as the value' % (name(), o, k)
    for z in (floor(X / T / 10), floor(X / T / 10) + 1):
        if inside(z * 10 * T) and z:
            return '%s: prints %dE%d, but %dE%d is shorter and reads back too' % (name(), o, k, z, k + 1)
    for z in (o - 1, o + 1):
        if inside(z * T) and abs(z * T - X) < abs(V - X):
            return '%s: prints %dE%d, but %dE%d is closer' % (name(), o, k, z, k)
    return None


def cands(x, given):
    out = list(given)
    lo, hi = x.lo, x.hi
    if lo > hi:
        return out
    rnd = random.Random(1)
    n = (hi - lo) // x.mod
    base = lo + (x.res - lo) % x.mod
    pick = lambda: base + x.mod * rnd.randint(0, max(0, n))
    out += [base, base + x.mod * n] + [pick() for _ in range(12)]
    # ends and ties: 4 m s + c near a multiple of half a power of ten
    s = Q(2) ** x.e2
    dig = len(str(floor(4 * hi * s))) if 4 * hi * s >= 1 else 1 - len(str(floor(1 / (4 * hi * s))))
    for k in range(dig - 18, dig + 1):
        for c in (0, 2, -2, -1):
            al, be = 8 * s / Q(10) ** k, 2 * c * s / Q(10) ** k
            d = al.denominator * be.denominator // gcd(al.denominator, be.denominator)
            u, v = int(al * d), int(be * d)
            cnt = hi - lo
            for tol in (0, d // max(1, cnt) * 4):
                h = hit(u, u * lo + v, d, 0, min(tol, d - 1), cnt)
                if h is not None:
                    out.append(lo + h)
                if tol:
                    h = hit(u, u * lo + v, d, d - min(tol, d), d - 1, cnt)
                    if h is not None:
                        out.append(lo + h)
            # solutions within the class
            y = x.sol(u * x.mod, u * x.res + v, d)
            if y:
                t = base + x.mod * ((y[0] - (base - x.res) // x.mod) % y[1])
                if t <= hi:
                    out.append(t)
    return sorted(set(m for m in out if lo <= m <= hi or m in given))


def settle(mod, fn, e, lo, hi):
    """('ok', paths, funcs) | ('bad', text) | ('open', text)"""
    Pb = FMT[fn][0]
    imp = (1 << Pb) if e else 0
    try:
        if lo == hi:
            t = exact(mod, fn, e, lo)
            return ('bad', t) if t else ('ok', 1, set())
    except Unsupported as y:
        return 'open', 'exponent field %d: %s' % (e, y)
    todo, paths, funcs, tries = [()], 0, set(), 0
    while todo:
        cls = todo.pop()
        try:
            tries += 1
            k, fs = analyse(mod, fn, e, lo, hi, cls)
            paths += k
            funcs |= fs
        except Unsupported as y:
            return 'open', 'exponent field %d: %s' % (e, y)
        except Infeasible:
            continue
        except Bad as y:
            try:
                for m in y.args[1] if len(y.args) > 1 else []:
                    t = exact(mod, fn, e, m - imp)
                    if t:
                        return 'bad', t
                # no counterexample: smaller classes, or every member of a small one
                x = start(mod, fn, e, lo, hi, cls)[1]
                if (x.hi - x.lo) // x.mod < 64:
                    for m in range(x.lo, x.hi + 1, x.mod):
                        t = exact(mod, fn, e, m - imp)
                        if t:
                            return 'bad', t
                        paths += 1
                    continue
            except Unsupported as z:
                return 'open', str(z)
            d = next_split(x, cls, y.args[2] if len(y.args) > 2 else []) if tries < 60 else None
            if not d:
                return 'open', 'exponent field %d: %s' % (e, y.args[0])
            for yes in (False, True):
                c = cls + ((d, yes),)
                try:
                    start(mod, fn, e, lo, hi, c)
                except Infeasible:
                    continue
                todo.append(c)
    return 'ok', paths, funcs


def unsure(x):
    """divisibilities the path leaves open: is a floor of it exact, at the scale of the
    result or at the one it was computed at"""
    out = []
    for _, al, be, _ in x.exact:
        for k in (x.at - x.q0 if x.at is not None and x.q0 is not None else 0, 0):
            a, b = al / Q(10) ** k, be / Q(10) ** k
            n = a.denominator * b.denominator // gcd(a.denominator, b.denominator)
            d = ('div', (int(a * n), int(b * n)), n)
            if n > 1 and d not in out and x.divisible(*d[1], n) is None:
                out.append(d)
    return out


def next_split(x, cls, asked):
    """a divisibility that is not known; then parity"""
    done = [d for d, _ in cls]
    for d in asked:
        if d not in done and x.divisible(*d[1], d[2]) is None:
            return d
    if sum(1 for z in done if z[1][0] == 1) < 6:
        # m = res + mod k: parity of k
        return ('div', (1, -x.res), 2 * x.mod)
    return None


_S = {}


def jobs(fn, tier):
    """(claim, exponent field, first and last significand bits)"""
    Pb, EB, _ = FMT[fn]
    top = (1 << EB) - 2
    if fn == 'f2d':
        es = list(range(top + 1))
    else:
        # where quotients by powers of five can be exact the paths are many
        slow = range(1091, 1158)
        es = [e for e in range(top + 1) if e not in slow and (tier == 'thorough' or e % 8 == 1 or e in (0, 1, 2, top) or 1018 <= e <= 1028 or 1070 <= e <= 1078)]
        es = (list(slow)[::3] if tier == 'thorough' else [1094]) + es
    out = []
    for e in es:
        c = 'subnormal values' if e == 0 else 'normal values'
        out.append((c, e, 1, (1 << Pb) - 1))
        if e:
            out.append(('powers of two', e, 0, 0))
    return out


def _job(k):
    mod, fn, js = _S['x']
    _, e, lo, hi = js[k]
    try:
        return (k,) + settle(mod, fn, e, lo, hi)
    except (Bad, Infeasible) as y:
        return k, 'open', 'exponent field %d: %s' % (e, y.args[0] if y.args else 'no path')


def part(tier, only):
    import multiprocessing
    from . import driver
    src = os.path.join(driver.VERIF, 'witness', 'shortest.cc')
    out = []
    try:
        mod = ir.load(driver.compile_ir(src))
    except driver.CompileError as x:
        if driver.renamed(str(x), 'nanostring.h'):
            return [dict(driver='digit generation', src='witness/shortest.cc', mode='compile', outcome='bounded', kind='not-analysed', detail='f2d and d2d are not there', where=[], n_obligations=0, n_discharged=0, rule='not analysed', res=None)]
        raise
    for fn, ty in (('f2d', 'float'), ('d2d', 'double')):
        if only and not any(o.startswith(ty) for o in only):
            continue
        js = jobs(fn, tier)
        _S['x'] = (mod, fn, js)
        per = {}
        with multiprocessing.Pool(driver.JOBS if hasattr(driver, 'JOBS') else 8) as p:
            for r in p.imap_unordered(_job, range(len(js))):
                g = per.setdefault(js[r[0]][0], dict(n=0, ok=0, paths=0, bad=[], open=[], fs=set()))
                g['n'] += 1
                if r[1] == 'ok':
                    g['ok'] += 1
                    g['paths'] += r[2]
                    g['fs'] |= r[3]
                else:
                    g[r[1]].append(r[2])
        for claim in sorted(per):
            g = per[claim]
            v = dict(driver='%s: %s' % (ty, claim), src='witness/shortest.cc', mode='general',
                     rule='on every path, for every significand of the exponent, the decimal lies in the interval that reads back as the value, no shorter one does and none of its length is closer',
                     n_obligations=g['n'], n_discharged=g['ok'], where=['include/__nanostrutil.h (%s)' % ', '.join(sorted(g['fs'])[:8])] + g['bad'][:5] + g['open'][:5], kind='', detail='', res=None)
            if g['bad']:
                v.update(outcome='violation', kind='printing', detail=min(g['bad'], key=len))
            elif not g['ok']:
                v.update(outcome='broken', detail='%d of %d exponents not settled: %s' % (len(g['open']), g['n'], g['open'][0]))
            else:
                v.update(outcome='bounded' if g['open'] else 'proved', detail='%d of %d exponents, %d paths%s' % (g['ok'], g['n'], g['paths'], '; open: ' + g['open'][0] if g['open'] else ''))
            out.append(v)
    return out
