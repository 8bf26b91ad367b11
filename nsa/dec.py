"""Decimal-to-binary conversion, decided from the IR.

The interpreter runs the compiled parser on a numeral whose digits are unknown
(the digit string is a symbol ranging over an interval) with the layout and the
exponent text fixed.  Integers are exact affine forms over symbols; a shift,
mask, division or wrap introduces a quotient symbol Q with x = d Q + rho, rho in
a known range, so later recombinations cancel exactly.  Undecided comparisons
are followed both ways and refine the symbols they determine.  On every path the
returned bit pattern, decoded, must be within half a unit of the last place of
the decimal value (up to a relative slack of 2^-20 of that unit)."""
import math
import os
import pickle
from fractions import Fraction as Q
from . import ir


class Unsupported(Exception):
    pass


class Bad(Exception):
    pass


class Infeasible(Exception):
    pass


class A:
    """sum t[s] * s + c over symbols"""
    __slots__ = ('t', 'c')

    def __init__(self, t, c):
        self.t, self.c = t, c

    def __repr__(self):
        return ' + '.join(['%d*s%d' % (k, s) for s, k in sorted(self.t.items())] + [str(self.c)])


def ladd(a, b, k=1):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + k * b
        a = A({}, a)
    if isinstance(b, int):
        return A(a.t, a.c + k * b)
    t = dict(a.t)
    for s, v in b.t.items():
        n = t.get(s, 0) + k * v
        if n:
            t[s] = n
        else:
            t.pop(s, None)
    return A(t, a.c + k * b.c) if t else a.c + k * b.c


def lmul(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return A({s: v * k for s, v in a.t.items()}, a.c * k)


class Sym:
    __slots__ = ('lo', 'hi', 'e', 'd', 'rlo', 'rhi', 'kind', 'mod', 'res')

    def __init__(self, lo, hi, e=None, d=0, kind=None):
        self.lo, self.hi, self.e, self.d, self.kind = lo, hi, e, d, kind
        self.rlo, self.rhi = 0, d - 1
        self.mod, self.res = 1, 0      # value is res modulo mod


class Ctx:
    def __init__(self):
        self.s = []
        self.tab = {}
        self.pos, self.out, self.found = 0, None, [0, set()]
        self.rels = []
        self.acc = None
        self.busy, self.todo, self.uses, self.relof = False, set(), {}, {}

    def simp(self, a):
        """values that have become known"""
        if isinstance(a, A):
            k = {s: self.s[s].lo for s in a.t if self.s[s].lo == self.s[s].hi}
            if k:
                t = {s: v for s, v in a.t.items() if s not in k}
                c = a.c + sum(a.t[s] * v for s, v in k.items())
                return A(t, c) if t else c
        return a

    def fork(self, n):
        """which of n continuations this is: the others are followed in processes of
        their own, which report what they found"""
        if n == 1:
            return 0
        self.pos += 1
        if self.pos > 60:
            raise Unsupported('too many undecided branches')
        for k in range(1, n):
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                os.close(r)
                self.out, self.found = w, [0, set()]
                return k
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                got = f.read()
            os.waitpid(pid, 0)
            got = pickle.loads(got) if got else ('Unsupported', ('a path was not finished',))
            if isinstance(got[0], str):
                raise {'Bad': Bad, 'Unsupported': Unsupported}[got[0]](*got[1])
            self.found[0] += got[0]
            self.found[1] |= got[1]
            if self.found[0] > 3000:
                raise Unsupported('more than 3000 paths')
        return 0

    def new(self, *a, **k):
        y = Sym(*a, **k)
        self.s.append(y)
        if y.e is not None:
            for s in y.e.t:
                self.uses.setdefault(s, []).append(len(self.s) - 1)
        return len(self.s) - 1

    def direct(self, t, clo, chi):
        for s, k in t.items():
            y = self.s[s]
            if k > 0:
                clo += k * y.lo
                chi += k * y.hi
            else:
                clo += k * y.hi
                chi += k * y.lo
        return clo, chi

    def bounds(self, a):
        if isinstance(a, int):
            return a, a
        lo, hi, den = self.rbounds(a.t, a.c)
        return lo, hi

    def rbounds(self, t, c, den=1, integral=True):
        """bounds of (sum t + c) / den; integers when the value is one"""
        T = {s: k for s, k in t.items() if self.s[s].lo < self.s[s].hi}
        r = self.rb(T, c + sum(k * self.s[s].lo for s, k in t.items() if s not in T), den, integral)
        if len(T) < len(t) and any(self.s[s].e is not None for s in t if s not in T):
            u = self.rb(t, c, den, integral)
            r = max(r[0], u[0]), min(r[1], u[1]), den
        return r

    def rb(self, t, c, den, integral):
        t, clo, chi = dict(t), c, c
        blo = bhi = None
        while True:
            a, b = self.direct(t, clo, chi)
            if integral:
                a, b = -((-a) // den), b // den
            else:
                a, b = Q(a, den), Q(b, den)
            blo = a if blo is None or a > blo else blo
            bhi = b if bhi is None or b < bhi else bhi
            s = max((s for s in t if self.s[s].e is not None), default=None)
            if s is None or (integral and blo == bhi):
                return blo, bhi, den
            y = self.s[s]
            k = t.pop(s)
            d = y.d
            if k % d == 0:
                k //= d
            else:
                t = {x: v * d for x, v in t.items()}
                clo, chi, den = clo * d, chi * d, den * d
            e = y.e
            for x, v in e.t.items():
                n = t.get(x, 0) + k * v
                if n:
                    t[x] = n
                else:
                    t.pop(x, None)
            if k > 0:
                clo, chi = clo + k * (e.c - y.rhi), chi + k * (e.c - y.rlo)
            else:
                clo, chi = clo + k * (e.c - y.rlo), chi + k * (e.c - y.rhi)

    def floor(self, a, d):
        if isinstance(a, int):
            return a // d
        out, rest, c = {}, {}, a.c
        for s, k in a.t.items():
            q, r = divmod(k, d)
            # keep small negative remainders as they are
            if r and k < 0 and -k < d:
                q, r = 0, k
            if r and self.s[s].lo == self.s[s].hi:
                c += r * self.s[s].lo
                r = 0
            if q:
                out[s] = q
            if r:
                rest[s] = r
        qc, rc = divmod(c, d)
        o = A(out, qc) if out else qc
        if not rest:
            return o
        g = math.gcd(d, *rest.values())
        # floor((g R + rc)/d) = floor((R + floor(rc/g)) / (d/g))
        rest = {s: k // g for s, k in rest.items()}
        rc, d = rc // g, d // g
        if d == 1:
            return ladd(o, A(rest, rc))
        e = A(rest, rc)
        lo, hi = self.bounds(e)
        if lo // d == hi // d:
            return ladd(o, lo // d)
        if len(rest) == 1:
            (s, k), = rest.items()
            y = self.s[s]
            if k == 1 and y.e is not None:
                return ladd(o, self.floor(ladd(y.e, rc * y.d), d * y.d))
        if COMPOSE:
            s = max((s for s, k in rest.items() if k == 1 and self.s[s].e is not None), default=None)
            if s is not None:
                # the rest is a whole number: one division
                y = self.s[s]
                r = dict(rest)
                del r[s]
                return ladd(o, self.floor(ladd(lmul(A(r, rc), y.d), y.e), d * y.d))
        key = (tuple(sorted(rest.items())), rc, d)
        q = self.tab.get(key)
        if q is None:
            q = self.tab[key] = self.new(lo // d, hi // d, e, d)
            # a quotient of the same number by a divisor of d
            for (kt, kc, kd), p in list(self.tab.items()):
                if p == q:
                    continue
                if d % kd == 0:
                    J = self.offset(key[0], rc, kt, kc, kd)
                    if J is not None:
                        self.relate(q, p, d // kd, J)
                if kd % d == 0 and d != kd:
                    J = self.offset(kt, kc, key[0], rc, d)
                    if J is not None:
                        self.relate(p, q, kd // d, J)
            self.todo.add(q)
            self.prop()
        return ladd(o, A({q: 1}, 0))

    def offset(self, kq, cq, kp, cp, d):
        """(what Q divides - what P divides) / d when that is a whole number"""
        if (cq - cp) % d:
            return None
        t = dict(kq)
        for s, k in kp:
            t[s] = t.get(s, 0) - k
        if any(k % d for k in t.values()):
            return None
        t = {s: k // d for s, k in t.items() if k}
        return A(t, (cq - cp) // d) if t else (cq - cp) // d

    def wrap(self, a, w):
        if isinstance(a, int):
            return a & ((1 << w) - 1)
        M = 1 << w
        t = {s: k for s, k in a.t.items() if k % M}
        c = a.c
        if len(t) != len(a.t):
            a = A(t, c) if t else c % M
            if isinstance(a, int):
                return a
        lo, hi = self.bounds(a)
        if 0 <= lo and hi < M:
            return a
        if lo // M == hi // M:
            return ladd(a, -(lo // M) * M)
        return ladd(a, lmul(self.floor(a, M), -M))

    def carry(self, a, w):
        """a sum that may wrap once: followed both ways, the carry known"""
        if isinstance(a, int):
            return a & ((1 << w) - 1)
        M = 1 << w
        r = self.simp(A({s: k for s, k in a.t.items() if k % M}, a.c))
        lo, hi = self.bounds(r)
        if lo // M == hi // M:
            return ladd(r, -(lo // M) * M)
        lo, hi = self.bounds(a)
        if hi // M - lo // M != 1:
            return self.wrap(a, w)
        key = (tuple(sorted(a.t.items())), a.c, M)
        q = self.tab.get(key)
        if q is None:
            q = self.tab[key] = self.new(lo // M, hi // M, a, M)
        y = self.s[q]
        if y.lo != y.hi:
            k = y.lo + self.fork(2)
            self.refine(q, k, k)
        return ladd(a, A({q: -M}, 0))

    # refinement
    def refine(self, s, lo, hi):
        y = self.s[s]
        ch = False
        if lo is not None and lo > y.lo:
            y.lo, ch = lo, True
        if hi is not None and hi < y.hi:
            y.hi, ch = hi, True
        if y.lo > y.hi:
            raise Infeasible
        if ch:
            self.todo.add(s)
            if y.e is not None:
                self.assume(y.e, y.d * y.lo + y.rlo, y.d * y.hi + y.rhi)
            self.prop()

    def rho(self, s, lo, hi):
        y = self.s[s]
        ch = False
        if lo is not None and lo > y.rlo:
            y.rlo, ch = lo, True
        if hi is not None and hi < y.rhi:
            y.rhi, ch = hi, True
        if y.rlo > y.rhi:
            raise Infeasible
        if ch:
            self.todo.add(s)
            lo, hi = self.bounds(y.e)
            self.refine(s, -((y.rhi - lo) // y.d), (hi - y.rlo) // y.d)
            if y.rlo == y.rhi:
                self.congruent(s)
            self.prop()

    def congruent(self, s):
        """s = (e - rho)/d exactly: what e is modulo d (and more) is known"""
        y = self.s[s]
        if y.e is None or y.rlo != y.rhi:
            return
        e = self.simp(y.e)
        if isinstance(e, int) or len(e.t) != 1:
            return
        (p, k), = e.t.items()
        if k != 1:
            return
        x = self.s[p]
        m, r = y.d * y.mod, (y.rlo + y.d * y.res - e.c)
        m2, r2 = x.mod, x.res
        g = math.gcd(m, m2)
        if (r - r2) % g:
            raise Infeasible
        l = m // g * m2
        if l == m2:
            return
        self.todo.add(p)
        x.res = (r2 + (r - r2) // g * pow(m2 // g, -1, m // g) % (m // g) * m2) % l if m != g else r2 % l
        x.mod = l
        self.congruent(p)

    def grid(self, s):
        """rho is in a residue class when what it is the remainder of is"""
        y = self.s[s]
        if y.mod > 1:
            lo, hi = y.lo + (y.res - y.lo) % y.mod, y.hi - (y.hi - y.res) % y.mod
            if (lo, hi) != (y.lo, y.hi):
                self.refine(s, lo, hi)
        if y.e is None:
            return
        lo, hi = self.bounds(y.e)
        self.refine(s, -((y.rhi - lo) // y.d), (hi - y.rlo) // y.d)
        if lo == hi:
            self.rho(s, lo % y.d, lo % y.d)
            self.congruent(s)
        if y.rlo == y.rhi:
            self.congruent(s)
            return
        g, r = y.d, y.e.c
        for x, k in y.e.t.items():
            if self.s[x].lo == self.s[x].hi:
                r += k * self.s[x].lo
                continue
            g = math.gcd(g, k * self.s[x].mod)
            if g == 1:
                return
            r += k * self.s[x].res
        lo, hi = y.rlo + (r - y.rlo) % g, y.rhi - (y.rhi - r) % g
        if lo > hi:
            raise Infeasible
        if (lo, hi) != (y.rlo, y.rhi):
            self.rho(s, lo, hi)

    def prop(self):
        if self.busy:
            return
        self.busy = True
        seen = {}
        while self.todo:
            s = self.todo.pop()
            n = seen[s] = seen.get(s, 0) + 1
            if n > VISITS:
                continue
            self.grid(s)
            for x in self.uses.get(s, ()):
                self.grid(x)
            for r in self.relof.get(s, ()):
                self.related(*r)
        self.todo.clear()
        self.busy = False

    def relate(self, *r):
        self.rels.append(r)
        self.relof.setdefault(r[0], []).append(r)
        self.relof.setdefault(r[1], []).append(r)

    def related(self, q, p, c, J):
        # P + J = c Q + b; what they divide is dq Q + rq and dp P + rp, the former dp J
        # larger, dq = c dp, so rq = b dp + rp
        y, x = self.s[q], self.s[p]
        lo, hi = self.bit.get((q, p), (0, c - 1))
        jl, jh = self.bounds(J)
        l, h = max(lo, x.lo + jl - c * y.hi, -((x.rhi - y.rlo) // x.d)), min(hi, x.hi + jh - c * y.lo, (y.rhi - x.rlo) // x.d)
        if l > h:
            raise Infeasible
        if (l, h) != (lo, hi):
            lo, hi = self.bit[(q, p)] = (l, h)
            self.todo.add(q)
            self.todo.add(p)
        self.refine(p, c * y.lo + lo - jh, c * y.hi + hi - jl)
        self.refine(q, -((hi - x.lo - jl) // c), (x.hi + jh - lo) // c)
        self.rho(q, lo * x.d + x.rlo, hi * x.d + x.rhi)

    bit = {}

    def assume(self, a, lo, hi):
        """lo <= a <= hi"""
        if isinstance(a, int):
            if (lo is not None and a < lo) or (hi is not None and a > hi):
                raise Infeasible
            return
        if len(a.t) > 1:
            a = self.simp(a)
            if isinstance(a, int):
                return self.assume(a, lo, hi)
        t = a.t
        if len(t) == 1:
            (s, k), = t.items()
            l = None if lo is None else lo - a.c
            h = None if hi is None else hi - a.c
            if k < 0:
                l, h, k = None if h is None else -h, None if l is None else -l, -k
            self.refine(s, None if l is None else -((-l) // k), None if h is None else h // k)
            return
        for s in sorted(t, reverse=True):
            y = self.s[s]
            if y.e is None or t[s] % y.d:
                continue
            f = -t[s] // y.d
            rest = ladd(a, ladd(y.e, A({s: -y.d}, 0)), -f)
            if isinstance(rest, int):
                l = None if lo is None else lo - rest
                h = None if hi is None else hi - rest
                if f < 0:
                    l, h, f = None if h is None else -h, None if l is None else -l, -f
                self.rho(s, None if l is None else -((-l) // f), None if h is None else h // f)
                return
        for q, p, c, J in self.rels:
            if q in t and p in t and t[q] == -c * t[p]:
                k = t[p]
                r = ladd(a, lmul(ladd(ladd(A({p: 1}, 0), A({q: 1}, 0), -c), J), k), -1)
                if not isinstance(r, int):
                    continue
                l = None if lo is None else lo - r
                h = None if hi is None else hi - r
                if k < 0:
                    l, h, k = None if h is None else -h, None if l is None else -l, -k
                o = self.bit.get((q, p), (0, c - 1))
                l = o[0] if l is None else max(o[0], -((-l) // k))
                h = o[1] if h is None else min(o[1], h // k)
                if l > h:
                    raise Infeasible
                self.bit[(q, p)] = (l, h)
                self.todo |= {p, q}
                self.prop()
                return
        if len(t) > 1:
            self.inverse(t, None if lo is None else lo - a.c, None if hi is None else hi - a.c)

    def inverse(self, t, lo, hi):
        """lo <= sum t <= hi: bounds for what it is computed from"""
        t = dict(t)
        for _ in range(20):
            s = max((s for s in t if self.s[s].e is not None), default=None)
            if s is None:
                return
            y = self.s[s]
            k = Q(t.pop(s)) / y.d
            for x, v in y.e.t.items():
                n = t.get(x, 0) + k * v
                if n:
                    t[x] = n
                else:
                    t.pop(x, None)
            a, b = (y.e.c - y.rhi) * k, (y.e.c - y.rlo) * k
            if a > b:
                a, b = b, a
            lo = None if lo is None else lo - b
            hi = None if hi is None else hi - a
            if len(t) == 1:
                (x, k), = t.items()
                l, h = (lo, hi) if k > 0 else (hi, lo)
                self.refine(x, None if l is None else math.ceil(l / Q(k)), None if h is None else math.floor(h / Q(k)))
                return

    def integral(self, t, c):
        """do the congruences known make sum t s + c (rationals) an integer"""
        for s, k in t.items():
            y = self.s[s]
            if y.lo == y.hi:
                c += k * y.lo
                continue
            if (k * y.mod).denominator != 1:
                return False
            c += k * y.res
        return Q(c).denominator == 1

    def ratbounds(self, t, c):
        den = 1
        for k in list(t.values()) + [c]:
            den = den * Q(k).denominator // math.gcd(den, Q(k).denominator)
        T = {s: int(k * den) for s, k in t.items()}
        lo, hi, _ = self.rbounds(T, int(c * den), den, integral=self.integral(t, c))
        return Q(lo), Q(hi)


class Interp:
    def __init__(self, mod, ctx, mem=None):
        self.m, self.x = mod, ctx
        self.mem = dict(mem) if mem else {}
        self.steps, self.nal = 0, 1000
        self.funcs = set()
        self.frames = []

    def val(self, env, ty, v):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        ty = self.m.resolve(ty)
        if k == 'c':
            return v[1] & ((1 << ty[1]) - 1)
        if k == 'f':
            return ('f', v[1], ty[1])
        if k == 'null':
            return ('p', None, 0)
        if k == 'zero':
            return ('f', 0, ty[1]) if ty[0] == 'f' else ('p', None, 0) if ty[0] == 'ptr' else 0
        if k == 'g':
            return ('p', ('g', v[1]), 0)
        if k == 'undef':
            return ('undef',)
        raise Unsupported('operand %s' % k)

    def run(self, fname, args):
        f = self.m.funcs.get(fname)
        if f is None or f.decl:
            raise Unsupported('call of undefined ' + fname)
        self.funcs.add(fname)
        env = {}
        for p, a in zip(f.params, args):
            env[p[1]] = a
        b, prev = f.blocks[f.order[0]], None
        self.frames.append(env)
        while True:
            ph = [(i.dest, self.val(env, i.ty, [v for v, l in i.x if l == prev][0])) for i in b.phis]
            env.update(ph)
            self.enter(f, b, env)
            for i in b.instrs:
                op = i.op
                if op == 'phi':
                    continue
                self.steps += 1
                if self.steps > 60000:
                    raise Unsupported('too many steps')
                if op == 'br':
                    nxt = i.x if not i.args else i.x[0 if self.bit(self.val(env, *i.args[0])) & 1 else 1]
                    break
                if op == 'switch':
                    v = self.conc(self.val(env, *i.args[0]))
                    nxt = i.x[0]
                    w = self.m.resolve(i.args[0][0])[1]
                    for k, l in i.x[1]:
                        if k & ((1 << w) - 1) == v:
                            nxt = l
                    break
                if op == 'invoke':
                    r = self.call(env, i)
                    if i.dest is not None:
                        env[i.dest] = r
                    nxt = i.x['normal']
                    break
                if op == 'ret':
                    self.frames.pop()
                    return self.val(env, *i.args[0]) if i.args else None
                if op == 'unreachable':
                    raise Bad('reaches unreachable code')
                r = self.step(env, i)
                if i.dest is not None:
                    env[i.dest] = r
            prev, b = b.name, f.blocks[nxt]

    def bit(self, v):
        return v

    def enter(self, f, b, env):
        pass

    def conc(self, v):
        if isinstance(v, int):
            return v
        v = self.num(v)
        if isinstance(v, int):
            return v
        lo, hi = self.x.bounds(v)
        if lo == hi:
            self.x.assume(v, lo, lo)
            return lo
        if hi - lo > 4:
            raise Unsupported('a symbolic value where a known one is needed')
        k = lo + self.x.fork(hi - lo + 1)
        self.x.assume(v, k, k)
        return k

    def num(self, v):
        if isinstance(v, (int, A)):
            return v
        if v[0] == 'sl':
            _, o, k, n = v
            a = self.x.floor(o, 1 << (8 * k))
            return self.x.wrap(a, 8 * n)
        if v[0] == 'undef':
            raise Unsupported('use of an uninitialised value')
        raise Unsupported('not an integer: %s' % v[0])

    def signed(self, v, w):
        if isinstance(v, int):
            return v - (1 << w) if v >> (w - 1) else v
        lo, hi = self.x.bounds(v)
        h = 1 << (w - 1)
        if hi < h:
            return v
        if lo >= h:
            return ladd(v, -(1 << w))
        raise Unsupported('sign of a symbolic value')

    def icmp(self, pred, a, b, w):
        if isinstance(a, tuple) and a[0] == 'p' or isinstance(b, tuple) and b[0] == 'p':
            a, b = [('p', None, z) if isinstance(z, int) else z for z in (a, b)]
            if pred in ('eq', 'ne'):
                return int((a == b) == (pred == 'eq'))
            if a[1] != b[1]:
                raise Unsupported('comparison of unrelated pointers')
            a, b = a[2], b[2]
        a, b = self.num(a), self.num(b)
        if pred[0] == 's':
            a, b = self.signed(a, w), self.signed(b, w)
        d = ladd(a, b, -1)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if isinstance(d, int):
            return int({'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[p])
        lo, hi = self.x.bounds(d)
        if p in ('eq', 'ne'):
            if lo > 0 or hi < 0:
                return int(p == 'ne')
            if lo == hi == 0:
                return int(p == 'eq')
            opts = [(0, 0)] + ([(1, None)] if hi > 0 else []) + ([(None, -1)] if lo < 0 else [])
            k = self.x.fork(len(opts))
            self.x.assume(d, *opts[k])
            return int((k == 0) == (p == 'eq'))
        t, f = {'lt': ((None, -1), (0, None)), 'le': ((None, 0), (1, None)), 'gt': ((1, None), (None, 0)), 'ge': ((0, None), (None, -1))}[p]
        can = lambda r: (r[0] is None or hi >= r[0]) and (r[1] is None or lo <= r[1])
        if not can(f):
            return 1
        if not can(t):
            return 0
        k = self.x.fork(2)
        self.x.assume(d, *(t, f)[k])
        return 1 - k

    def iop(self, op, a, b, w, i=None):
        x = self.x
        if op in ('and', 'or') and isinstance(a, tuple) and a[0] in ('undef', 'm') and isinstance(b, int):
            u, v = ((1 << w) - 1, 0) if a[0] == 'undef' else a[1:]
            u, v = (u & b, v & b) if op == 'and' else (u & ~b, v | b)
            return ('m', u, v) if u else v
        a, b = self.num(a), self.num(b)
        M = 1 << w
        if op in ('add', 'sub'):
            r = ladd(a, b, 1 if op == 'add' else -1)
            if i is not None and 'nsw' in (i.flags or ()):
                self.nsw(op, a, b, w)
            return self.norm(x.carry(r, w))
        if op == 'mul':
            if not isinstance(a, int):
                a, b = b, a
            if not isinstance(a, int):
                raise Unsupported('product of two symbolic values')
            return self.norm(x.wrap(lmul(b, a), w))
        if op in ('shl', 'lshr', 'ashr'):
            k = self.conc(b)
            if k >= w:
                raise Bad('shift of a %d-bit value by %d' % (w, k if k < M // 2 else k - M))
            if op == 'shl':
                return x.wrap(lmul(a, 1 << k), w)
            if op == 'ashr':
                return x.wrap(x.floor(self.signed(a, w), 1 << k), w)
            return x.floor(a, 1 << k)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            d = self.conc(b)
            if op[0] == 's':
                a, d = self.signed(a, w), self.signed(d, w)
                if isinstance(a, int) and d:
                    q = abs(a) // abs(d) * (1 if (a < 0) == (d < 0) else -1)
                    return (q if op == 'sdiv' else a - q * d) % M
                if d <= 0 or x.bounds(a)[0] < 0:
                    raise Unsupported('signed division')
            if d == 0:
                raise Bad('division by zero')
            q = x.floor(a, d)
            return q if op[1:] == 'div' else ladd(a, lmul(q, -d))
        if isinstance(a, int) and isinstance(b, int):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        if isinstance(a, int):
            a, b = b, a
        if op == 'and':
            if not isinstance(b, int):
                raise Unsupported('mask of two symbolic values')
            if w == 1:
                return a if b else 0
            if b == 0:
                return 0
            s = (b & -b).bit_length() - 1
            n = b.bit_length()
            if b != (1 << n) - (1 << s):
                raise Unsupported('mask %x' % b)
            r = ladd(a, lmul(x.floor(a, 1 << n), -(1 << n))) if n < w else a
            if s:
                # clear the low bits
                r = lmul(ladd(x.floor(a, 1 << s), lmul(x.floor(a, 1 << n), -(1 << (n - s))) if n < w else 0), 1 << s)
            return r
        if op == 'or' or op == 'xor':
            if b == 0:
                return a
            for p, q in ((a, b), (b, a)):
                g = 0
                if isinstance(p, int):
                    g = p & -p
                else:
                    g = math.gcd(p.c, *p.t.values())
                    g = g & -g
                lo, hi = x.bounds(q)
                if 0 <= lo and hi < g:
                    return ladd(a, b)
            if DEBUG:
                print(i.text, i.dbg, a, b, x.bounds(a), x.bounds(b), x.s[max(a.t)].e if isinstance(a, A) else '')
            raise Unsupported('or of overlapping bits')
        raise Unsupported(op)

    def nsw(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            a, b = self.signed(a, w), self.signed(b, w)
            r = a + b if op == 'add' else a - b
            if not -(1 << (w - 1)) <= r < 1 << (w - 1):
                raise Bad('signed overflow')

    def norm(self, a):
        """10 * digits so far + next digit: the digits so far"""
        if isinstance(a, A) and a.c == 0 and len(a.t) == 2:
            (s, k), (u, l) = sorted(a.t.items())
            y, z = self.x.s[s], self.x.s[u]
            for (p, kp, P), (q, kq, D) in (((s, k, y), (u, l, z)), ((u, l, z), (s, k, y))):
                if kp == 10 and kq == 1 and P.kind and D.kind and P.kind[1] + 1 == D.kind[0] and D.kind[0] == D.kind[1]:
                    n = (P.kind[0], D.kind[1])
                    key = ('acc', n)
                    if key not in self.x.tab_acc:
                        lo, hi = 10 * P.lo + D.lo, 10 * P.hi + D.hi
                        pc = self.x.acc
                        if n == (1, pc[0]):
                            lo, hi = max(lo, pc[1]), min(hi, pc[2])
                        self.x.tab_acc[key] = self.x.new(lo, hi, kind=n)
                    return A({self.x.tab_acc[key]: 1}, 0)
        return a

    def load(self, p, ty):
        ty = self.m.resolve(ty)
        if p[1] is None:
            raise Bad('null pointer dereferenced')
        if p[1][0] == 'g':
            g = self.m.globals[p[1][1]]
            if not g.const:
                raise Unsupported('load of a variable')
            if not 0 <= p[2] <= self.m.size(g.ty) - self.m.size(ty):
                raise Bad('reads %s at byte %d, beyond its %d bytes' % (g.name if hasattr(g, 'name') else p[1][1], p[2], self.m.size(g.ty)))
            return self.gval(g.ty, g.init, p[2], ty)
        self.inb(p, self.m.size(ty))
        v = self.mem.get((p[1], p[2]))
        n = self.m.size(ty)
        if v is not None and v[1] == n:
            return self.cast(v[0], ty)
        if v is None or v[1] != n:
            # part of a wider value, or several narrower ones
            for o in range(p[2], p[2] - 8, -1):
                u = self.mem.get((p[1], o))
                if u is not None and o + u[1] >= p[2] + n:
                    return self.slice(u[0], p[2] - o, n, u[1])
            parts = [self.mem.get((p[1], p[2] + k)) for k in range(n)]
            if all(q is not None and q[1] == 1 for q in parts):
                vs = [q[0] for q in parts]
                if all(isinstance(q, tuple) and q[0] == 'sl' and q[3] == 1 and q[2] == k and q[1] is vs[0][1] for k, q in enumerate(vs)):
                    return self.cast(vs[0][1], ty)
                if all(isinstance(q, int) for q in vs):
                    return self.cast(sum(q << (8 * k) for k, q in enumerate(vs)), ty)
                raise Unsupported('bytes of different values')
            return ('undef',)

    def slice(self, v, k, n, size):
        if isinstance(v, tuple) and v[0] == 'f':
            v = v[1]
        if isinstance(v, int):
            return (v >> (8 * k)) & ((1 << (8 * n)) - 1)
        if isinstance(v, A):
            return ('sl', v, k, n)
        if v[0] == 'undef':
            return v
        raise Unsupported('part of a pointer')

    def cast(self, v, ty):
        if ty[0] == 'f':
            if isinstance(v, (int, A)):
                return ('f', v, ty[1])
            if v[0] == 'sl':
                return ('f', self.num(v), ty[1])
            return v
        if ty[0] == 'i' and isinstance(v, tuple) and v[0] == 'f':
            return v[1]
        return v

    def inb(self, p, n):
        sz = self.size.get(p[1])
        if sz is None:
            raise Bad('access to storage that is not live')
        if p[2] < 0 or p[2] + n > sz:
            raise Bad('access at byte %d of a %d-byte object' % (p[2], sz))

    def gval(self, ty, init, off, want):
        ty = self.m.resolve(ty)
        while ty[0] in ('arr', 'st'):
            if init[0] == 'zero':
                return ('f', 0, want[1]) if want[0] == 'f' else 0
            if ty[0] == 'arr':
                e = self.m.size(ty[2])
                k, off = divmod(off, e)
                nt = ty[2]
            else:
                o = self.m.offsets(ty)
                k = max(j for j in range(len(o) - 1) if o[j] <= off)
                off -= o[k]
                nt = ty[1][k]
            if init[0] == 'str':
                return int.from_bytes(init[1][k * e + off:k * e + off + want[1] // 8], 'little')
            el = init[1][k]
            if not isinstance(el[0], str):
                el = el[1]
            ty, init = self.m.resolve(nt), el
        return self.cast(self.val({}, ty, init), want)

    def step(self, env, i):
        op = i.op
        A_ = lambda k: self.val(env, i.args[k][0], i.args[k][1])
        if op == 'icmp':
            t = self.m.resolve(i.args[0][0])
            return self.icmp(i.x, A_(0), A_(1), t[1] if t[0] == 'i' else 64)
        if op in ir.BINOPS:
            return self.iop(op, A_(0), A_(1), self.m.resolve(i.ty)[1], i)
        if op == 'select':
            return A_(1) if self.conc(A_(0)) & 1 else A_(2)
        if op == 'freeze':
            return A_(0)
        if op == 'alloca':
            self.nal += 1
            o = ('a', self.nal)
            self.size[o] = self.m.size(i.x if i.x is not None and not isinstance(i.x, dict) else i.ty)
            return ('p', o, 0)
        if op == 'store':
            v, p = A_(0), A_(1)
            if p[1] is None:
                raise Bad('null pointer written')
            n = self.m.size(i.args[0][0])
            if p[1][0] == 'g':
                raise Bad('write to a global')
            self.inb(p, n)
            for o in range(p[2] - 7, p[2] + n):
                u = self.mem.get((p[1], o))
                if u is not None and o + u[1] > p[2] and o != p[2]:
                    if o < p[2] or o + u[1] > p[2] + n:
                        # keep the other bytes
                        for k in range(u[1]):
                            if not p[2] <= o + k < p[2] + n:
                                self.mem[(p[1], o + k)] = (self.slice(u[0], k, 1, u[1]), 1)
                    if o >= p[2]:
                        self.mem.pop((p[1], o), None)
                    elif (p[1], o) in self.mem and self.mem[(p[1], o)][1] != 1:
                        self.mem.pop((p[1], o), None)
            self.mem[(p[1], p[2])] = (v, n)
            return None
        if op == 'load':
            return self.load(A_(0), i.ty)
        if op == 'gep':
            p = A_(0)
            t, off = i.x, p[2]
            for n, (ty, v) in enumerate(i.args[1:]):
                k = self.conc(self.val(env, ty, v))
                w = self.m.resolve(ty)[1]
                k = k - (1 << w) if k >> (w - 1) else k
                if n == 0:
                    off += k * self.m.size(t)
                else:
                    t = self.m.resolve(t)
                    if t[0] == 'st':
                        off += self.m.offsets(t)[k]
                        t = t[1][k]
                    else:
                        t = t[2]
                        off += k * self.m.size(t)
            return ('p', p[1], off)
        if op == 'bitcast':
            return self.cast(A_(0), self.m.resolve(i.ty))
        if op in ('zext', 'trunc', 'sext'):
            v = A_(0)
            fw, tw = self.m.resolve(i.args[0][0])[1], self.m.resolve(i.ty)[1]
            if op == 'zext' and isinstance(v, tuple) and v[0] == 'sl':
                return self.num(v)
            if op == 'sext':
                return self.x.wrap(self.signed(self.num(v), fw), tw)
            if op == 'trunc':
                return self.x.wrap(self.num(v), tw)
            return self.num(v)
        if op == 'fneg':
            v = A_(0)
            return ('f', self.iop('xor', v[1], 1 << (v[2] - 1), v[2]), v[2])
        if op == 'fpext' and isinstance(A_(0)[1], int):
            import struct
            v = A_(0)
            return ('f', struct.unpack('<Q', struct.pack('<d', struct.unpack('<f', struct.pack('<I', v[1]))[0]))[0], 64)
        if op == 'ptrtoint':
            p = A_(0)
            if p[1] is None:
                return p[2]
            raise Unsupported('pointer as integer')
        if op == 'call':
            return self.call(env, i)
        raise Unsupported('instruction ' + op)

    def call(self, env, i):
        c = i.x['callee']
        if c[0] != 'g':
            raise Unsupported('indirect call')
        n = c[1]
        A_ = lambda k: self.val(env, i.args[k][0], i.args[k][1])
        if n.startswith('llvm.'):
            if n.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias')):
                return None
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                d, s, k = A_(0), A_(1), self.conc(A_(2))
                got = []
                if k:
                    if s[1] is not None and s[1][0] == 'g':
                        got = [(o, self.load(('p', s[1], s[2] + o), ('i', 8)), 1) for o in range(k)]
                    else:
                        self.inb(s, k)
                        got = [(o - s[2], v, z) for (b, o), (v, z) in list(self.mem.items()) if b == s[1] and s[2] <= o and o + z <= s[2] + k]
                    self.inb(d, k)
                    for o in range(k):
                        self.mem.pop((d[1], d[2] + o), None)
                    for o, v, z in got:
                        self.mem[(d[1], d[2] + o)] = (v, z)
                return None
            if n.startswith('llvm.memset'):
                d, v, k = A_(0), self.conc(A_(1)), self.conc(A_(2))
                if k:
                    self.inb(d, k)
                for o in range(k):
                    self.mem[(d[1], d[2] + o)] = (v, 1)
                return None
            if n.startswith('llvm.ctlz'):
                v = self.num(A_(0))
                w = self.m.resolve(i.ty)[1]
                lo, hi = self.x.bounds(v)
                a, b = lo.bit_length(), hi.bit_length()
                if b - a > 4:
                    raise Unsupported('leading zeros of a wide range')
                k = a + self.x.fork(b - a + 1)
                self.x.assume(v, 1 << (k - 1) if k else 0, (1 << k) - 1)
                return w - k
            if n.startswith('llvm.umul.with.overflow'):
                a, b = self.num(A_(0)), self.num(A_(1))
                if isinstance(a, int) and isinstance(b, int):
                    w = 64
                    return ('agg', [(a * b) & ((1 << w) - 1), int(a * b >> w != 0)])
            raise Unsupported(n)
        if n in ('_Znwm', '_Znam', 'malloc'):
            self.nal += 1
            o = ('a', self.nal)
            self.size[o] = self.conc(A_(0))
            return ('p', o, 0)
        if n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            p = A_(0)
            if p[1] is not None:
                if p[1] not in self.size:
                    raise Bad('releases storage that is not live')
                del self.size[p[1]]
            return None
        if n == '__assert_fail':
            t = A_(0)
            raise Bad('assertion %s fails' % self.cstr(t))
        return self.run(n, [self.val(env, a[0], a[1]) for a in i.args])

    def cstr(self, p):
        try:
            g = self.m.globals[p[1][1]]
            return g.init[1].rstrip(b'\0').decode()
        except Exception:
            return '?'


# --- driving ------------------------------------------------------------------
def build(mod, text, piece):
    """memory after constructing the string; text: characters, digits as ints
    (index from 1) for unknown digits"""
    c = Ctx()
    c.tab_acc, c.bit, c.acc = {}, {}, piece
    I = Interp(mod, c)
    I.size = {}
    n = I.run('t_size', [])
    S, T = ('a', 1), ('a', 2)
    I.size[S], I.size[T] = n, len(text) + 1
    for k, ch in enumerate(text):
        if isinstance(ch, int):
            s = c.new(1 if ch == 1 else 0, 9, kind=(ch, ch))
            v = A({s: 1}, 48)
        elif isinstance(ch, tuple):
            v = A({c.new(*ch): 1}, 0) if ch[0] < ch[1] else ch[0]
        else:
            v = ord(ch)
        I.mem[(T, k)] = (v, 1)
    I.mem[(T, len(text))] = (0, 1)
    I.run('t_make', [('p', S, 0), ('p', T, 0)])
    return I, c


def formats(w):
    return (23, 8) if w == 32 else (52, 11)


def analyse(mod, fn, w, text, piece, want):
    """every path for numerals of this shape; (paths, funcs) or raises Bad.  want:
    'nan', 'any' (not wrong: a NaN or right) or a number, as (sign, e10)"""
    top = os.getpid()
    c = None
    try:
        I, c = build(mod, text, piece)
        try:
            r = I.run(fn, [('p', ('a', 1), 0)])
            judge(c, I, r, w, want, piece)
        except Infeasible:
            pass
        c.found[0] += 1
        c.found[1] |= I.funcs
    except BaseException as x:
        if isinstance(x, Bad) and len(x.args) == 1:
            x = Bad(x.args[0], candidates(c, piece))
        if os.getpid() == top:
            raise x
        n = type(x).__name__
        c.found = (n, x.args) if n in ('Bad', 'Unsupported') else ('Unsupported', ('%s: %s' % (n, x),))
    if os.getpid() == top:
        return tuple(c.found)
    with os.fdopen(c.out, 'wb') as f:
        f.write(pickle.dumps(tuple(c.found)))
    os._exit(0)


def digits_sym(c, n):
    if n == 1:
        return next((k for k, s in enumerate(c.s) if s.kind == (1, 1)), None)
    return c.tab_acc.get(('acc', (1, n)))


def candidates(c, piece):
    """digit strings in what is left of the range"""
    if not piece or not piece[0]:
        return [None]
    lo, hi, mod, res = piece[1], piece[2], 1, 0
    m = digits_sym(c, piece[0]) if c else None
    if m is not None:
        y = c.s[m]
        lo, hi, mod, res = y.lo, y.hi, y.mod, y.res
    n = (hi - lo) // mod
    lo += (res - lo) % mod
    return sorted({lo + mod * (n * k // 24) for k in range(25) if lo + mod * (n * k // 24) <= hi} | {lo + mod * k for k in range(8) if lo + mod * k <= hi})


def point(mod, fn, w, text, value, n, want):
    """the same for one numeral: what is wrong with the result, or None"""
    d = '%0*d' % (n, value) if n else ''
    t = [d[ch - 1] if isinstance(ch, int) else ch for ch in text]
    try:
        I, c = build(mod, t, None)
        b = I.num(I.run(fn, [('p', ('a', 1), 0)])[1])
    except Bad as x:
        return '"%s": %s' % (''.join(t), x.args[0])
    P, EB = formats(w)
    s, e, f = b >> (w - 1), b >> P & (1 << EB) - 1, b & (1 << P) - 1
    if e == (1 << EB) - 1 and f:
        return None if want in ('nan', 'any') else '"%s" gives a NaN' % ''.join(t)
    if want == 'nan':
        return '"%s" is not a numeral and does not give a NaN' % ''.join(t)
    if want == 'any':
        return None
    sign, e10 = want
    V = Q(value or 0) * Q(10) ** e10
    bias = (1 << EB - 1) - 1
    if s != sign:
        return '"%s": sign of the result' % ''.join(t)
    if e == (1 << EB) - 1:
        ok = V >= Q(2) ** (bias + 1) - Q(2) ** (bias - P - 1)
        return None if ok else '"%s" gives infinity' % ''.join(t)
    u = Q(2) ** (max(e, 1) - bias - P)
    r = (f + ((1 << P) if e else 0)) * u
    if abs(r - V) > u * (Q(1, 2) + SLACK):
        return '"%s" gives %.17g, %.3f units of the last place away' % (''.join(t), float(r), float(abs(r - V) / u) if abs(r - V) / u < 10 ** 30 else 1e30)
    return None


DEBUG = False
VISITS = 4
SPLITS = 30
COMPOSE = True
SLACK = Q(1, 2 ** 20)


def judge(c, I, r, w, want, piece):
    P, EB = formats(w)
    if not (isinstance(r, tuple) and r[0] == 'f'):
        raise Bad('does not return a value')
    b = I.num(r[1])
    if want in ('nan', 'any'):
        b = c.floor(ladd(b, lmul(c.floor(b, 1 << (w - 1)), -(1 << (w - 1)))), 1 << P)
        if b != (1 << EB) - 1 and want == 'nan':
            raise Bad('not a numeral, and the result is not a NaN')
        return
    sign, e10 = want
    top = c.floor(b, 1 << (w - 1))
    if top != sign:
        raise Bad('sign of the result')
    if not piece or not piece[0]:
        if b != sign << (w - 1):
            raise Bad('a zero does not give zero')
        return
    b = c.simp(ladd(b, -sign << (w - 1)))
    e = c.floor(b, 1 << P)
    e = I.conc(e)
    mant = c.simp(ladd(b, -e << P))
    bias = (1 << (EB - 1)) - 1
    m = digits_sym(c, piece[0])
    if m is None:
        raise Unsupported('the digits are not accumulated')
    V = {m: Q(10) ** e10}
    if e == (1 << EB) - 1:
        if mant != 0:
            if DEBUG:
                print(mant, [(y.lo, y.hi, y.e) for y in c.s[16:]])
            raise Bad('a numeral is reported as malformed (NaN)')
        # infinity: the value is at least the largest finite one plus half a unit
        lim = Q(2) ** (bias + 1) - Q(2) ** (bias - P - 1)
        if c.s[m].lo * Q(10) ** e10 < lim * (1 - SLACK):
            raise Bad('overflows to infinity for %d e %d' % (c.s[m].lo, e10))
        return
    u = Q(2) ** (max(e, 1) - bias - P)
    mv = ladd(mant, 1 << P) if e else mant
    # (value - V) / u
    t = {m: -V[m] / u}
    k = 0
    if isinstance(mv, int):
        k = mv
    else:
        k = mv.c
        for s, v in mv.t.items():
            t[s] = t.get(s, 0) + v
    lo, hi = half(c, {s: v for s, v in t.items() if v}, Q(k))
    k += sum(v * c.s[s].lo for s, v in t.items() if c.s[s].lo == c.s[s].hi)
    t = {s: v for s, v in t.items() if v and c.s[s].lo < c.s[s].hi}
    l, h = half(c, t, Q(k))
    lo, hi = max(lo, l), min(hi, h)
    if lo < -Q(1, 2) - SLACK or hi > Q(1, 2) + SLACK:
        if DEBUG:
            for j, y in enumerate(c.s):
                print('s%d in [%d, %d] = (%r)/%d rho [%d, %d] = %d mod %d' % (j, y.lo, y.hi, y.e, y.d, y.rlo, y.rhi, y.res, y.mod))
            print('rels', c.rels, c.bit, 'e', e, 'mant', mant, 'bounds', float(lo), float(hi))
        raise Bad('the result can be %.4f units of the last place away from the exact value (digits %d to %d)' % (max(-lo, hi), c.s[m].lo, c.s[m].hi))


def half(c, t, k):
    """bounds of sum t + k, through the values the quotients came from: rewriting
    x = d Q + rho stepwise, a stage whose value is integral is rounded"""
    lo, hi = c.ratbounds(t, k)
    # alternative routes: through each symbol that appears, one at a time, when the
    # rest is integral after scaling
    for s in [s for s in t if c.s[s].e is not None]:
        for q, p, d, j in c.rels:
            if q == s:
                # q = (p + j - bits)/d
                b = c.bit.get((q, p), (0, d - 1))
                f = Q(t[s]) / d
                T = {x: Q(v) / f for x, v in t.items() if x != s}
                T[p] = T.get(p, 0) + 1
                jc = 0
                if isinstance(j, int):
                    jc = j
                else:
                    jc = j.c
                    for x, v in j.t.items():
                        T[x] = T.get(x, 0) + v
                b = b[0] - jc, b[1] - jc
                if c.integral(T, 0):
                    x, y = c.ratbounds(T, Q(0))
                    u, v = sorted((x * f, y * f))
                    w, z = sorted((-f * b[0], -f * b[1]))
                    x, y = u + w + k, v + z + k
                    lo, hi = max(lo, x), min(hi, y)
    cur, kl, kh = dict(t), k, k
    for _ in range(40):
        s = max((s for s in cur if c.s[s].e is not None), default=None)
        if s is None:
            break
        y = c.s[s]
        f = Q(cur.pop(s)) / y.d
        for x, v in y.e.t.items():
            n = cur.get(x, 0) + f * v
            if n:
                cur[x] = n
            else:
                cur.pop(x, None)
        kl, kh = (kl + f * (y.e.c - y.rhi), kh + f * (y.e.c - y.rlo)) if f > 0 else (kl + f * (y.e.c - y.rlo), kh + f * (y.e.c - y.rhi))
        # value = scale * integer + constant?
        nz = [abs(v) for v in cur.values()]
        for sc in set(abs(v) for s2, v in cur.items() if c.s[s2].e is not None):
            T = {s2: Q(v) / sc for s2, v in cur.items()}
            if c.integral(T, 0):
                a, b = c.ratbounds(T, Q(0))
                lo, hi = max(lo, a * sc + kl), min(hi, b * sc + kh)
    return lo, hi


# --- claims --------------------------------------------------------------------
def pieces(n, w):
    """the n-digit integers by binade"""
    lo, hi = 10 ** (n - 1), 10 ** n - 1
    return [(n, max(lo, 1 << (b - 1)), min(hi, (1 << b) - 1)) for b in range(lo.bit_length(), hi.bit_length() + 1)]


def shapes(fn, w, tier):
    """(claim, text, piece, want)"""
    N = 9 if w == 32 else 17
    lo, hi = (-37, 41) if w == 32 else (-330, 312)       # decimal exponents of the value
    thorough = tier == 'thorough'
    out = []

    def num(claim, n, text, want):
        for p in pieces(n, w):
            out.append((claim, text, p, want))

    def exps(n):
        a, b = (-58, 42) if w == 32 else (-345, 312)
        if w == 32:
            return [e for e in range(a, b) if n == N or thorough or e % 9 == n % 9 or -3 <= e <= 3]
        if n == N:
            full = list(range(a, b, 3 if thorough else 29))
            return sorted(set(full + [-345, -342, -341, -340, -326, -325, -309, -308, -23, -22, -1, 0, 1, 5, 22, 23, 291, 292, 293, 294]))
        return list(range(a + n, b, 48 if thorough else 149)) + [-1, 0, 1]
    for n in range(1, N + 1):
        for e in exps(n):
            num('value of a numeral with exponent', n, list(range(1, n + 1)) + list('e%d' % e), (0, e))
        for e in (9999, -9999, 999, -999):
            num('value of a numeral with exponent', n, list(range(1, n + 1)) + list('e%d' % e), (0, e))
    # plain decimals: every place of the dot, a sign, leading zeros
    for n in ((1, 3, N) if not thorough else (1, 2, 3, 5, 8, N)):
        d = list(range(1, n + 1))
        for k in range(n + 1):
            if n > 9 and not thorough and k % 4:
                continue
            num('value of a decimal', n, d[:k] + ['.'] + d[k:], (0, k - n))
            num('value of a decimal', n, ['-'] + d[:k] + ['.'] + d[k:] + list('E+4'), (1, k - n + 4))
        num('value of a decimal', n, ['-'] + d, (1, 0))
        num('value of a decimal', n, list('00') + d, (0, 0))
        num('value of a decimal', n, list('-0.000') + d, (1, -3 - n))
        num('value of a decimal', n, list('0.0') + d + list('e-007'), (0, -1 - n - 7))
    for t, s in (('0', 0), ('-0', 1), ('0.000', 0), ('-.0e5', 1), ('000000000000000000000', 0), ('0e0', 0)):
        out.append(('value of zero', list(t), (0, 0, 0), (s, 0)))
    # more digits than are supported: reported, not wrong
    for n in (N + 1, N + 2, 25):
        d = list(range(1, n + 1))
        for t in (d, d[:3] + ['.'] + d[3:], ['-'] + d + list('e5')):
            out.append(('too many digits are reported', t, (n, 10 ** (n - 1), 10 ** n - 1), 'nan'))
    for t in ('e10000', 'e-10000', 'e99999', 'e-2147483648', 'e4294967297'):
        out.append(('too long an exponent is reported', [1] + list(t), (1, 1, 9), 'nan'))
    out += grammar(w, 4 if thorough else 3)
    return out


OTHER = [(1, 42), (44, 44), (47, 47), (58, 68), (70, 100), (102, 127), (128, 255)]


def grammar(w, L):
    """every string of up to L characters, by class of character"""
    out = []

    def value(t):
        """(sign, digits, e10) of a numeral, None when it is not one"""
        k, sign = 0, 0
        if k < len(t) and t[k] == '-':
            sign, k = 1, k + 1
        nd = dot = after = seen = 0
        while k < len(t) and (t[k] == '.' or t[k] == '0' or isinstance(t[k], int)):
            if t[k] == '.':
                if dot:
                    return None
                dot = 1
            else:
                after += dot
                seen = 1
            k += 1
        e = 0
        if k < len(t) and t[k] in ('e', 'E'):
            k += 1
            es = 1
            if k < len(t) and t[k] in ('-', '+'):
                es = -1 if t[k] == '-' else 1
                k += 1
            ed = ''
            while k < len(t) and isinstance(t[k], str) and t[k] in '0123456789':
                ed += t[k]
                k += 1
            if not ed:
                e = None
            else:
                e = es * int(ed)
        if k < len(t):
            return None
        if not seen or e is None:
            return 'lenient', sign, (e or 0) - after
        return 'number', sign, e - after

    def go(t, nd, inexp):
        if t:
            v = value(t)
            piece = (nd, 10 ** (nd - 1), 10 ** nd - 1) if nd else (0, 0, 0)
            if v is None:
                want = 'nan'
            elif v[0] == 'lenient':
                # no digits at all, or an exponent without any: either is reported or
                # the missing part counts as zero
                want = 'any'
            else:
                want = v[1:] if nd else (v[1], 0)
            for p in pieces(nd, w) if nd and isinstance(want, tuple) else [piece]:
                out.append(('which strings are numerals', list(t), p, want))
        if len(t) == L:
            return
        for ch in ('-', '+', '.', 'e', 'E'):
            go(t + [ch], nd, inexp or ch in 'eE')
        for r in OTHER if all(not isinstance(x, tuple) for x in t) else ():
            go(t + [r], nd, inexp)
        if inexp:
            for ch in '0123456789':
                go(t + [ch], nd, inexp)
        else:
            if not nd:
                go(t + ['0'], 0, inexp)
            go(t + [nd + 1], nd + 1, inexp)
    go([], 0, False)
    return out


_S = {}


def _job(k):
    mod, fn, w, shapes = _S['x']
    claim, text, piece, want = shapes[k]
    todo, paths, funcs, left = [piece], 0, set(), SPLITS
    while todo:
        p = todo.pop()
        try:
            if p and p[1] == p[2]:
                t = point(mod, fn, w, text, p[1], p[0], want)
                if t:
                    return k, 'bad', t, set()
                paths += 1
                continue
            n, fs = analyse(mod, fn, w, text, p, want)
            paths += n
            funcs |= fs
            continue
        except Bad as x:
            why = x.args[0]
            try:
                for v in x.args[1]:
                    t = point(mod, fn, w, text, v, p[0], want)
                    if t:
                        return k, 'bad', t, set()
            except Unsupported as y:
                return k, 'open', str(y), set()
        except Unsupported as x:
            return k, 'open', str(x), set()
        # not settled and no counterexample: smaller ranges, as far as that is practical
        if not p or p[1] >= p[2] or left <= 0:
            return k, 'open', why, set()
        left -= 1
        m = (p[1] + p[2]) // 2
        todo += [(p[0], p[1], m), (p[0], m + 1, p[2])]
    return k, 'ok', paths, funcs


def part(tier, only):
    import multiprocessing
    from . import driver
    mod = ir.load(driver.compile_ir(os.path.join(driver.VERIF, 'witness', 'parse.cc')))
    out = []
    for name, w in (('stof', 32), ('stod', 64)):
        if only and not any(o.startswith(name) for o in only):
            continue
        sh = shapes('t_' + name, w, tier)
        _S['x'] = (mod, 't_' + name, w, sh)
        per = {}
        with multiprocessing.Pool(driver.JOBS if hasattr(driver, 'JOBS') else 8) as p:
            for k, st, d, fs in p.imap_unordered(_job, range(len(sh)), chunksize=8):
                g = per.setdefault(sh[k][0], dict(n=0, ok=0, paths=0, bad=[], open=[], fs=set()))
                g['n'] += 1
                if st == 'ok':
                    g['ok'] += 1
                    g['paths'] += d
                    g['fs'] |= fs
                else:
                    g[st].append('%s (digits %s): %s' % (show(sh[k][1]), sh[k][2][1:] if sh[k][2] else '', d) if st == 'open' else d)
        for claim in sorted(per):
            g = per[claim]
            v = dict(driver='%s: %s' % (name, claim), src='witness/parse.cc', mode='general', rule='every path, for every digit string of the shape, returns a float within half a unit of the last place of the decimal value (a NaN for what is not a numeral)',
                     n_obligations=g['n'], n_discharged=g['ok'], where=['include/__nanostrutil.h (%s)' % ', '.join(sorted(x for x in g['fs'] if 'ryu' in x)[:6])] + g['bad'][:5] + g['open'][:5], kind='', detail='', res=None)
            if g['bad']:
                v.update(outcome='violation', kind='conversion', detail='%s: %s' % (name, min(g['bad'], key=len)))
            elif not g['ok']:
                v.update(outcome='broken', detail='%d of %d shapes not settled: %s' % (len(g['open']), g['n'], g['open'][0]))
            else:
                v.update(outcome='bounded' if g['open'] else 'proved', detail='%d of %d shapes of numeral, %d paths%s' % (g['ok'], g['n'], g['paths'], '; open: ' + g['open'][0] if g['open'] else ''))
            out.append(v)
    return out


def show(t):
    return ''.join(ch if isinstance(ch, str) else 'd' if isinstance(ch, int) else '[%d-%d]' % ch for ch in t)
