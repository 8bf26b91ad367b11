"""Relational numeric domain: conjunctions of integer linear (in)equalities over
symbols, with solved-form equalities, per-symbol bounds and disequalities.

All questions are answered conservatively: prove_* returns True only when the
fact follows from the constraints; feasible() returns False only when the
constraints are certainly contradictory.
"""
import ctypes, os, subprocess, tempfile, hashlib
from math import gcd
from fractions import Fraction

_lib = None


def _load():
    global _lib
    if _lib is None:
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fm.cpp')
        h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
        d = os.environ.get('NSA_CACHE') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build')
        os.makedirs(d, exist_ok=True)
        so = os.path.join(d, 'fm-%s.so' % h)
        if not os.path.exists(so):
            t = so + '.%d.tmp' % os.getpid()
            subprocess.check_call(['g++', '-O2', '-shared', '-fPIC', '-o', t, src])
            os.replace(t, so)
        _lib = ctypes.CDLL(so)
        _lib.fm_empty.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p]
        _lib.fm_empty.restype = ctypes.c_int
    return _lib


class LE:
    """c + sum coef*sym ; t is a tuple of (sym, coef) sorted by sym"""
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c, self.t = c, t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, LE) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return LE(self.c + o, self.t) if o else self
        if not o.t:
            return LE(self.c + o.c, self.t)
        if not self.t:
            return LE(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                del d[s]
        return LE(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return LE(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return LE(self.c - o, self.t)
        return self + (-o)

    def __mul__(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return LE(self.c * k, tuple((s, v * k) for s, v in self.t))

    def syms(self):
        return [s for s, _ in self.t]

    def is_const(self):
        return not self.t

    def __repr__(self):
        r = []
        for s, k in self.t:
            nm = SYM[s].name
            r.append(('%s' % nm) if k == 1 else ('-%s' % nm) if k == -1 else '%d*%s' % (k, nm))
        if self.c or not r:
            r.append(str(self.c))
        return '+'.join(r).replace('+-', '-')

    def subst(self, m):
        """m: sym -> LE"""
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        r = LE(self.c, tuple((s, k) for s, k in self.t if s not in m))
        for s, k in self.t:
            if s in m:
                r = r + m[s] * k
        return r


ZERO = LE(0)
ONE = LE(1)


def const(n):
    return LE(n)


class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'key')

    def __init__(self, id, name, lo, hi, key):
        self.id, self.name, self.lo, self.hi, self.key = id, name, lo, hi, key


SYM = []
_memo = {}


def fresh(name, lo=None, hi=None, key=None):
    i = len(SYM)
    SYM.append(Sym(i, '%s.%d' % (name, i), lo, hi, key))
    return LE(0, ((i, 1),))


def term(key, name, lo=None, hi=None):
    """hash-consed symbol for a term"""
    r = _memo.get(key)
    if r is None:
        r = fresh(name, lo, hi, key)
        _memo[key] = r
    return r


def reset():
    SYM.clear()
    _memo.clear()
    _fmcache.clear()


def int_empty(rows):
    """integer bounds propagated through scaled symbols (the rational
    projection alone would leave e.g. 0 <= s < 1), then the projection again"""
    multi = [e for e, _ in rows if len(e.t) > 1]
    if not any(k > 1 or k < -1 for e in multi for _, k in e.t):
        return False
    b = {}

    def upd(s, lo, hi):
        l, h = b.get(s, (None, None))
        ch = False
        if lo is not None and (l is None or lo > l):
            l, ch = lo, True
        if hi is not None and (h is None or hi < h):
            h, ch = hi, True
        b[s] = (l, h)
        return ch
    for e, q in rows:
        if len(e.t) == 1:
            s, k = e.t[0]
            n = -(e.c // k) if k > 0 else e.c // -k
            upd(s, n if k > 0 or q else None, n if k < 0 or q else None)
    new = False
    for _ in range(4):
        ch = False
        for e in multi:
            for s, k in e.t:
                rest = e.c
                for x, y in e.t:
                    if x != s:
                        lo, hi = b.get(x, (None, None))
                        v = hi if y > 0 else lo
                        if v is None:
                            rest = None
                            break
                        rest += y * v
                if rest is None:
                    continue
                if upd(s, -(rest // k) if k > 0 else None, rest // -k if k < 0 else None):
                    ch = True
                    if abs(k) > 1:
                        new = True
                    l, h = b[s]
                    if l is not None and h is not None and l > h:
                        return True
        if not ch:
            break
    if not new:
        return False
    r2 = [(e, q) for e, q in rows if len(e.t) > 1]
    for s, (lo, hi) in b.items():
        if lo is not None:
            r2.append((LE(-lo, ((s, 1),)), False))
        if hi is not None:
            r2.append((LE(hi, ((s, -1),)), False))
    return fm_empty(r2)


_fmcache = {}
STATS = {'fm': 0, 'q': 0}


def fm_empty(rows):
    """rows: list of (LE, iseq)"""
    key = frozenset(rows)
    r = _fmcache.get(key)
    if r is not None:
        return r
    syms = {}
    for e, _ in rows:
        for s, _k in e.t:
            if s not in syms:
                syms[s] = len(syms)
    nv = len(syms)
    buf = bytearray()
    iseq = bytearray()
    z = bytes(16)
    for e, q in rows:
        row = [z] * (nv + 1)
        for s, k in e.t:
            row[syms[s]] = k.to_bytes(16, 'little', signed=True)
        row[nv] = e.c.to_bytes(16, 'little', signed=True)
        buf += b''.join(row)
        iseq.append(1 if q else 0)
    STATS['fm'] += 1
    r = bool(_load().fm_empty(nv, len(rows), bytes(buf), bytes(iseq)))
    _fmcache[key] = r
    return r


class Num:
    __slots__ = ('eqs', 'ges', 'nes', 'bnd', 'bad', '_c')

    def __init__(self):
        self.eqs, self.ges, self.nes, self.bnd, self.bad, self._c = {}, frozenset(), frozenset(), {}, False, {}

    def copy(self):
        n = Num.__new__(Num)
        n.eqs, n.ges, n.nes, n.bnd, n.bad, n._c = self.eqs, self.ges, self.nes, self.bnd, self.bad, self._c
        return n

    # -- normal form / bounds
    def nf(self, e):
        return e.subst(self.eqs) if self.eqs and e.t else e

    def symb(self, s):
        b = self.bnd.get(s)
        if b is not None:
            return b
        y = SYM[s]
        return (y.lo, y.hi)

    def bounds(self, e):
        e = self.nf(e)
        lo = hi = e.c
        for s, k in e.t:
            l, h = self.symb(s)
            if k < 0:
                l, h = h, l
            lo = None if (lo is None or l is None) else lo + k * l
            hi = None if (hi is None or h is None) else hi + k * h
        return lo, hi

    # -- adding facts
    def _norm(self, e):
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if g > 1:
            return LE(e.c // g, tuple((s, k // g) for s, k in e.t))
        return e

    def add_ge(self, e):
        e = self.nf(e)
        if not e.t:
            if e.c < 0:
                self.bad = True
            return
        e = self._norm(e)
        if len(e.t) == 1:
            s, k = e.t[0]
            lo, hi = self.symb(s)
            if k == 1:
                n = -e.c
                if lo is not None and n <= lo:
                    return
                lo = n
            else:
                n = e.c
                if hi is not None and n >= hi:
                    return
                hi = n
            self.bnd = dict(self.bnd)
            self._c = {}
            self.bnd[s] = (lo, hi)
            if lo is not None and hi is not None:
                if lo > hi:
                    self.bad = True
                    return
                if lo == hi:
                    self._elim(s, LE(lo))
                    return
            self._nes_tighten()
            return
        lo, hi = self.bounds(e)
        if lo is not None and lo >= 0:
            return
        if hi is not None and hi < 0:
            self.bad = True
            return
        if e in self.ges:
            return
        # dominated / opposite
        neg = -e
        for f in self.ges:
            if f.t == e.t:
                if f.c <= e.c:
                    return
                self.ges = (self.ges - {f})
                break
        for f in self.ges:
            if f.t == neg.t:
                if f.c + e.c < 0:
                    self.bad = True
                    return
                if f.c + e.c == 0:
                    self.ges = self.ges - {f}
                    self._c = {}
                    self.add_eq(e)
                    return
                break
        self.ges = self.ges | {e}
        self._c = {}
        self._nes_tighten()

    def _nes_tighten(self):
        ch = True
        while ch and not self.bad:
            ch = False
            for d in self.nes:
                if not d.t:
                    if d.c == 0:
                        self.bad = True
                        return
                    self.nes = self.nes - {d}
                    ch = True
                    break
                lo, hi = self.bounds(d)
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    self.nes = self.nes - {d}
                    ch = True
                    break
                if lo == 0:
                    self.nes = self.nes - {d}
                    self.add_ge(d - 1)
                    ch = True
                    break
                if hi == 0:
                    self.nes = self.nes - {d}
                    self.add_ge(-d - 1)
                    ch = True
                    break
                for f in self.ges:
                    if f.t == d.t and f.c <= d.c:  # f>=0, d = f + k
                        if f.c == d.c:
                            self.nes = self.nes - {d}
                            self.add_ge(d - 1)
                            ch = True
                            break
                        self.nes = self.nes - {d}
                        ch = True
                        break
                    nd = -d
                    if f.t == nd.t and f.c <= nd.c:
                        if f.c == nd.c:
                            self.nes = self.nes - {d}
                            self.add_ge(nd - 1)
                            ch = True
                            break
                        self.nes = self.nes - {d}
                        ch = True
                        break
                if ch:
                    break

    def _elim(self, s, rhs):
        """substitute s := rhs everywhere"""
        m = {s: rhs}
        lo, hi = self.symb(s)
        self._c = {}
        ne = {}
        for k, v in self.eqs.items():
            ne[k] = v.subst(m)
        ne[s] = rhs
        self.eqs = ne
        if s in self.bnd:
            self.bnd = dict(self.bnd)
            del self.bnd[s]
        old = self.ges
        keep = [e for e in old if not any(x == s for x, _ in e.t)]
        redo = [e for e in old if any(x == s for x, _ in e.t)]
        if redo:
            self.ges = frozenset(keep)
        onn = self.nes
        redon = [e for e in onn if any(x == s for x, _ in e.t)]
        if redon:
            self.nes = frozenset(e for e in onn if not any(x == s for x, _ in e.t))
        if lo is not None:
            self.add_ge(rhs - lo)
        if hi is not None:
            self.add_ge(LE(hi) - rhs)
        for e in redo:
            if self.bad:
                return
            self.add_ge(e)
        for e in redon:
            if self.bad:
                return
            self.add_ne(e)

    def add_eq(self, e):
        e = self.nf(e)
        if not e.t:
            if e.c != 0:
                self.bad = True
            return
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if e.c % g:
            self.bad = True
            return
        if g > 1:
            e = LE(e.c // g, tuple((s, k // g) for s, k in e.t))
        best = None
        for s, k in e.t:
            if k in (1, -1):
                if best is None or s > best[0]:
                    best = (s, k)
        if best is None:
            # no unit coefficient: keep as two inequalities
            self._raw(e)
            self._raw(-e)
            return
        s, k = best
        rhs = LE(e.c, tuple((x, y) for x, y in e.t if x != s)) * (-k)
        self._elim(s, rhs)

    def _raw(self, e):
        if e not in self.ges:
            self.ges = self.ges | {e}
            self._c = {}

    def add_ne(self, e):
        e = self.nf(e)
        if not e.t:
            if e.c == 0:
                self.bad = True
            return
        if e.t[0][1] < 0:
            e = -e
        lo, hi = self.bounds(e)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return
        if lo == 0 or self.prove_ge(e):
            self.add_ge(e - 1)
            return
        if hi == 0 or self.prove_ge(-e):
            self.add_ge(-e - 1)
            return
        self.nes = self.nes | {e}

    # -- queries
    def _component(self, seeds):
        want = set(seeds)
        rows = []
        rest = list(self.ges)
        ch = True
        while ch:
            ch = False
            nr = []
            for e in rest:
                if any(s in want for s, _ in e.t):
                    rows.append((e, False))
                    for s, _ in e.t:
                        if s not in want:
                            want.add(s)
                    ch = True
                else:
                    nr.append(e)
            rest = nr
        for s in want:
            lo, hi = self.symb(s)
            if lo is not None:
                rows.append((LE(-lo, ((s, 1),)), False))
            if hi is not None:
                rows.append((LE(hi, ((s, -1),)), False))
        return rows

    def prove_ge(self, e):
        if self.bad:
            return True
        e = self.nf(e)
        if not e.t:
            return e.c >= 0
        lo, hi = self.bounds(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        STATS['q'] += 1
        key = ('g', e)
        r = self._c.get(key)
        if r is None:
            rows = self._component(e.syms())
            rows.append((-e - 1, False))
            r = fm_empty(rows) or int_empty(rows)
            self._c[key] = r
        return r

    def prove_eq(self, e):
        e = self.nf(e)
        if not e.t:
            return e.c == 0
        return self.prove_ge(e) and self.prove_ge(-e)

    def prove_ne(self, e):
        if self.bad:
            return True
        e = self.nf(e)
        if not e.t:
            return e.c != 0
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if e.c % g:
            return True
        f = e if e.t[0][1] > 0 else -e
        if f in self.nes:
            return True
        lo, hi = self.bounds(e)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        key = ('n', f)
        r = self._c.get(key)
        if r is None:
            rows = self._component(e.syms())
            r = fm_empty(rows + [(e, True)])
            if not r and (self.prove_ge(f - 1) or self.prove_ge(-f - 1)):
                r = True
            if not r:
                # d != 0 and e == 0 contradictory when e==0 forces d==0
                for d in self.nes:
                    if set(d.syms()) & set(e.syms()):
                        if fm_empty(rows + [(e, True), (d - 1, False)]) and fm_empty(rows + [(e, True), (-d - 1, False)]):
                            r = True
                            break
            self._c[key] = r
        return r

    def feasible(self):
        if self.bad:
            return False
        key = 'f'
        r = self._c.get(key)
        if r is None:
            r = True
            seen = set()
            for e in self.ges:
                ss = e.syms()
                if ss[0] in seen:
                    continue
                rows = self._component(ss)
                for x, _ in rows:
                    seen.update(x.syms())
                if fm_empty(rows) or int_empty(rows):
                    r = False
                    break
            if r:
                for d in list(self.nes):
                    if self.prove_eq(d):
                        r = False
                        break
            self._c[key] = r
        return r

    def add(self, kind, e):
        if kind == 'ge':
            self.add_ge(e)
        elif kind == 'eq':
            self.add_eq(e)
        elif kind == 'ne':
            self.add_ne(e)
        else:
            raise ValueError(kind)

    def with_(self, conds):
        n = self.copy()
        for k, e in conds:
            n.add(k, e)
            if n.bad:
                return n
        return n

    def dump(self, syms=None):
        out = []
        for s, e in self.eqs.items():
            if syms is None or s in syms:
                out.append('%s=%r' % (SYM[s].name, e))
        for e in self.ges:
            out.append('%r>=0' % e)
        for e in self.nes:
            out.append('%r!=0' % e)
        for s, (l, h) in self.bnd.items():
            out.append('%s in [%s,%s]' % (SYM[s].name, l, h))
        return out


# ----------------------------------------------------------------- affine join
def _rref(rows, order):
    """rows: list of dict var->Fraction; Gaussian elimination following var order"""
    rows = [dict(r) for r in rows if r]
    out = []
    for v in order:
        piv = None
        for i, r in enumerate(rows):
            if r.get(v):
                piv = i
                break
        if piv is None:
            continue
        p = rows.pop(piv)
        k = p[v]
        p = {x: y / k for x, y in p.items()}
        nr = []
        for r in rows:
            c = r.get(v)
            if c:
                r = dict(r)
                for x, y in p.items():
                    z = r.get(x, 0) - c * y
                    if z:
                        r[x] = z
                    else:
                        r.pop(x, None)
            if r:
                nr.append(r)
        rows = nr
        for i, (vv, r) in enumerate(out):
            c = r.get(v)
            if c:
                r = dict(r)
                for x, y in p.items():
                    z = r.get(x, 0) - c * y
                    if z:
                        r[x] = z
                    else:
                        r.pop(x, None)
                out[i] = (vv, r)
        out.append((v, p))
    return out


def affine_join(e1, e2, keep):
    """e1,e2: lists of LE equalities (==0).  Returns equalities over `keep`
    (a list of symbol ids, most-eliminable first) valid in both spaces."""
    ONEV = -1

    def rows(es):
        out = []
        for e in es:
            r = {s: Fraction(k) for s, k in e.t}
            if e.c:
                r[ONEV] = Fraction(e.c)
            out.append(r)
        return out

    def project(es):
        rs = rows(es)
        allv = set()
        for r in rs:
            allv.update(r)
        dead = [v for v in allv if v not in kset and v != ONEV]
        order = dead + [k for k in keep] + [ONEV]
        rr = _rref(rs, order)
        return [r for v, r in rr if v not in dead]

    kset = set(keep)
    A = project(e1)
    B = project(e2)
    if not A or not B:
        return []
    # intersection of row spaces: a*A = b*B.  Unknown vector (a,b)
    cols = sorted({v for r in A + B for v in r})
    n = len(A) + len(B)
    # equations per column
    eqs = []
    for c in cols:
        r = {}
        for i, x in enumerate(A):
            if x.get(c):
                r[i] = x[c]
        for j, x in enumerate(B):
            if x.get(c):
                r[len(A) + j] = -x[c]
        if r:
            eqs.append(r)
    rr = _rref(eqs, list(range(n)))
    pivs = {v: r for v, r in rr}
    free = [i for i in range(n) if i not in pivs]
    res = []
    for f in free:
        coef = {f: Fraction(1)}
        for v, r in rr:
            if r.get(f):
                coef[v] = -r[f]
        row = {}
        for i in range(len(A)):
            if coef.get(i):
                for c, y in A[i].items():
                    z = row.get(c, 0) + coef[i] * y
                    if z:
                        row[c] = z
                    else:
                        row.pop(c, None)
        if row:
            res.append(row)
    rr = _rref(res, list(keep) + [ONEV])
    out = []
    for v, r in rr:
        l = 1
        for y in r.values():
            l = l * y.denominator // gcd(l, y.denominator)
        c = int(r.get(ONEV, 0) * l)
        t = tuple(sorted((s, int(y * l)) for s, y in r.items() if s != ONEV))
        out.append(LE(c, t))
    return out
