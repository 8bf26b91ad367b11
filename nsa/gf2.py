"""The map's priority generator as a linear map over GF(2).

priority_rand is executed once with its state unknown: every bit is a set of
state bits to be xored (one more 'bit' stands for the constant 1).  The state
after the call is then M * state for a square bit matrix M.  The generator runs
through every nonzero state exactly when M has order 2^n - 1, which is decided
by powering M for 2^n - 1 and for (2^n - 1)/p, p prime; that the value handed
out is a bijective image of the state is a rank."""
import os
from . import driver, ir

FACT = {32: (3, 5, 17, 257, 65537), 64: (3, 5, 17, 257, 641, 65537, 6700417)}


class Top(Exception):
    pass


class Run:
    def __init__(self, mod):
        self.m = mod
        self.off = {}     # global -> (first state bit, width)
        self.n = 0
        self.mem = {}
        self.steps = 0
        self.funcs = set()

    def one(self):
        return 1 << 200

    def const(self, v, w):
        return [self.one() if v >> i & 1 else 0 for i in range(w)]

    def state(self, g, w):
        if g not in self.off:
            G = self.m.globals.get(g)
            if G is None:
                raise Top('unknown object ' + g)
            self.off[g] = (self.n, w)
            self.mem[g] = [1 << (self.n + i) for i in range(w)]
            self.n += w
        if self.off[g][1] != w:
            raise Top('state read in pieces')
        return self.mem[g]

    def known(self, v):
        r = 0
        for i, b in enumerate(v):
            if b == self.one():
                r |= 1 << i
            elif b:
                return None
        return r

    def call(self, fn, args):
        f = self.m.funcs.get(fn)
        if f is None or not f.blocks:
            raise Top('calls ' + fn)
        self.funcs.add(fn)
        env = dict(zip([p[1] for p in f.params], args))

        def val(a):
            ty, v = a
            if v[0] == 'l':
                return env[v[1]]
            if v[0] == 'g':
                return ('P', v[1])
            if v[0] == 'c' and ty[0] == 'i':
                return self.const(v[1] & ((1 << ty[1]) - 1), ty[1])
            raise Top('operand')
        blk, prev = next(iter(f.blocks)), None
        while True:
            pend = {}
            for q in f.blocks[blk].phis:
                pend[q.dest] = val((q.ty, [t for t in q.x if t[1] == prev][0][0]))
            env.update(pend)
            for ins in f.blocks[blk].instrs:
                self.steps += 1
                if self.steps > 20000:
                    raise Top('does not end')
                op = ins.op
                a = ins.args
                if op == 'load':
                    p = val(a[0])
                    if p[0] != 'P':
                        raise Top('load')
                    env[ins.dest] = list(self.state(p[1], ins.ty[1])) if ins.ty[0] == 'i' else Top
                elif op == 'store':
                    p, v = val(a[1]), val(a[0])
                    if not isinstance(p, tuple) or not isinstance(v, list):
                        raise Top('store')
                    self.state(p[1], len(v))
                    self.mem[p[1]] = list(v)
                elif op in ('xor', 'and', 'or'):
                    x, y = val(a[0]), val(a[1])
                    if op == 'xor':
                        env[ins.dest] = [p ^ q for p, q in zip(x, y)]
                    else:
                        r = []
                        absorb, unit = (0, self.one()) if op == 'and' else (self.one(), 0)
                        for p, q in zip(x, y):
                            if absorb in (p, q):
                                r.append(absorb)
                            elif p == unit or p == q:
                                r.append(q)
                            elif q == unit:
                                r.append(p)
                            else:
                                raise Top('product of two unknown bits')
                        env[ins.dest] = r
                elif op in ('shl', 'lshr', 'ashr'):
                    x, k = val(a[0]), self.known(val(a[1]))
                    if k is None or k >= len(x):
                        raise Top('shift')
                    if op == 'shl':
                        env[ins.dest] = [0] * k + x[:len(x) - k]
                    else:
                        env[ins.dest] = x[k:] + [x[-1] if op == 'ashr' else 0] * k
                elif op in ('zext', 'trunc', 'sext'):
                    x, w = val(a[0]), ins.ty[1]
                    env[ins.dest] = x[:w] if op == 'trunc' else x + [x[-1] if op == 'sext' else 0] * (w - len(x))
                elif op in ('add', 'sub', 'mul', 'icmp'):
                    x, y = [self.known(val(t)) for t in a[:2]]
                    if x is None or y is None:
                        raise Top(op + ' of unknown bits')
                    if op == 'icmp':
                        pr = ins.x['pred'] if isinstance(ins.x, dict) else ins.x
                        if pr[0] == 's':
                            w = len(val(a[0]))
                            x, y = [v - (1 << w) if v >> (w - 1) else v for v in (x, y)]
                        t = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr[-2:]]
                        env[ins.dest] = self.const(int(t), 1)
                    else:
                        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                        w = ins.ty[1]
                        env[ins.dest] = self.const(r & ((1 << w) - 1), w)
                elif op == 'select':
                    c = self.known(val(a[0]))
                    if c is None:
                        raise Top('choice on unknown bits')
                    env[ins.dest] = val(a[1] if c else a[2])
                elif op == 'br':
                    t = ins.x
                    if a:
                        c = self.known(val(a[0]))
                        if c is None:
                            raise Top('branch on unknown bits')
                        t = ins.x[0] if c else ins.x[1]
                    prev, blk = blk, t
                    break
                elif op in ('call', 'invoke'):
                    c = ins.x['callee']
                    if c[0] != 'g':
                        raise Top('indirect call')
                    if c[1].startswith('llvm.dbg') or c[1].startswith('llvm.lifetime'):
                        continue
                    r = self.call(c[1], [val(t) for t in a])
                    if ins.dest is not None:
                        env[ins.dest] = r
                elif op == 'ret':
                    return val(a[0]) if a else None
                else:
                    raise Top(op)
            else:
                raise Top('block without end')


def mul(A, B):
    """rows as masks: (A*B) row i = xor of B rows selected by A row i"""
    out = []
    for r in A:
        x, k = 0, 0
        while r:
            if r & 1:
                x ^= B[k]
            r >>= 1
            k += 1
        out.append(x)
    return out


def power(A, e):
    R = [1 << i for i in range(len(A))]
    while e:
        if e & 1:
            R = mul(R, A)
        A = mul(A, A)
        e >>= 1
    return R


def rank(rows):
    piv = {}
    for r in rows:
        while r:
            h = r.bit_length() - 1
            if h in piv:
                r ^= piv[h]
            else:
                piv[h] = r
                break
    return len(piv)


def part(tier, only):
    d = 'priorities'
    if only and d not in only:
        return []
    src = 'witness/prand.cc'
    v = dict(driver=d, src=src, mode='general', rule='transition matrix of the generator has order 2^n - 1 over GF(2) and full output rank', n_obligations=4, n_discharged=0,
             where=['include/nanomap.h priority_rand'], kind='', detail='', res=None)
    try:
        mod = ir.load(driver.compile_ir(os.path.join(driver.VERIF, src)))
        R = Run(mod)
        out = R.call('g_priority', [])
        n = R.n
        rows = []
        for g, (o, w) in sorted(R.off.items(), key=lambda t: t[1]):
            rows += R.mem[g]
        bad = None
        same = all(R.mem[g] == [1 << (o + i) for i in range(w)] for g, (o, w) in R.off.items())
        if not out or all(b in (0, R.one()) for b in out) or same:
            bad = 'every node gets the same priority'
        elif any(b & R.one() for b in rows + out):
            raise Top('affine, not linear')
        elif n not in FACT:
            raise Top('state of %d bits' % n)
        else:
            full = (1 << n) - 1
            I = [1 << i for i in range(n)]
            init = 0
            for g, (o, w) in R.off.items():
                c = mod.globals[g].init
                if not isinstance(c, int):
                    c = init_int(c)
                init |= (c & ((1 << w) - 1)) << o
            if init == 0:
                bad = 'the generator starts at zero and stays there'
            elif rank(rows) < n:
                bad = 'the generator loses state: its transition is not one to one'
            elif power(rows, full) != I or any(power(rows, full // p) == I for p in FACT[n]):
                bad = 'the generator repeats before it has run through every nonzero state'
            elif rank(out) < len(out):
                bad = 'the priorities handed out do not take every value'
        if bad:
            v.update(outcome='violation', kind='generator', detail=bad)
        else:
            v.update(outcome='proved', n_discharged=4, detail='order 2^%d - 1' % n)
    except driver.CompileError as e:
        if driver.renamed(str(e), 'nanomap.h'):
            v.update(outcome='bounded', detail='no priority_rand to start from')
        else:
            v.update(outcome='violation', kind='does-not-compile', detail=str(e)[:300])
    except (Top, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        v.update(outcome='bounded', detail='not a linear generator this analysis can follow: %s %s' % (type(e).__name__, e))
    return [v]


def init_int(c):
    while isinstance(c, tuple) and len(c) == 2 and not isinstance(c[1], int):
        c = c[1]
    return c[1]
