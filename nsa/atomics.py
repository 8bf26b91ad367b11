"""Effects of the thread primitives (src/libs_thread.h), read off the optimised LLVM IR:
atomic operations are evaluated symbolically on their cell, lock and signal functions are
checked by a lock-state dataflow over their control-flow graph."""
import os, re, subprocess
from . import driver

# name -> (cell afterwards, result) as linear forms over the old cell value O, the first and second argument
INT = {'load': ('O', 'O'), 'store': ('A', None), 'inc': ('O+1', 'O'), 'dec': ('O-1', 'O'), 'add': ('O+A', 'O'), 'sub': ('O-A', 'O'), 'swap': ('A', 'O'), 'compare_and_swap': ('CAS', 'O')}
PTR = {'load': ('O', 'O'), 'store': ('A', None), 'swap': ('A', 'O'), 'compare_and_swap': ('CAS', 'O')}
FORM = {'O': {'O': 1}, 'A': {'A': 1}, 'O+1': {'O': 1, 1: 1}, 'O-1': {'O': 1, 1: -1}, 'O+A': {'O': 1, 'A': 1}, 'O-A': {'O': 1, 'A': -1}}
WEAK = ('monotonic', 'unordered')


class Unknown(Exception):
    pass


class Bad(Exception):
    pass


def lin(f, g, k, m):
    r = dict(f)
    for s, c in g.items():
        r[s] = (r.get(s, 0) + k * c) % m
    return {s: c for s, c in r.items() if c % m}


def norm(f, m):
    return {s: c % m for s, c in f.items() if c % m}


def functions(text):
    """demangled name -> list of (label, [instructions]); parameters are %0, %1, ..."""
    fs = {}
    for m in re.finditer(r'^define [^\n]*?@"?([\w.$]+)"?\(([^\n]*)\{\n(.*?)^\}', text, re.M | re.S):
        d = re.match(r'_Z(?:L)?(\d+)', m.group(1))
        nm = m.group(1)[d.end():d.end() + int(d.group(1))] if d else m.group(1)
        blocks = [('entry', [])]
        for l in m.group(3).splitlines():
            l = re.sub(r', ?!.*$', '', l.split(' ;')[0]).strip()
            l = re.sub(r' #\d+$', '', l)
            if not l:
                continue
            b = re.match(r'^([\w.$-]+):', l)
            if b:
                blocks.append((b.group(1), []))
            else:
                blocks[-1][1].append(l)
        fs[nm] = [b for b in blocks if b[1] or b[0] != 'entry']
    return fs


def atomic(blocks, want, isptr):
    """evaluate a straight-line function on its cell; raises Bad with the reason"""
    if len(blocks) != 1:
        raise Unknown('more than one basic block')
    M = 1 << 64 if isptr else 1 << 32
    env = {'%0': 'cell', '%1': {'A': 1}, '%2': {'B': 1}}
    cell, writes, n = {'O': 1}, 0, 0
    cas = None

    def val(t):
        t = t.strip().split(' ')[-1]
        if t in env:
            return env[t]
        if re.match(r'^-?\d+$', t):
            return norm({1: int(t)}, M)
        if t in ('null', 'zeroinitializer'):
            return {}
        raise Unknown('value ' + t)

    def num(t):
        v = val(t)
        if not isinstance(v, dict):
            raise Unknown('address used as a value')
        return v

    def at(t):
        t = t.strip().split(' ')[-1]
        if env.get(t) != 'cell':
            raise Unknown('access to ' + t)
    ret = None
    for l in blocks[0][1]:
        m = re.match(r'^(%[\w.]+) = (.*)$', l)
        d, x = (m.group(1), m.group(2)) if m else (None, l)
        m = re.match(r'^atomicrmw (?:volatile )?(\w+) (ptr [^,]+), ([^,]+?) (\w+)(?:, align \d+)?$', x)
        if m:
            op, p, v, order = m.groups()
            at(p)
            v = num(v)
            env[d] = dict(cell)
            n += 1
            new = lin(cell, v, 1, M) if op == 'add' else lin(cell, v, -1, M) if op == 'sub' else v if op == 'xchg' else cell if (op in ('or', 'xor') and not v) else None
            if new is None:
                raise Unknown('atomicrmw ' + op)
            if order in WEAK:
                raise Bad('memory order %s gives other threads no ordering' % order)
            if new != cell:
                writes += 1
            cell = new
            continue
        m = re.match(r'^cmpxchg (weak )?(?:volatile )?(ptr [^,]+), ([^,]+), ([^,]+?) (\w+) (\w+)(?:, align \d+)?$', x)
        if m:
            at(m.group(2))
            if cas is not None or cell != {'O': 1}:
                raise Unknown('several conditional exchanges')
            if m.group(1):
                raise Bad('a weak exchange may fail although the values are equal')
            if m.group(5) in WEAK:
                raise Bad('memory order %s gives other threads no ordering' % m.group(5))
            cas = (num(m.group(3)), num(m.group(4)))
            env[d] = 'pair'
            writes += 1
            n += 1
            continue
        m = re.match(r'^extractvalue .* (%[\w.]+), (\d)$', x)
        if m and env.get(m.group(1)) == 'pair':
            env[d] = {'O': 1} if m.group(2) == '0' else 'flag'
            continue
        m = re.match(r'^load (atomic )?(?:volatile )?[^,]+, (ptr [^ ,]+)(?: (\w+))?(?:, align \d+)?$', x)
        if m:
            at(m.group(2))
            if not m.group(1):
                raise Bad('the cell is read without an atomic operation')
            if m.group(3) in WEAK:
                raise Bad('memory order %s gives other threads no ordering' % m.group(3))
            env[d] = dict(cell)
            n += 1
            continue
        m = re.match(r'^store (atomic )?(?:volatile )?([^,]+), (ptr [^ ,]+)(?: (\w+))?(?:, align \d+)?$', x)
        if m:
            at(m.group(3))
            if not m.group(1):
                raise Bad('the cell is written without an atomic operation')
            if m.group(4) in WEAK:
                raise Bad('memory order %s gives other threads no ordering' % m.group(4))
            if cas is not None:
                raise Unknown('store after a conditional exchange')
            cell = num(m.group(2))
            writes += 1
            n += 1
            continue
        m = re.match(r'^(sext|trunc|ptrtoint|inttoptr|bitcast)(?: \w+)* (\S+ \S+) to \S+$', x)
        if m:
            env[d] = val(m.group(2))
            continue
        m = re.match(r'^(add|sub)(?: nsw| nuw)* \w+ ([^,]+), ([^,]+)$', x)
        if m:
            env[d] = lin(num(m.group(2)), num(m.group(3)), 1 if m.group(1) == 'add' else -1, M)
            continue
        m = re.match(r'^getelementptr .*, (?:i64|i32) 0$', x)
        m2 = re.match(r'^getelementptr (?:inbounds )?\S+, (ptr %[\w.]+)((?:, i\d+ 0)+)$', x)
        if m2:
            at(m2.group(1))
            env[d] = 'cell'
            continue
        m = re.match(r'^fence (\w+)$', x)
        if m:
            continue
        m = re.match(r'^ret (.*)$', x)
        if m:
            ret = None if m.group(1) == 'void' else num(m.group(1))
            break
        raise Unknown(x[:80])
    fin, res = want
    if fin == 'CAS':
        if cas is None:
            raise Unknown('no conditional exchange') if writes or n == 0 else Bad('the cell is never changed')
        if cas != ({'A': 1}, {'B': 1}):
            raise Bad('compares with %s and stores %s' % (show(cas[0]), show(cas[1])))
    else:
        if cas is not None:
            raise Unknown('conditional exchange')
        if cell != norm(FORM[fin], M):
            raise Bad('the cell ends as %s instead of %s' % (show(cell), show(norm(FORM[fin], M))))
        if writes > 1:
            raise Bad('%d separate writes: another thread can see or change the cell in between' % writes)
    if res is not None and ret != norm(FORM[res], M):
        raise Bad('the result is %s instead of the old value' % show(ret))
    return n + 2


def show(f):
    if f is None:
        return 'nothing'
    nm = {'O': 'old', 'A': 'arg1', 'B': 'arg2', 1: ''}
    M = 1 << 32
    return ' + '.join('%s%s' % ('' if c == 1 and s != 1 else (c if c < M // 2 else c - M if c < M else c - (1 << 64)), nm[s]) for s, c in sorted(f.items(), key=str)) or '0'


CALL = re.compile(r'call [^@]*@(\w+)\((.*)\)')


def single(blocks, fn):
    """the function calls fn exactly once, on its own argument, and no other lock operation"""
    if len(blocks) != 1:
        raise Unknown('more than one basic block')
    n = 0
    for l in blocks[0][1]:
        m = CALL.search(l)
        if m and m.group(1).startswith('pthread_'):
            if m.group(1) != fn:
                raise Bad('calls %s' % m.group(1))
            if not re.match(r'^ptr (?:\w+ )*%0(,|$)', m.group(2)):
                raise Unknown('argument')
            n += 1
    if n != 1:
        raise Bad('calls %s %d times' % (fn, n))
    return 2


def offset(l):
    m = re.match(r'^(%[\w.]+) = getelementptr (?:inbounds )?(\S+|\{.*?\}), ptr %0, (.*)$', l)
    if m:
        return m.group(1), re.sub(r'i\d+ ', '', m.group(3))
    return None


def locks(blocks, kind):
    """lock-state dataflow: guarded accesses, balanced lock/unlock, waiting in a loop"""
    fld = {}
    for _, ins in blocks:
        for l in ins:
            o = offset(l)
            if o:
                fld[o[0]] = o[1]
    B = dict(blocks)
    first = blocks[0][0]
    succ = {b: [x for x in re.findall(r'label %([\w.]+)', ins[-1])] if ins[-1].startswith(('br', 'switch')) else [] for b, ins in blocks}
    state = {first: {(False, False)}}
    work, n = [first], 0
    cond = None
    for _, ins in blocks:
        for l in ins:
            m = CALL.search(l)
            if m and m.group(1).startswith('pthread_cond'):
                a = re.match(r'^ptr (?:\w+ )*(%[\w.]+)', m.group(2))
                if not a or a.group(1) not in fld:
                    raise Unknown('condition variable')
                cond = fld[a.group(1)]
    raised = None
    while work:
        b = work.pop()
        cur = set(state[b])
        for l in B[b]:
            m = CALL.search(l)
            new = set()
            for locked, done in cur:
                if m and m.group(1).startswith('pthread_'):
                    f, a = m.group(1), m.group(2)
                    if f in ('pthread_mutex_lock', 'pthread_mutex_unlock') and not re.match(r'^ptr (?:\w+ )*%0$', a):
                        raise Unknown('another mutex')
                    if f == 'pthread_mutex_lock':
                        if locked:
                            raise Bad('locks the mutex it already holds')
                        locked = True
                    elif f == 'pthread_mutex_unlock':
                        if not locked:
                            raise Bad('unlocks a mutex it does not hold')
                        locked = False
                    elif f in ('pthread_cond_wait', 'pthread_cond_timedwait'):
                        if not locked:
                            raise Bad('waits without holding the mutex')
                    elif f in ('pthread_cond_signal', 'pthread_cond_broadcast'):
                        if kind == 'raise' and done is False:
                            raise Bad('wakes the waiter before the value is set')
                        done = 'woken'
                    else:
                        raise Unknown(f)
                m2 = re.match(r'^(?:%[\w.]+ = load [^,]+|store ([^,]+)), ptr (%[\w.]+)', l)
                if m2 and m2.group(2) in fld and fld[m2.group(2)] != cond:
                    if not locked:
                        raise Bad('the value is accessed without holding the mutex')
                    if m2.group(1) and kind == 'raise':
                        if m2.group(1).split()[-1] == '0':
                            raise Bad('raise stores 0')
                        done = done or 'set'
                elif m2 and m2.group(2) == '%0':
                    raise Unknown('access to the first member')
                if l.startswith('ret'):
                    if locked:
                        raise Bad('returns with the mutex held')
                    if kind == 'raise' and done != 'woken':
                        raise Bad('returns without waking the waiter')
                new.add((locked, done))
            cur = new
            n += 1
        for s in succ[b]:
            o = state.setdefault(s, set())
            if not cur <= o:
                o |= cur
                work.append(s)
    if kind == 'wait':
        for b, ins in blocks:
            if any('@pthread_cond_' in l and 'wait' in l for l in ins):
                seen, st = set(), list(succ[b])
                while st:
                    x = st.pop()
                    if x not in seen:
                        seen.add(x)
                        st += succ[x]
                if b not in seen:
                    raise Bad('a wakeup is not followed by another test of the value (spurious wakeups return)')
    return n


def part(tier, only):
    out = []
    base = dict(src='libs_thread.h', mode='static', where=[], n_obligations=1, n_discharged=0, rule='effect of the primitive')
    p = subprocess.run(['clang++-18', '-std=c++11', '-O2', '-fno-vectorize', '-w', '-S', '-emit-llvm', '-I' + driver.REPO + '/include', '-o', '-', driver.REPO + '/src/nanothread.cc'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        e = [l for l in p.stderr.splitlines() if 'error:' in l]
        return [dict(base, driver='nanothread.cc', outcome='violation', kind='does-not-compile', detail=(e or ['?'])[0][:300])]
    fs = functions(p.stdout)
    jobs = [('thread_atomic_int_' + k, lambda b, v=v: atomic(b, v, False)) for k, v in INT.items()]
    jobs += [('thread_atomic_ptr_' + k, lambda b, v=v: atomic(b, v, True)) for k, v in PTR.items()]
    jobs += [('thread_mutex_' + a, lambda b, f=f: single(b, 'pthread_mutex_' + f)) for a, f in (('init', 'init'), ('term', 'destroy'), ('lock', 'lock'), ('unlock', 'unlock'))]
    jobs += [('thread_signal_raise', lambda b: locks(b, 'raise')), ('thread_signal_wait', lambda b: locks(b, 'wait'))]
    for nm, f in jobs:
        if only and nm not in only:
            continue
        r = dict(base, driver=nm)
        try:
            if nm not in fs:
                raise Unknown('not defined')
            k = f(fs[nm])
            r.update(outcome='proved', n_obligations=k, n_discharged=k)
        except Bad as e:
            r.update(outcome='violation', kind='effect', detail='%s: %s' % (nm, e), where=['src/libs_thread.h (%s)' % nm])
        except (Unknown, KeyError, IndexError, AttributeError) as e:
            r.update(outcome='bounded', detail='not analysed: %s' % e)
        out.append(r)
    return out
