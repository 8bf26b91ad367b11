"""Runs witness drivers through the abstract interpreter."""
import hashlib, os, re, signal, subprocess, sys, time, traceback, multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NSA_REPO', '/repo')
SMALL = [0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33]
BASEFLAGS = ['-w', '-nostdinc++', '-I' + REPO + '/include', '-I' + VERIF + '/witness', '-include', 'stddef.h',
             '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-ffp-contract=off', '-fno-discard-value-names']


class CompileError(Exception):
    pass


def workdir():
    d = os.environ.get('NSA_CACHE') or os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    return d


def compile_ir(src, flags=(), tag='', passes='function(sroa,simplifycfg<bonus-inst-threshold=0;no-speculate-blocks;no-simplify-cond-branch>,loop-simplify)'):
    """C++ -> LLVM IR of the current tree (lowered to SSA, not optimised)"""
    out = os.path.join(workdir(), os.path.basename(src).replace('.', '_') + '_' + tag + '_%d' % os.getpid())
    a, b = out + '.0.ll', out + '.ll'
    std = [f for f in flags if f.startswith('-std')] or ['-std=c++11']
    base = [f for f in BASEFLAGS if f != '-nostdinc++'] if 'stdinc' in flags else BASEFLAGS
    cmd = ['clang++-18'] + std + base + [f for f in flags if not f.startswith('-std') and f != 'stdinc'] + ['-S', '-emit-llvm', src, '-o', a]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CompileError(p.stdout)
    p = subprocess.run(['opt-18', '-S', '-passes=' + passes, a, '-o', b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError('opt failed: ' + p.stdout)
    os.unlink(a)
    return b


def renamed(err, header):
    """the witness names an internal function of the header that is not there (any more),
    and the header itself is fine"""
    m = re.findall(r"error: (.*)", err)
    if not m or not all(re.search(r"no member named|no type named|undeclared|no template named|unknown type|does not name|no matching function|too (many|few) arguments", x) for x in m):
        return False
    f = os.path.join(workdir(), 'alone_%d.cc' % os.getpid())
    with open(f, 'w') as h:
        h.write('#define NANOSTL_IMPLEMENTATION\n#include "%s"\n' % header)
    p = subprocess.run(['clang++-18', '-std=c++11'] + BASEFLAGS + ['-fsyntax-only', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.unlink(f)
    return not p.returncode


def drivers_in(src):
    """(name, options) of the drivers of a witness unit, from  // @opt key=value  lines"""
    out = []
    opts = {}
    for line in open(src):
        m = re.match(r'\s*//\s*@opt\s+(.*)', line)
        if m:
            for kv in m.group(1).split():
                k, _, v = kv.partition('=')
                opts[k] = int(v) if re.fullmatch(r'-?\d+', v) else v
        for n in re.findall(r'extern\s+"C"\s+void\s+((?:d|kf)_\w+)\s*\(\s*\)', line):
            out.append((n, dict(opts)))
            opts = {}
        for n in re.findall(r'^\s*(?:DRIVER)\s*\(\s*(\w+)', line):
            out.append((n, dict(opts)))
            opts = {}
    return out


class Timeout(Exception):
    pass


def _one(job):
    ll, name, opts, tmo, src = job
    from . import ir, absint, num
    t0 = time.time()
    res = {'driver': name if opts.get('shard') is None else '%s#%d' % (name, opts['shard']), 'src': src, 'mode': 'small' if opts.get('small') is not None else 'general'}

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(tmo))
    I = None
    try:
        sys.setrecursionlimit(20000)
        num.reset()
        m = ir.load(ll)
        ao = {k: v for k, v in opts.items() if k in ('dbg', 'dbg1', 'uf', 'nsw', 'uninit', 'maxrec', 'part_consts', 'leak', 'small', 'budget', 'hist', 'iters', 'maxpaths', 'mutable_globals', 'shard')}
        I = absint.Interp(m, ao)
        try:
            I.run(name)
            res['status'] = 'ok'
        except absint.Unsupported as e:
            res['status'] = 'unsupported'
            res['why'] = str(e) + ' at %s:%d (%s)' % I.loc()
        except Timeout:
            res['status'] = 'timeout'
            res['why'] = 'time limit %ds' % tmo
        except (MemoryError, RecursionError) as e:
            res['status'] = 'unsupported'
            res['why'] = type(e).__name__
        # obligations named in the driver that were never reached
        ids = set()
        for b in m.funcs[name].blocks.values():
            for i in b.instrs:
                if i.op in ('call', 'invoke'):
                    c = i.x['callee']
                    if c[0] == 'g' and c[1] in ('ns_check', 'ns_reach'):
                        a = i.args[1 if c[1] == 'ns_check' else 0][1]
                        if a[0] == 'g':
                            t = I.cstring(absint.State(), absint.Ptr('G:' + a[1]))
                            ids.add(t if c[1] == 'ns_check' else 'reach:' + t)
        res['unreached'] = sorted(i for i in ids if i != '?' and i not in I.checks) if res['status'] == 'ok' and not I.truncated else []
    except Exception as e:
        res['status'] = 'crash'
        res['why'] = ''.join(traceback.format_exception_only(type(e), e)).strip() + ' ' + traceback.format_exc()[-600:]
    finally:
        signal.alarm(0)
    if I is not None:
        al = []
        seen = set()
        for a in I.alarms:
            k = (a['kind'], a['where'][0] if a['where'] else '', a['msg'] if a['kind'] == 'check' else '')
            if k in seen:
                continue
            seen.add(k)
            al.append(a)
        res.update(alarms=al, checks=I.checks, obligations=I.oblig, functions=sorted(I.funcs_seen), steps=I.steps,
                   loops=len(I.loops_seen), sized=I.sized, truncated=I.truncated, nalarms=len(I.alarms),
                   bad=len([1 for a in I.alarms]))
    res['t'] = time.time() - t0
    return res


def run_jobs(jobs, procs=None):
    procs = procs or int(os.environ.get('NSA_PROCS', '8'))
    from . import num
    num._load()
    if procs == 1 or len(jobs) == 1:
        return [_one(j) for j in jobs]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=4) as pool:
        return pool.map(_one, jobs, chunksize=1)


def analyse(units, tier='quick', only=None, log=None):
    """units: list of dicts {src, flags, opts}.  Returns list of verdict dicts per driver."""
    verdicts = []
    jobs = []
    lls = []
    tmo = 90 if tier == 'quick' else 600
    for u in units:
        src = os.path.join(VERIF, 'witness', u['src'])
        try:
            ll = compile_ir(src, list(u.get('flags', ())) + (['-DNS_THOROUGH'] if tier == 'thorough' else []), u.get('tag', ''))
        except CompileError as e:
            msg = [l for l in str(e).splitlines() if 'error' in l][:3]
            if u.get('internal') and renamed(str(e), u['internal']):
                verdicts.append({'driver': u['src'], 'src': u['src'], 'outcome': 'bounded', 'kind': 'not-analysed', 'detail': 'an internal function this unit starts from is not there: ' + '; '.join(msg)[:300],
                                 'where': [], 'mode': 'compile', 'n_obligations': 0, 'n_discharged': 0, 'rule': 'not analysed', 'res': None})
                continue
            verdicts.append({'driver': u['src'], 'src': u['src'], 'outcome': 'violation', 'kind': 'does-not-compile',
                             'detail': '; '.join(msg)[:600], 'where': [], 'mode': 'compile', 'res': None})
            continue
        lls.append(ll)
        for name, o in drivers_in(src):
            if only and name not in only:
                continue
            if u.get('drivers') and not any(re.fullmatch(p, name) for p in u['drivers']):
                continue
            oo = dict(u.get('opts', {}))
            oo.update(o)
            sh = oo.get('shards' if tier == 'quick' else 'tshards', oo.get('shards'))
            if sh is None:
                jobs.append((ll, name, oo, oo.get('timeout', tmo), u['src']))
            else:
                for k in ranges(str(sh)):
                    o2 = dict(oo)
                    o2['shard'] = k
                    jobs.append((ll, name, o2, oo.get('timeout', tmo), u['src']))
    first = [j if j[2].get('mode') != 'small' else smallify(j) for j in jobs]
    res = run_jobs(first) if first else []
    for j, r in zip(first, res):
        if 'shard' in j[2]:
            r['unr'], r['unreached'] = r.get('unreached', []), []
    retry = []
    for j, r in zip(jobs, res):
        if clean(r):
            verdicts.append({'driver': r['driver'], 'src': r['src'], 'outcome': 'proved' if r['mode'] == 'general' or not r['sized'] else 'bounded',
                             'mode': r['mode'], 'res': r})
        elif r['mode'] == 'small':
            verdicts.append(classify(r, None))
        else:
            retry.append((j, r))
    if retry:
        res2 = run_jobs([smallify(j) for j, _ in retry])
        for (j, r), r2 in zip(retry, res2):
            verdicts.append(classify(r2, r))
    # sizes just around the code's own thresholds, where no general proof was found
    again = []
    for v in verdicts:
        if v['outcome'] == 'bounded' and v['res'] and v['res']['status'] == 'ok':
            j = [j for j in jobs if j[1] == v['driver'].split('#')[0] and j[4] == v['src']][0]
            thr = [c for c in thresholds(j[0], j[1]) if c <= j[2].get('maxconst', 300)]
            if thr:
                k = smallify(j)
                k[2]['small'] = [0, 1] + thr
                k[2]['iters'] = max(80, max(thr) + 3)
                again.append((v, k))
    if again:
        for (v, k), r in zip(again, run_jobs([k for _, k in again])):
            if r.get('alarms'):
                c = classify(r, v.get('general'))
                if c['outcome'] == 'violation':
                    v.clear()
                    v.update(c)
            elif r['status'] == 'ok':
                v['detail'] = v.get('detail', '') + ' [also sizes %s]' % k[2]['small'][2:]
    for ll in lls:
        try:
            os.unlink(ll)
        except OSError:
            pass
    return merge_shards(verdicts)


def ranges(s):
    out = []
    for p in s.split(','):
        a, _, b = p.partition('..')
        b, _, st = b.partition('/')
        out += range(int(a), int(b or a) + 1, int(st or 1))
    return out


def merge_shards(verdicts):
    """one verdict per sharded driver: proved when every shard is"""
    out, groups = [], {}
    for v in verdicts:
        b, _, k = v['driver'].partition('#')
        if not k:
            out.append(v)
        else:
            groups.setdefault((b, v['src']), []).append(v)
    for (b, src), vs in groups.items():
        bad = [v for v in vs if v['outcome'] not in ('proved', 'bounded')]
        if bad:
            bad[0]['detail'] = bad[0].get('detail', '') + ' [shard %s]' % bad[0]['driver'].split('#')[1]
            bad[0]['shard'] = bad[0]['driver']
            bad[0]['driver'] = b
            out.append(bad[0])
            continue
        never = set.intersection(*[set(v['res'].get('unr', [])) for v in vs])
        if never:
            m = dict(vs[0])
            m.update(driver=b, outcome='violation', kind='unreached', detail='obligation(s) never reached: ' + ', '.join(sorted(never)), where=[])
            out.append(m)
            continue
        m = dict(vs[0])
        m['driver'] = b
        part = [v for v in vs if v['outcome'] == 'bounded']
        m['outcome'] = 'bounded' if part else 'proved'
        m['detail'] = '%d of %d cases undecided: %s' % (len(part), len(vs), '; '.join('%s %s' % (v['driver'].split('#')[1], v.get('detail', '')[:60]) for v in part[:6])) if part else ''
        r = dict(vs[0]['res'])
        ob = {}
        for v in vs:
            for k, c in v['res'].get('obligations', {}).items():
                ob[k] = ob.get(k, 0) + c
        r.update(obligations=ob, t=sum(v['res']['t'] for v in vs), functions=sorted(set(f for v in vs for f in v['res'].get('functions', []))))
        m['res'] = r
        m['shards'] = len(vs)
        out.append(m)
    return out


_thr = {}


def thresholds(ll, name):
    """sizes at which the code's own comparisons change their outcome: integer
    constants compared against in library functions the driver reaches, +-1"""
    if (ll, name) in _thr:
        return _thr[(ll, name)]
    from . import ir
    if ll not in _thr:
        _thr[ll] = ir.load(ll)
    m = _thr[ll]
    seen, stack, out = set(), [name], set()
    while stack:
        f = stack.pop()
        if f in seen or f not in m.funcs or m.funcs[f].decl:
            continue
        seen.add(f)
        lib = 'nanostl' in f and not f.startswith('_ZL')
        for b in m.funcs[f].blocks.values():
            for i in b.instrs:
                if i.op in ('call', 'invoke') and i.x['callee'][0] == 'g':
                    stack.append(i.x['callee'][1])
                elif lib and i.op == 'icmp':
                    for t, v in i.args:
                        if v[0] == 'c' and 33 < v[1] < 4096:
                            out.update((v[1] - 1, v[1], v[1] + 1))
    _thr[(ll, name)] = sorted(out)
    return _thr[(ll, name)]


def smallify(j):
    ll, name, o, tmo, src = j
    o = dict(o)
    s = o.get('sizes')
    o.setdefault('budget', 20000000)
    o['small'] = [int(x) for x in str(s).split(',')] if s is not None else SMALL
    return (ll, name, o, tmo, src)


def clean(r):
    return r['status'] == 'ok' and not r['alarms'] and not r['unreached']


def worst(r):
    al = sorted(r['alarms'], key=lambda a: (a['kind'] != 'check' and not a['definite'], not a['definite']))
    return al[0]


def classify(small, general):
    """outcome of a driver whose general analysis was not clean"""
    v = {'driver': small['driver'], 'src': small['src'], 'mode': 'small', 'res': small, 'general': general}
    if small['status'] == 'crash':
        v.update(outcome='broken', kind='crash', detail=small.get('why', ''), where=[])
        return v
    if small.get('alarms'):
        a = worst(small)
        v.update(outcome='violation', kind=a['kind'], detail=a['msg'], where=a['where'], trace=a['trace'], facts=a['facts'])
        return v
    if small['status'] == 'ok' and small['unreached']:
        v.update(outcome='violation', kind='unreached', detail='obligation(s) never reached: ' + ', '.join(small['unreached']), where=[])
        return v
    if small['status'] == 'ok' and not small['truncated'] and not small['sized']:
        v.update(outcome='proved', detail='')
        return v
    why = (general or small)
    v.update(outcome='bounded', detail='general argument incomplete: ' + (why.get('why') or '; '.join('%s %s' % (a['kind'], a['msg']) for a in why.get('alarms', [])[:2])))
    return v
