#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current tree

exit 0  nothing violated (KNOWN-FINDING lines for recorded defects)
exit 1  VIOLATION line printed
exit 2  the analysis itself is broken (missing tool, internal error)
"""
import json, os, sys, time, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
from nsa import driver, registry


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                d = {}
                head, _, what = l[7:].partition(' :: ')
                for kv in head.split():
                    k, _, v = kv.partition('=')
                    d[k] = v
                d['what'] = what
                out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:] or None
    t0 = time.time()
    P = registry.PROPS[prop]
    verdicts = []
    try:
        for part in P['parts']:
            verdicts += part(tier, only)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
    kf = [k for k in known() if k['property'] == prop]
    viol, found, broken = [], [], []
    for v in verdicts:
        if v['outcome'] == 'violation':
            k = [k for k in kf if k.get('driver') == v['driver'] and k.get('kind') in (v['kind'], None)]
            if k:
                found.append((k[0], v))
            else:
                viol.append(v)
        elif v['outcome'] == 'broken':
            broken.append(v)
    wall = time.time() - t0
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    cov = coverage(P, verdicts)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': P['level'], 'coverage': cov,
          'assumptions': P.get('assumptions', []) + registry.COMMON_ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(viol)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, v in found:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for v in broken:
        print('ANALYSIS-BROKEN property=%s driver=%s %s' % (prop, v['driver'], v.get('detail', '')))
    for i, v in enumerate(viol):
        path = os.path.join(rdir, '%s-%s.txt' % (prop, v['driver'].replace('/', '_')))
        with open(path, 'w') as f:
            f.write(report(prop, v))
        if i < 8:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s: %s: %s' % (v['driver'], v['kind'], v['detail'][:300]))
            for w in v.get('where', [])[:6]:
                print('    at %s' % w)
    n = {}
    for v in verdicts:
        n[v['outcome']] = n.get(v['outcome'], 0) + 1
    print('%s %s: %s in %.1fs' % (prop, tier, ', '.join('%s %d' % x for x in sorted(n.items())), wall))
    if os.environ.get('NSA_V'):
        for v in verdicts:
            print('  ', v['outcome'], v['driver'], v.get('mode'), '%.1fs' % (v['res']['t'] if v.get('res') else 0), v.get('detail', '')[:300])
    sys.exit(1 if viol else 2 if broken else 0)


def report(prop, v):
    o = ['property  %s' % prop, 'rule      %s' % v['kind'], 'driver    %s (%s)' % (v['driver'], v.get('src')), 'mode      %s' % v.get('mode'),
         'finding   %s' % v['detail'], 'where']
    o += ['  ' + w for w in v.get('where', [])]
    if v.get('trace'):
        o += ['last branch decisions on the path (T taken / F not taken)'] + ['  ' + str(t) for t in v['trace']]
    if v.get('facts'):
        o += ['facts known on the path'] + ['  ' + str(t) for t in v['facts']]
    o += ['', 'reproduce: cd /verif && python3 check.py %s quick %s' % (prop, v['driver'])]
    return '\n'.join(o) + '\n'


def coverage(P, verdicts):
    obl, dis, drivers, fns, kinds, checks = 0, 0, [], set(), {}, 0
    for v in verdicts:
        drivers.append({'item': v['driver'], 'outcome': v['outcome'], 'mode': v.get('mode'), 'note': v.get('detail', '')[:200] if v['outcome'] != 'proved' else ''})
        if v.get('n_obligations') is not None:
            obl += v['n_obligations']
            dis += v['n_discharged']
            kinds[v['rule']] = kinds.get(v['rule'], 0) + v['n_obligations']
        r = v.get('res')
        if r and r.get('obligations') is not None:
            n = sum(r['obligations'].values())
            obl += n
            dis += max(0, n - r.get('nalarms', 0)) if v['outcome'] != 'bounded' or r['mode'] == 'small' else n
            fns.update(r['functions'])
            for k, c in r['obligations'].items():
                kinds[k] = kinds.get(k, 0) + c
        elif v['outcome'] == 'violation' and v.get('n_obligations') is None:
            obl += 1
    for x in P.get('functions_extra', []):
        fns.add(x)
    c = {'obligations': obl, 'discharged': dis, 'checker_cmd': 'cd /verif && python3 check.py %s' % P['id'], 'trusted_base': P.get('trusted', registry.TRUSTED),
         'rule': P['rule'], 'obligations_by_rule': kinds, 'items': drivers, 'functions_analysed': len(fns),
         'functions': sorted(fns)[:80], 'general': sum(1 for v in verdicts if v['outcome'] == 'proved'),
         'bounded_only': [v['driver'] for v in verdicts if v['outcome'] == 'bounded'],
         'explanation': P['rule']}
    return c


main()
