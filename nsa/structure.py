"""Whole-library structural rules: headers stand alone, in every order and in
every translation unit; what is declared is defined; no function calls itself
on every path."""
import itertools, json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import driver, ir

INC = os.path.join(driver.REPO, 'include')
CLANG, GXX = 'clang++-18', 'g++'


def public_headers():
    return sorted(f for f in os.listdir(INC) if re.fullmatch(r'nano\w*\.h', f))


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout


def errors(out):
    return [l for l in out.splitlines() if 'error' in l]


_n = itertools.count()


def unit(text):
    f = os.path.join(driver.workdir(), 'st_%d_%d.cc' % (os.getpid(), next(_n)))
    with open(f, 'w') as h:
        h.write(text)
    return f


def compile_text(text, cc, std, extra=()):
    f = unit(text)
    try:
        return run([cc, '-std=' + std, '-w', '-fsyntax-only', '-I' + INC] + list(extra) + [f])
    finally:
        os.unlink(f)


def V(driver_, outcome, kind, detail='', where=(), n=1, src='structure'):
    return {'driver': driver_, 'src': src, 'outcome': outcome, 'kind': kind, 'detail': detail, 'where': list(where), 'mode': 'compile',
            'n_obligations': n, 'n_discharged': n if outcome == 'proved' else 0, 'rule': kind}


def batch(items, f):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(f, items))


# ------------------------------------------------------------------ headers
def headers(tier, only):
    """each public header alone, twice, and in every ordered pair, with every
    language level, without any C++ standard library header"""
    hs = public_headers()
    out = []
    confs = [(CLANG, s, ('-nostdinc++',)) for s in ('c++11', 'c++14', 'c++17')] + [(GXX, s, ('-nostdinc++',)) for s in ('c++11', 'c++17')]
    jobs = [(h, c) for h in hs for c in confs]

    def one(j):
        h, (cc, std, ex) = j
        return j, compile_text('#include "%s"\n#include "%s"\nint nanostl_user;\n' % (h, h), cc, std, ex)
    bad, sep = set(), set()
    for (h, (cc, std, ex)), (rc, o) in batch(jobs, one):
        n = '%s/%s/%s' % (h, cc.split('-')[0], std)
        if rc:
            e = errors(o) or [o[-200:]]
            bad.add(h)
            sep.add((h, cc, std))
            out.append(V(n, 'violation', 'standalone', '%s alone does not compile with %s -std=%s: %s' % (h, cc, std, e[0][-220:]), [x[-160:] for x in e[1:3]]))
        else:
            out.append(V(n, 'proved', 'standalone'))
    ok = [h for h in hs if h not in bad]
    stds = ('c++11',) if tier == 'quick' else ('c++11', 'c++17')
    pairs = [(a, b, s) for s in stds for a in ok for b in ok if a != b]

    def two(j):
        a, b, s = j
        return j, compile_text('#include "%s"\n#include "%s"\n' % (a, b), CLANG, s, ('-nostdinc++',))
    # its templates can be instantiated with nothing else included, with and without the
    # implementation; placement new is the language's, its declaration the user's
    use = os.path.join(driver.VERIF, 'witness', 'use')

    def used(j):
        h, (cc, std, ex), d = j
        return j, run([cc, '-std=' + std, '-w', '-fsyntax-only', '-I' + INC, '-include', os.path.join(INC, h), os.path.join(use, h[:-2] + '.cc')] + list(ex) + list(d))
    uses = [(h, c, d) for h in hs if os.path.exists(os.path.join(use, h[:-2] + '.cc')) for c in confs if (h, c[0], c[1]) not in sep for d in (('-DPLACEMENT',), ('-DPLACEMENT', '-DNANOSTL_IMPLEMENTATION'))]
    uses += [(h, confs[0], ()) for h in ('nanooptional.h', 'nanovariant.h') if h in hs and (h,) + confs[0][:2] not in sep]
    n = 0
    for (h, (cc, std, ex), d), (rc, o) in batch(uses, used):
        name = '%s/use/%s/%s%s' % (h, cc.split('-')[0], std, '' if len(d) == 1 else '/implementation' if d else '/no-placement-new')
        if rc:
            e = errors(o) or [o[-200:]]
            out.append(V(name, 'violation', 'use', 'the templates of %s cannot be used with no other header included (%s -std=%s): %s' % (h, cc, std, e[0][-220:]), [x[-160:] for x in e[1:3]]))
        else:
            n += 1
    out.append(V('headers used alone', 'proved', 'use', n=n))
    n = 0
    for (a, b, s), (rc, o) in batch(pairs, two):
        if rc:
            e = errors(o) or [o[-200:]]
            out.append(V('%s+%s/%s' % (a, b, s), 'violation', 'pair', '%s followed by %s does not compile with -std=%s: %s' % (a, b, s, e[0][-220:])))
        else:
            n += 1
    out.append(V('ordered pairs of headers', 'proved', 'pair', n=n))
    # the documented way to get the implementation, with every header
    for cc, std, ex in confs:
        t = '#define NANOSTL_IMPLEMENTATION\n#include "nanostl.h"\n' + ''.join('#include "%s"\n' % h for h in ok)
        rc, o = compile_text(t, cc, std, ex)
        e = errors(o) or [o[-200:]]
        out.append(V('implementation/%s/%s' % (cc.split('-')[0], std), 'violation' if rc else 'proved', 'implementation',
                     'NANOSTL_IMPLEMENTATION with every header does not compile: ' + e[0][-220:] if rc else ''))
    for std in ('c++11', 'c++17'):
        rc, o = run([CLANG, '-std=' + std, '-nostdinc++', '-w', '-fsyntax-only', '-femit-all-decls', '-I' + INC, os.path.join(driver.VERIF, 'witness', 'inst.cc')])
        e = errors(o) or [o[-200:]]
        out.append(V('instantiations/' + std, 'violation' if rc else 'proved', 'instantiation', 'a member of a class template does not compile: ' + e[0][-220:] if rc else '', [x[-160:] for x in e[1:4]] if rc else []))
    return out


# ------------------------------------------------------------------ linkage
def emit(src, extra=(), std='c++11'):
    p = subprocess.run([CLANG, '-std=' + std, '-nostdinc++', '-w', '-g1', '-O0', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-I' + INC, '-o', '-'] + list(extra) + [src],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    return (None, p.stderr) if p.returncode else (p.stdout, '')


def demangle(ns):
    p = subprocess.run(['c++filt'], input='\n'.join(ns), stdout=subprocess.PIPE, text=True)
    return dict(zip(ns, p.stdout.split('\n')))


def strong(ll):
    r = []
    for l in ll.splitlines():
        if l.startswith('define '):
            m = re.match(r'define (.*?)@("[^"]+"|[\w\.\$]+)\(', l)
            if not any(w in m.group(1).split() or any(x.startswith(w) for x in m.group(1).split()) for w in ('linkonce_odr', 'linkonce', 'internal', 'private', 'weak', 'weak_odr', 'available_externally')):
                r.append(m.group(2).strip('"'))
        elif l.startswith('@'):
            m = re.match(r'@("[^"]+"|[\w\.\$]+) = (.*)', l)
            if m and not m.group(1).startswith('llvm.') and not re.match(r'(linkonce|linkonce_odr|internal|private|weak|weak_odr|available_externally|external|extern_weak|appending|common)\b', m.group(2)):
                r.append(m.group(1).strip('"'))
    return r


def linkage(tier, only):
    out = []
    hs = public_headers()

    def one(j):
        h, std = j
        f = unit('#include "%s"\n' % h)
        try:
            return j, emit(f, std=std)
        finally:
            os.unlink(f)
    for (h, std), (ll, err) in batch([(h, s) for h in hs for s in ('c++11', 'c++17')], one):
        if ll is None:
            continue  # L02
        s = strong(ll)
        if s:
            d = demangle(s)
            out.append(V('%s/%s' % (h, std), 'violation', 'multiply-defined', '%s defines in every translation unit that includes it: %s' % (h, ', '.join(d[x] for x in s[:3]))))
        else:
            out.append(V('%s/%s' % (h, std), 'proved', 'multiply-defined'))
    return out


def ast(src, std='c++11'):
    p = subprocess.run([CLANG, '-std=' + std, '-nostdinc++', '-w', '-I' + INC, '-Xclang', '-ast-dump=json', '-fsyntax-only', src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return json.loads(p.stdout)


FN = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


UNSUPPORTED = {'nano%s.h' % x for x in ('iostream', 'ios', 'iosfwd', 'streambuf', 'sstream', 'thread', 'atomic', 'mutex', 'chrono', 'exception',
                                        'stdexcept', 'system_error', 'execution', 'any', 'optional', 'expected', 'variant')}


def helper(name):
    """functions that exist to be named in unevaluated operands only"""
    c = name.split('::')
    return name == 'nanostl::declval' or any(x.startswith('__') or x == 'detail' or re.search(r'_imp\w*$', x) for x in c)


def undefined(tier, only):
    """functions of the library that are declared, are not deleted, and have
    no definition in any header or source"""
    decls, defined, alias, special = {}, set(), {}, set()
    srcs = [os.path.join(driver.VERIF, 'witness', 'inst.cc')]
    cur = [None, None]
    nfun = 0

    def loc(n):
        l = n.get('loc', {})
        l = l.get('expansionLoc', l)
        return l

    def walk(n, scope, inlib, spec):
        nonlocal nfun
        k = n.get('kind')
        for key in ('loc',):
            l = loc(n)
            if 'file' in l:
                cur[0] = l['file']
            if 'line' in l:
                cur[1] = l['line']
        r = n.get('range', {})
        here = (cur[0], cur[1])
        for e in ('begin', 'end'):
            l = r.get(e, {})
            l = l.get('expansionLoc', l)
            if 'file' in l:
                cur[0] = l['file']
            if 'line' in l:
                cur[1] = l['line']
        if k == 'NamespaceDecl':
            inlib = inlib or n.get('name') == 'nanostl'
            scope = scope + [n.get('name', '(anonymous)')]
        elif k in ('ClassTemplateSpecializationDecl',) and not any(c.get('kind') == 'x' for c in ()):
            spec = True
            scope = scope + [n.get('name', '?')]
        elif k in ('CXXRecordDecl', 'ClassTemplatePartialSpecializationDecl'):
            scope = scope + [n.get('name', '?')]
        if k in FN and inlib and not n.get('isImplicit'):
            id = n['id']
            prev = n.get('previousDecl')
            if prev:
                alias[id] = prev
            body = any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []))
            if body or n.get('explicitlyDeleted') or n.get('explicitlyDefaulted') or n.get('pure'):
                defined.add(id)
            if body and any(c.get('kind') == 'TemplateArgument' for c in n.get('inner', [])):
                special.add('::'.join(scope + [n.get('name', '?')]))
            if not spec:
                decls[id] = ('::'.join(scope + [n.get('name', '?')]), n.get('type', {}).get('qualType', ''), here, n.get('mangledName'))
                nfun += 1
            if k != 'CXXRecordDecl':
                return
        if k == 'FunctionTemplateDecl':
            # only the pattern (first function)
            fs = [c for c in n.get('inner', []) if c.get('kind') in FN]
            for c in n.get('inner', []):
                if c in fs[:1] or c.get('kind') not in FN:
                    walk(c, scope, inlib, spec)
            return
        for c in n.get('inner', []):
            if isinstance(c, dict):
                walk(c, scope, inlib, spec)
    for s in srcs:
        walk(ast(s), [], False, False)

    def root(i):
        while i in alias:
            i = alias[i]
        return i
    droots = {root(i) for i in defined}
    # definitions in the library's own sources
    extern = set()
    for f in sorted(os.listdir(os.path.join(driver.REPO, 'src'))):
        if f.endswith('.cc'):
            ll, err = emit(os.path.join(driver.REPO, 'src', f))
            if ll is not None:
                extern.update(strong(ll))
    out = []
    bad = {}
    for i, (name, ty, here, mang) in decls.items():
        if root(i) in droots or mang in extern:
            continue
        f = os.path.basename(here[0] or '?')
        # README.md does not list these modules as supported
        if f in UNSUPPORTED or helper(name):
            continue
        # function templates that are defined by explicit specialisation
        if name in special:
            continue
        bad.setdefault((name, ty), '%s:%s' % (f, here[1]))
    for (name, ty), w in sorted(bad.items()):
        out.append(V('%s|%s' % (name, ty.replace(' ', '')), 'violation', 'undefined', '%s %s is declared but defined nowhere' % (name, ty), [w]))
    out.append(V('declared functions', 'proved', 'defined', n=nfun - len(bad)))
    return out


def recursion(tier, only):
    """no function whose every path from entry reaches a call to itself"""
    ll, err = emit(os.path.join(driver.VERIF, 'witness', 'inst.cc'), ['-femit-all-decls'])
    if ll is None:
        return [V('recursion', 'violation', 'does-not-compile', errors(err)[0][-200:])]
    out, n = [], 0
    name, blocks, cur, calls = None, {}, None, None
    for l in ll.splitlines():
        if l.startswith('define '):
            name = re.search(r'@("[^"]+"|[\w\.\$]+)\(', l).group(1)
            blocks, cur = {}, 'entry'
            blocks[cur] = ([], [], [False])
        elif name and l.startswith('}'):
            n += 1
            if unconditional(blocks):
                d = demangle([name.strip('"')])[name.strip('"')]
                out.append(V('recursion:' + d.replace(' ', ''), 'violation', 'infinite-recursion', '%s calls itself on every path' % d))
            name = None
        elif name:
            m = re.match(r'^("[^"]+"|[\w\.\-\$]+):', l)
            if m:
                cur = m.group(1)
                blocks[cur] = ([], [], [False])
                continue
            s = l.strip()
            b = blocks[cur]
            if re.search(r'(call|invoke) .*@' + re.escape(name) + r'\(', s):
                b[2][0] = True
            for t in re.findall(r'label %("[^"]+"|[\w\.\-\$]+)', s):
                b[0].append(t)
            if s.startswith(('ret', 'unreachable', 'resume')):
                b[1].append(1)
            # calls that may not return or may throw past this frame are exits too
    out.append(V('unconditional recursion', 'proved', 'recursion', n=n - len(out)))
    return out


def unconditional(blocks):
    """no return is reachable from the entry without a call to itself"""
    if not any(b[2][0] for b in blocks.values()):
        return False
    seen, st = set(), [next(iter(blocks))]
    while st:
        x = st.pop()
        if x in seen or x not in blocks:
            continue
        seen.add(x)
        succ, ret, rec = blocks[x]
        if rec[0]:
            continue
        if ret:
            return False
        st += succ
    return True
