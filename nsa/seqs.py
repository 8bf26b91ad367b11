"""Compile-time integer sequences (tao::seq): every operation on sequences spelled
out, one static assertion each; the expected sequences are computed here."""
import random
from . import traits


def seq(t, v):
    return 'tao::seq::integer_sequence<%s>' % ', '.join([t] + ['%d' % x for x in v])


def generate():
    o = ['#include "nanotuple.h"', '#include "tao/seq/plus.hpp"', '#include "tao/seq/zip.hpp"', '#include "tao/seq/select.hpp"', '#include "tao/seq/partial_sum.hpp"', 'namespace z {',
         'template <class A, class B> struct same { enum { v = 0 }; };', 'template <class A> struct same<A, A> { enum { v = 1 }; };', 'template <int> struct T {};',
         'struct mul { template <typename T, T A, T B> using apply = nanostl::integral_constant<T, A * B>; };', '}']
    n = 0

    def sa(cond, label):
        nonlocal n
        n += 1
        o.append('static_assert(%s, "@@%s@@");' % (cond, label))

    def same(a, b, label):
        sa('z::same<%s, %s>::v' % (a, b), label)
    for t in ('nanostl::size_t', 'int', 'unsigned', 'long', 'long long'):
        full = t == 'nanostl::size_t'
        for k in (list(range(0, 131)) if full else [0, 1, 2, 3, 5, 8, 13, 21, 31, 32, 33, 100]) + [255, 256, 257, 300] + ([511, 512, 513, 777, 1023, 1024, 1025, 1500, 2048] if full else []):
            same('tao::seq::make_integer_sequence<%s, %d>' % (t, k), seq(t, range(k)), 'make_integer_sequence<%s, %d> is 0..%d' % (t, k, k - 1))
    for k in (0, 1, 7, 64):
        same('tao::seq::make_index_sequence<%d>' % k, seq('nanostl::size_t', range(k)), 'make_index_sequence<%d>' % k)
        same('tao::seq::index_sequence_for<%s>' % ', '.join(['char'] * k), seq('nanostl::size_t', range(k)), 'index_sequence_for of %d types' % k)
        sa(seq('int', range(k)) + '::size() == %d' % k, 'size of a sequence of %d' % k)
    for k in (1, 2, 3, 9, 20):
        for i in sorted({0, 1, k // 2, k - 2, k - 1}):
            if 0 <= i < k:
                same('tao::seq::at_index_t<%d, %s>' % (i, ', '.join('z::T<%d>' % j for j in range(k))), 'z::T<%d>' % i, 'at_index_t<%d> of %d types' % (i, k))
    same('tao::seq::at_index_t<2, int, int, char, int>', 'char', 'at_index_t with equal types')
    r = random.Random(7)
    for t, lo, hi in (('int', -50, 50), ('long', -90, 9), ('unsigned', 0, 90), ('nanostl::size_t', 0, 200), ('short', -40, 40), ('signed char', -12, 12), ('unsigned char', 0, 25)):
        for k in (0, 1, 2, 3, 5, 8):
            a = [r.randint(lo, hi) for _ in range(k)]
            b = [r.randint(lo, hi) for _ in range(k)]
            if k == 3:
                a = [0, 0, hi]
            if k == 2:
                a = [lo, hi]
            A, B = seq(t, a), seq(t, b)
            args = ', '.join([t] + ['%d' % x for x in a])
            L = '%s of %s' % (a, t)
            sa('tao::seq::sum<%s>::value == %d && z::same<tao::seq::sum<%s>::value_type, %s>::v' % (args, sum(a), args, t), 'sum ' + L)
            sa('tao::seq::sum<%s>::value == %d' % (A, sum(a)), 'sum of sequence ' + L)
            if t in ('short', 'signed char', 'unsigned char'):
                continue
            pre = [sum(a[:i]) for i in range(k)]
            inc = [sum(a[:i + 1]) for i in range(k)]
            for i in range(k + 1):
                sa('tao::seq::partial_sum<%d, %s>::value == %d && tao::seq::partial_sum<%d, %s>::value == %d' % (i, A, sum(a[:i]), i, args, sum(a[:i])), 'partial_sum<%d> %s' % (i, L))
            for i in range(k):
                sa('tao::seq::select<%d, %s>::value == %d && tao::seq::select<%d, %s>::value == %d' % (i, A, a[i], i, args, a[i]), 'select<%d> %s' % (i, L))
            same('tao::seq::exclusive_scan_t<%s>' % A, seq(t, pre), 'exclusive_scan ' + L)
            same('tao::seq::inclusive_scan_t<%s>' % A, seq(t, inc), 'inclusive_scan ' + L)
            same('tao::seq::exclusive_scan_t<%s>' % args, seq(t, pre), 'exclusive_scan of values ' + L)
            same('tao::seq::inclusive_scan_t<%s>' % args, seq(t, inc), 'inclusive_scan of values ' + L)
            if lo < 0:
                same('tao::seq::minus_t<%s, %s>' % (A, B), seq(t, [x - y for x, y in zip(a, b)]), 'minus ' + L)
            same('tao::seq::plus_t<%s, %s>' % (A, B), seq(t, [x + y for x, y in zip(a, b)]), 'plus ' + L)
            same('tao::seq::zip_t<z::mul, %s, %s>' % (A, B), seq(t, [x * y for x, y in zip(a, b)]), 'zip ' + L)
            if k:
                ix = [r.randrange(k) for _ in range(r.randint(0, 6))]
                same('tao::seq::map_t<%s, %s>' % (seq('nanostl::size_t', ix), A), seq(t, [a[i] for i in ix]), 'map %s over %s' % (ix, L))
    same('tao::seq::plus_t<%s, %s>' % (seq('int', [1, 2]), seq('long', [3, -9])), seq('long', [4, -7]), 'plus of different types has the common type')
    for k in range(0, 7):
        for m in range(1 << k):
            if k < 5 or bin(m).count('1') >= k - 1:
                bs = [(m >> i) & 1 for i in range(k)]
                sa('tao::seq::is_all<%s>::value == %s' % (', '.join('true' if x else 'false' for x in bs), 'true' if all(bs) else 'false'), 'is_all<%s>' % bs)
    return '\n'.join(o) + '\n', n


def part(tier, only):
    src, n = generate()
    return traits.compile_asserts('seq', src, n, stds=('-std=c++11', '-std=c++14', '-std=c++17'), compilers=('clang++-18', 'g++'))
