"""Type-level rules: every trait of nanostl against the language (the standard
library's traits, which are compiler intrinsics or ISO definitions), decided by
the compiler as one static assertion per (trait, type)."""
import os, re, subprocess
from . import driver

ZOO = '''
namespace zoo {
struct Empty {}; struct Data { int x; }; class Cls { int y; public: Cls(int); }; struct Derived : Data {}; struct Virt { virtual ~Virt(); virtual void f(); };
struct Abstract { virtual void f() = 0; virtual ~Abstract(); }; struct Final final { int z; }; union Un { int a; float b; }; union UnFinal final { int a; };
enum En { e0, e1 }; enum class EnC : short { c0 };
struct NoCopy { NoCopy(); NoCopy(const NoCopy &) = delete; NoCopy &operator=(const NoCopy &) = delete; };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly &&) noexcept; MoveOnly &operator=(MoveOnly &&) noexcept; };
struct ThrowMove { ThrowMove(); ThrowMove(ThrowMove &&); ThrowMove &operator=(ThrowMove &&); ThrowMove(const ThrowMove &) noexcept; ThrowMove &operator=(const ThrowMove &) noexcept; };
struct NoDefault { NoDefault(int, char); }; struct NoDtor { ~NoDtor() = delete; };
struct Conv { operator int() const; Conv(); Conv(double); }; struct ExplicitFrom { explicit ExplicitFrom(int); ExplicitFrom(const char *) noexcept; };
struct AssignInt { AssignInt &operator=(int); AssignInt &operator=(char) noexcept; };
struct Base2 { int q; virtual int m(int) const; }; struct D2 : Base2 {}; template <class T> struct Tmpl { T t; }; struct EmptyVirt : virtual Empty {}; struct Bits { int : 0; };
}
'''
TYPES = ['void', 'const void', 'volatile void', 'bool', 'char', 'signed char', 'unsigned char', 'wchar_t', 'char16_t', 'char32_t', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long',
         'long long', 'unsigned long long', 'float', 'double', 'long double', 'const int', 'volatile int', 'const volatile int', 'const bool', 'const float', 'volatile double', 'int *', 'const int *', 'int *const',
         'int *volatile', 'void *', 'int **', 'int &', 'const int &', 'int &&', 'const volatile int &&', 'int[3]', 'const int[3]', 'int[]', 'int[2][4]', 'int[][4]', 'int (&)[3]', 'int (*)[3]',
         'void ()', 'int (int, char)', 'void (*)()', 'void (&)()', 'int zoo::Data::*', 'int zoo::Data::*const', 'int (zoo::Base2::*)(int) const', 'int (zoo::Base2::*const)(int) const',
         'decltype(nullptr)', 'const decltype(nullptr)',
         'zoo::Empty', 'zoo::Data', 'const zoo::Data', 'zoo::Cls', 'zoo::Derived', 'zoo::Virt', 'zoo::Abstract', 'zoo::Final', 'zoo::Un', 'const zoo::Un', 'zoo::UnFinal', 'zoo::En', 'const zoo::En', 'zoo::EnC',
         'zoo::NoCopy', 'zoo::MoveOnly', 'zoo::ThrowMove', 'zoo::NoDefault', 'zoo::NoDtor', 'zoo::Conv', 'zoo::ExplicitFrom', 'zoo::AssignInt', 'zoo::Tmpl<int>', 'zoo::Tmpl<int> *', 'zoo::EmptyVirt', 'zoo::Bits',
         'zoo::Empty &', 'zoo::Data *', 'zoo::Data[2]', 'zoo::NoDtor[2]', 'zoo::Abstract *', 'zoo::Virt &&', 'const zoo::Empty', 'zoo::MoveOnly &']
BOOL1 = ['is_void', 'is_integral', 'is_floating_point', 'is_array', 'is_pointer', 'is_lvalue_reference', 'is_rvalue_reference', 'is_reference', 'is_enum', 'is_union', 'is_class', 'is_function', 'is_arithmetic',
         'is_object', 'is_scalar', 'is_member_pointer', 'is_member_function_pointer', 'is_const', 'is_empty', 'is_abstract', 'is_final', 'is_signed', 'is_unsigned', 'is_destructible',
         'is_default_constructible', 'is_copy_constructible', 'is_move_constructible', 'is_copy_assignable', 'is_move_assignable', 'is_nothrow_default_constructible', 'is_nothrow_copy_constructible',
         'is_nothrow_move_constructible', 'is_nothrow_copy_assignable', 'is_nothrow_move_assignable', 'is_trivially_default_constructible', 'is_trivially_copy_constructible', 'is_trivially_move_constructible']
TYPE1 = ['remove_const', 'remove_volatile', 'remove_cv', 'remove_reference', 'remove_extent', 'remove_all_extents', 'add_const', 'add_pointer', 'add_lvalue_reference', 'add_rvalue_reference', 'decay']
BOOL2 = ['is_same', 'is_convertible', 'is_assignable', 'is_constructible', 'is_nothrow_assignable', 'is_nothrow_constructible']
PAIR = ['void', 'int', 'const int', 'char', 'unsigned long', 'double', 'bool', 'int *', 'const int *', 'void *', 'int &', 'const int &', 'int &&', 'int[3]', 'zoo::Data', 'const zoo::Data &', 'zoo::Derived', 'zoo::Derived &', 'zoo::Data *', 'zoo::Derived *',
        'zoo::Cls', 'zoo::Conv', 'zoo::ExplicitFrom', 'zoo::AssignInt &', 'zoo::En', 'zoo::EnC', 'zoo::MoveOnly', 'zoo::MoveOnly &', 'zoo::NoCopy &', 'zoo::NoDtor', 'zoo::Abstract &', 'decltype(nullptr)', 'void (*)()', 'void ()', 'const char *', 'zoo::D2 &', 'zoo::Base2 &']
COMMON = ['int', 'char', 'double', 'const int &', 'unsigned long', 'int *', 'const int *', 'zoo::Data', 'zoo::Derived *', 'zoo::Data *', 'void *', 'decltype(nullptr)', 'int[3]', 'bool', 'float']


def nm(t):
    return t


def generate(header='nanotype_traits.h'):
    o = ['#include <type_traits>', '#include <utility>', '#include <stddef.h>', '#define NANOSTL__NULLPTR', 'namespace nanostl { typedef decltype(nullptr) nullptr_t; }', '#include "%s"' % header, ZOO]
    n = 0

    def sa(cond, label):
        nonlocal n
        n += 1
        o.append('static_assert(%s, "@@%s@@");' % (cond, label.replace('"', '')))
    for i, t in enumerate(TYPES):
        o.append('typedef %s;' % decl(t, 'T%d' % i))
    for i, t in enumerate(PAIR):
        o.append('typedef %s;' % decl(t, 'P%d' % i))
    for i, t in enumerate(COMMON):
        o.append('typedef %s;' % decl(t, 'C%d' % i))
    for tr in BOOL1:
        for i, t in enumerate(TYPES):
            if skip1(tr, t):
                continue
            st = tr if tr != 'is_null_pointer' else None
            ref = 'std::%s<T%d>::value' % (tr, i) if st and tr != 'is_final' else ('__is_final(T%d)' % i if tr == 'is_final' else 'std::is_same<std::remove_cv<T%d>::type, std::nullptr_t>::value' % i)
            sa('nanostl::%s<T%d>::value == %s' % (tr, i, ref), '%s<%s>' % (tr, t))
    for tr in TYPE1:
        for i, t in enumerate(TYPES):
            sa('std::is_same<nanostl::%s<T%d>::type, std::%s<T%d>::type>::value' % (tr, i, tr, i), '%s<%s>' % (tr, t))
    for tr in BOOL2:
        for i, t in enumerate(PAIR):
            for j, u in enumerate(PAIR):
                sa('nanostl::%s<P%d, P%d>::value == std::%s<P%d, P%d>::value' % (tr, i, j, tr, i, j), '%s<%s, %s>' % (tr, t, u))
    o.append('template <template <class...> class C, class V, class... A> struct has : std::false_type {};')
    o.append('template <class...> struct vt { typedef void type; };')
    o.append('template <class A, class B, class = void> struct hs { typedef void type; }; template <class A, class B> struct hs<A, B, typename vt<typename std::common_type<A, B>::type>::type> { typedef typename std::common_type<A, B>::type type; };')
    o.append('template <class A, class B, class = void> struct hn { typedef void type; }; template <class A, class B> struct hn<A, B, typename vt<typename nanostl::common_type<A, B>::type>::type> { typedef typename nanostl::common_type<A, B>::type type; };')
    for i, t in enumerate(COMMON):
        for j, u in enumerate(COMMON):
            sa('std::is_same<hn<C%d, C%d>::type, hs<C%d, C%d>::type>::value' % (i, j, i, j), 'common_type<%s, %s>' % (t, u))
    sa('std::is_same<nanostl::common_type<int, char, double>::type, double>::value', 'common_type<int, char, double>')
    sa('std::is_same<nanostl::common_type<char, short, long, float>::type, float>::value', 'common_type<char, short, long, float>')
    # the rest of the vocabulary
    for c, a, b in ((1, 'int', 'char'), (0, 'int', 'char'), (1, 'void', 'int &'), (0, 'void', 'int &')):
        sa('std::is_same<nanostl::conditional<%d, %s, %s>::type, std::conditional<%d, %s, %s>::type>::value' % (c, a, b, c, a, b), 'conditional<%d>' % c)
    sa('std::is_same<nanostl::enable_if<true, int>::type, int>::value', 'enable_if<true, int>')
    sa('std::is_same<nanostl::enable_if<true>::type, void>::value', 'enable_if<true>')
    sa('std::is_same<nanostl::enable_if_t<true, char>, char>::value', 'enable_if_t<true, char>')
    o.append('template <bool B, class = void> struct ei : std::false_type {}; template <bool B> struct ei<B, typename vt<typename nanostl::enable_if<B>::type>::type> : std::true_type {};')
    sa('ei<true>::value && !ei<false>::value', 'enable_if<false> has no type')
    sa('nanostl::integral_constant<int, 7>::value == 7 && (int)nanostl::integral_constant<int, 7>() == 7', 'integral_constant')
    sa('nanostl::true_type::value && !nanostl::false_type::value', 'true_type/false_type')
    sa('std::is_same<nanostl::integral_constant<char, 1>::value_type, char>::value && std::is_same<nanostl::integral_constant<char, 1>::type, nanostl::integral_constant<char, 1> >::value', 'integral_constant types')
    for L in (1, 2, 3, 4, 7, 8, 9, 16, 17, 33, 64, 100):
        for A in (1, 2, 4, 8, 16, 32, 64):
            sa('sizeof(nanostl::aligned_storage<%d, %d>::type) >= %d && alignof(nanostl::aligned_storage<%d, %d>::type) %% %d == 0' % (L, A, L, L, A, A), 'aligned_storage<%d, %d>' % (L, A))
        for A in (128, 256, 512, 1024, 2048, 4096, 8192, 16384):
            sa('sizeof(nanostl::aligned_storage<%d, %d>::type) == %d && alignof(nanostl::aligned_storage<%d, %d>::type) == %d' % (L, A, A, L, A, A), 'aligned_storage<%d, %d>' % (L, A))
        sa('sizeof(nanostl::aligned_storage<%d>::type) >= %d && alignof(nanostl::aligned_storage<%d>::type) >= %d' % (L, L, L, max(a for a in (1, 2, 4, 8, 16) if a <= L)), 'aligned_storage<%d>' % L)
    for v in ('zoo::MoveOnly', 'int', 'const int', 'zoo::NoCopy'):
        sa('std::is_same<decltype(nanostl::declval<%s>()), decltype(std::declval<%s>())>::value' % (v, v), 'declval<%s>' % v)
        sa('std::is_same<decltype(nanostl::move(nanostl::declval<%s &>())), decltype(std::move(std::declval<%s &>()))>::value' % (v, v), 'move(%s &)' % v)
        sa('std::is_same<decltype(nanostl::move(nanostl::declval<%s>())), decltype(std::move(std::declval<%s>()))>::value' % (v, v), 'move(%s &&)' % v)
    for t in TYPE_ALIASES:
        sa('std::is_same<nanostl::%s_t<%s>, std::%s<%s>::type>::value' % (t, 'const int &', t, 'const int &'), '%s_t' % t)
    return '\n'.join(o) + '\n', n


TYPE_ALIASES = ['remove_reference', 'add_pointer', 'remove_all_extents']


def decl(t, name):
    m = re.match(r'^(.*)\(([*&]|zoo::Base2::\*(?:const)?)\)(.*)$', t)
    if m:
        return '%s(%s %s)%s' % (m.group(1), m.group(2), name, m.group(3))
    m = re.match(r'^(.*?)((?:\[\d*\])+)$', t)
    if m:
        return '%s %s%s' % (m.group(1), name, m.group(2))
    if t == 'void ()':
        return 'void %s()' % name
    if t == 'int (int, char)':
        return 'int %s(int, char)' % name
    return '%s %s' % (t, name)


def skip1(tr, t):
    return False


def part(tier, only):
    src, n = generate()
    return compile_asserts('type_traits', src, n, ['-std=c++11'] if tier == 'quick' else ['-std=c++11', '-std=c++14'])


def generate2():
    """ratio, fixed-width integer types, iterator_traits"""
    o = ['#include <ratio>', '#include <stdint.h>', '#include <stddef.h>', '#include <type_traits>', '#include <iterator>', '#define NANOSTL__NULLPTR', 'namespace nanostl { typedef decltype(nullptr) nullptr_t; }',
         '#include "nanoratio.h"', '#include "nanocstdint.h"', '#include "nanoiterator.h"', '#include "nanochrono.h"', '#include "nanovector.h"', '#include "nanostring.h"']
    n = 0

    def sa(cond, label):
        nonlocal n
        n += 1
        o.append('static_assert(%s, "@@%s@@");' % (cond, label))
    nums = [0, 1, -1, 2, -2, 3, 6, -6, 12, 25, 100, -1000, 12345678, 1000000007, 9223372036854775807, -9223372036854775807]
    for a in nums:
        for b in nums:
            if b:
                L = 'nanostl::ratio<%dLL, %dLL>' % (a, b)
                S = 'std::ratio<%dLL, %dLL>' % (a, b)
                sa('%s::num == %s::num && %s::den == %s::den' % (L, S, L, S), 'ratio<%d, %d> is in lowest terms with the sign in num' % (a, b))
        sa('nanostl::ratio<%dLL>::num == %dLL && nanostl::ratio<%dLL>::den == 1' % (a, a, a), 'ratio<%d>' % a)
    for t in ('atto', 'femto', 'pico', 'nano', 'micro', 'milli', 'centi', 'deci', 'deca', 'hecto', 'kilo', 'mega', 'giga', 'tera', 'peta', 'exa'):
        sa('nanostl::%s::num == std::%s::num && nanostl::%s::den == std::%s::den' % (t, t, t, t), t)
    for a, b in ((6, 4), (-6, 4), (10, -5), (0, 7)):
        sa('std::is_same<nanostl::ratio<%d, %d>::type, nanostl::ratio<std::ratio<%d, %d>::num, std::ratio<%d, %d>::den> >::value' % (a, b, a, b, a, b), 'ratio<%d, %d>::type' % (a, b))
    for w in (8, 16, 32, 64):
        for u in ('', 'u'):
            t = 'nanostl::%sint%d_t' % (u, w)
            sa('sizeof(%s) == %d && std::is_%s<%s>::value && std::is_integral<%s>::value' % (t, w // 8, 'unsigned' if u else 'signed', t, t), '%sint%d_t' % (u, w))
    sa('sizeof(nanostl::size_t) == sizeof(::size_t) && std::is_unsigned<nanostl::size_t>::value', 'size_t')
    sa('sizeof(nanostl::ptrdiff_t) == sizeof(::ptrdiff_t) && std::is_signed<nanostl::ptrdiff_t>::value', 'ptrdiff_t')
    for t in ('int *', 'const double *', 'char **'):
        for m in ('value_type', 'pointer', 'reference'):
            sa('std::is_same<nanostl::iterator_traits<%s>::%s, std::iterator_traits<%s>::%s>::value' % (t, m, t, m), 'iterator_traits<%s>::%s' % (t, m))
        sa('std::is_same<nanostl::iterator_traits<%s>::iterator_category, nanostl::random_access_iterator_tag>::value && std::is_signed<nanostl::iterator_traits<%s>::difference_type>::value && sizeof(nanostl::iterator_traits<%s>::difference_type) == sizeof(void *)' % (t, t, t), 'iterator_traits<%s>' % t)
    for a, b in (('forward', 'input'), ('bidirectional', 'forward'), ('random_access', 'bidirectional')):
        sa('std::is_base_of<nanostl::%s_iterator_tag, nanostl::%s_iterator_tag>::value' % (b, a), '%s_iterator_tag refines %s' % (a, b))
    for t in ('int', 'double', 'int *'):
        V = 'nanostl::vector<%s>' % t
        sa('std::is_same<%s::value_type, %s>::value && std::is_same<decltype(std::declval<%s &>()[0]), %s &>::value && std::is_same<decltype(std::declval<const %s &>()[0]), %s const &>::value' % (V, t, V, t, V, t), 'vector<%s> element types' % t)
        sa('std::is_same<decltype(*std::declval<%s &>().begin()), %s &>::value && std::is_same<decltype(*std::declval<const %s &>().begin()), %s const &>::value' % (V, t, V, t), 'vector<%s> iterator types' % t)
    sa('std::is_same<nanostl::string::value_type, char>::value', 'string::value_type')
    return '\n'.join(o) + '\n', n


def part2(tier, only):
    src, n = generate2()
    return compile_asserts('ratio_stdint', src, n)


def generate3():
    """the nested types of reference_wrapper of functions, pointers to functions and members, and functors"""
    o = ['#include <type_traits>', '#include "nanofunctional.h"', '#include "nanoutility.h"', 'namespace w {', 'struct C { int d; }; template <class> struct vt { typedef void type; };']
    for m in ('result_type', 'argument_type', 'first_argument_type', 'second_argument_type'):
        o.append('template <class T, class = void> struct has_%s { enum { v = 0 }; }; template <class T> struct has_%s<T, typename vt<typename T::%s>::type> { enum { v = 1 }; };' % (m, m, m))
    o += ['struct F0 {}; struct F1 { typedef char result_type; typedef int argument_type; }; struct U1 : nanostl::unary_function<int, char> {}; struct U2 : nanostl::binary_function<int, long &, short> {}; struct F2 { typedef short result_type; typedef int first_argument_type; typedef long second_argument_type; };', '}']
    n = 0

    def sa(cond, label):
        nonlocal n
        n += 1
        o.append('static_assert(%s, "@@%s@@");' % (cond, label))
    rows = []
    for r in ('int', 'void', 'double *', 'const w::C &'):
        rows += [('%s ()' % r, [r]), ('%s (*)()' % r, [r]), ('%s (char)' % r, [r, 'char']), ('%s (*)(char *)' % r, [r, 'char *']), ('%s (char, double)' % r, [r, 'char', 'double']), ('%s (*)(int &, float)' % r, [r, 'int &', 'float']),
                 ('%s (char, double, float)' % r, [r]), ('%s (*)(char, double, float, int)' % r, [r])]
        for cv in ('', ' const', ' volatile', ' const volatile'):
            c = ((cv + ' ') if cv else '').lstrip() + 'w::C *'
            rows += [('%s (w::C::*)()%s' % (r, cv), [r, c]), ('%s (w::C::*)(char)%s' % (r, cv), [r, c, 'char']), ('%s (w::C::*)(char, int)%s' % (r, cv), [r]), ('%s (w::C::*)(char, int, long)%s' % (r, cv), [r])]
    rows += [('w::F0', []), ('w::C', []), ('w::U1', ['char', 'int']), ('w::U2', ['short', 'int', 'long &'])]
    sa('std::is_same<w::U1::argument_type, int>::value && std::is_same<w::U1::result_type, char>::value && std::is_same<w::U2::first_argument_type, int>::value && std::is_same<w::U2::second_argument_type, long &>::value && std::is_same<w::U2::result_type, short>::value', 'unary_function and binary_function')
    sa('std::is_same<nanostl::reference_wrapper<w::F1>::result_type, char>::value && std::is_same<nanostl::reference_wrapper<w::F2>::result_type, short>::value', 'reference_wrapper of a functor has its result_type')
    for t, e in rows:
        W = 'nanostl::reference_wrapper<%s>' % t
        sa('std::is_same<%s::type, %s>::value' % (W, t), W + '::type')
        for m, x in (('result_type', e[0] if e else None), ('argument_type', e[1] if len(e) == 2 else None), ('first_argument_type', e[1] if len(e) == 3 else None), ('second_argument_type', e[2] if len(e) == 3 else None)):
            if x is None:
                sa('!w::has_%s<%s >::v' % (m, W), '%s has no %s' % (W, m))
            else:
                sa('std::is_same<%s::%s, %s>::value' % (W, m, x), '%s::%s' % (W, m))
    return '\n'.join(o) + '\n', n


def part3(tier, only):
    src, n = generate3()
    return compile_asserts('reference_wrapper', src, n)


def compile_asserts(unit, text, n, stds=('-std=c++11',), flags=(), compilers=('clang++-18',)):
    out = []
    f = os.path.join(driver.workdir(), unit + '_%d.cc' % os.getpid())
    with open(f, 'w') as h:
        h.write(text)
    for cc in compilers:
        for std in stds:
            p = subprocess.run([cc, std, '-w', '-fsyntax-only', '-I' + driver.REPO + '/include', '-I' + driver.VERIF + '/witness'] + list(flags) + (['-ferror-limit=0'] if 'clang' in cc else []) + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            tag = '%s%s' % (unit, '' if len(stds) * len(compilers) == 1 else '/' + cc.split('-')[0] + std)
            bad, other = [], []
            for l in p.stdout.splitlines():
                m = re.search(r'@@(.*?)@@', l) if 'static assertion failed' in l or 'static_assert' in l else None
                if ' error: ' in l or 'error:' in l:
                    if m:
                        bad.append(m.group(1))
                    else:
                        other.append(l)
            bad = list(dict.fromkeys(bad))
            for b in bad:
                out.append({'driver': unit + ':' + b, 'src': unit, 'outcome': 'violation', 'kind': 'static_assert', 'detail': 'type-level obligation fails: ' + b + ' (%s %s)' % (cc, std), 'where': [], 'mode': 'compile', 'n_obligations': 1, 'n_discharged': 0, 'rule': 'static_assert'})
            if other:
                out.append({'driver': unit + ':compile', 'src': unit, 'outcome': 'violation', 'kind': 'does-not-compile', 'detail': other[0].replace(f, unit)[:400], 'where': [x.replace(f, unit)[:200] for x in other[1:4]], 'mode': 'compile', 'n_obligations': 1, 'n_discharged': 0, 'rule': 'compiles'})
            out.append({'driver': tag, 'src': unit, 'outcome': 'proved', 'mode': 'compile', 'n_obligations': n - len(bad), 'n_discharged': n - len(bad), 'rule': 'static_assert'})
    os.unlink(f)
    return out
