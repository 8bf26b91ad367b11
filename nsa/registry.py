"""Which analyses decide which property."""
from . import driver

TRUSTED = ['clang/opt 18 front end and SROA/loop-simplify (C++ to LLVM IR)', 'nsa abstract interpreter (/verif/nsa)', 'witness specifications (/verif/witness)']
COMMON_ASSUMPTIONS = ['allocation never exceeds 2^47 bytes; operator new returns fresh memory', 'LP64 little-endian target, C++11 mode',
                      'the IR clang 18 emits for the headers is what a user compiles']


def W(src, **kw):
    kw['src'] = src
    return kw


def ai(*units):
    """abstract interpretation of witness units"""
    def part(tier, only):
        return driver.analyse(list(units), tier, only)
    return part


PROPS = {}


def prop(id, rule, level, parts, **kw):
    PROPS[id] = dict(id=id, rule=rule, level=level, parts=parts, **kw)


AI = ('abstract interpretation of the compiled headers: every driver in the witness unit ranges over all histories/sizes/contents; '
      'each dereference, bound, release, leak and ns_check condition on each abstract path is one obligation')

prop('V01', AI, 'proof', [ai(W('vector.cc'))])
prop('V02', AI, 'other', [ai(W('vector_own.cc'))])
prop('A01', AI, 'proof', [ai(W('valarray.cc'))])
prop('S01', AI, 'other', [ai(W('string.cc'))])
prop('S02', AI, 'other', [ai(W('string_cmp.cc'))])
prop('Q01', AI, 'other', [ai(W('sstream.cc'))])
prop('M01', AI, 'other', [ai(W('map.cc'))])
prop('M02', AI, 'other', [ai(W('map_own.cc'))])
from . import gf2
prop('M03', AI + '; the priority generator is executed on linear forms over GF(2) and the order of its transition matrix computed', 'other', [ai(W('map_heap.cc', internal='nanomap.h')), gf2.part])
from . import traits
prop('N01', AI, 'proof', [ai(W('limits.cc'))])
prop('N02', 'one static assertion per (trait, type): the compiler evaluates the header\'s type-level definitions against the language\'s own', 'proof', [traits.part, traits.part2, traits.part3])
from . import seqs
prop('N03', 'one static assertion per sequence operation and argument: the type checker evaluates the templates of tao::seq, in every language mode, against explicitly spelled results', 'other', [seqs.part])
prop('G01', AI, 'proof', [ai(W('algo.cc'), W('algo_pstl.cc', flags=['-std=c++17']))])
prop('U01', AI, 'proof', [ai(W('unique.cc'))])
prop('T01', AI, 'proof', [ai(W('tostr_int.cc'))])
prop('T02', AI, 'proof', [ai(W('tostr_flt.cc', internal='nanostring.h'))])
from . import structure
prop('L01', 'one definition rule over the compiled headers (no strong definition in a header), declaration/definition matching over the AST, and control-flow search for functions whose every path calls themselves', 'proof',
     [structure.linkage, structure.recursion, structure.undefined])
prop('L02', 'type-checking of every header alone, twice, in every ordered pair and with the implementation switch, per compiler and language level', 'proof', [structure.headers])
from . import sip
prop('H01', 'the compiled hash is executed on xor-sums of input bits with hash-consed sums; the resulting forms are compared with those of SipHash-2-4', 'other', [sip.part],
     trusted=['clang 18 (C++ to LLVM IR)', 'bit-form domain and reference of /verif/nsa/sip.py'])
prop('F01', AI, 'proof', [ai(W('mathcls.cc'))])
prop('O01', AI, 'proof', [ai(W('optional.cc', flags=['-fno-exceptions']))])
prop('O02', AI, 'proof', [ai(W('variant.cc', flags=['-fno-exceptions']))])
prop('O03', AI, 'proof', [ai(W('tuple.cc', flags=['-fno-exceptions']))])
from . import fpacc
prop('F02', 'interval partition of the argument range; on each piece a Taylor model of the compiled function, with all roundings, is compared with a Taylor model of the exact function', 'proof', [fpacc.part],
     trusted=['clang 18 (C++ to LLVM IR)', 'Taylor-model arithmetic and libm double functions at expansion points (/verif/nsa/fpacc.py)'])
from . import fpint
prop('F03', 'classes of arguments n + f (integer part in one binade, fraction zero or in (0,1)); floating operations are exact linear forms in n and f or intervals; the result form must be identically the neighbouring integer', 'proof', [fpint.part],
     trusted=['clang 18 (C++ to LLVM IR)', 'exactness rules of /verif/nsa/fpint.py'])
from . import dec
prop('T03', 'for each shape of numeral (layout, number of digits, binade of the digit string, exponent) every path of the compiled parser, digits unknown: integers are exact affine forms with quotient symbols; the returned bits, decoded, are compared with the exact decimal value', 'proof', [dec.part],
     trusted=['clang 18 (C++ to LLVM IR)', 'quotient-form domain and bound elimination of /verif/nsa/dec.py'])
from . import ryu
prop('T04', 'for each binary exponent every path of the compiled digit generator, significand unknown: products with table entries are shown equal to the exact power of ten for every significand by the extremes of a linear function modulo the scale, quotients live in a difference-bound zone with congruences; the returned decimal is compared with the rounding interval', 'proof', [ryu.part],
     trusted=['clang 18 (C++ to LLVM IR)', 'zone domain of /verif/nsa/ryu.py'])
from . import atomics
prop('C02', 'effect analysis of the thread primitives\' LLVM IR: atomic operations evaluated symbolically on their cell (final value, result, number of writes, memory order), lock-state dataflow over the control-flow graph of signals', 'other', [atomics.part])
