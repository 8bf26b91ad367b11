AIT = 'abstract interpretation of the LLVM IR (relational numeric + heap + array-content domain)'
AIN = ('Sound over-approximation of every path of each witness driver over the current headers: a driver reported "proved" holds for all sizes, contents and histories; a driver reported '
       '"bounded" had no general argument and was decided for every content at each listed size up to the evidence\'s limits. Trusts clang\'s IR, the analyser in /verif/nsa and the witness specifications.')

P('V01', 'vector behaves as a resizable sequence after every client history',
  'After any sequence of push_back, pop_back, resize, clear, erase, swap, assignment and element writes, a vector of a plain value type reports the number of elements a sequence would hold, and every element reads back the value last written to that position. '
  'Element references, data(), begin()/end() and at() denote the same storage, capacity() never falls below size(), copies are equal and independent, push_back(v[i]) appends the old value, resize adds value-initialised elements, and no operation reads or writes outside live storage or leaks it.',
  ['histories', 'inputs'], 'every history of modifying calls, every size up to 2^40, every element value and index within size()',
  'test-vector.cc uses a handful of fixed sizes; growth, aliasing and erase at a boundary depend on the size reached and the position, which only a for-all argument covers.',
  ['include/nanovector.h', 'include/nanoallocator.h'],
  [('growth and reallocation', 'include/nanovector.h vector::push_back / recalculate_capacity'), ('size changes', 'include/nanovector.h vector::resize, clear, pop_back'),
   ('removal', 'include/nanovector.h vector::erase'), ('copy/assignment/swap', 'include/nanovector.h vector(const vector&), operator=, assign, swap'), ('storage', 'include/nanoallocator.h allocator::allocate/deallocate')],
  state=[('elements_/size_/capacity_', 'storage, number of live elements, allocated elements', 'include/nanovector.h')],
  observe='public members of nanostl::vector<unsigned long>', tech=AIT, level='proof', note=AIN)

P('V02', 'vector elements that own resources are neither leaked, shared nor freed twice',
  'For an element type that owns heap memory, every element a vector drops, overwrites or relocates is released exactly once and every element it keeps stays valid with its value, across push_back, resize, erase, pop_back, clear, swap, copy, assignment and destruction. '
  'Destroying all vectors releases everything they owned, including for vectors of vectors.',
  ['histories', 'inputs'], 'every size in the listed range and every element value, at each position of each operation, with an owning element type',
  'The tests only use int/float elements, for which wrong construction, relocation or destruction of elements is invisible.',
  ['include/nanovector.h', 'include/nanoallocator.h'],
  [('relocation of elements', 'include/nanovector.h vector::push_back, resize'), ('destruction', 'include/nanovector.h ~vector, clear, pop_back'), ('removal', 'include/nanovector.h vector::erase')],
  observe='allocations and releases of the element type', tech=AIT, level='other',
  note='Bounded in sizes: each driver is decided for every element value at each size listed in the evidence, because ownership of an unbounded number of heap cells is beyond the array domain. ' + AIN)

P('A01', 'valarray behaves as an array of values after every client history',
  'After any sequence of resize, clear, erase, swap, assignment and element writes, a valarray reports the number of elements it was given and every element reads back the value last written to that position (value-initialised if resize added it); copies are equal and independent. '
  'Element-wise math (sin) yields a valarray of the same size with the function applied to each element, and no operation reads or writes outside live storage or leaks it.',
  ['histories', 'inputs'], 'every history of modifying calls, every size up to 2^40, every element value and index',
  'test-valarray.cc exercises two small arrays; the claims quantify over all sizes, positions and histories.',
  ['include/nanovalarray.h', 'include/nanoallocator.h'],
  [('size changes', 'include/nanovalarray.h valarray::resize, clear'), ('removal', 'include/nanovalarray.h valarray::erase'), ('copy/assignment/swap', 'include/nanovalarray.h'), ('element-wise sin', 'include/nanovalarray.h / include/nanomath.h')],
  observe='public members of nanostl::valarray', tech=AIT, level='proof', note=AIN)

P('S01', 'string keeps exactly the characters it was given, terminated and in bounds',
  'A string built from a C string, a range, a counted buffer or another string, or obtained by assignment, append (including of itself), concatenation, erase, clear or a character write, holds exactly the expected characters: size(), length() and empty() agree and c_str() is that many characters followed by NUL. '
  'Copies are independent, and no operation reads or writes outside the source or the string\'s own storage, or leaks it.',
  ['inputs', 'histories'], 'every length and every character content (general proofs up to 2^40 characters; the rest at each listed length)',
  'test-string.cc checks a few short literals; missing terminators, off-by-one copies and aliasing show only at particular lengths or overlaps.',
  ['include/nanostring.h', 'include/__string', 'include/nanovector.h'],
  [('constructors', 'include/nanostring.h basic_string constructors'), ('append', 'include/nanostring.h operator+=, operator+'), ('assignment', 'include/nanostring.h operator='), ('erase/clear', 'include/nanostring.h erase, clear'), ('length', 'include/nanostring.h char_traits::length')],
  state=[('data_', 'the characters with their terminator', 'include/nanostring.h')],
  observe='size(), empty(), c_str(), operator[], at() of nanostl::string', tech=AIT, level='other', note='Constructors, copy and character writes are proved for every length; assignment, append, concatenation, clear and erase are decided for every content at each listed length. ' + AIN)

P('S02', 'string comparison is the lexicographic order of unsigned characters',
  'compare() and the operators ==, !=, <, > on strings and C strings agree with the lexicographic order of the characters taken as unsigned bytes, a proper prefix ordering first; NUL characters inside strings count like any other. '
  'A string of any length equals its copy and the characters it was built from, and comparison reads nothing outside the two operands.',
  ['inputs'], 'every pair of strings of the listed lengths with every content',
  'The tests compare a few literals; sign errors with characters above 0x7f, prefixes and unequal lengths are never sampled.',
  ['include/nanostring.h', 'include/__string'],
  [('compare', 'include/nanostring.h basic_string::compare'), ('relational operators', 'include/nanostring.h operator==, !=, <, >'), ('character order', 'include/nanostring.h char_traits::compare / lt / eq')],
  observe='compare() and relational operators', tech=AIT, level='other', note='Decided for every content at each listed length (contents symbolic, lengths enumerated). ' + AIN)

P('Q01', 'stringstream collects exactly what was inserted',
  'After any sequence of insertions, clear(), writes through str() and move assignments a stringstream holds the concatenation, in order and with embedded NULs, of what was inserted since it was last emptied or overwritten, also when its own text is inserted. '
  'Insertion leaves the inserted string alone, a move assignment hands the text over and leaves the source empty and independent, and nothing leaks or touches memory outside live storage.',
  ['histories', 'inputs'], 'every content at each listed length, for each listed sequence of operations',
  'The suite inserts one literal and prints it; aliasing, reuse after clear and the life of moved text are never exercised.',
  ['include/nanosstream.h', 'include/nanostring.h'],
  [('insertion', 'include/nanosstream.h stringstream::operator<<'), ('reset', 'include/nanosstream.h stringstream::clear'), ('move', 'include/nanosstream.h stringstream::operator=(stringstream&&)')],
  state=[('str_', 'collected text', 'include/nanosstream.h stringstream')],
  observe='str(), allocations and releases', tech=AIT, level='other', note='Lengths enumerated (0, 1, 2, 4), contents symbolic. ' + AIN)

P('M01', 'map is an ordered association with unique keys after every insertion history',
  'After any sequence of insert and operator[] calls in any key order and for any priorities the tree draws, find() returns exactly the entry whose key was inserted (first insertion wins) or end(), upper_bound() the entry with the smallest greater key or end(), and iteration visits every key once in increasing order. '
  'operator[] inserts a value-initialised entry when absent and otherwise denotes the existing one, insert() reports whether it inserted, references stay valid, and no operation touches memory outside live nodes.',
  ['histories', 'inputs'], 'every insertion sequence of up to four keys (five in the thorough tier) with arbitrary keys, values and tree priorities',
  'The shape of the tree depends on random priorities and on the key order; the tests fix one key order and one generator seed.',
  ['include/nanomap.h', 'include/nanoutility.h'],
  [('insertion and rebalancing', 'include/nanomap.h map::__insert, __rotate'), ('lookup', 'include/nanomap.h map::__find, __upper_bound'), ('iteration', 'include/nanomap.h map::begin, iterator::operator++'), ('operator[]', 'include/nanomap.h map::operator[]')],
  state=[('root', 'treap of the entries', 'include/nanomap.h')],
  observe='find, upper_bound, insert, operator[], iteration of nanostl::map', tech=AIT, level='other', note='Bounded in the number of entries; keys, values and priorities symbolic. ' + AIN)

P('M02', 'map owns its entries: copies are independent and nothing leaks',
  'Copying or assigning a map yields an independent map with the same entries, which outlives its source; changing one changes nothing in the other, and self-assignment keeps the contents. '
  'Destroying a map, or overwriting it by assignment, releases every node and every resource its keys and values own exactly once.',
  ['histories', 'inputs'], 'every map of up to the listed number of entries with arbitrary keys, values and priorities, with values that own heap memory',
  'The tests never copy a map nor use a value type whose destruction is observable.',
  ['include/nanomap.h'],
  [('copy', 'include/nanomap.h map(const map&), operator=, __clone'), ('destruction', 'include/nanomap.h ~map, __delete')],
  observe='contents of both maps; allocations and releases', tech=AIT, level='other', note='Bounded in the number of entries; keys, values and priorities symbolic. ' + AIN)

P('M03', 'map keeps its tree in treap shape whatever the order of the keys',
  'After any history of insertions, copies and assignments the tree of a map is heap-ordered by the priorities of its nodes, so its shape depends on the priorities and the set of keys alone, never on the order in which keys arrive; lookups leave it as it is. '
  'The priority generator starts from a nonzero state and hands out every nonzero 32-bit value once before it repeats, so depth (and with it the recursion of insert, find and destruction) stays logarithmic in expectation even for sorted input.',
  ['histories', 'inputs'], 'every history of up to four insertions (five in the thorough tier) with arbitrary keys and priorities; every state of the generator',
  'A degenerate tree gives the same answers, only deep enough recursion to overflow the stack for some key order and size; tests insert a handful of keys.',
  ['include/nanomap.h'],
  [('rotation', 'include/nanomap.h map::__insert, __rotate'), ('priorities', 'include/nanomap.h priority_rand, Node::Node'), ('copy', 'include/nanomap.h map::__clone')],
  state=[('pri', 'priority of a node', 'include/nanomap.h map::Node'), ('y', 'state of the generator', 'include/nanomap.h priority_rand')],
  observe='depth of the tree (links and priorities of the nodes)', tech='abstract interpretation of the LLVM IR of witness units; linear algebra over GF(2) on the generator\'s compiled body', level='other',
  note='Histories bounded in the number of entries. A generator that is not linear over GF(2) is reported as not settled, never as a violation. Names internal node members: when they are gone the tree part is reported as not analysed. ' + AIN)

P('N01', 'numeric_limits describes the type it names',
  'For bool, every character and integer type provided, float and double, numeric_limits<T>::min(), max(), digits10 and epsilon() equal what the language defines for T, and no value of T lies outside [min(), max()] (finite values for floating types). '
  'denorm_min(), infinity(), quiet_NaN() and signaling_NaN() have exactly the IEEE-754 bit class their names say.',
  ['inputs'], 'every specialised type and every value of it',
  'The tests compare a few constants with themselves or print them; the claims range over every value of each type and over bit patterns.',
  ['include/nanolimits.h'],
  [('specialisations', 'include/nanolimits.h numeric_limits<T>')],
  observe='static members of nanostl::numeric_limits', tech=AIT, level='proof', note='Total: closed-form conditions over all values of each type. ' + AIN)

P('N02', 'type traits, ratio, fixed-width integers and iterator traits match C++',
  'Every type trait in nanotype_traits.h gives the value or type the C++ standard gives it, for fundamental, cv-qualified, reference, array, function, pointer, member-pointer, enumeration, union and class types of every constructibility. '
  'ratio<N,D> is in lowest terms with a positive denominator, fixed-width integers have their width and signedness, and iterator_traits and friends name the iterator\'s own types, and reference_wrapper names the result and argument types of the function, member or functor it refers to.',
  ['inputs'], 'every (trait, type) in a zoo of about 90 types and all pairs of 37 types for binary traits; every listed ratio pair',
  'The properties are about types, not runs: a test instantiates a trait on the two or three types it names.',
  ['include/nanotype_traits.h', 'include/nanoratio.h', 'include/nanocstdint.h', 'include/nanoiterator.h', 'include/nanocstddef.h', 'include/nanofunctional.h'],
  [('traits', 'include/nanotype_traits.h'), ('ratio', 'include/nanoratio.h'), ('integers', 'include/nanocstdint.h'), ('iterator traits', 'include/nanoiterator.h')],
  observe='::value and ::type members', tech='compile-time witnesses: one static assertion per (trait, type) evaluated by the compiler against the language intrinsics', level='proof',
  note='Decided by the type checker for every listed type; types outside the zoo are covered only as far as they fall under the same partial specialisation.')

P('N03', 'compile-time integer sequences contain what their names say',
  'make_integer_sequence<T, N> and make_index_sequence<N> are exactly 0, 1, ..., N-1 for every length N below 2^20 of an integer type of at least 32 bits, index_sequence_for counts its types, and size() is the number of members. '
  'at_index and select pick the I-th member, sum, partial_sum, inclusive_scan and exclusive_scan add what they name (negative members included), plus, minus and zip work member by member in the common type, map substitutes, and is_all is the conjunction. All results are the same in C++11, C++14 and C++17.',
  ['inputs'], 'every length 0..130 and selected lengths to 2048 of five integer types; sequences of 0 to 8 members of seven types; all conjunctions up to 4 members',
  'The tests use tuples of two or three elements; a sequence that is wrong from some length on, or a sum wrong for negative members, compiles and goes unnoticed.',
  ['include/tao/seq'],
  [('generation', 'include/tao/seq/make_integer_sequence.hpp'), ('sums and scans', 'include/tao/seq/sum.hpp, partial_sum.hpp, exclusive_scan.hpp, inclusive_scan.hpp'), ('selection', 'include/tao/seq/at_index.hpp, select.hpp, map.hpp'), ('member-wise', 'include/tao/seq/zip.hpp, plus.hpp, minus.hpp, is_all.hpp')],
  observe='the types denoted', tech='compile-time witnesses: static assertions evaluated by the compiler (clang and gcc, three language modes) against sequences computed independently', level='other',
  note='Decided by the type checker for every listed length and sequence; other lengths take the same templates with other bits of N.')

P('G01', 'algorithms and utilities compute what their names say for every range and value',
  'min, max and max_element select the standard element (the first of equivalents), fill sets exactly its range, distance counts, memcpy copies exactly n bytes, swap exchanges values, arrays and owning objects, pair() value-initialises and pair comparison is lexicographic. '
  'move/forward preserve identity and value category, less is operator<, and hash maps equal values to equal hashes (and distinct integers or non-NaN floats to distinct ones); none of them touches memory outside its ranges.',
  ['inputs'], 'every range length, position and element value',
  'test-algorithm.cc and test-functional.cc check single examples; equivalence ties, empty ranges, sub-ranges and aliasing are not sampled.',
  ['include/nanoalgorithm.h', 'include/nanoutility.h', 'include/nanoiterator.h', 'include/nanocstring.h', 'include/nanofunctional.h'],
  [('algorithms', 'include/nanoalgorithm.h'), ('swap/pair/move', 'include/nanoutility.h'), ('memcpy', 'include/nanocstring.h'), ('hash/less', 'include/nanofunctional.h')],
  observe='return values and the contents of the ranges', tech=AIT, level='proof', note=AIN)

P('H01', 'siphash is SipHash-2-4 for every key and message',
  'For every key and every message siphash() writes exactly the 8 or 16 bytes that SipHash-2-4 (64 or 128 bits, little-endian) defines, whatever the message length modulo the block and beyond one byte of length. '
  'It reads no byte outside the message and the 16-byte key and writes none outside the result.',
  ['inputs'], 'every key and message content at each listed length (0 to 40, 64, 255 to 257 bytes; 0 to 299 in the thorough tier), both result sizes',
  'No test calls siphash; a wrong rotation, tail byte or length byte yields a plausible hash that only a reference comparison over contents and lengths tells apart.',
  ['src/hash.cc', 'include/__hashfunc.h'],
  [('compression and finalisation', 'src/hash.cc SIPROUND, siphash'), ('tail and length byte', 'src/hash.cc siphash switch (left)')],
  observe='result bytes', tech='abstract interpretation of the LLVM IR in a domain of xor-sums with hash-consed sums (value numbering against a reference)', level='other',
  note='Message lengths enumerated, contents and key unknown. Forms that differ but cannot be told apart are reported as not settled.')

P('U01', 'unique_ptr has exactly one owner and releases each object exactly once',
  'After any sequence of construction, reset, release, move, swap, nullptr assignment and destruction, an object held by a unique_ptr (single or array, with default, stateful, reference, function or custom-pointer deleters) has one owner and is released exactly once, by the deleter that held it, when its owner lets it go. '
  'reset() holds the new pointer before releasing the old object, moved-from pointers are empty, comparisons and hash are those of the held pointers, and copying, unsafe conversions and deleter-less construction do not compile.',
  ['histories', 'inputs'], 'every history of the listed calls (bounded history of three calls over two pointers and three objects; each operation in general)',
  'test-memory.cc makes one unique_ptr; double or missed releases depend on the order of operations and the deleter used.',
  ['include/nanomemory.h'],
  [('single object', 'include/nanomemory.h unique_ptr<T,D>'), ('array', 'include/nanomemory.h unique_ptr<T[],D>'), ('storage', 'include/nanomemory.h __compressed_pair'), ('comparison', 'include/nanomemory.h operator==,<,...')],
  observe='calls of the deleter, get(), release(), comparisons', tech=AIT + '; compile-fail witnesses', level='proof', note=AIN)

P('T01', 'to_string of an integer is its exact decimal numeral',
  'to_string of any signed or unsigned integer of any width yields the decimal numeral of exactly that value: an optional minus sign for negative values, no leading zeros, digits that denote the magnitude, including zero and the most negative value. '
  'Producing it writes nothing outside the conversion buffer and the string.',
  ['inputs'], 'every int, unsigned int, 64-bit signed and 64-bit unsigned value',
  'test-string.cc prints a few numbers; extreme values, digit-count boundaries and truncation of wide values are not sampled.',
  ['include/nanostring.h', 'include/__nanostrutil.h'],
  [('to_string', 'include/nanostring.h to_string overloads'), ('digit conversion', 'include/nanostring.h / include/__nanostrutil.h itoa helpers')],
  observe='the returned string', tech=AIT, level='proof', note='Every value of each type, symbolically, with digit counts enumerated. ' + AIN)

P('T02', 'floating-point text is well formed, exact for integers and stays in its buffer',
  'Printing any float or double gives NaN, Infinity, -Infinity, 0E0, -0E0 or [-]d[.ddd]E[-]x; the printer writes exactly the decimal mantissa and exponent it was handed, never beyond its buffer, and the digit generator only hands it mantissas and exponents in that range. '
  'An integer-valued double below 2^53 in magnitude is printed as exactly that integer, without trailing zeros.',
  ['inputs'], 'every decimal mantissa of up to 9/17 digits and exponent, every NaN/infinity/zero pattern, every integer below 2^53 in magnitude of either sign, every mantissa for the listed binary exponents of float',
  'The tests print a few values; digit-pair handling, exponent widths and the integer fast path depend on the value.',
  ['include/__nanostrutil.h'],
  [('digits to text', 'include/__nanostrutil.h ryu::to_chars'), ('special values', 'include/__nanostrutil.h copy_special_str'), ('integers', 'include/__nanostrutil.h d2d_small_int'), ('digit generation', 'include/__nanostrutil.h f2d'), ('length', 'include/__nanostrutil.h decimalLength9/17')],
  observe='the text and its length', tech=AIT, level='proof', note='That the digits of non-integers are the shortest that round-trip is T04. ' + AIN)

P('T03', 'text to float and double gives the nearest value, or a NaN for bad text',
  'stof and stod return, for every decimal numeral of up to 9 respectively 17 significant digits, a value within half a unit of the last place of the decimal value it denotes: subnormal, zero and infinite results, signs, leading zeros, every place of the dot and every exponent included. '
  'Text that is not a numeral, or has more digits or exponent digits than are supported, gives a NaN and never a wrong number; no text of the analysed shapes makes the parser read out of bounds, shift out of range or fail an assertion.',
  ['inputs'], 'every digit string of 1 to 9 (17) digits for each listed layout and exponent: all exponents for 9 digits, sampled exponents for fewer and for 17 (every third in the thorough tier); every string of up to 3 (thorough: 4) characters',
  'A handful of numerals in the tests says nothing about a single wrong entry of the power-of-five tables or about ties, whose effect depends on the digits and the exponent together.',
  ['include/__nanostrutil.h', 'include/nanostring.h'], [('parsing and rounding', 'include/__nanostrutil.h s2f_n, s2d_n'), ('scaling', 'include/__nanostrutil.h mulPow5divPow2, mulPow5InvDivPow2, mulShift64, umul128, DOUBLE_POW5_SPLIT, DOUBLE_POW5_INV_SPLIT'), ('entry points', 'include/nanostring.h stof, stod')],
  observe='returned value', tech='abstract interpretation of the LLVM IR with trace partitioning (affine forms over quotient symbols, congruences, interval propagation)', level='proof',
  note='The allowance is half a unit of the last place plus a 2^-20th of one. A text without any digit (".", "-") and an exponent without digits may give zero or a NaN. Embedded NUL characters are not covered.')

P('T04', 'printed floating-point numbers read back, shortest and closest',
  'For every finite non-zero float and double the digits and the power of ten that are printed denote a number that rounds to that very value. '
  'No decimal with fewer digits does, and none with as many digits is closer to the value.',
  ['inputs'], 'every float; every significand of the double exponents listed in the evidence (quick: about 280 of the 2047, thorough: all outside 1091 to 1157 and a third of those)',
  'The tests print a handful of values; a wrong table entry, trailing-zero test or interval end shows only for the few significands that lie that close to a boundary.',
  ['include/__nanostrutil.h'], [('digit generation', 'include/__nanostrutil.h ryu::f2d, ryu::d2d'), ('tables', 'include/__nanostrutil.h DOUBLE_POW5_SPLIT, DOUBLE_POW5_INV_SPLIT'), ('scaling', 'include/__nanostrutil.h mulPow5divPow2, mulPow5InvDivPow2, mulShiftAll64, umul128'), ('divisibility', 'include/__nanostrutil.h multipleOfPowerOf5, multipleOfPowerOf2')],
  observe='mantissa and exponent of the printed decimal', tech='abstract interpretation of the LLVM IR with trace partitioning (difference-bound zones with congruences, number-theoretic exactness of the scaled products)', level='proof',
  note='Integer-valued doubles below 2^53 are printed by a path of their own, decided by T02. That the text is the mantissa and exponent handed over is T02 too.')

P('L01', 'the headers can be used from any number of translation units and link',
  'No header defines a function or object with strong external linkage unless NANOSTL_IMPLEMENTATION is defined, so any set of headers may be included in any number of translation units of one program. '
  'Every function that the headers of the supported modules declare has a definition, and no function calls itself on every path from its entry.',
  ['configurations', 'inputs'], 'every public header, every function of the supported modules\' headers (stream, thread, chrono and exception modules are not listed as supported)',
  'Each test is a single translation unit and links only what it calls; a duplicate or missing definition shows only in a program that includes the header twice or calls the function.',
  ['include'], [('linkage', 'include/*.h, guarded by NANOSTL_IMPLEMENTATION'), ('declarations', 'include/nanovector.h, nanovalarray.h, nanostring.h, nanomath.h, ...'), ('recursion', 'include/nanostring.h operator<<')],
  observe='symbols of a translation unit that includes the header', tech='linkage and call-graph rules over LLVM IR and the clang AST of every header', level='proof',
  note='Recursion and missing definitions are decided for class templates at the instantiations in witness/inst.cc and for every non-template function.')

P('L02', 'every header compiles alone and in any order, without a C++ standard library',
  'Each public header compiles when it is the only one included, when included twice, and before or after any other header, with clang and g++ in C++11, C++14 and C++17 and with no C++ standard library headers available. '
  'Defining NANOSTL_IMPLEMENTATION adds the implementation to the same include without errors, and every member of the supported class templates can be instantiated, also with only their own header included.',
  ['configurations'], 'every public header, ordered pair of headers and listed compiler/level; the instantiations in witness/inst.cc and witness/use',
  'Each test includes one or two headers with one compiler; order dependence and missing includes show only in other combinations.',
  ['include'], [('headers', 'include/nano*.h'), ('implementation', 'NANOSTL_IMPLEMENTATION blocks')],
  observe='diagnostics of the compiler', tech='type checking of generated translation units (compile-only)', level='proof',
  note='nanoany.h and nanoexpected.h do not compile at all, nanooptional.h and nanovariant.h not in C++17, and these two need a placement operator new the user declares: recorded as known findings.')

P('F01', 'float classification, sign and special values follow IEEE 754',
  'isfinite, isinf, isnan and isnormal classify every float and double by its IEEE 754 class; fabs, copysign, fmin, fmax, clamp and the bit casts return exactly the value they are defined to for every argument, NaNs, infinities, signed zeros and subnormals included. '
  'sqrt, log, log10 and pow give their exact values at zeros, one, infinities and negative arguments, and sinh, tanh, erf, cbrt are odd and cosh even in every bit; pow of a negative base has the sign of the parity of the exponent.',
  ['inputs'], 'every bit pattern of float and double arguments',
  'test-math.cc samples a few ordinary values; NaN payloads, signed zeros, subnormals and parity of large exponents are not sampled.',
  ['include/nanomath.h'],
  [('classification', 'include/nanomath.h isfinite, isinf, isnan, isnormal'), ('sign and selection', 'include/nanomath.h fabs, copysign, fmin, fmax, clamp'), ('special values', 'include/nanomath.h sqrt, log, log10, pow, cbrt, sinh, cosh, tanh, erf')],
  observe='bits of the returned value', tech=AIT, level='proof', note='Accuracy away from the special values is F02. ' + AIN)

P('O01', 'optional holds a value or nothing, and owns it',
  'After any construction, copy, move, assignment (from a value, nullopt or another optional, itself included), emplace, reset or swap, has_value(), *, ->, value() and value_or() report exactly the state that operation is defined to leave, copies are independent and the held object is destroyed exactly once. '
  'The comparisons order an empty optional before every value and otherwise compare the values, and equal optionals hash alike.',
  ['histories', 'inputs'], 'every pair of reachable states and every held value, for an owning element type',
  'No test of the suite uses optional; leaks, double destruction and state confusion depend on the pair of states an operation meets.',
  ['include/nanooptional.h', 'include/nonstd/optional.hpp'],
  [('storage and lifetime', 'include/nonstd/optional.hpp detail::storage_t, optional'), ('assignment and swap', 'include/nonstd/optional.hpp optional::operator=, swap, emplace, reset'), ('comparison', 'include/nonstd/optional.hpp relational operators')],
  observe='members of nonstd::optional and the allocations of the held type', tech=AIT, level='proof', note='value() on an empty optional (undefined without exceptions) is outside the property. ' + AIN)

P('O02', 'variant always holds exactly one alternative, and owns it',
  'After any construction, copy, move, assignment (of a value, another variant or itself), emplace or swap, index(), holds_alternative, get, get_if and visit report exactly the alternative and value that operation is defined to leave; the object replaced is destroyed exactly once, copies are independent, and moving moves the held object. '
  'The comparisons order by alternative and then by value, equal variants hash alike, and all sixteen alternatives behave alike.',
  ['histories', 'inputs'], 'every pair of alternatives and every held value, for owning, movable and plain alternatives',
  'No test of the suite uses variant; leaks and wrong destruction depend on the pair of alternatives an operation meets.',
  ['include/nanovariant.h', 'include/nonstd/variant.hpp'],
  [('storage and lifetime', 'include/nonstd/variant.hpp detail::helper'), ('assignment and swap', 'include/nonstd/variant.hpp variant::copy_assign, move_assign, assign_value, swap, emplace'), ('visitation', 'include/nonstd/variant.hpp visit')],
  observe='members of nonstd::variant and the allocations of the alternatives', tech=AIT, level='proof', note='get of an alternative that is not held (undefined without exceptions) is outside the property. ' + AIN)

P('O03', 'tuple holds its elements in order, each a distinct object',
  'Element I of a tuple is the I-th argument it was built, assigned or concatenated from (copied, moved, converted or referred to as declared), get<I> and get<T> denote that same object, and writing, copying, moving or swapping one tuple leaves every other element and tuple as it was. '
  'The comparisons are the lexicographic order of the elements, empty element types do not disturb their neighbours, and an allocator is passed to exactly the elements that use one.',
  ['inputs'], 'every element value, for owning, movable, plain, empty and reference elements',
  'No test of the suite uses tuple; swapped elements or a copy where a move is meant show only with distinct values and owning elements.',
  ['include/nanotuple.h', 'include/tao/tuple/tuple.hpp', 'include/tao/seq'],
  [('storage', 'include/tao/tuple/tuple.hpp impl::tuple_value, tuple_base'), ('access', 'include/tao/tuple/tuple.hpp get'), ('comparison', 'include/tao/tuple/tuple.hpp impl::tuple_equal, tuple_less'), ('creation', 'include/tao/tuple/tuple.hpp make_tuple, tie, forward_as_tuple, tuple_cat')],
  observe='get and the comparisons', tech=AIT, level='proof', note=AIN)

P('F02', 'the math functions stay within a fixed error of the real functions',
  'On [-2pi, 2pi] sin and cos are within 2e-6 of the exact value and tan within 1e-6 (1 + tan^2); exp, sinh and cosh have relative error at most 1e-4 up to |x| = 80, log and log10 absolute error at most 2e-5 on every positive normal float, sqrt relative error 2e-3 and cbrt 1e-5 on every normal float of magnitude at least epsilon. '
  'tanh is within 2e-5, erf and erfc within 5e-6 of the exact value for every finite float, erf(ierf(x)) within 1e-4 of x for |x| < 1. '
  'pow(x, y) has relative error at most 1e-4 (1 + |y|) for moderate results, with the sign of the exact power for negative x and integer y.',
  ['inputs'], 'every float of each stated range (all 2^32 patterns of one argument where the range is unbounded); pow with one argument from a fixed list',
  'test-math.cc compares at a few points; a wrong coefficient or range-reduction constant shows only in part of the range, and the quantity is a supremum over billions of floats.',
  ['include/nanomath.h'],
  [('trigonometry', 'include/nanomath.h sin, cos, tan, fast_rint'), ('exponentials', 'include/nanomath.h exp, fast_exp2, sinh, cosh, tanh'), ('logarithms and powers', 'include/nanomath.h log, log10, fast_log2, pow'),
   ('roots', 'include/nanomath.h sqrt, cbrt'), ('error function', 'include/nanomath.h erf, erfc, ierf')],
  observe='returned float', tech='abstract interpretation of the LLVM IR over a partition of the argument range (Taylor-model domain with rounding-error remainders)', level='proof',
  note='Each piece of the domain is bounded with all IEEE roundings; no solver and no execution of the library. References are Taylor expansions about the piece centre (libm doubles, slop added). pow with both arguments varying, and arguments beyond the stated ranges, are not claimed.')

P('F03', 'floor and ceil return the neighbouring integer for every value',
  'For every finite float and double x, floor(x) is the largest integer not above x and ceil(x) the smallest not below it, tiny fractions and values beyond any integer type included. '
  'Infinities and NaN are returned as they are, and no conversion to an integer type is ever out of its range.',
  ['inputs'], 'every float and double, class by class (integer part in a binade, zero or nonzero fraction, both signs)',
  'test.cc tries multiples of one half below two; tiny magnitudes and values beyond int range behave differently and are never sampled.',
  ['include/nanomath.h'], [('rounding', 'include/nanomath.h ceil, floor')],
  observe='returned value', tech='abstract interpretation of the LLVM IR (exact rational linear forms in integer and fractional part)', level='proof',
  note='Zero results are compared by value: the sign of a zero result is not claimed. fast_rint is not covered.')

P('C02', 'the thread primitives are atomic, ordered and keep their lock discipline',
  'Each atomic operation of src/libs_thread.h (load, store, inc, dec, add, sub, swap, compare_and_swap on integers and pointers) leaves the cell with the value its name says for every old value and argument, returns the old value, and does so in one indivisible, ordered step: no other thread can see or change the cell in between. '
  'A mutex operation is exactly the operation of the same name on that mutex. Raising a signal sets its flag with the mutex held and then wakes a waiter; waiting touches the flag only with the mutex held, tests it again after every wakeup, and every path returns with the mutex released.',
  ['schedules', 'inputs'], 'every value and every interleaving of the operations; every path of the signal functions',
  'No test calls the primitives; a store that passes through another value, or a flag read outside its mutex, is wrong only in some interleaving.',
  ['src/libs_thread.h', 'src/nanothread.cc'],
  [('atomics', 'src/libs_thread.h thread_atomic_int_*, thread_atomic_ptr_*'), ('mutex', 'src/libs_thread.h thread_mutex_*'), ('signal', 'src/libs_thread.h thread_signal_raise, thread_signal_wait')],
  observe='cell values, results, calls into pthreads', tech='effect analysis: symbolic evaluation of straight-line LLVM IR on the atomic cell; lock-state dataflow', level='other',
  note='The Linux implementation only; pthreads itself is trusted. Functions with several basic blocks around an atomic operation are reported as not analysed. The queue (thread_queue_*) is not covered.')

P('C01', 'a thread runs its function once; join, mutex and atomic order threads',
  'Constructing a thread runs the given callable exactly once with the decayed arguments, join() returns only after it has finished, and an unjoined thread is never silently lost. '
  'A mutex admits one thread at a time and atomic operations are indivisible and ordered.',
  ['schedules'], 'every interleaving of the threads of a program',
  'A test sees one schedule.',
  ['include/nanothread.h', 'include/nanomutex.h', 'include/nanoatomic.h', 'src/nanothread.cc'],
  [('thread', 'include/nanothread.h thread'), ('mutex', 'include/nanomutex.h mutex'), ('atomic', 'include/nanoatomic.h atomic')],
  na='There is nothing to decide yet: thread\'s constructor packs its arguments and starts no thread, mutex is an empty class, atomic is only declared, and the README lists all three as to do and the library as not thread safe. Whether a schedule of the operating system\'s threads waits in pthread_join is outside the source.')

P('F04', 'pow is accurate for every pair of arguments',
  'For every pair of floats whose power is a normal float, pow(x, y) is within a relative error proportional to |y log x| of the exact power.',
  ['inputs'], 'all 2^64 pairs of floats',
  'Two free arguments; a test samples a few pairs.',
  ['include/nanomath.h'], [('power', 'include/nanomath.h pow')],
  na='The error is a joint function of two arguments: a partition fine enough for the Taylor models has about 10^9 cells (one-argument slices need up to 10^4 each). F02 decides the slices with one argument from a fixed list; a bound for all pairs is out of reach of this analysis here.')
