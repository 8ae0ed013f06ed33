"""Which translation units decide which property, and the space each explores (reported in the evidence)."""
import static_programs
import header_programs
import trap_programs


def U(src, shards=1, **kw):
    d = dict(src=src, shards=shards)
    d.update(kw)
    return d


ALPHA = ('alphabet of a type or range: every value when it has at most 256 (ranges: 300) values, otherwise the neighbourhoods of all powers of two of both signs, '
         'of the limits and their fractions, of decimal powers and of bit patterns (thorough: wider neighbourhoods)')
PART = '; for each left value additionally the right values which put the exact result on or next to a limit of a type in play'
RANGES = '33 range types (one-value, small, crossing 0, at the limits of 8..64-bit types; 16 of them in the mixed set), '

def ub(srcs):
    return [dict(u, ub=True) for u in srcs]


CPPS = ('LP64', 'LLP64', 'Z80', 'PIC', 'ILP64', 'SHORT32', 'SLP')

CHECKS = {
    'C01': dict(units=[U('C01.cpp', 16, flags=['-O2'])],
                space='11 operations x 11 built-in integer types; all pairs of values for 8-bit types, all values x boundary alphabet (both ways) for 16-bit types '
                      '(all 2^32 pairs in the thorough tier), ' + ALPHA + ' squared for wider types' + PART,
                technique='exhaustive enumeration of operand pairs on the real code against an exact-integer model'),
    'C02': dict(units=[U('C02.cpp', 8, flags=['-O2'])],
                space='6 functions x all ordered pairs of 15 built-in integer types (bool and character types included); ' + ALPHA + ' of both types, plus the neighbours of the left value and the values which share its bit pattern at 8, 16, 32 and 64 bits',
                technique='exhaustive enumeration of operand pairs on the real code against exact comparison'),
    'C03': dict(units=[U('C03.cpp', 8, flags=['-O0', '-DPART=%d' % p], tag='-%d' % p) for p in (0, 1)],
                space='all pairs of source (15 built-in, 28 safe and 6 literal types) and target (14 built-in, 42 safe types) whose ranges overlap x construction, assignment, conversion operator and checked::cast; ' + ALPHA + ' of the source plus the limits of the target and their neighbours',
                technique='exhaustive enumeration of type pairs and values on the real code against exact containment'),
    'C04': dict(units=[U('C04.cpp', 16, flags=['-O1'])],
                space='10 binary operators and op= x all pairs of 8 integer types (safe/safe, safe/built-in, built-in/safe), unary + - ~ ++ --; ' + ALPHA + PART + '; type facts of every result',
                technique='exhaustive enumeration of programs and operand pairs on the real code against an exact-integer model'),
    'C05': dict(units=lambda tier: [U('C05.cpp', 16, flags=['-O0', '-DPART=%d' % p], tag='-%d' % p) for p in (0, 1)]
                + ([U('C05.cpp', 48, flags=['-O0', '-DPART=2'], tag='-2')] if tier == 'thorough' else []),
                space=RANGES + '6 literals and 6 built-in types, native policy: all pairs of the mixed set, and the mixed set with literals and built-ins both ways (thorough: all 33 x 33 pairs) x 10 operators; ' + ALPHA + PART + '; membership of the value in numeric_limits of the result type and exactness',
                technique='exhaustive enumeration of programs and operand pairs on the real code; invariant checked in every reached state'),
    'C06': dict(units=lambda tier: [U('C05.cpp', 16, flags=['-O0', '-DPART=%d' % p, '-DRP=sn::automatic'], tag='-%d' % p) for p in (0, 1)]
                + ([U('C05.cpp', 48, flags=['-O0', '-DPART=2', '-DRP=sn::automatic'], tag='-2')] if tier == 'thorough' else []),
                space=RANGES + '6 literals and 6 built-in types, automatic policy: all pairs of the mixed set, and the mixed set with literals and built-ins both ways (thorough: all 33 x 33 pairs) x 10 operators; ' + ALPHA + PART + '; base type of every + - * result',
                technique='exhaustive enumeration of programs and operand pairs on the real code against the documented widening rule'),
    'C07': dict(units=[U('C07.cpp', 8, flags=['-O0', '-DRP=' + p], tag='-' + t) for p, t in (('sn::native', 'n'), ('sn::automatic', 'a'), ('Z80', 'z'), ('LP64', 'l'))],
                space='6 comparisons x pairs of full-width, range, literal and built-in types x 4 policies (native, automatic, cpp with 16-bit and 32-bit int); ' + ALPHA + PART,
                technique='exhaustive enumeration of programs and operand pairs on the real code against exact comparison and trichotomy'),
    'C08': dict(units=[U('C08.cpp', 8, flags=['-O0', '-fwrapv', '-DPART=%d' % p], tag='-%d' % p) for p in (0, 1, 2, 3)],
                space='5 exception policies (recording, ignoring, loose, strict, throwing in one category only) x operators, op=, unary operators, comparisons, conversions and default construction x type pairs with the native policy, and recording and ignoring policies x operators and op= x type pairs with the automatic and two cpp policies; ' + ALPHA + PART + '; every handler call recorded (category, code, message), the value that follows compared with built-in arithmetic',
                technique='exhaustive enumeration of failing operations x handler assignments on the real code against the dispatch table'),
    'C09': dict(units=[U('C09.cpp', 16, flags=['-O0'])],
                space='16 pairs of variable types (native and automatic, full-width and ranges): breadth-first search over the states (values of both variables) with about 60 statements executed in every state; small machines: every reachable state to the fixpoint; others: every history up to depth 3 from boundary states',
                technique='explicit-state breadth-first search executing every statement of the real code in every reached state, against a reference interpreter'),
    'C10': dict(units=[U('C10.cpp', 8, flags=['-O1'])],
                space='all strings over {0 1 2 5 9 - + blank x .} up to length 6 (thorough 7) x 16 safe integer and range types x narrow and wide streams, every alphabet value with 8 prefixes and 7 suffixes (also with recording handlers), all triples of values extracted in sequence, extraction from failed and empty streams, output and re-reading of every alphabet value, 96 combinations of formatting flags and locales with digit grouping, streams which throw by themselves, what an extraction leaves in the stream',
                technique='exhaustive enumeration of inputs and extraction sequences on the real code against a reference parser'),
    'C11': dict(units=[U('C11.cpp', 11, flags=['-O1'])],
                space='11 element types x 10 binary operators, 6 comparisons, 4 unary operators, conversions between element types; operands: all values of 8-bit types, ' + ALPHA + ', and each of the 10 error codes; infinities and indeterminate checked on representative integers up to 2^126',
                technique='exhaustive enumeration of operand pairs on the real code against a concretisation model of extended integers'),
    'C12': dict(units=[U('C12.cpp', 10, flags=['-O1'])],
                space='intervals over 4 built-in types and 6 checked_result types (with infinite endpoints): all intervals with endpoints in -7..7 (unsigned: 0..12) and all points of them, and all intervals between about 40 boundary values; all pairs of intervals x 7 operators, 9 predicates, union, intersection, points, conversions',
                technique='exhaustive enumeration of interval pairs and their points on the real code against set semantics'),
    'C13': dict(units=[U('C13.cpp', 8, flags=['-O0', '-DPART=%d' % p, '-DRP=' + rp], tag='-%d%s' % (p, rp[4])) for p in (0, 1) for rp in ('sn::native', 'sn::automatic')],
                extra=lambda ctx: trap_programs.run(ctx),
                space='every pair of 26 range and full-width types with 10 (operators; op=: 5 x 10 types), every pair of 10 types with 10 built-in and literal types (10 operators), conversions between 36 sources and 26 safe targets (construction, assignment) and 9 built-in targets, native and automatic: the set of error handlers each program instantiates against all operand pairs (' + ALPHA + PART + ') and against exact range arithmetic; and several hundred concrete programs compiled with strict_trap_policy and loose_trap_policy',
                technique='exhaustive enumeration of programs with handlers that record their instantiation, against enumeration of all operand pairs and exact range analysis'),
    'C14': dict(units=lambda tier: [U('C14.cpp', 8, flags=['-O0', '-DPART=0'], tag='-0')] + [U('C14.cpp', 8, flags=['-O0', '-DPART=1', '-DPOL=' + p], tag='-1' + p[4]) for p in ('sn::native', 'sn::automatic')]
                + [U('C14.cpp', 4 if tier == 'quick' else 8, flags=['-O0', '-DPART=2', '-DPOL=' + p], tag='-2' + p[4]) for p in ('sn::native', 'sn::automatic')]
                + [U('C14.cpp', 8, flags=['-O0', '-DPART=0'], tag='-clang-0', cxx='clang++')]
                + ([U('C14.cpp', 8, flags=['-O0', '-DPART=1', '-DPOL=' + p], tag='-clang-1' + p[4], cxx='clang++') for p in ('sn::native', 'sn::automatic')]
                   + [U('C14.cpp', 8, flags=['-O0', '-DPART=%d' % p, '-DPOL=LP64'], tag='-20-%d' % p, std='c++20') for p in (0, 1)] if tier == 'thorough' else []),
                space='constant tables built by the compiler over whole grids (19 boundary values per operand) and recomputed at run time: 12 checked:: functions x 8 types, 6 safe_compare functions and checked::cast x 11 x 11 types, 19 checked_result operators and conversions x 5 element types (19 values and 10 errors each), 19 interval functions over 4 built-in and 3 checked_result element types (28 or 45 intervals each), '
                      '10 operators, op=, 6 comparisons, 9 unary forms, conversions over pairs of 8 safe types, 3 built-in types and 3 literals for the native and automatic policies, bit utilities; and for 10 operators, conversions, ++ -- and unary minus over 7 safe types, 3 built-in types and 3 literals, the compiler\'s decision whether each of 10 x 10 operand pairs gives a constant expression; gcc, and clang for the first part (thorough: clang for all, gcc in C++20)',
                technique='exhaustive enumeration of operand grids, evaluated twice (by the compiler in constant expressions and by the generated code) and compared'),
    'C15': dict(units=[U('C15.cpp', 8, flags=['-O0', '-DPART=%d' % p], tag='-%d' % p) for p in (0, 1)],
                space='163 literals (0, +-(2^k + {-1,0,1}), the limits of intmax_t and uintmax_t; safe_signed_literal, safe_unsigned_literal, make_safe_literal, with and without policies): base type, limits, value, unary operators, output, conversion to 11 built-in and 11 safe types; 15 x 15 pairs of literals; '
                      '13 literals x 7 safe types of different policies x 10 operators and 6 comparisons on either side and op=, all alphabet values of the other operand, against the same operation with a safe object of that value',
                technique='exhaustive enumeration of literals, programs and operand values on the real code, differential against safe objects of the same value'),
    'C16': dict(units=lambda tier: [U('C16.cpp', 6, flags=['-O0', '-DPART=%d' % p, '-DPOL=' + pol], tag='-%d%s' % (p, pol)) for p, pol in
                    ([(0, x) for x in CPPS] + [(1, x) for x in CPPS] + [(2, x) for x in CPPS] if tier == 'thorough' else
                     [(0, 'LP64'), (0, 'Z80'), (0, 'PIC'), (0, 'LLP64'), (0, 'SHORT32'), (1, 'Z80'), (2, 'LP64'), (2, 'PIC')])],
                space='cpp policies of 7 machines (quick: 5: 16-bit int with 32-bit and 64-bit long long, 8-bit int, LP64, LLP64; thorough adds ILP64 and 32-bit short), all pairs of 8 integer types plus long long and char (safe/safe; Z80: also with built-in operands, thorough: all) and 9 x 9 range types x 10 operators: width and signedness of the result type; ' + ALPHA + PART,
                technique='exhaustive enumeration of programs and operand pairs on the real code against the C++ conversion rules for the described machine'),
    'C17': dict(units=[U('C17.cpp', 1, flags=['-O1'])],
                space='all 11 codes, all pairs of codes, all codes x all 5 conditions, all codes x recording and ready-made policies, 5 foreign categories x 204 values x 5 conditions',
                technique='exhaustive enumeration of codes, conditions and handlers on the real code'),
    'C18': dict(units=lambda tier: [U('C18.cpp', 32 if tier == 'thorough' else 16, flags=['-O0'] + (['-DWIDE'] if tier == 'thorough' else []))],
                space='all safe_signed_range<A,B> with A <= B among 38 values (thorough 60: both neighbours of the limits of every type, both signs) and all safe_unsigned_range among 19 (30): base type, size, every numeric_limits member, values accepted and rejected on construction and assignment around every limit; '
                      'ilog2, significant_bits, round_out on all values of 8- and 16-bit types and the alphabets of wider ones, bits_type, minmax and max on all tuples of up to 5 of 7 values',
                technique='exhaustive enumeration of types and values on the real code against exact definitions'),
    'C19': dict(units=lambda tier: ub([U('C01.cpp', 8, flags=['-O1']), U('C02.cpp', 4, flags=['-O1']), U('C03.cpp', 8, flags=['-O0', '-DPART=0'], tag='-0'), U('C04.cpp', 16, flags=['-O1']),
                    U('C07.cpp', 8, flags=['-O0', '-DRP=sn::native']), U('C09.cpp', 8, flags=['-O1']), U('C10.cpp', 4, flags=['-O1']), U('C11.cpp', 11, flags=['-O0']), U('C12.cpp', 10, flags=['-O1']),
                    U('C16.cpp', 6, flags=['-O0', '-DPART=0', '-DPOL=Z80'])]
                    + ([U('C05.cpp', 16, flags=['-O0', '-DPART=%d' % q] + p, tag=t + str(q)) for q in (0, 1) for p, t in (([], '-n'), (['-DRP=sn::automatic'], '-a'))]
                       + [U('C15.cpp', 8, flags=['-O0', '-DPART=1'], tag='-1'), U('C18.cpp', 8, flags=['-O0']), U('C07.cpp', 8, flags=['-O0', '-DRP=sn::automatic'], tag='-a')]
                       + [U('C20.cpp', 12, flags=['-O1', '-DPART=1', '-DRP=' + p], tag='-1' + p[4]) for p in ('sn::native', 'sn::automatic')] if tier == 'thorough' else
                       [U('C05.cpp', 8, flags=['-O0', '-DPART=3'], tag='-n'), U('C05.cpp', 8, flags=['-O0', '-DPART=3', '-DRP=sn::automatic'], tag='-a'), U('C18.cpp', 1, flags=['-O0', '-DUTILS'])])),
                space='the spaces of C01, C02 (alphabets), C03 (first part), C04, C05 and C06 (8 types x 14; thorough: mixed set), C07 (native), C09, C10, C11, C12, C16 (16-bit machine) and C18 (utilities; thorough: all), thorough also C15 (operands) and C20 (functions), compiled with instrumentation of every signed overflow, shift, division, bool and enum load, index, unreachable and missing return: any such operation executed inside the library by any explored call',
                technique='exhaustive enumeration of programs and operands on the real code with instrumented undefined operations; no execution may reach one'),
    'C20': dict(units=lambda tier: [U('C20.cpp', 16, flags=['-O0', '-DPART=0', '-DRP=' + p] + (['-DWIDE'] if tier == 'thorough' else []), tag='-0' + p[4]) for p in ('sn::native', 'sn::automatic')]
                + [U('C20.cpp', 12, flags=['-O1', '-DPART=1', '-DRP=' + p], tag='-1' + p[4]) for p in ('sn::native', 'sn::automatic')]
                + [U('C20.cpp', 8, flags=['-O1', '-DPART=2', '-DRP=' + p], tag='-2' + p[4]) for p in ('sn::native', 'sn::automatic')],
                space='every expression tree of two operators, (x . y) . z and x . (y . z), over triples of 4 x 4 x 2 (thorough 6 x 4 x 3) leaf types (full-width, range, built-in, literal), all pairs of operators, about 20 values per leaf; statements with such trees on the right of = and op=, below unary minus and comparisons; '
                      '12 programs made of the standard algorithms, ordered containers, valarray and boost::rational with safe element types, and 25 whole functions (gcd, powers, factorial, square root, bisection, Collatz, Horner, calendar, fixed point, ...) over 9 x 4 variable types, ' + ALPHA + ' for functions of two variables, about 20 values per variable for three: the whole trace of computed values up to the end or the first report; native and automatic policies',
                technique='exhaustive enumeration of programs and inputs on the real code; traces compared with the same program executed on ideal integers'),
    'C21': dict(units=lambda tier: [U('C21.cpp', 2 if tier == 'quick' else 6, flags=['-O0', '-DPOL=' + p] + (['-DWIDE'] if tier == 'thorough' else []), tag='-' + t)
                                    for p, t in [('Rot<%d>' % k, 'r%d' % k) for k in range(8)] + [('Left', 'l')]],
                space='9 user-defined promotion policies (8 rotations, so that every operator meets each of the 8 integer types as its result type, also narrower than the operands; and the left operand\'s type) x pairs of safe, built-in and range types x 10 operators and 6 comparisons: result type, policies, value or error; ' + ALPHA + PART,
                technique='exhaustive enumeration of policies, programs and operand pairs on the real code against an exact-integer model'),
    'C22': dict(units=[], extra=lambda ctx: static_programs.run(ctx),
                space='programs given to the compiler: operators on operands of the 12 x 12 pairs of promotion and exception policies (5 type kinds, 26 operators; quick: a fixed selection of the differing pairs, every pair of policies and every operator included), all operators on operands of equal policies, conversions between every pair of 26 ranges, 8 built-in types and 11 literals (rejections: quick every 7th), non-numbers; programs with own and with throwing handlers compiled with -fno-exceptions',
                technique='exhaustive enumeration of programs, each decided by the compiler running the library\'s type computations, against the documented rules'),
    'C23': dict(units=lambda tier: [U(n + '.cpp', k, flags=f + g, tag=t, std=std, **({'cxx': cxx} if cxx else {})) for t, f, std, cxx in
                    [('-O2-NDEBUG', ['-O2', '-DNDEBUG'], 'c++17', None)] + ([('-20-uchar', ['-O1', '-funsigned-char', '-DNDEBUG'], 'c++20', None), ('-clang', ['-O2'], 'c++17', 'clang++'), ('-23', ['-O3'], 'c++23', None)] if tier == 'thorough' else [])
                    for n, k, g in [('C01', 4, []), ('C02', 2, []), ('C03', 8, ['-DPART=0']), ('C09', 4, []), ('C10', 4, []), ('C12', 10, []), ('C17', 1, [])] + ([('C04', 16, [])] if tier == 'thorough' else [])]
                    + ([U(n + '.cpp', k, flags=f + g, tag=t, std=std, **({'cxx': cxx} if cxx else {})) for t, f, std, cxx in
                        [('-20-uchar', ['-O1', '-funsigned-char', '-DNDEBUG'], 'c++20', None), ('-clang', ['-O2'], 'c++17', 'clang++')]
                        for n, k, g in [('C01', 2, []), ('C02', 2, []), ('C05', 6, ['-DPART=3']), ('C09', 4, []), ('C10', 4, []), ('C17', 1, [])] if not (cxx and n == 'C05')] if tier == 'quick' else []),
                extra=lambda ctx: header_programs.run(ctx),
                space='programs that include each of the 21 headers first, alone (7 combinations of compiler and C++14/17/20/23), and every ordered pair of headers (420), each followed by constant checks of what every header offers; '
                      'programs of two translation units for all pairs of 5 build modes (thorough 12: g++, clang++, C++14 to 23, -O0 to -O3, NDEBUG, unsigned char, LTO) in both link orders and with one unit in a shared library: all pairs of 11 codes made in 6 ways '
                      '(also during static initialisation) x 5 conditions across the units, and about 4000 operations which must print the same in all modes; and the quick spaces of C01, C02, C03 (first part), C09, C10, C12, C17 with -O2 -DNDEBUG, and of C01, C02, C05 (part), C09, C10, C17 in C++20 with unsigned char and NDEBUG and (except C05) with clang++ -O2 (thorough: all of them, C04 and C++23)',
                technique='exhaustive enumeration of header orders and of pairs of build modes, each program compiled and run on the real code; exhaustive input enumeration in other build modes'),
    'C24': dict(units=[U('C24.cpp', 20, flags=['-O1'])],
                space='26 kinds of operands (bool, char, wchar_t, char16_t, char32_t, enumerations of 9 underlying types and without one, classes and proxies that convert to 8 integer types, classes derived from safe types, vector<bool>::reference) x 18 safe types (also of character types and bool) '
                      '(full-width and ranges, native and automatic) x 10 operators on both sides and as op=, 6 comparisons on both sides, construction, assignment, initialisation; ' + ALPHA + ' and partners around every limit; result types',
                technique='exhaustive enumeration of operand pairs on the real code against exact integers and against the same statement with the promoted operand'),
}
