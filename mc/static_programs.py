"""Concrete programs the type system must accept or reject (C22)."""
import itertools, os

IMAX, IMIN, UMAX = (1 << 63) - 1, -(1 << 63), (1 << 64) - 1
HEAD = '''#include <cstdint>
#include <string>
#include <type_traits>
#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/cpp.hpp>
using namespace boost::safe_numerics;
using lp64 = cpp<8, 16, 32, 64, 64>;
using z80 = cpp<8, 16, 16, 32, 32>;
struct note { constexpr void operator()(const safe_numerics_error &, const char *){} };
using noting = exception_policy<throw_exception, note, throw_exception, ignore_exception>;
'''
PROM = ['native', 'automatic', 'lp64', 'z80']
EXC = ['default_exception_policy', 'loose_exception_policy', 'noting']
OPS = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^=']


def lit(v):
    return 'INTMAX_MIN' if v == IMIN else '(%dll)' % v


def kinds(P, E, right):
    yield 'safe<int,%s,%s>' % (P, E)
    yield 'safe<std::uint8_t,%s,%s>' % (P, E)
    yield 'safe_signed_range<1,100,%s,%s>' % (P, E)
    if right:
        yield 'safe_unsigned_range<2,9,%s,%s>' % (P, E)


def full(b, sg):
    return ('%sint%d_t' % ('' if sg else 'u', b), -(1 << (b - 1)) if sg else 0, (1 << (b - sg)) - 1)


def convs():
    S = [(-3, 5), (6, 9), (-10, -4), (100, 200), (127, 128), (-129, -128), (255, 300), (0, 0), (IMAX, IMAX), (IMIN, IMIN), (-40000, 70000), (1 << 31, 1 << 32), (-5, -1)]
    U = [(0, 10), (5, 6), (200, 255), (256, 256), (1 << 63, UMAX), (IMAX, 1 << 63), (65536, 1 << 32), (UMAX, UMAX), (0, UMAX)]
    src = [('safe_signed_range<%s,%s>' % (lit(a), lit(b)), a, b) for a, b in S] + [('safe_unsigned_range<%dull,%dull>' % x, *x) for x in U]
    bi = [full(b, s) for b in (8, 16, 32, 64) for s in (True, False)]
    src += [('safe<std::%s>' % n, a, b) for n, a, b in bi if n in ('int8_t', 'uint8_t', 'int32_t', 'uint64_t')]
    lits = [('safe_signed_literal<%s>' % lit(v), v, v) for v in (-200, -1, 0, 7, 300, IMIN, IMAX)] + [('safe_unsigned_literal<%dull>' % v, v, v) for v in (0, 250, 70000, UMAX)]
    return src, [('std::' + n, a, b) for n, a, b in bi], lits


def programs(tier):
    """yield (name, body, must_compile[, flags])"""
    quick = tier == 'quick'
    pols = list(itertools.product(PROM, EXC))
    n = 0
    for (i, (P, E)), (j, (Q, F)) in itertools.product(enumerate(pols), enumerate(pols)):
        ok = (P, E) == (Q, F)
        if ok:
            continue
        combos = [(a, b, op) for a in kinds(P, E, False) for b in kinds(Q, F, True) for op in OPS]
        step = 101 if quick else 13
        for a, b, op in combos[(17 * n) % step::step]:
            body = 'void f(%s & a, const %s & b){ auto r = (a %s b); (void)r; }' % (a, b, op)
            yield ('%s %s %s' % (a, op, b), body, False)
        n += 1
    # the same policies: all operators in one program per pair of kinds, result types carry the policies
    for P, E in pols:
        T = list(kinds(P, E, False))
        for a in T:
            for b in list(kinds(P, E, True)) + ['int', 'std::uint8_t', 'safe_signed_literal<3>', 'safe_unsigned_literal<5>']:
                body = 'void f(%s & a, const %s & b){' % (a, b)
                for op in OPS:
                    if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                        body += ' static_assert(std::is_same<decltype(a %s b), %s &>::value, "op=");' % (op, a)
                    elif op in ('<', '>', '<=', '>=', '==', '!='):
                        body += ' static_assert(std::is_same<decltype(a %s b), bool>::value && std::is_same<decltype(b %s a), bool>::value, "cmp");' % (op, op)
                    else:
                        body += ' { using X = decltype(a %s b); static_assert(is_safe<X>::value && std::is_same<get_promotion_policy<X>::type, %s>::value && std::is_same<get_exception_policy<X>::type, %s>::value, "policy"); }' % (op, P, E)
                        body += ' { using X = decltype(b %s a); static_assert(is_safe<X>::value && std::is_same<get_promotion_policy<X>::type, %s>::value && std::is_same<get_exception_policy<X>::type, %s>::value, "policy"); }' % (op, P, E)
                yield ('operators of %s and %s' % (a, b), body + ' }', True)
            yield ('unary operators of ' + a, 'void f(%s & a){' % a + ''.join(
                ' { using X = std::decay<decltype(%s)>::type; static_assert(std::is_same<get_promotion_policy<X>::type, %s>::value && std::is_same<get_exception_policy<X>::type, %s>::value, "policy"); }' % (u, P, E)
                for u in ('+a', '-a', '~a', '++a', 'a++', '--a', 'a--')) + ' }', True)
    # conversion between types of different policies is construction: the target checks
    for (P, E), (Q, F) in itertools.product(pols[::2], pols[1::2]):
        yield ('safe<int,%s,%s> from safe<long,%s,%s>' % (P, E, Q, F), 'safe<int,%s,%s> f(const safe<long,%s,%s> & a){ safe<int,%s,%s> r(a); r = a; return r; }' % (P, E, Q, F, P, E), True)
    # ranges without a common value can't be converted; all others can
    src, bi, lits = convs()
    step = 7 if quick else 1
    k = 0
    for a in src:
        good = ''
        for b in src + bi:
            fits = not (a[1] > b[2] or a[2] < b[1])
            builtin = b[0].startswith('std::')
            if fits:
                good += ' { %s r = static_cast<%s>(a); (void)r; }' % (b[0], b[0]) if builtin else ' { %s r(a); r = a; }' % b[0]
            elif a[2] >= 0 or b[1] < 0:     # (a range of negative numbers and an unsigned type: accepted, reported at run time)
                k += 1
                if k % step == 0:
                    body = 'void f(const %s & a){ %s }' % (a[0], '%s r = static_cast<%s>(a); (void)r;' % (b[0], b[0]) if builtin else '%s r(a); (void)r;' % b[0])
                    yield ('%s to %s' % (a[0], b[0]), body, False)
                    if not builtin and k % (2 * step) == 0:
                        yield ('assign %s to %s' % (a[0], b[0]), 'void f(const %s & a, %s & r){ r = a; }' % (a[0], b[0]), False)
        yield ('conversions of ' + a[0], 'void f(const %s & a){%s }' % (a[0], good), True)
    for b in bi:
        good = ''
        for a in src:
            if not (a[1] > b[2] or a[2] < b[1]):
                good += ' { %s r(a); r = a; }' % a[0]
            else:
                k += 1
                if k % step == 0:
                    yield ('%s to %s' % (b[0], a[0]), 'void f(%s a){ %s r(a); (void)r; }' % (b[0], a[0]), False)
        yield ('conversions of ' + b[0], 'void f(%s a){%s }' % (b[0], good), True)
    for l in lits:
        good = ''
        for b in src:
            if b[1] <= l[1] <= b[2]:
                good += ' { %s r = %s(); r = %s(); (void)r; }' % (b[0], l[0], l[0])
            elif l[1] >= 0 or b[1] < 0:
                k += 1
                if k % step == 0:
                    yield ('%s to %s' % (l[0], b[0]), 'void f(){ %s r = %s(); (void)r; }' % (b[0], l[0]), False)
        yield ('conversions of ' + l[0], 'void f(){%s }' % good, True)
    # only numbers make safe numbers; wrong bounds make no range
    for t in ('safe<int>', 'safe<std::uint8_t,automatic>', 'safe_signed_range<0,9>'):
        for u in ('std::string', 'const char *', 'void *', 'std::nullptr_t', 'int *', 'note'):
            yield ('%s from %s' % (t, u), 'static_assert(!std::is_constructible<%s, %s>::value && !std::is_convertible<%s, %s>::value, "");' % (t, u, u, t), True)
    # operators with things that are no numbers don't exist (and asking is no error); enumerations and classes that convert to an integer have them all
    for t in ('safe<int>', 'safe<std::uint8_t,automatic>', 'safe_signed_range<0,9>', 'safe_signed_literal<5,native,default_exception_policy>'):
        for op in OPS:
            asg = op.endswith('=') and op not in ('==', '!=', '<=', '>=')
            if asg and 'literal' in t:
                continue
            probe = 'template<class A, class B, class = void> struct can : std::false_type {}; template<class A, class B> struct can<A, B, decltype(void(std::declval<A &>() %s std::declval<const B &>()))> : std::true_type {}; enum class scoped { a }; enum plain : short { b }; struct conv { int v; constexpr operator int() const { return v; } };\n' % op
            body = probe
            for u in ('std::string', 'note', 'scoped', 'std::nullptr_t', 'std::pair<int, int>', 'const char *'):
                body += 'static_assert(!can<%s, %s>::value, "%s");\n' % (t, u, u)
                if not asg and u != 'const char *':
                    body += 'static_assert(!can<%s, %s>::value, "%s");\n' % (u, t, u)
            for u in ('plain', 'conv', 'bool', 'wchar_t', 'char16_t'):
                body += 'static_assert(can<%s, %s>::value, "%s");\n' % (t, u, u)
                if not asg:
                    body += 'static_assert(can<%s, %s>::value, "%s");\n' % (u, t, u)
            yield ('operands of %s %s' % (t, op), body, True)


NOEXC_POL = [('exception_policy<H0, H1, H2, H3>', True), ('exception_policy<H0, H1, H2, ignore_exception>', True), ('exception_policy<ignore_exception, ignore_exception, ignore_exception, ignore_exception>', True),
             ('default_exception_policy', False), ('loose_exception_policy', False)]
NOEXC_HEAD = HEAD.split('struct note')[0] + '''
template<int N> struct H { constexpr void operator()(const safe_numerics_error &, const char *){} };
using H0 = H<0>; using H1 = H<1>; using H2 = H<2>; using H3 = H<3>;
'''


def noexc_programs():
    """with exceptions disabled: user handlers work as before, handlers that throw are rejected only where one is needed"""
    for pol, ok in NOEXC_POL:
        for P in PROM:
            X = ['safe<int,%s,%s>' % (P, pol), 'safe<std::uint8_t,%s,%s>' % (P, pol), 'safe_signed_range<-100,100,%s,%s>' % (P, pol)]
            for a in X:
                body = 'void f(%s & a, const %s & b, int n){' % (a, X[1])
                body += ''.join(' { auto r = a %s b; (void)r; }' % op for op in OPS[:16]) + ''.join(' a %s b; a %s n;' % (op, op) for op in OPS[16:])
                body += ' auto r = +a; auto s = -a; auto t = ~a; ++a; a--; (void)r; (void)s; (void)t; signed char c = static_cast<signed char>(a); (void)c; a = n; bool q = a < n && b != n; (void)q; }'
                yield ('-fno-exceptions: every operator on %s' % a, body, ok)
            for op in OPS[:5]:   # nothing can fail: no handler needed
                r = 'safe_signed_range<%s,100,automatic,%s>' % ('1' if op in '/%' else '-100', pol)
                yield ('-fno-exceptions: %s %s int8' % (r, op), 'void f(const %s & a){ auto r = a %s a; safe_signed_range<-20000,20000,automatic,%s> t = r; (void)t; bool q = r < a; (void)q; }' % (r, op, pol), True)


def run(ctx):
    progs = [(n, '#include "static_head.hpp"\n' + b, ok, HEAD, []) for n, b, ok in programs(ctx['tier'])]
    progs += [(n, '#include "noexc_head.hpp"\n' + b, ok, NOEXC_HEAD, ['-fno-exceptions']) for n, b, ok in noexc_programs()]
    res = dict(jobs=len(progs), evals=len(progs), outcomes={}, samples=[p[0] for p in progs[:2]], violations=[], known_hit=[])
    for head, text, flags in (('static_head.hpp', HEAD, []), ('noexc_head.hpp', NOEXC_HEAD, ['-fno-exceptions'])):
        pch = os.path.join(ctx['tmp'], head)
        open(pch, 'w').write(text)
        ctx['sh']([ctx['cxx'], '-std=c++17', '-w', *flags, '-x', 'c++-header', '-I' + ctx['inc'], pch, '-o', pch + '.gch'], timeout=300)

    def one(ix):
        name, body, ok, head, flags = progs[ix]
        p = os.path.join(ctx['tmp'], 'static%d.cpp' % ix)
        open(p, 'w').write(body + '\n')
        r = ctx['sh']([ctx['cxx'], '-std=c++17', '-w', *flags, '-fsyntax-only', '-I' + ctx['tmp'], '-I' + ctx['inc'], p], timeout=300)
        os.unlink(p)
        return r.returncode == 0, r.stderr
    for ix, (compiles, err) in enumerate(ctx['ex'].map(one, range(len(progs)))):
        name, body, ok, head, flags = progs[ix]
        k = 'compiled' if compiles else 'not_compiled'
        res['outcomes'][k] = res['outcomes'].get(k, 0) + 1
        if compiles != ok:
            res['violations'].append(dict(source=head + body.split('\n', 1)[1] + '\n', flags=['-std=c++17'] + flags, should_compile=ok, name=name,
                msg='program "%s" %s' % (name, 'compiles although it has no meaning' if compiles else 'does not compile: ' + next((l for l in err.splitlines() if 'error' in l), '')[:300])))
    return [res]
