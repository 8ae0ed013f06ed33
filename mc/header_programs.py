"""C23: programs made of every ordered pair of headers, in every language version; programs of two translation units in every pair of
build modes (compiler, language version, optimisation, NDEBUG), also with one of them in a shared library."""
import itertools, os

H = 'boost/safe_numerics/'
# what each header offers, used with nothing else included before it (C++14)
SNIP = {
 'exception.hpp': 'inline std::error_code f(){ return boost::safe_numerics::make_error_code(boost::safe_numerics::safe_numerics_error::range_error); } inline bool g(){ std::error_code e = boost::safe_numerics::safe_numerics_error::range_error; return e == f() && e == boost::safe_numerics::safe_numerics_actions::arithmetic_error && *boost::safe_numerics::literal_string(boost::safe_numerics::safe_numerics_error::range_error); }',
 'exception_policies.hpp': 'using P = boost::safe_numerics::exception_policy<boost::safe_numerics::throw_exception, boost::safe_numerics::ignore_exception, boost::safe_numerics::ignore_exception, boost::safe_numerics::trap_exception>;'
    ' inline void f(){ P::on_arithmetic_error(boost::safe_numerics::safe_numerics_error::range_error, "m"); boost::safe_numerics::default_exception_policy::on_arithmetic_error(boost::safe_numerics::safe_numerics_error::range_error, "m"); }'
    ' static_assert(boost::safe_numerics::make_safe_numerics_action(boost::safe_numerics::safe_numerics_error::negative_shift) == boost::safe_numerics::safe_numerics_actions::implementation_defined_behavior, "");',
 'checked_result.hpp': 'constexpr boost::safe_numerics::checked_result<int> r(3), e(boost::safe_numerics::safe_numerics_error::range_error, "m"); static_assert(! r.exception() && static_cast<int>(r) == 3 && e.exception(), "");',
 'checked_default.hpp': '',
 'checked_integer.hpp': 'namespace c = boost::safe_numerics::checked; static_assert(c::add<int>(2147483647, 1).exception() && c::subtract<unsigned char>(1, 2).exception() && c::multiply<long long>(4000000000ll, 4000000000ll).exception() && c::divide<int>(1, 0).exception() && c::modulus<int>(1, 0).exception()'
    ' && c::left_shift<int>(1, 40).exception() && c::right_shift<int>(1, -1).exception() && c::minus<int>(-2147483647 - 1).exception() && c::cast<signed char>(200).exception() && static_cast<int>(c::add<int>(2, 3)) == 5 && static_cast<signed char>(c::cast<signed char>(-100)) == -100, "");',
 'checked_result_operations.hpp': 'using R = boost::safe_numerics::checked_result<int>; constexpr R a(2147483647), b(-2); static_assert((a + a).exception() && static_cast<int>(a + b) == 2147483645 && (a / R(0)).exception() && static_cast<bool>(a + a > b) && static_cast<bool>(b < a), "");',
 'safe_compare.hpp': 'namespace c = boost::safe_numerics::safe_compare; static_assert(c::less_than(-1, 1u) && c::greater_than(4294967295u, -1) && ! c::equal(-1, 4294967295u) && c::not_equal((signed char)-1, ~0ull) && c::less_than_equal(-1, 0u) && c::greater_than_equal(0ull, -1), "");',
 'interval.hpp': 'using V = boost::safe_numerics::interval<int>; constexpr V a(-3, 5), b(6, 9); static_assert((a + b).l == 3 && (a - b).u == -1 && (a * b).l == -27 && static_cast<bool>(a < b) && static_cast<bool>(a.includes(4)) && static_cast<bool>(b.excludes(4)) && (a | b).u == 9 && a != b, "");'
    ' static_assert(boost::safe_numerics::make_interval<signed char>().l == -128 && ! static_cast<bool>(intersect(a, b)), "");',
 'utility.hpp': 'namespace u = boost::safe_numerics::utility; static_assert(u::ilog2((unsigned)1000) == 9 && u::significant_bits((unsigned)1000) == 10 && u::max(3, 4) == 4 && u::minmax<int>({3, 1, 2}).first == 1, "");',
 'native.hpp': 'static_assert(std::is_same<boost::safe_numerics::native::addition_result<signed char, signed char>::type, int>::value && std::is_same<boost::safe_numerics::native::multiplication_result<unsigned, int>::type, unsigned>::value, "");',
 'automatic.hpp': 'static_assert(std::is_same<boost::safe_numerics::automatic::addition_result<signed char, signed char>::type, short>::value && std::is_same<boost::safe_numerics::automatic::subtraction_result<unsigned, unsigned>::type, long>::value, "");',
 'cpp.hpp': 'using P = boost::safe_numerics::cpp<8, 16, 16, 32, 64>; static_assert(std::is_same<P::addition_result<signed char, signed char>::type, short>::value && std::is_same<P::left_shift_result<unsigned short, int>::type, unsigned short>::value, "");',
 'safe_base.hpp': 'static_assert(boost::safe_numerics::is_safe<boost::safe_numerics::safe_base<int, 0, 9, void, void>>::value && ! boost::safe_numerics::is_safe<int>::value, "");',
 'safe_base_operations.hpp': 'static_assert(boost::safe_numerics::is_safe<boost::safe_numerics::safe_base<int, 0, 9, void, void>>::value, "");',
 'safe_integer.hpp': 'using S = boost::safe_numerics::safe<int>; constexpr S a(3), b(4); static_assert(a + b == 7 && a * 5 == 15 && -a == -3 && a < b && (a << 2) == 12 && std::numeric_limits<S>::max() == 2147483647 && std::is_same<typename boost::safe_numerics::get_promotion_policy<typename std::decay<decltype(a + b)>::type>::type, boost::safe_numerics::native>::value, "");'
    ' inline int f(int x){ try { S s(x); s *= s; ++s; return static_cast<int>(s); } catch(const std::system_error & e){ return -e.code().value(); } }',
 'safe_integer_range.hpp': 'using S = boost::safe_numerics::safe_signed_range<-5, 9>; using U = boost::safe_numerics::safe_unsigned_range<1, 300>; constexpr S a(-3); constexpr U b(256); static_assert(a + 1 == -2 && b / 2 == 128 && sizeof(a) == 1 && sizeof(b) == 2 && std::numeric_limits<S>::min() == -5 && std::numeric_limits<U>::max() == 300, "");',
 'safe_integer_literal.hpp': 'constexpr auto l = boost::safe_numerics::safe_signed_literal<-7>(); constexpr auto u = boost::safe_numerics::safe_unsigned_literal<200>(); constexpr boost::safe_numerics::safe<long> s(5); static_assert(s + l == -2 && s * u == 1000 && l < s, "");',
 'range_value.hpp': '} inline void display(std::ostream & os){ os << make_range_value(5) << make_result_display(7); } namespace {',
 'concept/numeric.hpp': 'static_assert(sizeof(boost::safe_numerics::Numeric<int>) > 0, "");',
 'concept/integer.hpp': 'static_assert(sizeof(boost::safe_numerics::Integer<int>) > 0, "");',
 'concept/exception_policy.hpp': '',
 'concept/promotion_policy.hpp': '',
}
NAMES = list(SNIP)

def inc(h): return '#include <%s%s>\n' % (H, h)
def snip(h, n): return 'namespace s%d_%s { %s }\n' % (n, ''.join(ch if ch.isalnum() else '_' for ch in h), SNIP[h].replace('} inline void display', '} namespace s%d_d { inline void display' % n).replace(' namespace {', ' } namespace {') if h == 'range_value.hpp' else SNIP[h])
def header_program(hs):
    return ''.join(inc(h) + snip(h, n) for n, h in enumerate(hs)) + ''.join(map(inc, NAMES)) + ''.join(snip(h, 9) for h in NAMES)

# ------------------------------------------------------------------ two translation units
MAKER = r'''
#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <boost/safe_numerics/range_value.hpp>
#include <sstream>
#include <cstdint>
#include "two.hpp"
namespace sn = boost::safe_numerics;
namespace NS {
template<class F> std::error_code caught(F f){ try { f(); } catch(const std::system_error & e){ return e.code(); } return std::error_code(); }
template<int N> void throwing(){ sn::dispatch<sn::strict_exception_policy, static_cast<sn::safe_numerics_error>(N)>("m"); }
std::error_code thrown(int n){
    switch(n){ case 1: return caught(throwing<1>); case 2: return caught(throwing<2>); case 3: return caught(throwing<3>); case 4: return caught(throwing<4>); case 5: return caught(throwing<5>);
               case 6: return caught(throwing<6>); case 7: return caught(throwing<7>); case 8: return caught(throwing<8>); case 9: return caught(throwing<9>); }
    return sn::make_error_code(static_cast<sn::safe_numerics_error>(n));
}
struct Early { std::error_code c[NCODES], t[NCODES]; Early(){ for(int i = 0; i < NCODES; ++i){ c[i] = sn::make_error_code(static_cast<sn::safe_numerics_error>(i)); t[i] = thrown(i); } } };
const Early & early(){ static const Early e; return e; }
struct AtStart { AtStart(){ early(); } } at_start;
std::error_code code(int n, int way){
    volatile int v = n;
    switch(way){
    case 0: return sn::make_error_code(static_cast<sn::safe_numerics_error>(n));
    case 1: return static_cast<sn::safe_numerics_error>(n);
    case 2: return thrown(n);
    case 3: return early().c[n];
    case 4: return early().t[n];
    default: return std::error_code(n, sn::safe_numerics_error_category);
    }
}
std::error_condition condition(int a, int way){
    return way == 0 ? std::error_condition(a, sn::safe_numerics_actions_category) : std::error_condition(static_cast<sn::safe_numerics_actions>(a));
}
bool is(const std::error_code & c, int n){ return c == static_cast<sn::safe_numerics_error>(n); }
bool matches(const std::error_code & c, int a){ return c == static_cast<sn::safe_numerics_actions>(a); }
const void * category(int k){ const std::error_category & a = sn::safe_numerics_actions_category, & e = sn::safe_numerics_error_category; return k ? &a : &e; }
template<class T, class P> void program(std::ostream & os, T x, T y){
    using S = sn::safe<T, P, sn::default_exception_policy>;
    auto show = [&](auto f){ try { os << f() << ' '; } catch(const std::system_error & e){ os << e.code() << '/' << e.what() << ' '; } };
    show([&]{ return S(x) + S(y); }); show([&]{ return S(x) - S(y); }); show([&]{ return S(x) * S(y); }); show([&]{ return S(x) / S(y); }); show([&]{ return S(x) % S(y); });
    show([&]{ return S(x) << S(y); }); show([&]{ return S(x) >> S(y); }); show([&]{ return S(x) & S(y); }); show([&]{ return S(x) | S(y); }); show([&]{ return S(x) ^ S(y); });
    show([&]{ return -S(x); }); show([&]{ return ~S(x); }); show([&]{ return S(x) < S(y); }); show([&]{ return S(x) == S(y); });
    show([&]{ S s(x); s += y; return s; }); show([&]{ S s(x); return s++ + s; }); show([&]{ return S(sn::safe<std::int64_t, P, sn::default_exception_policy>(x) + 100000); });
    show([&]{ return sn::safe_signed_range<-10, 100, P, sn::default_exception_policy>(x) + S(y); }); show([&]{ S s(y); std::istringstream("77") >> s; return s; });
}
template<class T, class P> void programs(std::ostream & os){
    for(int x : {-128, -3, 0, 1, 100, 127}) for(int y : {-128, -1, 0, 2, 31, 127}) program<T, P>(os, static_cast<T>(x), static_cast<T>(y));
}
std::string behaviour(){
    std::ostringstream os;
    programs<std::int8_t, sn::native>(os); programs<std::int32_t, sn::native>(os); programs<std::uint16_t, sn::automatic>(os); programs<std::int64_t, sn::automatic>(os); programs<std::uint64_t, sn::native>(os);
    programs<std::uint8_t, sn::cpp<8, 8, 16, 16, 32>>(os);
    os << sn::make_interval<int>() << sn::interval<unsigned char>(1, 200);
    return os.str();
}
sn::safe<int> add(const sn::safe<int> & a, sn::safe_signed_range<-5, 1000, sn::automatic> b){ return a + static_cast<int>(b); }
}
'''
HEAD2 = r'''
#pragma once
#include <system_error>
#include <string>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/automatic.hpp>
const int NCODES = 11, NACTIONS = 5, NWAYS = 6;
#define DECL(NS) namespace NS { std::error_code code(int, int); std::error_condition condition(int, int); bool is(const std::error_code &, int); bool matches(const std::error_code &, int); const void * category(int); std::string behaviour(); \
  boost::safe_numerics::safe<int> add(const boost::safe_numerics::safe<int> &, boost::safe_numerics::safe_signed_range<-5, 1000, boost::safe_numerics::automatic>); }
DECL(one) DECL(two)
'''
MAIN = r'''
#include "two.hpp"
#include <iostream>
#include <set>
int bad = 0; long n = 0, pos = 0;
void expect(bool got, bool want, const std::string & what){ ++n; pos += want; if(got != want && ++bad <= 5) std::cout << "BAD " << what << " is " << (got ? "true" : "false") << "\n"; }
int action(int e){ return e == 0 ? 0 : e <= 6 ? 2 : e <= 9 ? 3 : 1; }
int main(){
    std::error_code (*code[])(int, int) = {one::code, two::code};
    std::error_condition (*condition[])(int, int) = {one::condition, two::condition};
    bool (*is[])(const std::error_code &, int) = {one::is, two::is};
    bool (*matches[])(const std::error_code &, int) = {one::matches, two::matches};
    auto s = [](int x){ return std::to_string(x); };
    for(int k = 0; k < 2; ++k) expect(one::category(k) == two::category(k), true, "the two units' category objects are the same " + s(k));
    for(int a = 0; a < 2; ++a) for(int c = 0; c < NCODES; ++c) for(int w = 0; w < NWAYS; ++w){
        const std::error_code e = code[a](c, w);
        expect(e.value() == c, true, "value of code " + s(c) + " made in way " + s(w));
        for(int b = 0; b < 2; ++b){
            const std::string who = "code " + s(c) + " made in way " + s(w) + " by unit " + s(a) + ", unit " + s(b) + ": ";
            for(int d = 0; d < NCODES; ++d){
                expect(is[b](e, d), c == d, who + "== enumerator " + s(d));
                for(int v = 0; v < NWAYS; ++v){
                    const std::error_code f = code[b](d, v);
                    expect(e == f, c == d, who + "== code " + s(d) + " made in way " + s(v));
                    expect(e < f || f < e, c != d, who + "ordered against code " + s(d));
                    if(c == d) expect(std::hash<std::error_code>()(e) == std::hash<std::error_code>()(f), true, who + "same hash");
                }
            }
            for(int k = 0; k < NACTIONS; ++k){
                expect(matches[b](e, k), action(c) == k, who + "== action " + s(k));
                for(int v = 0; v < 2; ++v) expect(e == condition[b](k, v), action(c) == k, who + "== condition " + s(k) + " made in way " + s(v));
            }
            expect(e.message() == code[b](c, 0).message(), true, who + "message");
        }
    }
    for(int x : {-3, 7, 2147483647}) for(int y : {-5, 0, 1000}){
        long r[2]; int k = 0;
        for(auto f : {one::add, two::add}) { try { r[k] = static_cast<int>(f(x, y)); } catch(const std::system_error & e){ r[k] = is[1 - k](e.code(), 1) ? 5000000000 : -5000000000; } ++k; }
        const long want = (long)x + y > 2147483647 ? 5000000000 : (long)x + y;
        expect(r[0] == want && r[1] == want, true, "safe values passed between units: " + s(x) + " + " + s(y));
    }
    std::cout << "COUNT " << n << ' ' << pos << "\nBEHAVIOUR " << one::behaviour() << "\nBEHAVIOUR " << two::behaviour() << "\n";
    return bad != 0;
}
'''
def modes(tier):
    m = [('g++', '14', ['-O0']), ('g++', '17', ['-O2', '-DNDEBUG']), ('g++', '20', ['-O1', '-fPIC', '-funsigned-char']), ('clang++', '17', ['-O0', '-DNDEBUG']), ('clang++', '20', ['-O2'])]
    if tier == 'thorough':
        m += [('g++', '17', ['-O0', '-DNDEBUG']), ('g++', '23', ['-O3']), ('g++', '17', ['-Os', '-fno-inline']), ('g++', '14', ['-O2', '-flto']), ('clang++', '14', ['-O3', '-DNDEBUG']), ('clang++', '23', ['-O1', '-funsigned-char']), ('g++', '17', ['-O2', '-fwrapv', '-fno-strict-aliasing'])]
    return m

def run(ctx):
    tmp, sh, ex, tier = ctx['tmp'], ctx['sh'], ctx['ex'], ctx['tier']
    I = '-I' + ctx['inc']
    res = dict(jobs=0, evals=0, steps=0, outcomes={}, samples=[], violations=[], known_hit=[])
    out = lambda k, n=1: res['outcomes'].__setitem__(k, res['outcomes'].get(k, 0) + n)
    # 1. every header alone and every ordered pair of headers
    progs = []
    langs = [('g++', s) for s in ('14', '20', '23')] + [('clang++', s) for s in ('14', '17', '20')]
    for cxx, std in langs:
        progs += [(cxx, std, (h,)) for h in NAMES]
    progs += [('g++', '17', (h,)) for h in NAMES] + [('g++', '17', p) for p in itertools.permutations(NAMES, 2)]
    if tier == 'thorough':
        progs += [('clang++', '14', p) for p in itertools.permutations(NAMES, 2)]
    def one(ix):
        cxx, std, hs = progs[ix]
        p = os.path.join(tmp, 'hdr%d.cpp' % ix)
        open(p, 'w').write(header_program(hs))
        r = sh([cxx, '-std=c++' + std, '-w', '-fsyntax-only', I, p], timeout=300)
        os.unlink(p)
        return r.returncode == 0, r.stderr
    fh = [ex.submit(one, ix) for ix in range(len(progs))]
    # 2. two units in every pair of build modes
    M = modes(tier)
    open(os.path.join(tmp, 'two.hpp'), 'w').write(HEAD2)
    def compile_unit(t):
        k, ns = t
        cxx, std, flags = M[k]
        src = os.path.join(tmp, 'unit-%d-%s.cpp' % (k, ns)); o = src[:-4] + '.o'
        open(src, 'w').write('#define NS %s\n' % ns + MAKER)
        r = sh([cxx, '-std=c++' + std, '-w', '-fPIC', *flags, I, '-I' + tmp, '-c', src, '-o', o], timeout=600)
        return r.returncode, r.stderr, o
    def compile_main():
        src = os.path.join(tmp, 'two-main.cpp'); open(src, 'w').write(MAIN)
        r = sh(['g++', '-std=c++17', '-w', '-O1', I, '-I' + tmp, '-c', src, '-o', src + '.o'], timeout=600)
        return r.returncode, r.stderr, src + '.o'
    fm = ex.submit(compile_main)
    fo = {t: ex.submit(compile_unit, t) for t in itertools.product(range(len(M)), ('one', 'two'))}
    objs = {t: f.result() for t, f in fo.items()}
    mainr = fm.result()
    def mode(k): return '%s -std=c++%s %s' % (M[k][0], M[k][1], ' '.join(M[k][2]))
    ok = mainr[0] == 0
    for t, r in objs.items():
        if r[0]:
            ok = False
            res['violations'].append(dict(source=HEAD2 + '#define NS one\n' + MAKER.replace('#include "two.hpp"\n', ''), cxx=M[t[0]][0], flags=['-std=c++' + M[t[0]][1]] + M[t[0]][2], should_compile=True, name=mode(t[0]),
                msg='a translation unit does not compile with %s: %s' % (mode(t[0]), next((l for l in r[1].splitlines() if 'error' in l), '')[:300])))
            if len(res['violations']) > 2: break
    if mainr[0] and not res['violations']: 
        res['violations'].append(dict(source=MAIN, flags=['-std=c++17'], should_compile=True, name='main', msg='a program of two units does not compile: ' + mainr[1][:300]))
    def link(t):
        i, j, kind = t
        a, b = objs[(i, 'one')][2], objs[(j, 'two')][2]
        exe = os.path.join(tmp, 'two-%d-%d-%s' % t)
        lto = ['-flto'] if '-flto' in M[i][2] + M[j][2] else []
        cxx = 'g++'
        if kind == 'shared':
            so = os.path.join(tmp, 'lib%d-%d.so' % (i, j))
            r = sh([cxx, '-shared', *lto, b, '-o', so], timeout=300)
            if r.returncode: return r.returncode, r.stderr, ''
            r = sh([cxx, *lto, mainr[2], a, so, '-Wl,-rpath,' + tmp, '-o', exe], timeout=300)
        else:
            r = sh([cxx, *lto, mainr[2]] + ([a, b] if kind == 'ab' else [b, a]) + ['-o', exe], timeout=300)
        if r.returncode: return r.returncode, r.stderr, ''
        r = sh([exe], timeout=120)
        os.unlink(exe)
        return r.returncode, r.stderr, r.stdout
    if ok:
        T = [(i, j, k) for i in range(len(M)) for j in range(len(M)) for k in ('ab', 'ba', 'shared')]
        ref = None
        for t, (rc, err, o) in zip(T, ex.map(link, T)):
            what = 'units built with "%s" and "%s" (%s)' % (mode(t[0]), mode(t[1]), {'ab': 'linked in this order', 'ba': 'linked in reverse order', 'shared': 'the second in a shared library'}[t[2]])
            res['jobs'] += 1
            msg = None
            if rc and 'BAD' in o: msg = '%s: %s' % (what, next(l for l in o.splitlines() if l.startswith('BAD'))[4:])
            elif rc: msg = '%s: the program does not link or dies: exit %s %s' % (what, rc, (err or o)[-300:])
            else:
                L = o.splitlines(); c = L[0].split()
                res['steps'] += int(c[1]); res['evals'] += int(c[1]); out('true', int(c[2])); out('false', int(c[1]) - int(c[2]))
                for b in L[1:3]:
                    ref = ref or b
                    if b != ref:
                        k = next((k for k in range(min(len(b), len(ref))) if b[k] != ref[k]), 0)
                        msg = '%s: the same operations print "...%s", with another build mode "...%s"' % (what, b[max(0, k - 40):k + 40], ref[max(0, k - 40):k + 40])
                out('behaviour', 2)
            if msg:
                res['violations'].append(dict(two_units=True, modes=[[M[t[0]][0], '-std=c++' + M[t[0]][1]] + M[t[0]][2], [M[t[1]][0], '-std=c++' + M[t[1]][1]] + M[t[1]][2]], link=t[2], name=what, msg=msg, source='', flags=[], should_compile=True))
    for ix, f in enumerate(fh):
        good, err = f.result()
        cxx, std, hs = progs[ix]
        res['jobs'] += 1; res['evals'] += 1; res['steps'] += 1
        out('compiled' if good else 'not_compiled')
        if not good:
            res['violations'].append(dict(source=header_program(hs), cxx=cxx, flags=['-std=c++' + std], should_compile=True, name=' '.join(hs),
                msg='%s -std=c++%s: including %s first does not compile: %s' % (cxx, std, ' then '.join(hs), next((l for l in err.splitlines() if 'error' in l), '')[:300])))
    res['samples'] = ['headers: ' + ' then '.join(progs[k][2]) for k in (0, len(progs) // 2, len(progs) - 1)]
    return [res]

def replay_two(d, tmp, sh, inc):
    """one recorded pair of units again, from the sources above"""
    I = ['-I' + inc, '-I' + tmp]
    open(os.path.join(tmp, 'two.hpp'), 'w').write(HEAD2)
    objs = []
    for name, src, m in [('main', MAIN, ['g++', '-std=c++17', '-O1'])] + [(n, '#define NS %s\n' % n + MAKER, m) for n, m in zip(('one', 'two'), d['modes'])]:
        p = os.path.join(tmp, name + '.cpp'); open(p, 'w').write(src)
        r = sh([m[0], *m[1:], '-w', '-fPIC', *I, '-c', p, '-o', p + '.o'])
        if r.returncode: print(r.stderr[:3000]); return 1
        objs.append(p + '.o')
    exe = os.path.join(tmp, 'exe')
    lto = ['-flto'] if '-flto' in d['modes'][0] + d['modes'][1] else []
    if d['link'] == 'shared':
        so = os.path.join(tmp, 'libtwo.so')
        r = sh(['g++', '-shared', *lto, objs[2], '-o', so])
        objs[2:] = [so, '-Wl,-rpath,' + tmp]
    elif d['link'] == 'ba': objs[1:] = objs[:0:-1]
    r = sh(['g++', *lto, *objs, '-o', exe])
    if r.returncode: print(r.stderr[:3000]); return 1
    r = sh([exe], timeout=120)
    print(r.stdout[:3000])
    L = [l for l in r.stdout.splitlines() if l.startswith('BEHAVIOUR')]
    return 1 if r.returncode or len(set(L)) != 1 or d.get('behaviour') else 0
