// Whole functions, written once for any integer-like types, and the machinery to run them with safe
// types and with ideal integers and to compare the traces of the values they compute.
#ifndef MC_PROGRAMS_HPP
#define MC_PROGRAMS_HPP
#include "model.hpp"
#ifdef MC_GENERIC
#include <algorithm>
#include <functional>
#include <map>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <tuple>
#include <valarray>
#include <boost/rational.hpp>
#endif
namespace prog {
using namespace mc;
struct Stop {};
struct Fuel {};
struct Trace { std::vector<I> v; bool maybe = false; int fuel = 20000; };
inline Trace *& tr(){ static Trace * t = nullptr; return t; }
inline void burn(){ if(--tr()->fuel < 0) throw Fuel(); }
// ---- ideal values
template<bool AU> struct IE { V v; };
template<bool AU> IE<AU> chk(V v){
    if(v.st == ERR) throw Stop();
    if(v.st == MAYBE){ tr()->maybe = true; v.st = OK; }
    return IE<AU>{v};
}
template<class S, bool AU> struct IN {       // a variable of safe type S
    I x;
    using base = base_t<S>;
    static I lim(V v){ if(v.v < slo<S>() || v.v > shi<S>()) throw Stop(); return v.v; }
    IN(IE<AU> e) : x(lim(e.v)) {}
    template<class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> IN(T t) : x(lim(V{(I)t, ct<int>(), OK})) {}
    template<class S2> IN(const IN<S2, AU> & o) : x(lim(V{o.x, ct<int>(), OK})) {}
#ifdef MC_GENERIC
    IN() : x(lim(V{0, ct<int>(), OK})) {}
    template<class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> explicit operator T() const { if(x < lo<T>() || x > hi<T>()) throw Stop(); return (T)x; }
#endif
    IN(const IN &) = default;
    IN & operator=(const IN &) = default;
    operator IE<AU>() const { return IE<AU>{Ideal<AU>::con(x, ct<base>())}; }
};
template<class T> struct fam { static constexpr int value = 0; };
template<bool AU> struct fam<IE<AU>> { static constexpr int value = 1 + AU; };
template<class S, bool AU> struct fam<IN<S, AU>> { static constexpr int value = 1 + AU; };
template<bool AU> V val(const IE<AU> & e){ return e.v; }
template<class S, bool AU> V val(const IN<S, AU> & e){ return IE<AU>(e).v; }
template<class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> V val(T t){ return V{(I)t, ct<T>(), OK}; }
template<class A, class B> constexpr int fm = !(fam<A>::value || std::is_integral<A>::value) || !(fam<B>::value || std::is_integral<B>::value) ? 0 : fam<A>::value > fam<B>::value ? fam<A>::value : fam<B>::value;
#define MC_OP(o, K) \
template<class A, class B, typename std::enable_if<(fm<A, B> > 0), int>::type = 0> IE<fm<A, B> == 2> operator o(const A & a, const B & b){ return chk<fm<A, B> == 2>(Ideal<fm<A, B> == 2>::op(K, val(a), val(b))); } \
template<class S, bool AU, class B> IN<S, AU> & operator o##=(IN<S, AU> & a, const B & b){ return a = IN<S, AU>(a o b); }
MC_OP(+, ADD) MC_OP(-, SUB) MC_OP(*, MUL) MC_OP(/, DIV) MC_OP(%, MOD) MC_OP(<<, SHL) MC_OP(>>, SHR) MC_OP(&, AND) MC_OP(|, OR) MC_OP(^, XOR)
#undef MC_OP
template<bool AU> void cmpable(V a, V b){
    const CT t = Ideal<AU>::op(ADD, Ideal<AU>::con(0, a.t), Ideal<AU>::con(0, b.t)).t;
    if(!t.holds(a.v) || !t.holds(b.v)) tr()->maybe = true;
}
#define MC_CMP(o) \
template<class A, class B, typename std::enable_if<(fm<A, B> > 0), int>::type = 0> bool operator o(const A & a, const B & b){ burn(); const V x = val(a), y = val(b); cmpable<fm<A, B> == 2>(x, y); return x.v o y.v; }
MC_CMP(==) MC_CMP(!=) MC_CMP(<) MC_CMP(>) MC_CMP(<=) MC_CMP(>=)
#undef MC_CMP
template<class A, typename std::enable_if<(fam<A>::value > 0), int>::type = 0> IE<fam<A>::value == 2> operator-(const A & a){ return chk<fam<A>::value == 2>(Ideal<fam<A>::value == 2>::neg(val(a))); }
template<class S, bool AU> IN<S, AU> & operator++(IN<S, AU> & a){ return a = IN<S, AU>(a + 1); }
template<class S, bool AU> IN<S, AU> & operator--(IN<S, AU> & a){ return a = IN<S, AU>(a - 1); }
template<class S, bool AU> IN<S, AU> operator++(IN<S, AU> & a, int){ auto o = a; ++a; return o; }
template<class S, bool AU> IN<S, AU> operator--(IN<S, AU> & a, int){ auto o = a; --a; return o; }
// ---- what a program may call
template<class T> void rec(const T & x){
    burn();
    if constexpr(fam<T>::value) tr()->v.push_back(val(x).v); else tr()->v.push_back(raw(x));
}
template<class T, class X> T to(const X & x){          // conversion to a built-in type
    if constexpr(fam<X>::value){ const I v = val(x).v; if(v < lo<T>() || v > hi<T>()) throw Stop(); return (T)v; }
    else return static_cast<T>(x);
}
inline bool once(bool b){ burn(); return b; }           // bounds loops of safe programs too
// ---- run and compare
template<class F, class G> void compare(Ctx & c, F safe, G ideal){
    Trace ti, ts; bool stopped = false, fuel = false;
    tr() = &ti;
    try { ideal(); } catch(Stop &){ stopped = true; } catch(Fuel &){ fuel = true; }
    tr() = &ts;
    const bool imaybe = ti.maybe;
    if(fuel){ c.fail("MC-INTERNAL: program does not end"); return; }
    int kind = 0; int code = 0;
    try { safe(); }
    catch(const std::system_error & e){ kind = 1; code = e.code().value();
        if(e.code().category() != sn::make_error_code(sn::safe_numerics_error::success).category() || code < 1 || code > 10) kind = 2; }
    catch(Fuel &){ kind = 3; } catch(...){ kind = 2; }
    c.steps += ts.v.size() + 1;
    c.out(imaybe ? (kind ? 16 : 15) : kind == 1 ? code : kind);
    auto show = [](const Trace & t){ std::string s = "["; for(size_t i = 0; i < t.v.size() && i < 12; ++i) s += (i ? " " : "") + str(t.v[i]); return s + (t.v.size() > 12 ? " ..]" : "]"); };
    std::string d = "computed " + show(ts) + (kind == 1 ? std::string(" then ") + oc_name[code] : kind ? " then something else" : "") + ", expected " + show(ti) + (stopped ? " then a report" : "");
    if(kind > 1){ c.fail(d); return; }
    bool prefix = ts.v.size() <= ti.v.size() && std::equal(ts.v.begin(), ts.v.end(), ti.v.begin());
    if(!prefix) c.fail(d);
    else if(kind == 0 && (stopped || ts.v.size() != ti.v.size())) c.fail(d);
    else if(kind == 1 && !imaybe && (!stopped || ts.v.size() != ti.v.size())) c.fail(d);
}
// ---- the programs: A, B, C are the types of the variables
#define PROGRAM2(name) struct name { static constexpr int N = 2; static const char * nm(){ return #name; } template<class A, class B> static void run(A a, B b)
#define PROGRAM3(name) struct name { static constexpr int N = 3; static const char * nm(){ return #name; } template<class A, class B, class C> static void run(A a, B b, C c)
PROGRAM2(gcd){ A x = a; A y = b; while(once(y != 0)){ A t = x % y; x = y; y = t; rec(x); } rec(x); } };
PROGRAM2(power){ A r = 1; B e = b; A x = a; if(e < 0) return; while(once(e > 0)){ if(e % 2 == 1){ r *= x; rec(r); } e /= 2; if(e > 0){ x *= x; rec(x); } } rec(r); } };
PROGRAM3(powmod){ if(c <= 0 || b < 0) return; C r = 1 % c; C x = a % c; B e = b; while(once(e > 0)){ if(e % 2 != 0) r = r * x % c; x = x * x % c; e = e / 2; rec(r); rec(x); } } };
PROGRAM2(factorial){ A f = 1; for(B i = 1; once(i <= b); ++i){ f *= i; rec(f); if(i == b) break; } rec(f + a); } };
PROGRAM2(isqrt){ if(a < 0) return; A l = 0; A h = a; while(once(l < h)){ A m = l + (h - l + 1) / 2; rec(m); if(m <= a / m) l = m; else h = m - 1; } rec(l); rec(l * l + b); } };
PROGRAM2(midpoint){ A l = a; A h = a; if(b < a) l = b; else h = b; for(int k = 0; k < 40 && once(l < h); ++k){ A m = (l + h) / 2; rec(m); if(m % 2 == 0) { if(m == h) break; h = m; } else { if(m == l) break; l = m; } } } };
PROGRAM2(collatz){ A n = a; B steps = 0; while(once(n > 1)){ if(n % 2 == 0) n /= 2; else n = 3 * n + 1; steps++; rec(n); } rec(steps); rec(steps + b); } };
PROGRAM2(fibonacci){ A x = 0; A y = 1; for(B i = 0; once(i < b); i++){ A t = x + y; x = y; y = t; rec(x); } rec(x - a); } };
PROGRAM3(average){ auto s = a + b + c; rec(s); rec(s / 3); A m = (a + b) / 2; rec(m); C k = a / 2 + b / 2; rec(k); } };
PROGRAM3(horner){ A x = a; auto p = x * b + c; rec(p); auto q = p * x - b; rec(q); rec(q / 7); rec(q % 10); } };
PROGRAM3(discriminant){ auto d = b * b - 4 * a * c; rec(d); if(d >= 0) rec(d + b); else rec(-d); } };
PROGRAM2(hash){ A h = a; for(int i = 0; i < 5; ++i){ h = h << 3; rec(h); h += b; rec(h); h /= 5; rec(h); } } };
PROGRAM2(digits){ A n = a; A r = 0; B k = 0; while(once(n != 0)){ r = r * 10 + n % 10; n /= 10; ++k; rec(r); } rec(k); rec(k * b); } };
PROGRAM2(popcount){ A n = a; int k = 0; while(once(n > 0)){ k += to<int>(n % 2); n >>= 1; rec(n); } rec(k + b); } };
PROGRAM3(fixedpoint){ auto w = a * b; rec(w); auto r = w >> 4; rec(r); C s = r; rec(s); s += c; rec(s); } };
PROGRAM3(extended){ A r0 = a; A r1 = b; C s0 = 1; C s1 = 0; while(once(r1 != 0)){ auto q = r0 / r1; A t = r0 - q * r1; r0 = r1; r1 = t; C u = s0 - q * s1; s0 = s1; s1 = u; rec(r0); rec(s0); } rec(s0 * a); } };
PROGRAM3(clampscale){ A v = a; if(v > b) v = b; if(v < -100) v = -100; rec(v); auto t = v * 9; t = t / 5 ; rec(t + 32); C o = t + 32; rec(o); o -= c; rec(o); } };
PROGRAM2(binomial){ A r = 1; if(b < 0 || b > 200) return; A k = b; for(A i = 1; once(i <= k); ++i){ r = r * (a - k + i) / i; rec(r); } } };
PROGRAM2(swap_){ A x = a; A y = b; x += y; y = x - y; x -= y; rec(x); rec(y); std::swap(x, y); rec(x); rec(y); } };
PROGRAM3(sum){ const A in[] = {a, a, 1, a}; B n = 4; C s = c; for(B i = 0; once(i < n); ++i){ s += in[to<unsigned>(i)]; rec(s); } rec(s / n); rec(b); } };
PROGRAM2(timeofday){ A h = a / 3600; A m = a % 3600 / 60; B s = a % 60; rec(h); rec(m); rec(s); A t = (h * 60 + m) * 60 + s; rec(t); rec(t == a); rec(b * 1000 / 24); } };
PROGRAM3(days){ A y = a; B m = b; C d = c; if(m <= 2) y--; A era = y / 400; auto yoe = y - era * 400; rec(yoe); auto mm = m > 2 ? to<int>(m - 3) : to<int>(m + 9); auto doy = (153 * mm + 2) / 5 + d - 1; rec(doy); auto doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; rec(doe); rec(era * 146097 + doe - 719468); } };
PROGRAM2(countdown){ A n = a; for(int i = 0; i < 4; ++i){ n -= b; rec(n); n--; rec(n); } } };
PROGRAM3(lerp){ auto d = b - a; rec(d); auto t = d * c; rec(t); rec(a + t / 16); A r = a + (d * c) / 16; rec(r); } };
PROGRAM3(checksum){ A x = a; x ^= b; rec(x); x = x | c; rec(x); x &= a; rec(x); rec((x ^ b) & c); } };
PROGRAM2(motor){ B c0 = 1000; A n = a; for(int i = 0; i < 3; ++i){ B c = c0 - 2 * c0 / (4 * n + 1); rec(c); c0 = c; ++n; } rec(c0 * b); } };
// the standard library's and boost::rational's algorithms with A as their number type
#ifdef MC_GENERIC
template<class It> void recs(It i, It e){ for(; i != e; ++i) rec(*i); }
template<class A, class B> std::vector<A> five(const A & a, const B & b){ std::vector<A> v; v.push_back(a); v.push_back(A(b)); v.push_back(A(3)); v.push_back(a); v.push_back(A(1)); return v; }
PROGRAM2(accumulate){ const auto v = five(a, b); rec(std::accumulate(v.begin(), v.end(), A(0))); rec(std::accumulate(v.rbegin(), v.rend(), A(1), [](const A & x, const A & y){ return A(x * y); })); } };
PROGRAM2(inner){ const auto v = five(a, b); rec(std::inner_product(v.begin(), v.end(), v.rbegin(), A(0))); } };
PROGRAM2(partial){ auto v = five(a, b); std::partial_sum(v.begin(), v.end(), v.begin()); recs(v.begin(), v.end()); } };
PROGRAM2(differences){ auto v = five(a, b); std::adjacent_difference(v.begin(), v.end(), v.begin()); recs(v.begin(), v.end()); } };
PROGRAM2(iota_){ auto v = five(a, b); std::iota(v.begin(), v.end(), a); recs(v.begin(), v.end()); } };
PROGRAM2(sort_){ auto v = five(a, b); v.push_back(A(7)); v.push_back(A(b)); std::sort(v.begin(), v.end()); recs(v.begin(), v.end()); rec(A(to<int>(std::lower_bound(v.begin(), v.end(), a) - v.begin()))); rec(A(std::binary_search(v.begin(), v.end(), A(5)) ? 1 : 0));
    std::stable_sort(v.begin(), v.end(), std::greater<A>()); recs(v.begin(), v.end()); std::nth_element(v.begin(), v.begin() + 3, v.end()); rec(v[3]); } };
PROGRAM2(extremes){ auto v = five(a, b); const auto m = std::minmax_element(v.begin(), v.end()); rec(*m.first); rec(*m.second); rec(std::max(v[0], v[1])); rec(std::min({v[0], v[1], v[2]})); rec(A(std::clamp(v[0], v[4], v[2]))); } };
PROGRAM2(permute){ auto v = five(a, b); for(int i = 0; i < 3; ++i){ std::next_permutation(v.begin(), v.end()); recs(v.begin(), v.end()); } std::swap(v[0], v[1]); std::iter_swap(v.begin(), v.begin() + 4); std::rotate(v.begin(), v.begin() + 2, v.end()); recs(v.begin(), v.end());
    rec(A(to<int>(std::count(v.begin(), v.end(), a)))); rec(A(to<int>(std::find(v.begin(), v.end(), A(1)) - v.begin()))); v.erase(std::unique(v.begin(), v.end()), v.end()); recs(v.begin(), v.end()); } };
PROGRAM2(ordered){ auto v = five(a, b); std::set<A> s(v.begin(), v.end()); recs(s.begin(), s.end()); std::map<A, A, std::less<>> m; for(const A & x : v) m.emplace(x, A(0)).first->second += x; for(const auto & kv : m){ rec(kv.first); rec(kv.second); }
    std::priority_queue<A> q(v.begin(), v.end()); while(!q.empty()){ rec(q.top()); q.pop(); } rec(A(v < std::vector<A>(3, A(3)) ? 1 : 0)); rec(A(std::make_pair(a, 1) < std::make_pair(A(b), 2) ? 1 : 0)); } };
PROGRAM2(functionals){ A x = a; const A y = A(b); rec(std::plus<>()(x, y)); rec(std::minus<A>()(x, y)); rec(std::multiplies<>()(x, y)); rec(std::negate<A>()(x)); if(y != 0){ rec(std::divides<>()(x, y)); rec(std::modulus<A>()(x, y)); } rec(A(std::exchange(x, y))); rec(x); rec(std::valarray<A>(x, 3).max()); std::optional<A> o(x); rec(*o); std::tuple<A, B> t(x, b); rec(std::get<0>(t)); } };
template<class A> struct wide_enough { static constexpr bool value = sizeof(base_t<A>) >= 4 && slo<A>() == lo<base_t<A>>() && slo<A>() < 0 && std::is_same<typename sn::get_promotion_policy<A>::type, sn::native>::value; };
template<class S, bool AU> struct wide_enough<IN<S, AU>> : wide_enough<S> {};
template<class R> void recr(const R & r){ rec(r.numerator()); rec(r.denominator()); }
template<class F> void guarded(F f){ try { f(); } catch(const boost::bad_rational &){ tr()->v.push_back(-77); } }
PROGRAM3(rational_){ if constexpr(wide_enough<A>::value) guarded([&]{ using Q = boost::rational<A>; Q x(a, A(b)); recr(x); Q y(A(c), A(6)); recr(y); recr(x + y); recr(x - y); recr(x * y); recr(-x); rec(A(x < y ? 1 : 0)); rec(A(x == y ? 1 : 0)); recr(x / y); const A k(c); recr(x + k); recr(k - x); recr(x * k); rec(A(x == k ? 1 : 0)); rec(A(k < x ? 1 : 0)); y -= k; recr(y); recr(x / k); }); } };
PROGRAM3(rational_sum){ if constexpr(wide_enough<A>::value) guarded([&]{ using Q = boost::rational<A>; Q x(a, A(4)); Q y(A(2), A(b)); x += y; recr(x); x *= Q(A(c), A(9)); recr(x); x -= y; recr(x); x /= y; recr(x); ++x; recr(x); x += 1; recr(x); recr(boost::abs(x)); rec(A(x > 1 ? 1 : 0)); rec(A(to<int>(boost::rational_cast<int>(x)))); }); } };
#endif
#undef PROGRAM2
#undef PROGRAM3
} // prog
#ifdef MC_GENERIC
namespace std { template<class S, bool AU> struct numeric_limits<prog::IN<S, AU>> : numeric_limits<typename prog::IN<S, AU>::base> {}; }
namespace boost { namespace integer { namespace gcd_detail {
template<class S, bool AU> struct gcd_traits_abs_defaults<prog::IN<S, AU>, false> { using T = prog::IN<S, AU>; static T abs(const T & v){ if(v < T(0)) return T(-v); return v; } };
} } }
#endif
#endif
