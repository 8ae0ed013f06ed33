// Range types (base type, limits, accepted values), numeric_limits of all safe types, and the bit utilities.
#include "ranges.hpp"
#include <boost/safe_numerics/utility.hpp>
using namespace mc;
namespace {
namespace ut = sn::utility;
// ------------------------------------------------------------------ reference
int flog2(I v){ int n = 0; while(v > 1){ v /= 2; ++n; } return n; }
int sigbits(I v){ return 1 + flog2(v < 0 ? -v - 1 : v); }
constexpr int width(I lo, I hi){
    for(int w : {8, 16, 32}) if(lo < 0 ? lo >= -((I)1 << (w - 1)) && hi < ((I)1 << (w - 1)) : hi < ((I)1 << w)) return w;
    return 64;
}
constexpr int swidth(I lo, I hi){
    for(int w : {8, 16, 32}) if(lo >= -((I)1 << (w - 1)) && hi < ((I)1 << (w - 1))) return w;
    return 64;
}
// everything numeric_limits says about a safe type S = safe_base<T> besides its limits
template<class S, class T> void limits_as_base(Ctx & c){
    using A = std::numeric_limits<S>; using B = std::numeric_limits<T>;
#define MC_SAME(m) if(A::m != B::m) c.fail(std::string("numeric_limits::") + #m);
    MC_SAME(is_specialized) MC_SAME(is_signed) MC_SAME(is_integer) MC_SAME(is_exact) MC_SAME(has_infinity) MC_SAME(has_quiet_NaN)
    MC_SAME(is_bounded) MC_SAME(digits) MC_SAME(digits10) MC_SAME(radix) MC_SAME(min_exponent) MC_SAME(max_exponent) MC_SAME(is_iec559)
#undef MC_SAME
    ++c.steps; c.out(19);
}
// ------------------------------------------------------------------ range types
template<class S, class T> struct Type {
    static constexpr I LO = slo<S>(), HI = shi<S>();
    template<class X> static void from(I v, Ctx & c){
        if(!fits<X>(v)) return;
        const X x = (X)v;
        ++c.steps;
        Obs o = observe([&]{ S s(x); return raw(s); });
        const bool in = v >= LO && v <= HI;
        c.out(o.kind == 0 ? 0 : o.code);
        if(in ? o.kind != 0 || o.val != v : o.kind != 1) c.fail("constructed from " + std::string(tname<X>()) + ": " + show(o));
        S s = std::numeric_limits<S>::max();
        Obs p = observe([&]{ s = x; return raw(s); });
        if(in ? p.kind != 0 || p.val != v : p.kind != 1 || raw(s) != HI) c.fail("assigned from " + std::string(tname<X>()) + ": " + show(p) + ", then " + str(raw(s)));
    }
    static void one(const I * in, Ctx & c){
        if constexpr(LO <= (I)IMX) from<std::intmax_t>(in[0], c);
        if constexpr(HI >= 0) from<std::uintmax_t>(in[0], c);
    }
    static void facts(const I * in, Ctx & c){
        // in: the documented limits and width
        if(slo<S>() != in[0] || raw(std::numeric_limits<S>::lowest()) != in[0]) c.fail("numeric_limits::min or lowest is " + str(slo<S>()));
        if(shi<S>() != in[1]) c.fail("numeric_limits::max is " + str(shi<S>()));
        if((I)sizeof(S) * 8 != in[2] || (I)sizeof(base_t<S>) * 8 != in[2] || std::is_signed<base_t<S>>::value != (in[3] != 0)) c.fail("base type " + std::string(tname<base_t<S>>()) + ", size " + std::to_string(sizeof(S)));
        if(!std::is_same<base_t<S>, T>::value && sizeof(T) != sizeof(base_t<S>)) c.fail("base type");
        limits_as_base<S, base_t<S>>(c);
    }
};
Space single(I v){ return std::make_shared<const std::vector<I>>(std::vector<I>{v}); }
template<class S, class T> void reg(const std::string & n, I lo, I hi, bool sg){
    add(n + " facts", {single(lo), single(hi), single(sg ? swidth(lo, hi) : width(lo, hi)), single(sg)}, &Type<S, T>::facts);
    std::vector<I> v;
    auto near = [&](I x){ for(I e = -2; e <= 2; ++e) v.push_back(x + e); };
    near(lo); near(hi); near((lo + hi) / 2); near(0);
    for(I l : std_limits()) near(l);
    for(I l : {slo<S>(), shi<S>(), mc::lo<T>(), mc::hi<T>()}) { near(l); near(l + ((I)1 << 8)); near(l - ((I)1 << 8)); near(l + ((I)1 << 16)); near(l + ((I)1 << 32)); near(l - ((I)1 << 32)); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    add(n, {std::make_shared<const std::vector<I>>(v)}, &Type<S, T>::one);
}
template<bool SG> constexpr std::intmax_t bound(int i){       // signed: 0..; unsigned values travel as bit patterns
#ifdef WIDE
    constexpr int ks[] = {7, 8, 15, 16, 31, 32, 63, 64};
    constexpr int small[] = {0, 1, 2, 5, 10, 100};
#else
    constexpr int ks[] = {SG ? 7 : 8, 15, SG ? 31 : 16, 32, SG ? 63 : 64};
    constexpr int small[] = {0, 1, 5, 100};
#endif
    constexpr int ns = sizeof small / sizeof *small, nk = sizeof ks / sizeof *ks * 3;
    if(i < ns) return small[i];
    i -= ns;
    if(i < nk){
        int k = ks[i / 3], e = i % 3 - 1;
        if(SG) { if(k == 63) return e < 0 ? IMX : IMX / 2 + e; if(k == 64) return IMX / 3 * 2 + e; return ((std::intmax_t)1 << k) + e; }
        if(k == 64) return e < 0 ? (std::intmax_t)(UMX) : e == 0 ? (std::intmax_t)(UMX - 1) : (std::intmax_t)(UMX / 3);
        return (std::intmax_t)(((std::uintmax_t)1 << k) + e);
    }
    return -1 - bound<SG>(i - nk);     // signed only: the mirror images
}
#ifdef WIDE
constexpr int NU = 30, NS = 60;
#else
constexpr int NU = 19, NS = 38;
#endif
template<int K> struct SRange {
    static constexpr std::intmax_t A = bound<true>(K / NS), B = bound<true>(K % NS);
    static void run(){ if constexpr(A <= B){
        using S = sn::safe_signed_range<A, B>;
        reg<S, base_t<S>>("signed_range " + str(A) + ".." + str(B), A, B, true);
        if constexpr(K % 7 == 0){ using S2 = sn::safe_signed_range<A, B, sn::automatic>;  reg<S2, base_t<S2>>("signed_range automatic " + str(A) + ".." + str(B), A, B, true); }
    } }
};
template<int K> struct URange {
    static constexpr std::uintmax_t A = (std::uintmax_t)bound<false>(K / NU), B = (std::uintmax_t)bound<false>(K % NU);
    static void run(){ if constexpr(A <= B){
        using S = sn::safe_unsigned_range<A, B>;
        reg<S, base_t<S>>("unsigned_range " + str((I)A) + ".." + str((I)B), (I)A, (I)B, false);
    } }
};
template<template<int> class F, int... K> void all_ranges(std::integer_sequence<int, K...>){
    auto go = [](auto k){ if constexpr(decltype(k)::value % NSHARDS == SHARD) F<decltype(k)::value>::run(); };
    (go(std::integral_constant<int, K>()), ...);
}
// full-width types
template<class T> struct Full {
    static void facts(const I *, Ctx & c){
        using S = sn::safe<T>;
        if(slo<S>() != lo<T>() || shi<S>() != hi<T>() || raw(std::numeric_limits<S>::lowest()) != lo<T>()) c.fail("limits");
        if(!std::is_same<base_t<S>, T>::value || sizeof(S) != sizeof(T)) c.fail("base type");
        limits_as_base<S, T>(c);
    }
    static void run(){ add(std::string("safe ") + tname<T>(), {}, &facts); }
};
// ------------------------------------------------------------------ utilities
template<class T> struct Bits {
    static void one(const I * in, Ctx & c){
        const T t = (T)in[0]; const I v = in[0];
        c.steps += 3; c.out(0);
        if(v >= 0){ const I r = (I)ut::ilog2(t); if(r != flog2(v)) c.fail("ilog2 is " + str(r)); }
        // T narrower than int: ~t is the (negative or not) complement in int
        { const I r = (I)ut::significant_bits(t); if(r != sigbits(v)) c.fail("significant_bits is " + str(r)); }
        { const I r = (I)ut::round_out(t); const int sb = sigbits(v); const I p = (I)1 << sb;
          const I e = v >= 0 ? std::min(p - 1, hi<T>()) : std::max(-p, lo<T>());
          if(r != e) c.fail("round_out is " + str(r) + ", expected " + str(e));
          if(v >= 0 ? r < v : r > v) c.fail("round_out does not round out"); }
    }
    static void facts(const I *, Ctx & c){
        ++c.steps; c.out(19);
        if(ut::bits_type<T>::value != (int)sizeof(T) * 8) c.fail("bits_type");
    }
    static void run(){
        add(std::string("bits ") + tname<T>(), {sizeof(T) <= 2 ? alphabet(lo<T>(), hi<T>(), 2, 1 << 16) : alpha<T>(2)}, &one);
        add(std::string("bits_type ") + tname<T>(), {}, &facts);
    }
};
template<class T, int N> struct MinMax {
    static void one(const I * in, Ctx & c){
        std::pair<T, T> r{};
        if constexpr(N == 1) r = ut::minmax<T>({(T)in[0]});
        else if constexpr(N == 2) r = ut::minmax<T>({(T)in[0], (T)in[1]});
        else if constexpr(N == 3) r = ut::minmax<T>({(T)in[0], (T)in[1], (T)in[2]});
        else if constexpr(N == 4) r = ut::minmax<T>({(T)in[0], (T)in[1], (T)in[2], (T)in[3]});
        else r = ut::minmax<T>({(T)in[0], (T)in[1], (T)in[2], (T)in[3], (T)in[4]});
        ++c.steps; c.out(0);
        const I a = *std::min_element(in, in + N), b = *std::max_element(in, in + N);
        if((I)r.first != a || (I)r.second != b) c.fail("minmax is " + str((I)r.first) + ".." + str((I)r.second));
        if(N == 2 && (I)ut::max((T)in[0], (T)in[1]) != b) c.fail("max");
    }
    static void reg(){
        std::vector<I> v{lo<T>(), lo<T>() + 1, 0, 1, hi<T>() - 1, hi<T>()};
        if(std::is_signed<T>::value) v.push_back(-1);
        Space s = std::make_shared<const std::vector<I>>(v);
        add(std::string("minmax ") + tname<T>() + " " + std::to_string(N), std::vector<Space>(N, s), &one);
    }
};
template<class T> struct MM { static void run(){ MinMax<T, 1>::reg(); MinMax<T, 2>::reg(); MinMax<T, 3>::reg(); MinMax<T, 4>::reg(); MinMax<T, 5>::reg(); } };
struct MMs { template<class T> static void run(){ MM<T>::run(); } };
struct Bitss { template<class T> static void run(){ Bits<T>::run(); } };
struct Fulls { template<class T> static void run(){ Full<T>::run(); } };
}
void mc::setup(){
#ifndef UTILS
    all_ranges<SRange>(std::make_integer_sequence<int, NS * NS>());
    all_ranges<URange>(std::make_integer_sequence<int, NU * NU>());
#endif
    if(SHARD == 0){
        all<Bitss>(IntsAll()); all<Fulls>(IntsAll());
        all<MMs>(Ints8());
    }
}
MC_MAIN
