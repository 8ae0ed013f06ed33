// Operand types with restricted ranges; shared by several checks. P = promotion policy, E = exception policy.
#ifndef MC_RANGES_HPP
#define MC_RANGES_HPP
#include "safe.hpp"
namespace mc {
constexpr std::intmax_t I31 = (std::intmax_t)1 << 31, I32 = (std::intmax_t)1 << 32, IMX = std::numeric_limits<std::intmax_t>::max(), IMN = std::numeric_limits<std::intmax_t>::min();
constexpr std::uintmax_t UMX = ~(std::uintmax_t)0;
template<class P, class E> struct R {
    template<std::intmax_t A, std::intmax_t B> using s = sn::safe_signed_range<A, B, P, E>;
    template<std::uintmax_t A, std::uintmax_t B> using u = sn::safe_unsigned_range<A, B, P, E>;
    template<class T> using f = sn::safe<T, P, E>;
    using Signed = L<s<-3, 5>, s<1, 10>, s<-10, -1>, s<100, 200>, s<-1000, 999>, s<7, 7>, s<0, 0>, s<-128, 127>, s<0, 127>,
        s<-I31, I31 - 1>, s<-I31, -5>, s<0, I31 - 1>, s<I31 - 1, I32>, s<IMN, IMX>, s<IMX / 2 + 1, IMX>, s<IMN, -IMX / 2>, s<-40000, 70000>, s<0, 40>>;
    using Unsigned = L<u<0, 10>, u<7, 7>, u<0, 0>, u<1000, 1999>, u<0, 255>, u<250, 260>, u<0, 65535>, u<0, I32 - 1>, u<I31, I32 - 1>, u<1, 31>,
        u<0, UMX>, u<UMX / 2 + 1, UMX>, u<1, UMX>, u<I31 - 1, I32>, u<0, 64>>;
    // a smaller mixed set
    using Some = L<s<-3, 5>, s<-10, -1>, s<7, 7>, s<-128, 127>, s<-I31, I31 - 1>, s<IMN, IMX>, s<100, 200>, s<0, 40>,
        u<0, 10>, u<7, 7>, u<1000, 1999>, u<0, 255>, u<0, I32 - 1>, u<0, UMX>, u<UMX / 2 + 1, UMX>, u<1, 31>>;
};
// an integer type of some machine
struct CT { int bits; bool sg;
    constexpr I lo() const { return sg ? -((I)1 << (bits - 1)) : 0; }
    constexpr I hi() const { return sg ? ((I)1 << (bits - 1)) - 1 : ((I)1 << bits) - 1; }
    constexpr bool holds(I v) const { return v >= lo() && v <= hi(); }
    constexpr bool operator==(CT o) const { return bits == o.bits && sg == o.sg; } };
template<class T> constexpr CT ct(){ return CT{(int)sizeof(T) * 8, std::is_signed<T>::value}; }
template<class P> struct Machine;    // the widths of char, short, int, long, long long
template<int C, int S, int N, int LO, int LL> struct Machine<sn::cpp<C, S, N, LO, LL>> {
    static constexpr int rank(int bits){ return bits == C ? 1 : bits == S ? 2 : bits == N ? 3 : bits == LO ? 4 : bits == LL ? 5 : 6; }
    // integral promotion [conv.prom]; strict = false: unsigned types stay unsigned
    static constexpr CT promote(CT a, bool strict){
        if(rank(a.bits) >= rank(N)) return a;
        if(strict) return CT{N, !(!a.sg && a.bits >= N)};
        return CT{N, a.sg};
    }
    // usual arithmetic conversions [expr.arith.conv]
    static constexpr CT common(CT a, CT b, bool strict = true){
        a = promote(a, strict); b = promote(b, strict);
        if(a == b) return a;
        if(a.sg == b.sg) return rank(a.bits) < rank(b.bits) ? b : a;
        CT s = a.sg ? a : b, u = a.sg ? b : a;
        if(rank(u.bits) >= rank(s.bits)) return u;
        if(s.bits - 1 >= u.bits) return s;
        return CT{s.bits, false};
    }
};
using Z80 = sn::cpp<8, 16, 16, 32, 32>;
using LP64 = sn::cpp<8, 16, 32, 64, 64>;
using LLP64 = sn::cpp<8, 16, 32, 32, 64>;
using PIC = sn::cpp<8, 8, 8, 16, 32>;
using Lits = L<sn::safe_signed_literal<-1>, sn::safe_signed_literal<3>, sn::safe_unsigned_literal<8>, sn::safe_signed_literal<0>,
    sn::safe_unsigned_literal<0xffffffffu>, sn::safe_signed_literal<IMN>>;
using Builtins = L<std::int8_t, std::uint16_t, int, unsigned, std::int64_t, std::uint64_t>;
template<class... A, class... B> L<A..., B...> cat(L<A...>, L<B...>);
template<class X, class Y> using cat_t = decltype(cat(X(), Y()));

// the full range of a restricted operand is explored when it has at most 300 values
template<class S> Space rspace(int lev = -1){ return alphabet(slo<S>(), shi<S>(), lev < 0 ? level() : lev, 300); }
template<class A, class B> void rpartners(const I * in, std::vector<I> & out){
    std::vector<I> lim = std_limits();
    for(I x : {slo<A>(), shi<A>(), slo<B>(), shi<B>()}) lim.push_back(x);
    critical(in[0], slo<B>(), shi<B>(), lim, out);
}
} // mc
#endif
