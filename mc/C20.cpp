// Programs: expression trees over mixed operands, and whole functions written once for any integer type,
// executed with safe types and with ideal integers.
#ifndef PART
#define PART 0
#endif
#if PART == 2
#define MC_GENERIC
#endif
#include "programs.hpp"
#include <set>
using namespace mc;
#ifndef RP
#define RP sn::native
#endif
namespace {
using EP = sn::default_exception_policy;
constexpr bool AU = std::is_same<RP, sn::automatic>::value;
using ID = Ideal<AU>;
const std::string pol = AU ? "automatic " : "native ";
template<class S> V leaf(I v){ return ID::con(v, ct<base_t<S>>()); }
void verdict(Ctx & c, const char * what, const Obs & o, const V & m){
    ++c.steps;
    if(o.kind == 2) { c.out(14); c.fail(std::string(what) + ": " + show(o)); return; }
    c.out(m.st == MAYBE ? (o.kind ? 16 : 15) : o.kind ? o.code : 0);
    if(o.kind == 0 && (m.st == ERR || o.val != m.v)) c.fail(std::string(what) + ": got " + show(o) + ", expected " + (m.st == ERR ? "a report" : "value " + str(m.v)));
    if(o.kind == 1 && m.st == OK) c.fail(std::string(what) + ": " + show(o) + ", expected value " + str(m.v));
}
V into(V x, I l, I h){ if(x.st == ERR || x.v < l || x.v > h) return V{0, x.t, ERR}; return x; }
// ------------------------------------------------------------------ trees
template<class A, class B, class C, Op O1, Op O2> struct Tree {
    static constexpr bool SH2 = O2 == SHL || O2 == SHR, SH1 = O1 == SHL || O1 == SHR;
    static void one(const I * in, Ctx & c){
        const A x = mk<A>(in[0]); const B y = mk<B>(in[1]); const C z = mk<C>(in[2]);
        const V mx = leaf<A>(in[0]), my = leaf<B>(in[1]), mz = leaf<C>(in[2]);
        if constexpr(issafe<A>() || issafe<B>()){
            const V m = ID::op(O2, ID::op(O1, mx, my), mz);
            verdict(c, "(x . y) . z", observe([&]{ return raw(OpF<O2>::ap(OpF<O1>::ap(x, y), z)); }), m);
        }
        if constexpr(issafe<B>() || issafe<C>()){
            const V m = ID::op(O1, mx, ID::op(O2, my, mz));
            verdict(c, "x . (y . z)", observe([&]{ return raw(OpF<O1>::ap(x, OpF<O2>::ap(y, z))); }), m);
        }
    }
    // statements: assignment of a tree, compound assignment with an expression, unary minus inside, comparison of a tree
    static void stmt(const I * in, Ctx & c){
        const A x = mk<A>(in[0]); const B y = mk<B>(in[1]); const C z = mk<C>(in[2]);
        const V mx = leaf<A>(in[0]), my = leaf<B>(in[1]), mz = leaf<C>(in[2]);
        if constexpr(issafe<A>()){
            A r = mk<A>(in[0]);
            Obs o = observe([&]{ r = OpF<O2>::ap(OpF<O1>::ap(x, y), z); return raw(r); });
            verdict(c, "r = (x . y) . z", o, into(ID::op(O2, ID::op(O1, mx, my), mz), slo<A>(), shi<A>()));
            if(o.kind && raw(r) != in[0]) c.fail("a failed assignment changed the variable");
            if constexpr(issafe<B>() || issafe<C>()){
                A s = mk<A>(in[0]);
                o = observe([&]{ OpF<O1>::assign(s, OpF<O2>::ap(y, z)); return raw(s); });
                verdict(c, "s .= (y . z)", o, into(ID::op(O1, mx, ID::op(O2, my, mz)), slo<A>(), shi<A>()));
                if(o.kind && raw(s) != in[0]) c.fail("a failed compound assignment changed the variable");
            }
        }
        if constexpr(issafe<A>() || issafe<B>()){
            const V e = ID::op(O1, mx, my);
            verdict(c, "-(x . y)", observe([&]{ return raw(-OpF<O1>::ap(x, y)); }), ID::neg(e));
            // comparison: exact when the common type holds both
            const V cm = ID::op(ADD, ID::con(e.v, e.t), ID::con(in[2], mz.t));
            const bool holds = e.st != ERR && cm.t.holds(e.v) && cm.t.holds(in[2]);
            V m{e.v < in[2] ? 1 : 0, e.t, e.st == ERR ? ERR : e.st == MAYBE || !holds ? MAYBE : OK};
            verdict(c, "(x . y) < z", observe([&]{ return (I)(OpF<O1>::ap(x, y) < z); }), m);
            m.v = e.v == in[2];
            verdict(c, "z == (x . y)", observe([&]{ return (I)(z == OpF<O1>::ap(x, y)); }), m);
        }
    }
};
template<class S> Space leaves(){
    if(std::is_empty<S>::value) return alphabet(slo<S>(), shi<S>(), 0);
    const I l = slo<S>(), h = shi<S>();
    std::vector<I> v{l, l + 1, l / 2 - 1, -46341, -40, -9, -2, -1, 0, 1, 2, 3, 7, 13, 31, 46341, 65536, ((I)1 << 31) - 1, ((I)1 << 31), ((I)1 << 32) - 1, h / 3, h / 2 + 1, h - 1, h}, w;
    if(thorough()) for(I x : {-100, -64, -3, 4, 5, 8, 10, 15, 16, 32, 63, 64, 100, 127, 255, 256, 32768, 1000000}) v.push_back(x);
    for(I x : v) if(x >= l && x <= h) w.push_back(x);
    std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end());
    return std::make_shared<const std::vector<I>>(w);
}
using OpSet = typename std::conditional<AU, L<opc<ADD>, opc<SUB>, opc<MUL>, opc<DIV>, opc<MOD>, opc<SHL>, opc<SHR>>, Ops>::type;
template<class A, class B, class C> struct Reg2 { template<class O1> struct In { template<class O2> static void run(){
        const std::string n = pol + opname(O1::value) + " " + opname(O2::value) + " " + sname<A>() + " " + sname<B>() + " " + sname<C>();
        using T = Tree<A, B, C, O1::value, O2::value>;
        add(n, {leaves<A>(), leaves<B>(), leaves<C>()}, &T::one);
        // statements: a smaller set of operators
        if constexpr((int(O1::value) + 3 * int(O2::value)) % 4 == 0) add("stmt " + n, {leaves<A>(), leaves<B>(), leaves<C>()}, &T::stmt);
    } };
    template<class O1> static void run(){ all<In<O1>>(OpSet()); } };
template<class A> struct Reg1 { template<class B, class C> static void run(){
    if constexpr(issafe<A>() + issafe<B>() + issafe<C>() >= 1 && !(std::is_empty<A>::value && std::is_empty<B>::value) && !(std::is_empty<B>::value && std::is_empty<C>::value)
        && (issafe<A>() || !std::is_empty<B>::value)) all<Reg2<A, B, C>>(OpSet());
} };
// ------------------------------------------------------------------ programs
template<class Q, class A, class B, class C> struct Run3 {
    static void one(const I * in, Ctx & c){
        prog::compare(c, [&]{ Q::run(mk<A>(in[0]), mk<B>(in[1]), mk<C>(in[2])); },
            [&]{ Q::run(prog::IN<A, AU>(prog::IE<AU>{leaf<A>(in[0])}), prog::IN<B, AU>(prog::IE<AU>{leaf<B>(in[1])}), prog::IN<C, AU>(prog::IE<AU>{leaf<C>(in[2])})); });
    }
};
template<class Q, class A, class B> struct Run2 {
    static void one(const I * in, Ctx & c){
        prog::compare(c, [&]{ Q::run(mk<A>(in[0]), mk<B>(in[1])); },
            [&]{ Q::run(prog::IN<A, AU>(prog::IE<AU>{leaf<A>(in[0])}), prog::IN<B, AU>(prog::IE<AU>{leaf<B>(in[1])})); });
    }
};
template<class A> struct Pgm { template<class Q, class B> static void run(){
    const std::string n = pol + Q::nm() + " " + sname<A>() + " " + sname<B>();
    if constexpr(Q::N == 2) add(n, {salpha<A>(), salpha<B>()}, &Run2<Q, A, B>::one);
    else {
        using RG = R<RP, EP>;
        add(n + " x", {leaves<A>(), leaves<B>(), leaves<A>()}, &Run3<Q, A, B, A>::one);
        add(n + " i", {leaves<A>(), leaves<B>(), leaves<RG::f<std::int32_t>>()}, &Run3<Q, A, B, RG::f<std::int32_t>>::one);
    }
} };
}
void mc::setup(){
    using RG = R<RP, EP>;
#if PART == 1
    using namespace prog;
    using Qs = typename std::conditional<AU, L<gcd, power, powmod, factorial, isqrt, midpoint, collatz, fibonacci, average, horner, discriminant, hash, digits, popcount, fixedpoint, extended, clampscale, binomial, swap_, sum, timeofday, days, countdown, lerp, motor>,
        L<gcd, power, powmod, factorial, isqrt, midpoint, collatz, fibonacci, average, horner, discriminant, hash, digits, popcount, fixedpoint, extended, clampscale, binomial, swap_, sum, timeofday, days, countdown, lerp, motor, checksum>>::type;
    using Ps = L<RG::f<std::int8_t>, RG::f<std::uint8_t>, RG::f<std::int16_t>, RG::f<std::int32_t>, RG::f<std::uint32_t>, RG::f<std::int64_t>, RG::f<std::uint64_t>, RG::s<-100, 300>, RG::u<0, 1000>>;
    using Bs = L<RG::f<std::int8_t>, RG::f<std::uint16_t>, RG::f<std::int32_t>, RG::f<std::int64_t>>;
    auto go = [](auto k){ constexpr size_t kk = decltype(k)::value; if constexpr(kk < Ps::n) each2<Pgm<at_t<kk, Ps>>, Qs, Bs>(); };
    go(std::integral_constant<size_t, 0>()); go(std::integral_constant<size_t, 1>()); go(std::integral_constant<size_t, 2>());
    go(std::integral_constant<size_t, 3>()); go(std::integral_constant<size_t, 4>()); go(std::integral_constant<size_t, 5>());
    go(std::integral_constant<size_t, 6>()); go(std::integral_constant<size_t, 7>()); go(std::integral_constant<size_t, 8>());
#elif PART == 2
    using namespace prog;
    using Qs = L<accumulate, inner, partial, differences, iota_, sort_, extremes, permute, ordered, functionals, rational_, rational_sum>;
    using Ps = L<RG::f<std::int8_t>, RG::f<std::uint8_t>, RG::f<std::int16_t>, RG::f<std::int32_t>, RG::f<std::uint32_t>, RG::f<std::int64_t>, RG::f<std::uint64_t>, RG::s<-100, 70000>>;
    using Bs = L<RG::f<std::int32_t>, RG::f<std::int64_t>>;
    auto go = [](auto k){ constexpr size_t kk = decltype(k)::value; if constexpr(kk < Ps::n) each2<Pgm<at_t<kk, Ps>>, Qs, Bs>(); };
    go(std::integral_constant<size_t, 0>()); go(std::integral_constant<size_t, 1>()); go(std::integral_constant<size_t, 2>());
    go(std::integral_constant<size_t, 3>()); go(std::integral_constant<size_t, 4>()); go(std::integral_constant<size_t, 5>());
    go(std::integral_constant<size_t, 6>()); go(std::integral_constant<size_t, 7>());
#else
#ifdef WIDE
    using As = L<RG::f<std::int8_t>, RG::f<int>, RG::f<std::uint32_t>, RG::f<std::int64_t>, RG::s<-100, 300>, long>;
    using Cs = L<RG::f<std::uint64_t>, RG::f<std::int8_t>, unsigned>;
#else
    using As = L<RG::f<std::int8_t>, RG::f<int>, RG::s<-100, 300>, long>;
    using Cs = L<RG::f<std::uint64_t>, RG::f<std::int8_t>>;
#endif
    using Bs = L<RG::f<std::int32_t>, RG::f<std::uint16_t>, int, sn::safe_signed_literal<3>>;
    auto go = [](auto k){ constexpr size_t kk = decltype(k)::value; if constexpr(kk < As::n) each2<Reg1<at_t<kk, As>>, Bs, Cs>(); };
    go(std::integral_constant<size_t, 0>()); go(std::integral_constant<size_t, 1>()); go(std::integral_constant<size_t, 2>());
    go(std::integral_constant<size_t, 3>()); go(std::integral_constant<size_t, 4>()); go(std::integral_constant<size_t, 5>());
#endif
}
MC_MAIN
