// Safe literals: exact constants which adopt the other operand's policies.
#include "ranges.hpp"
#include <sstream>
using namespace mc;
namespace {
using EP = sn::default_exception_policy;
#ifdef MC_UB      // ignored errors may execute what the built-in operation would: not explored there
using LOOSE = sn::strict_exception_policy;
#else
using LOOSE = sn::loose_exception_policy;
#endif
using Targets = L<std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t, char, long long, unsigned long long>;
Space single(I v){ return std::make_shared<const std::vector<I>>(std::vector<I>{v}); }
constexpr int swidth(I v){ for(int w : {8, 16, 32}) if(v >= -((I)1 << (w - 1)) && v < ((I)1 << (w - 1))) return w; return 64; }
constexpr int uwidth(I v){ for(int w : {8, 16, 32}) if(v < ((I)1 << w)) return w; return 64; }

// ------------------------------------------------------------------ one literal on its own
template<class X, class P, class E> struct Lit {
    using T = base_t<X>;
    template<class Y> static void is(Ctx & c, const Y & y, I v, const char * what){
        ++c.steps; c.out(0);
        if(raw(y) != v || (I)sn::base_value(y) != v) c.fail(std::string(what) + " is " + str(raw(y)));
        if(slo<Y>() != v || shi<Y>() != v || raw(std::numeric_limits<Y>::lowest()) != v) c.fail(std::string(what) + " has numeric_limits " + str(slo<Y>()) + ".." + str(shi<Y>()));
        if(!std::is_same<typename sn::get_promotion_policy<Y>::type, P>::value || !std::is_same<typename sn::get_exception_policy<Y>::type, E>::value) c.fail(std::string(what) + " has other policies");
        if(!issafe<Y>()) c.fail(std::string(what) + " is not safe");
    }
    struct To { template<class R> static void run(){} };
    static void one(const I * in, Ctx & c){
        constexpr I N = slo<X>();
        const X x;
        is(c, x, in[0], "the literal");
        if((I)sizeof(T) * 8 != in[1] || std::is_signed<T>::value != (in[2] != 0)) c.fail(std::string("base type ") + tname<T>());
        if(std::numeric_limits<X>::digits != std::numeric_limits<T>::digits || std::numeric_limits<X>::is_signed != std::numeric_limits<T>::is_signed) c.fail("numeric_limits are not those of the base type");
        to(c, Targets());
        is(c, +x, in[0], "+literal");
        if constexpr(std::is_signed<T>::value && N != lo<T>()) is(c, -x, -in[0], "-literal");
        if constexpr(std::is_signed<T>::value) is(c, ~x, -1 - in[0], "~literal");
        else if constexpr(sizeof(T) >= 4) is(c, ~x, hi<T>() - in[0], "~literal");
        { std::ostringstream o; o << x; ++c.steps; if(o.str() != str(in[0])) c.fail("output " + o.str()); }
        { std::wostringstream o; o << x; std::string s = str(in[0]); if(o.str() != std::wstring(s.begin(), s.end())) c.fail("wide output"); }
        if(in[0] >= 0){ std::ostringstream o; o << std::hex << x; std::ostringstream o2; if(sizeof(T) == 1) o2 << std::hex << (int)in[0]; else o2 << std::hex << (T)in[0]; if(o.str() != o2.str()) c.fail("hexadecimal output " + o.str()); }
    }
    template<class... R> static void to(Ctx & c, L<R...>){ (to1<R>(c), ...); }
    template<class R> static void to1(Ctx & c){
        constexpr I N = slo<X>();
        if constexpr(fits<R>(N)){
            const X x; ++c.steps; c.out(0);
            const R r = x; const R q = static_cast<R>(x);
            if((I)r != N || (I)q != N) c.fail(std::string("converted to ") + tname<R>() + ": " + str((I)r));
            Obs o = observe([&]{ sn::safe<R> s(x); return raw(s); });
            if(o.kind || o.val != N) c.fail(std::string("safe ") + tname<R>() + " constructed from it: " + show(o));
            o = observe([&]{ sn::safe<R> s(0); s = x; return raw(s); });
            if(o.kind || o.val != N) c.fail(std::string("safe ") + tname<R>() + " assigned from it: " + show(o));
        }
    }
    static void reg(I v, bool sg, const char * how){
        add(std::string(how) + " " + str(v) + (sg ? "" : "u"), {single(v), single(sg ? swidth(v) : uwidth(v)), single(sg)}, &one);
    }
};
constexpr std::intmax_t sval(int i){
    constexpr int ks[] = {1, 3, 4, 6, 7, 8, 14, 15, 16, 30, 31, 32, 33, 48, 62};
    constexpr std::intmax_t ex[] = {0, 5, 10, 100, 1000, 0x55, IMX, IMX - 1};
    if(i < 8) return ex[i];
    i -= 8;
    if(i < 45) return ((std::intmax_t)1 << ks[i / 3]) + i % 3 - 1;
    return -1 - sval(i - 45);
}
constexpr std::uintmax_t uval(int i){ return i < 53 ? (std::uintmax_t)sval(i) : i == 53 ? UMX : i == 54 ? UMX - 1 : i == 55 ? UMX / 2 + 1 : UMX / 2 + 2; }
template<int K> struct S1 {
    static void run(){
        constexpr std::intmax_t N = sval(K);
        Lit<sn::safe_signed_literal<N>, void, void>::reg(N, true, "literal");
        if constexpr(K % 4 == 0) Lit<sn::safe_signed_literal<N, sn::automatic, sn::loose_exception_policy>, sn::automatic, sn::loose_exception_policy>::reg(N, true, "literal with policies");
        if constexpr(K % 3 == 0) Lit<decltype(make_safe_literal(N, sn::native, EP)), sn::native, EP>::reg(N, true, "make_safe_literal");
        if constexpr(K % 5 == 0 && N >= -2147483647 - 1 && N <= 2147483647) Lit<decltype(make_safe_literal(static_cast<int>(N), void, void)), void, void>::reg(N, true, "make_safe_literal int");
    }
};
template<int K> struct U1 {
    static void run(){
        constexpr std::uintmax_t N = uval(K);
        Lit<sn::safe_unsigned_literal<N>, void, void>::reg((I)N, false, "literal");
        if constexpr(K % 3 == 0) Lit<decltype(make_safe_literal(N, sn::automatic, EP)), sn::automatic, EP>::reg((I)N, false, "make_safe_literal");
        if constexpr(K % 3 == 1 && N <= 0xffffffffu) Lit<decltype(make_safe_literal(static_cast<unsigned>(N), void, void)), void, void>::reg((I)N, false, "make_safe_literal unsigned");
    }
};
template<template<int> class F, int... K> void each_n(std::integer_sequence<int, K...>){
    auto go = [](auto k){ if constexpr(decltype(k)::value % NSHARDS == SHARD) F<decltype(k)::value>::run(); };
    (go(std::integral_constant<int, K>()), ...);
}
// ------------------------------------------------------------------ a literal as an operand
// X: literal; V: the range type with only that value and the policies of S
template<class S, class X, class V, Op O, bool LEFT> struct Operand {
    static auto with(const S & s, const X & x){ if constexpr(LEFT) return OpF<O>::ap(x, s); else return OpF<O>::ap(s, x); }
    static auto with(const S & s, const V & v){ if constexpr(LEFT) return OpF<O>::ap(v, s); else return OpF<O>::ap(s, v); }
    using RX = decltype(with(std::declval<S>(), std::declval<X>()));
    using RV = decltype(with(std::declval<S>(), std::declval<V>()));
    static void one(const I * in, Ctx & c){
        const S s = mk<S>(in[0]); const X x; const V v = mk<V>(slo<X>());
        c.steps += 2;
        const Obs a = observe([&]{ return raw(with(s, x)); }), b = observe([&]{ return raw(with(s, v)); });
        c.out(a.kind == 1 ? a.code : a.kind ? 14 : 0);
        if(a.kind == 2) c.fail("got " + show(a));
        if(a.kind != b.kind || a.val != b.val || a.code != b.code) c.fail("with the literal: " + show(a) + ", with a safe object of that value: " + show(b));
        // and exact: the value an ideal integer has
        const I t = LEFT ? slo<X>() : in[0], u = LEFT ? in[0] : slo<X>();
        // (loose_exception_policy ignores invalid shifts)
        constexpr bool loose = std::is_same<typename sn::get_exception_policy<S>::type, sn::loose_exception_policy>::value;
        if(a.kind == 0 && O != AND && O != OR && O != XOR && !(loose && (O == SHL || O == SHR))){
            const Expect e = expect(O, t, u, -BIG, BIG, 64, true);
            if(e.must == ERROR_ || a.val != e.val) c.fail("with the literal: " + show(a) + ", expected " + show(e));
        }
    }
    static void type(const I *, Ctx & c){
        c.out(19);
        if(!std::is_same<typename sn::get_promotion_policy<RX>::type, typename sn::get_promotion_policy<S>::type>::value) c.fail("promotion policy of the other operand lost");
        if(!std::is_same<typename sn::get_exception_policy<RX>::type, typename sn::get_exception_policy<S>::type>::value) c.fail("exception policy of the other operand lost");
        if(!std::is_same<base_t<RX>, base_t<RV>>::value || slo<RX>() != slo<RV>() || shi<RX>() != shi<RV>()) c.fail("result type " + sname<RX>() + ", with a safe object of that value " + sname<RV>());
    }
};
template<class S, class X, class V> struct Assign {
    template<Op O> static void op(const I * in, Ctx & c){
        const X x; const V v = mk<V>(slo<X>());
        S s = mk<S>(in[0]), q = s;
        ++c.steps;
        const Obs a = observe([&]{ OpF<O>::assign(s, x); return raw(s); }), b = observe([&]{ OpF<O>::assign(q, v); return raw(q); });
        c.out(a.kind == 1 ? a.code : a.kind ? 14 : 0);
        if(a.kind != b.kind || a.val != b.val || a.code != b.code || raw(s) != raw(q)) c.fail(std::string(opname(O)) + "= with the literal: " + show(a) + ", with a safe object of that value: " + show(b));
        if(a.kind && raw(s) != in[0]) c.fail("failed statement changed the variable");
    }
    static void one(const I * in, Ctx & c){
        op<ADD>(in, c); op<SUB>(in, c); op<MUL>(in, c);
        if constexpr(slo<X>() != 0){ op<DIV>(in, c); op<MOD>(in, c); }
    }
    static void cmp(const I * in, Ctx & c){
        const S s = mk<S>(in[0]); const X x; const V w = mk<V>(slo<X>()); const I v = slo<X>();
        auto chk = [&](const char * op, const Obs & o, bool e, const Obs & ref){
            ++c.steps; c.out(o.kind ? o.code : o.val ? 11 : 12);
            if(o.kind == 2 || o.kind == 0 && (o.val != 0) != e) c.fail(std::string(op) + ": " + show(o));
            if(o.kind != ref.kind || o.code != ref.code) c.fail(std::string(op) + ": " + show(o) + ", with a safe object of that value: " + show(ref));
        };
#define MC_CMP(op) chk("s " #op " literal", observe([&]{ return (I)(s op x); }), in[0] op v, observe([&]{ return (I)(s op w); })); \
        chk("literal " #op " s", observe([&]{ return (I)(x op s); }), v op in[0], observe([&]{ return (I)(w op s); }));
        MC_CMP(<) MC_CMP(>) MC_CMP(<=) MC_CMP(>=) MC_CMP(==) MC_CMP(!=)
#undef MC_CMP
    }
};
template<class S, class X, class V> struct AllOps { template<class O> static void run(){
    constexpr Op o = O::value;
    const std::string n = std::string(opname(o)) + " ";
    {
        using F = Operand<S, X, V, o, false>;
        add(n + sname<S>() + " " + sname<X>(), {rspace<S>()}, &F::one);
        add("type " + n + sname<S>() + " " + sname<X>(), {}, &F::type);
    }
    {
        using F = Operand<S, X, V, o, true>;
        add(n + sname<X>() + " " + sname<S>(), {rspace<S>()}, &F::one);
        add("type " + n + sname<X>() + " " + sname<S>(), {}, &F::type);
    }
} };
template<class S, class X> struct ValueOf;
template<class S, class T, T N, class P, class E> struct ValueOf<S, sn::safe_literal_impl<T, N, P, E>> {
    using type = sn::safe_base<T, N, N, typename sn::get_promotion_policy<S>::type, typename sn::get_exception_policy<S>::type>;
};
struct Pair { template<class S, class X> static void run(){
    using V = typename ValueOf<S, X>::type;
    all<AllOps<S, X, V>>(Ops());
    add("compare " + sname<S>() + " " + sname<X>(), {rspace<S>()}, &Assign<S, X, V>::cmp);
    // op= : only programs whose result range overlaps the variable's compile
    if constexpr(std::is_same<typename sn::get_promotion_policy<S>::type, sn::native>::value && shi<S>() - slo<S>() > 200 && slo<X>() < 100 && slo<X>() > -100)
        add("assign " + sname<S>() + " " + sname<X>(), {rspace<S>()}, &Assign<S, X, V>::one);
} };
// two literals: policies of their own
template<class X, class Y> struct Two {
    template<Op O> static void bin(Ctx & c, I t, I u){
        using RT = decltype(OpF<O>::ap(X(), Y())); ++c.steps;
        const Obs a = observe([&]{ return raw(OpF<O>::ap(X(), Y())); });
        const Expect e = expect(O, t, u, lo<base_t<RT>>(), hi<base_t<RT>>(), sizeof(base_t<RT>) * 8, fits<base_t<RT>>(t) && fits<base_t<RT>>(u));
        judge(c, a, e);
        if(!std::is_same<typename sn::get_promotion_policy<RT>::type, sn::native>::value || !std::is_same<typename sn::get_exception_policy<RT>::type, EP>::value) c.fail("policies");
    }
    static void one(const I *, Ctx & c){
        const I t = slo<X>(), u = slo<Y>();
        bin<ADD>(c, t, u); bin<SUB>(c, t, u); bin<MUL>(c, t, u); bin<SHL>(c, t, u);
        if constexpr(slo<Y>() != 0){ bin<DIV>(c, t, u); bin<MOD>(c, t, u); }
    }
};
}
struct TwoS { template<class X, class Y> static void run(){ add("two " + sname<X>() + " " + sname<Y>(), {}, &Two<X, Y>::one); } };
template<std::intmax_t N> using sl = sn::safe_signed_literal<N>;
template<std::uintmax_t N> using ul = sn::safe_unsigned_literal<N>;
template<std::intmax_t N> using nl = sn::safe_signed_literal<N, sn::native, EP>;
template<std::uintmax_t N> using nu = sn::safe_unsigned_literal<N, sn::native, EP>;
void mc::setup(){
#if PART == 0
    each_n<S1>(std::make_integer_sequence<int, 106>());
    each_n<U1>(std::make_integer_sequence<int, 57>());
    using T = L<nl<0>, nl<1>, nl<-1>, nl<5>, nl<-128>, nl<127>, nl<32767>, nl<-2147483647 - 1>, nl<IMX>, nl<IMN>, nu<0>, nu<7>, nu<255>, nu<0xffffffffu>, nu<UMX>>;
    each2<TwoS, T, T>();
#else
    using Ss = L<sn::safe<int>, sn::safe<std::uint16_t>, sn::safe<std::int64_t, sn::automatic>, sn::safe_signed_range<-100, 300, sn::native, sn::strict_exception_policy>,
        sn::safe_unsigned_range<3, 2000000, sn::automatic, LOOSE>, sn::safe<std::uint64_t, LP64>, sn::safe<std::int8_t>>;
    using Xs = L<sl<0>, sl<1>, sl<-1>, sl<-7>, sl<127>, sl<-128>, sl<40000>, sl<IMN>, sl<IMX>, ul<2>, ul<255>, ul<0x80000000u>, ul<UMX>>;
    each2<Pair, Ss, Xs>();
#endif
}
MC_MAIN
