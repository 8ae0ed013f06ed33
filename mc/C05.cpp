// Every safe object obtained without a report holds a value inside its own type's numeric_limits, exactly.
// Operands: range types, full-width types, literals, built-ins; policy RP (native or automatic).
#include "ranges.hpp"
using namespace mc;
#ifndef RP
#define RP sn::native
#endif
namespace {
using EP = sn::default_exception_policy;
using RS = R<RP, EP>;
const std::string pol = std::is_same<RP, sn::native>::value ? "native " : "automatic ";

template<class RT> void closed(Ctx & c, const Obs & o){
    if(o.kind == 0 && (o.val < slo<RT>() || o.val > shi<RT>()))
        c.fail("value " + str(o.val) + " outside the numeric_limits [" + str(slo<RT>()) + "," + str(shi<RT>()) + "] of its type");
}
// what may be returned at all: the exact result (bitwise: the C++ result in the result's base type)
template<class A, class B, Op O, class RT> Expect model(I t, I u){
    using TA = base_t<A>; using TB = base_t<B>; using RB = base_t<RT>;
    if constexpr(O == AND) return {VALUE, (I)(RB)((RB)(TA)t & (RB)(TB)u), 0};
    else if constexpr(O == OR) return {VALUE, (I)(RB)((RB)(TA)t | (RB)(TB)u), 0};
    else if constexpr(O == XOR) return {VALUE, (I)(RB)((RB)(TA)t ^ (RB)(TB)u), 0};
    else {
        // native: the C++ type; automatic: the widest type of the documented signedness
        using NR = decltype(OpF<O>::ap(TA(), TB()));
        constexpr bool sg = O == SUB ? true : O == SHL || O == SHR ? std::is_signed<TA>::value : (std::is_signed<TA>::value || std::is_signed<TB>::value);
        using W = typename std::conditional<std::is_same<RP, sn::native>::value, NR, typename std::conditional<sg, std::intmax_t, std::uintmax_t>::type>::type;
        Expect e = expect(O, t, u, lo<W>(), hi<W>(), sizeof(W) * 8, fits<W>(t) && fits<W>(u));
        // automatic: a count not below the width of the (narrower) type of the result may be reported
        if(e.must == VALUE && (O == SHL || O == SHR) && u >= (I)(sizeof(RB) * 8)) e = {EITHER, e.val, E_STL};
        return e;
    }
}
template<class A, class B, Op O> struct Bin {
    using RT = decltype(OpF<O>::ap(std::declval<A>(), std::declval<B>()));
    static void one(const I * in, Ctx & c){
        const A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        ++c.steps;
        Obs o = observe([&]{ return raw(OpF<O>::ap(a, b)); });
        Expect e = model<A, B, O, RT>(in[0], in[1]);
        judge(c, o, e);
        closed<RT>(c, o);
    }
    // the result converted to other types: a check skipped because of its static range must not lose an error
    static void conv(const I * in, Ctx & c){
        const A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        Expect e = model<A, B, O, RT>(in[0], in[1]);
        if(e.must != VALUE) return;
        c.steps += 3;
        auto to = [&](auto x){
            using X = decltype(x);
            if constexpr(std::is_empty<X>::value) return;
            else {
                if(slo<RT>() > shi<X>() || shi<RT>() < slo<X>()) return;   // would not compile for a reason of its own
                Obs o = observe([&]{ X r = OpF<O>::ap(a, b); return raw(r); });
                bool in_x = e.val >= slo<X>() && e.val <= shi<X>();
                if(o.kind == 0 && (!in_x || o.val != e.val)) c.fail("converted to " + sname<X>() + ": got " + show(o) + " from " + str(e.val));
                if(o.kind != 0 && in_x) c.fail("converted to " + sname<X>() + ": error for representable " + str(e.val));
                c.out(o.kind ? o.code : 0);
            }
        };
        if constexpr(!(slo<RT>() > hi<int>() || shi<RT>() < lo<int>())) to(sn::safe<int, RP, EP>(0));
        if constexpr(!(slo<RT>() > hi<std::int8_t>() || shi<RT>() < lo<std::int8_t>())) to(sn::safe<std::int8_t, RP, EP>(0));
        if constexpr(!(shi<RT>() < 0)) to(sn::safe<std::uint64_t, RP, EP>(0));
    }
    // result type facts: the policies; automatic + - *: the smallest base type which holds the range of exact results
    static void type(const I *, Ctx & c){
        c.out(19);
        if(!issafe<RT>()) c.fail("the result of an operator on a safe operand is not safe");
        if(!std::is_same<typename sn::get_promotion_policy<RT>::type, RP>::value) c.fail("promotion policy lost");
        if(!std::is_same<typename sn::get_exception_policy<RT>::type, EP>::value) c.fail("exception policy lost");
        using TA = base_t<A>; using TB = base_t<B>; using RB = base_t<RT>;
        if(std::is_same<RP, sn::native>::value && O != SHL && O != SHR){
            using NR = decltype(OpF<O>::ap(TA(), TB()));
            if(!std::is_same<RB, NR>::value) c.fail(std::string("result base type ") + tname<RB>() + ", C++ has " + tname<NR>());
        }
        if constexpr(!std::is_same<RP, sn::native>::value && (O == ADD || O == SUB || O == MUL)){
            I l = BIG, h = -BIG;
            for(I x : {slo<A>(), shi<A>()}) for(I y : {slo<B>(), shi<B>()}){
                I r = O == ADD ? x + y : O == SUB ? x - y : exact_mul(x, y);
                l = std::min(l, r); h = std::max(h, r);
            }
            bool sg = O == SUB || std::is_signed<TA>::value || std::is_signed<TB>::value;
            int w = 0;
            for(int k = 8; k <= 64 && !w; k *= 2){
                I a = sg ? -((I)1 << (k - 1)) : 0, b = sg ? ((I)1 << (k - 1)) - 1 : ((I)1 << k) - 1;
                if(l >= a && h <= b) w = k;
            }
            bool fitsall = w != 0;
            if(!w) w = 64;
            if(std::is_signed<RB>::value != sg) c.fail(std::string("result base type ") + tname<RB>() + " has the wrong signedness");
            if((int)sizeof(RB) * 8 != w) c.fail(std::string("result base type ") + tname<RB>() + ", the smallest that holds [" + str(l) + "," + str(h) + "] has " + std::to_string(w) + " bits");
            if(fitsall && (slo<RT>() > l || shi<RT>() < h)) c.fail("result range does not hold [" + str(l) + "," + str(h) + "]");
        }
    }
    static void reg(){
        std::string n = pol + opname(O) + " " + sname<A>() + " " + sname<B>();
        add("type " + n, {}, &type);
        add(n, {rspace<A>(), rspace<B>()}, &one, &rpartners<A, B>);
        add("conv " + n, {rspace<A>(0), rspace<B>(0)}, &conv);
    }
};
template<class A, class B, class O> struct Ok {   // operations the library rejects at compile time are not programs
    static constexpr bool value =
        !(std::is_empty<A>::value && std::is_empty<B>::value) && (issafe<A>() || issafe<B>());
};
template<class A, class B> struct AllOps { template<class O> static void run(){ if constexpr(Ok<A, B, O>::value) Bin<A, B, O::value>::reg(); } };
struct Pair { template<class A, class B> static void run(){ all<AllOps<A, B>>(Ops()); } };
}
void mc::setup(){
#if PART == 0      // pairs from the smaller list
    each2<Pair, RS::Some, RS::Some>();
#elif PART == 1    // with literals and built-in operands
    each2<Pair, RS::Some, cat_t<Lits, Builtins>>();
    each2<Pair, cat_t<Lits, Builtins>, RS::Some>();
#elif PART == 3    // a few pairs
    using F = L<RS::s<-5, 9>, RS::u<0, 300>, RS::f<std::int8_t>, RS::f<std::int32_t>, RS::f<std::uint32_t>, RS::f<std::int64_t>, RS::f<std::uint64_t>, RS::s<std::numeric_limits<std::int64_t>::min(), -1>>;
    each2<Pair, F, cat_t<F, Lits>>();
#else              // all pairs
    using S = cat_t<RS::Signed, RS::Unsigned>;
    each2<Pair, S, S>();
#endif
}
MC_MAIN
