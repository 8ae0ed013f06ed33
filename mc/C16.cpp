// The cpp policy: result types and values of the machine it describes.
#include "ranges.hpp"
using namespace mc;
namespace {
using EP = sn::default_exception_policy;
using ILP64 = sn::cpp<8, 16, 64, 64, 64>;
using SHORT32 = sn::cpp<8, 16, 16, 32, 64>;
using SLP = sn::cpp<8, 32, 32, 64, 64>;
template<class P> std::string pname(){
    return std::is_same<P, LP64>::value ? "LP64 " : std::is_same<P, LLP64>::value ? "LLP64 " : std::is_same<P, Z80>::value ? "Z80 " : std::is_same<P, PIC>::value ? "PIC "
        : std::is_same<P, ILP64>::value ? "ILP64 " : std::is_same<P, SHORT32>::value ? "16/32/64 " : "8/32/32/64 ";
}
std::string show(CT t){ return (t.sg ? "signed " : "unsigned ") + std::to_string(t.bits) + " bits"; }
const std::string KNOWN_KEY = "unsigned operands narrower than int are promoted to unsigned int";

template<class P, class A, class B, Op O> struct Bin {
    using RT = decltype(OpF<O>::ap(std::declval<A>(), std::declval<B>()));
    using TA = base_t<A>; using TB = base_t<B>; using RB = base_t<RT>;
    static constexpr bool SHIFT = O == SHL || O == SHR;
    static void type(const I *, Ctx & c){
        c.out(19); ++c.steps;
        using M = Machine<P>;
        const CT strict = SHIFT ? M::promote(ct<TA>(), true) : M::common(ct<TA>(), ct<TB>(), true);
        const CT other = SHIFT ? M::promote(ct<TA>(), false) : M::common(ct<TA>(), ct<TB>(), false);
        const bool narrow = !ct<TA>().sg && M::rank(ct<TA>().bits) < M::rank(M::promote(ct<std::int8_t>(), true).bits)
            || !SHIFT && !ct<TB>().sg && M::rank(ct<TB>().bits) < M::rank(M::promote(ct<std::int8_t>(), true).bits);
        const CT r = ct<RB>();
        if(!(r == strict)) c.fail("result has " + show(r) + ", the machine gives " + show(strict), narrow && r == other ? KNOWN_KEY : "");
        if(!std::is_same<typename sn::get_promotion_policy<RT>::type, P>::value || !std::is_same<typename sn::get_exception_policy<RT>::type, EP>::value) c.fail("policies lost");
    }
    static void one(const I * in, Ctx & c){
        const A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        ++c.steps;
        const Obs o = observe([&]{ return raw(OpF<O>::ap(a, b)); });
        Expect e;
        const I t = in[0], u = in[1];
        if(O == AND || O == OR || O == XOR){
            const RB x = (RB)(TA)t, y = (RB)(TB)u;
            e = {EITHER, (I)(RB)(O == AND ? x & y : O == OR ? x | y : x ^ y), E_OVER};
            if(fits<RB>(t) && fits<RB>(u)) e.must = VALUE;
        } else {
            e = expect(O, t, u, lo<RB>(), hi<RB>(), sizeof(RB) * 8, fits<RB>(t) && (SHIFT || fits<RB>(u)));
            if(SHIFT && !fits<RB>(u)) e.err |= E_OVER;
        }
        judge(c, o, e);
        if(o.kind == 0 && (o.val < slo<RT>() || o.val > shi<RT>())) c.fail("value outside the numeric_limits of its type");
    }
    static void reg(){
        const std::string n = pname<P>() + opname(O) + " " + sname<A>() + " " + sname<B>();
        add("type " + n, {}, &type);
        add(n, {rspace<A>(thorough() ? 1 : 0), rspace<B>(thorough() ? 1 : 0)}, &one, &rpartners<A, B>);
    }
};
// unary minus has the type of the promoted operand; ++ and -- work on the object's own type
template<class P> struct Un { template<class A> static void run(){ U<sn::safe<A, P, EP>>::reg(); }
    template<class S> struct U {
        using RT = decltype(-std::declval<const S &>()); using RB = base_t<RT>; using T = base_t<S>;
        static void type(const I *, Ctx & c){
            c.out(19); ++c.steps;
            using M = Machine<P>;
            const CT strict = M::promote(ct<T>(), true), other = M::promote(ct<T>(), false), r = ct<RB>();
            if(!(r == strict)) c.fail("-x has " + show(r) + ", the machine gives " + show(strict), !ct<T>().sg && r == other ? KNOWN_KEY : "");
            if(!std::is_same<typename sn::get_promotion_policy<RT>::type, P>::value || !std::is_same<typename sn::get_exception_policy<RT>::type, EP>::value) c.fail("policies lost");
            if(!std::is_same<decltype(+std::declval<const S &>()), S>::value) c.fail("type of +x");
        }
        static void one(const I * in, Ctx & c){
            const S s = mk<S>(in[0]); c.steps += 6;
            const I x = in[0];
            auto in_ = [](I v, I l, I h){ return v >= l && v <= h ? Expect{VALUE, v, 0} : Expect{ERROR_, 0, E_OVER}; };
            judge(c, observe([&]{ return raw(-s); }), in_(-x, lo<RB>(), hi<RB>()));
            judge(c, observe([&]{ return raw(+s); }), Expect{VALUE, x, 0});
            for(int k = 0; k < 4; ++k){
                S t = mk<S>(x); I ret = 0; const I d = k < 2 ? 1 : -1;
                const Obs o = observe([&]{ ret = raw(k == 0 ? ++t : k == 1 ? t++ : k == 2 ? --t : t--); return raw(t); });
                judge(c, o, in_(x + d, slo<S>(), shi<S>()));
                if(raw(t) != (o.kind ? x : x + d) || (!o.kind && ret != (k % 2 ? x : x + d))) c.fail("++/-- #" + std::to_string(k));
            }
        }
        static void reg(){
            const std::string n = pname<P>() + "unary " + sname<S>();
            add("type " + n, {}, &type);
            add(n, {rspace<S>(2)}, &one);
        }
    };
};
template<class P, class A, class B> struct AllOps { template<class O> static void run(){ Bin<P, A, B, O::value>::reg(); } };
template<class P> struct SS { template<class A, class B> static void run(){ all<AllOps<P, sn::safe<A, P, EP>, sn::safe<B, P, EP>>>(Ops()); } };
template<class P> struct SB { template<class A, class B> static void run(){
    all<AllOps<P, sn::safe<A, P, EP>, B>>(Ops());
    all<AllOps<P, A, sn::safe<B, P, EP>>>(Ops());
} };
template<class P> struct RR { template<class A, class B> static void run(){ all<AllOps<P, A, B>>(Ops()); } };
}
void mc::setup(){
#if PART == 0
    using LL = L<long long, unsigned long long, char>;
    each2<SS<POL>, Ints8, Ints8>();
    each<Un<POL>, IntsAll>();
    each2<SS<POL>, LL, L<long, unsigned long, int, std::uint8_t>>();
#elif PART == 1
    each2<SB<POL>, Ints8, Ints8>();
#else
    using RG = R<POL, EP>;
    using X = L<RG::s<-3, 5>, RG::u<0, 10>, RG::s<-128, 127>, RG::u<250, 260>, RG::s<-40000, 70000>, RG::u<0, UMX>, RG::s<IMN, IMX>, RG::s<100, 200>, RG::u<I31 - 1, I32>>;
    each2<RR<POL>, X, X>();
#endif
}
MC_MAIN
