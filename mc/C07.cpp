// Comparisons of safe values.
#include "ranges.hpp"
using namespace mc;
namespace {
using EP = sn::default_exception_policy;
template<class P, class A, class B> constexpr bool common_holds(I v){
    using TA = base_t<A>; using TB = base_t<B>;
    if constexpr(std::is_same<P, sn::native>::value) return fits<decltype(TA() + TB())>(v);
    else if constexpr(std::is_same<P, sn::automatic>::value)
        return std::is_signed<TA>::value || std::is_signed<TB>::value ? fits<std::intmax_t>(v) : fits<std::uintmax_t>(v);
    else return Machine<P>::common(ct<TA>(), ct<TB>(), true).holds(v) && Machine<P>::common(ct<TA>(), ct<TB>(), false).holds(v);
}
template<class P, class A, class B> struct Cmp {
    static void one(const I * in, Ctx & c){
        const A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        const bool holds = common_holds<P, A, B>(in[0]) && common_holds<P, A, B>(in[1]);
        const I t = in[0], u = in[1];
        auto chk = [&](const char * op, const Obs & o, bool e){
            ++c.steps;
            if(o.kind == 0){
                c.out(o.val ? 11 : 12);
                if((o.val != 0) != e) c.fail(std::string("a ") + op + " b is " + (o.val ? "true" : "false"));
            } else if(o.kind == 1){
                c.out(holds ? o.code : 16);
                if(holds) c.fail(std::string("a ") + op + " b threw " + show(o) + " although the common type holds both operands");
            } else { c.out(14); c.fail(std::string("a ") + op + " b: " + show(o)); }
        };
        chk("<", observe([&]{ return (I)(a < b); }), t < u);
        chk(">", observe([&]{ return (I)(a > b); }), t > u);
        chk("<=", observe([&]{ return (I)(a <= b); }), t <= u);
        chk(">=", observe([&]{ return (I)(a >= b); }), t >= u);
        chk("==", observe([&]{ return (I)(a == b); }), t == u);
        chk("!=", observe([&]{ return (I)(a != b); }), t != u);
    }
    static void near(const I * in, std::vector<I> & out){
        const I l = slo<B>(), h = shi<B>();
        for(int k : {0, 8, 16, 32, 64}) for(int s : {-1, 1}) for(int e = -1; e <= 1; ++e){
            I x = in[0] + (k ? s * ((I)1 << k) : 0) + e;
            if(x >= l && x <= h) out.push_back(x);
            if(-x >= l && -x <= h) out.push_back(-x);
        }
    }
    static void reg(const char * p){
        if constexpr(!(std::is_empty<A>::value && std::is_empty<B>::value) && (issafe<A>() || issafe<B>()))
            add(std::string(p) + sname<A>() + " " + sname<B>(), {rspace<A>(thorough() ? 2 : 0), rspace<B>(thorough() ? 2 : 0)}, &one, &near);
    }
};
template<class P> const char * pn(){ return std::is_same<P, sn::native>::value ? "native " : std::is_same<P, sn::automatic>::value ? "automatic "
    : std::is_same<P, Z80>::value ? "Z80 " : "LP64 "; }
template<class P> struct Pair { template<class A, class B> static void run(){ Cmp<P, A, B>::reg(pn<P>()); } };
template<class P> void policy(){
    using RG = R<P, EP>;
    using S16 = L<typename RG::template f<std::int16_t>, typename RG::template f<std::uint16_t>>;
    using S = cat_tt<typename RG::Some, S16>;
    using X = cat_tt<Lits, cat_tt<Builtins, L<std::uint8_t, std::int16_t>>>;
    each2<Pair<P>, S, S>();
    each2<Pair<P>, S, X>();
    each2<Pair<P>, X, S>();
}
}
void mc::setup(){ policy<RP>(); }
MC_MAIN
