// User-defined promotion policies: every operator is exact in the type its policy entry names, or reports.
#include "ranges.hpp"
using namespace mc;
namespace {
using EP = sn::default_exception_policy;
// operation number n of a policy yields type n + K of the eight types: every operator meets every type
template<int N> using pick = std::tuple_element_t<(N % 8 + 8) % 8, std::tuple<std::int8_t, std::uint32_t, std::int64_t, std::uint8_t, std::int32_t, std::uint64_t, std::int16_t, std::uint16_t>>;
template<int K> struct Rot {
    template<class T, class U> struct addition_result { using type = pick<K>; };
    template<class T, class U> struct subtraction_result { using type = pick<K + 1>; };
    template<class T, class U> struct multiplication_result { using type = pick<K + 2>; };
    template<class T, class U> struct division_result { using type = pick<K + 3>; };
    template<class T, class U> struct modulus_result { using type = pick<K + 4>; };
    template<class T, class U> struct left_shift_result { using type = pick<K + 5>; };
    template<class T, class U> struct right_shift_result { using type = pick<K + 6>; };
    template<class T, class U> struct bitwise_and_result { using type = pick<K + 7>; };
    template<class T, class U> struct bitwise_or_result { using type = pick<K + 1>; };
    template<class T, class U> struct bitwise_xor_result { using type = pick<K + 3>; };
    template<class T, class U> struct comparison_result { using type = pick<K + 5>; };
};
template<Op O> constexpr int slot(){ return O == ADD ? 0 : O == SUB ? 1 : O == MUL ? 2 : O == DIV ? 3 : O == MOD ? 4 : O == SHL ? 5 : O == SHR ? 6 : O == AND ? 7 : O == OR ? 1 : 3; }
// a policy which keeps the left operand's type: results depend on the operand types and their order
struct Left {
    template<class T, class U> struct left { using type = base_t<T>; };
    template<class T, class U> using addition_result = left<T, U>;
    template<class T, class U> using subtraction_result = left<T, U>;
    template<class T, class U> using multiplication_result = left<T, U>;
    template<class T, class U> using division_result = left<T, U>;
    template<class T, class U> using modulus_result = left<T, U>;
    template<class T, class U> using left_shift_result = left<T, U>;
    template<class T, class U> using right_shift_result = left<T, U>;
    template<class T, class U> using bitwise_and_result = left<T, U>;
    template<class T, class U> using bitwise_or_result = left<T, U>;
    template<class T, class U> using bitwise_xor_result = left<T, U>;
    template<class T, class U> using comparison_result = left<T, U>;
};
template<class P> struct Res;
template<int K> struct Res<Rot<K>> {
    template<class A, class B, Op O> using of = pick<K + slot<O>()>;
    template<class A, class B> using cmp = pick<K + 5>;
    static std::string name(){ return "rotation " + std::to_string(K) + " "; }
};
template<> struct Res<Left> {
    template<class A, class B, Op O> using of = base_t<A>;
    template<class A, class B> using cmp = base_t<A>;
    static std::string name(){ return "left "; }
};

template<class P, class A, class B, Op O> struct Bin {
    using RT = decltype(OpF<O>::ap(std::declval<A>(), std::declval<B>()));
    using TA = base_t<A>; using TB = base_t<B>; using RB = typename Res<P>::template of<A, B, O>;
    static constexpr bool SHIFT = O == SHL || O == SHR;
    static void type(const I *, Ctx & c){
        c.out(19); ++c.steps;
        if(!std::is_same<base_t<RT>, RB>::value) c.fail(std::string("result base type ") + tname<base_t<RT>>() + ", the policy names " + tname<RB>());
        if(!std::is_same<typename sn::get_promotion_policy<RT>::type, P>::value || !std::is_same<typename sn::get_exception_policy<RT>::type, EP>::value) c.fail("policies lost");
    }
    static Expect model(I t, I u){
        Expect e;
        if(O == AND || O == OR || O == XOR){
            const RB x = (RB)(TA)t, y = (RB)(TB)u;
            e = {EITHER, (I)(RB)(O == AND ? x & y : O == OR ? x | y : x ^ y), E_OVER};
            if(fits<RB>(t) && fits<RB>(u)) e.must = VALUE;
        } else {
            e = expect(O, t, u, lo<RB>(), hi<RB>(), sizeof(RB) * 8, fits<RB>(t) && (SHIFT || fits<RB>(u)));
            if(SHIFT && !fits<RB>(u)) e.err |= E_OVER;
        }
        return e;
    }
    static void one(const I * in, Ctx & c){
        const A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        ++c.steps;
        const Obs o = observe([&]{ return raw(OpF<O>::ap(a, b)); });
        judge(c, o, model(in[0], in[1]));
        if(o.kind == 0 && (o.val < slo<RT>() || o.val > shi<RT>())) c.fail("value outside the numeric_limits of its type");
    }
    static void asg(const I * in, Ctx & c){
        A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        ++c.steps;
        Obs o = observe([&]{ OpF<O>::assign(a, b); return (I)0; });
        Expect e = model(in[0], in[1]);
        if(e.must != ERROR_ && (e.val < slo<A>() || e.val > shi<A>())) e = {ERROR_, 0, E_OVER | e.err};
        if(o.kind == 0) o.val = raw(a);
        else if(raw(a) != in[0]) c.fail("op= threw but changed its left operand to " + str(raw(a)));
        judge(c, o, e);
    }
    static void reg(){
        const std::string n = Res<P>::name() + opname(O) + " " + sname<A>() + " " + sname<B>();
        add("type " + n, {}, &type);
        add(n, {rspace<A>(thorough() ? 1 : 0), rspace<B>(thorough() ? 1 : 0)}, &one, &rpartners<A, B>);
        if constexpr(issafe<A>() && fullwidth<A>()) add("assign " + n, {rspace<A>(0), rspace<B>(0)}, &asg, &rpartners<A, B>);
    }
    template<class X> static constexpr bool fullwidth(){ return slo<X>() == lo<base_t<X>>() && shi<X>() == hi<base_t<X>>(); }
};
template<class P, class A, class B> struct Cmp {
    using RB = typename Res<P>::template cmp<A, B>;
    static void one(const I * in, Ctx & c){
        const A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        const I t = in[0], u = in[1];
        const bool fwd = fits<typename Res<P>::template cmp<A, B>>(t) && fits<typename Res<P>::template cmp<A, B>>(u);
        const bool holds = fwd && fits<typename Res<P>::template cmp<B, A>>(t) && fits<typename Res<P>::template cmp<B, A>>(u);
        auto chk = [&](const char * op, const Obs & o, bool e){
            ++c.steps;
            if(o.kind == 0){
                c.out(o.val ? 11 : 12);
                if((o.val != 0) != e) c.fail(std::string("a ") + op + " b is " + (o.val ? "true" : "false"));
            } else if(o.kind == 1){
                c.out(holds ? o.code : 16);
                if(holds) c.fail(std::string("a ") + op + " b threw " + show(o) + " although the common type holds both operands");
            } else { c.out(14); c.fail(std::string("a ") + op + " b: " + show(o)); }
        };
        chk("<", observe([&]{ return (I)(a < b); }), t < u);
        chk(">", observe([&]{ return (I)(a > b); }), t > u);
        chk("<=", observe([&]{ return (I)(a <= b); }), t <= u);
        chk(">=", observe([&]{ return (I)(a >= b); }), t >= u);
        chk("==", observe([&]{ return (I)(a == b); }), t == u);
        chk("!=", observe([&]{ return (I)(a != b); }), t != u);
    }
    static void reg(){ add(Res<P>::name() + "compare " + sname<A>() + " " + sname<B>(), {rspace<A>(0), rspace<B>(0)}, &one, &rpartners<A, B>); }
};
template<class P, class A, class B> struct AllOps { template<class O> static void run(){ Bin<P, A, B, O::value>::reg(); } };
template<class P> struct Pair { template<class A, class B> static void run(){
    all<AllOps<P, A, B>>(Ops());
    Cmp<P, A, B>::reg();
} };
template<class P> struct Un { template<class T> static void run(){
    // x++ etc. are x = x + 1 in the type of the policy
    using S = sn::safe<T, P, EP>;
    using RA = typename Res<P>::template of<S, int, ADD>; using RS = typename Res<P>::template of<S, int, SUB>; using RN = base_t<decltype(-std::declval<const S &>())>;    // 0 - x, whatever the type of the 0
    struct J {
        static void inc(const I * in, Ctx & c){ step(in, c, 1, [](S & s){ ++s; }, fits<RA>(in[0]), fits<RA>(in[0] + 1)); step(in, c, 1, [](S & s){ s++; }, fits<RA>(in[0]), fits<RA>(in[0] + 1)); }
        static void dec(const I * in, Ctx & c){ step(in, c, -1, [](S & s){ --s; }, fits<RS>(in[0]) && fits<RS>(1), fits<RS>(in[0] - 1)); step(in, c, -1, [](S & s){ s--; }, fits<RS>(in[0]), fits<RS>(in[0] - 1)); }
        static void step(const I * in, Ctx & c, int d, void (*f)(S &), bool operand, bool result){
            S a((T)in[0]); ++c.steps;
            const Obs o = observe([&]{ f(a); return raw(a); });
            Expect e = !result || !fits<T>(in[0] + d) ? Expect{ERROR_, 0, E_OVER} : Expect{operand ? VALUE : EITHER, in[0] + d, E_OVER};
            judge(c, o, e);
            if(o.kind != 0 && raw(a) != in[0]) c.fail("a failed ++/-- changed the value");
        }
        static void neg(const I * in, Ctx & c){
            const S a((T)in[0]); ++c.steps;
            if(!std::is_same<RN, typename Res<P>::template of<int, S, SUB>>::value && !std::is_same<RN, typename Res<P>::template of<T, S, SUB>>::value) c.fail("-x has a type the policy does not name");
            judge(c, observe([&]{ return raw(-a); }), expect(SUB, 0, in[0], lo<RN>(), hi<RN>(), sizeof(RN) * 8, fits<RN>(in[0])));
            judge(c, observe([&]{ return raw(+a); }), {VALUE, in[0], 0});
        }
    };
    const std::string n = Res<P>::name() + tname<T>();
    add("++ " + n, {alpha<T>()}, &J::inc); add("-- " + n, {alpha<T>()}, &J::dec); add("sign " + n, {alpha<T>()}, &J::neg);
} };
template<class P> struct All {
    template<std::intmax_t A, std::intmax_t B> using s = sn::safe_signed_range<A, B, P, EP>;
    template<std::uintmax_t A, std::uintmax_t B> using u = sn::safe_unsigned_range<A, B, P, EP>;
    template<class T> using f = sn::safe<T, P, EP>;
#ifdef WIDE
    using F = L<f<std::int8_t>, f<std::uint8_t>, f<std::int16_t>, f<std::uint16_t>, f<std::int32_t>, f<std::uint32_t>, f<std::int64_t>, f<std::uint64_t>>;
    using G = L<s<-3, 5>, u<250, 260>, s<-40000, 70000>, s<7, 7>, u<I31 - 1, I32>, s<100, 200>, s<-10, -1>, u<UMX / 2 + 1, UMX>>;
#else
    using F = L<f<std::int8_t>, f<std::uint8_t>, f<std::int32_t>, f<std::int64_t>, f<std::uint64_t>>;
    using G = L<s<-3, 5>, u<250, 260>, s<-40000, 70000>, u<I31 - 1, I32>>;
#endif
    static void run(){
    each2<Pair<P>, F, cat_t<F, L<std::int16_t>>>();
    each2<Pair<P>, L<std::uint32_t, std::int64_t>, F>();
    each2<Pair<P>, G, cat_t<G, L<int>>>();
    each2<Pair<P>, G, L<f<std::int8_t>, f<std::uint64_t>>>();
    // operands that leave a narrow result type at one end only
    each2<Pair<P>, L<s<-1000, 100>, s<-100, 1000>, s<-33000, 120>, s<-5, 66000>>, L<u<1, 10>, s<-10, -1>, s<-2, 3>>>();
    each<Un<P>, Ints8>();
    }
};
}
void mc::setup(){ All<POL>::run(); }
MC_MAIN
