// Native promotion, default (throwing) exception policy: exact in the C++ result type, or reported.
#include "safe.hpp"
using namespace mc;
namespace {
template<class T> using S = sn::safe<T>;
template<class A> A conv(I v){ return mk<A>(v); }

template<class A, class B, Op O> struct Bin {
    using TA = base_t<A>; using TB = base_t<B>;
    using NR = decltype(OpF<O>::ap(TA(), TB()));         // type of the built-in expression
    static Expect model(I t, I u){
        if constexpr(O == AND) return {VALUE, (I)(NR)((TA)t & (TB)u), 0};
        else if constexpr(O == OR) return {VALUE, (I)(NR)((TA)t | (TB)u), 0};
        else if constexpr(O == XOR) return {VALUE, (I)(NR)((TA)t ^ (TB)u), 0};
        else return expect(O, t, u, lo<NR>(), hi<NR>(), sizeof(NR) * 8, fits<NR>(t) && fits<NR>(u));
    }
    static void one(const I * in, Ctx & c){
        const A a = conv<A>(in[0]); const B b = conv<B>(in[1]);
        ++c.steps;
        judge(c, observe([&]{ return raw(OpF<O>::ap(a, b)); }), model(in[0], in[1]));
    }
    static void type(const I *, Ctx & c){
        using RT = decltype(OpF<O>::ap(std::declval<A>(), std::declval<B>()));
        c.out(19);
        if(!issafe<RT>()) c.fail("the result of an operator on a safe operand is not safe");
        if(!std::is_same<base_t<RT>, NR>::value)
            c.fail(std::string("result base type ") + tname<base_t<RT>>() + ", C++ has " + tname<NR>());
        if(!std::is_same<typename sn::get_promotion_policy<RT>::type, sn::native>::value) c.fail("promotion policy lost");
        if(!std::is_same<typename sn::get_exception_policy<RT>::type, sn::default_exception_policy>::value) c.fail("exception policy lost");
    }
    // a op= b : a becomes (A)(a op b) or the statement throws and a keeps its value
    static void asg(const I * in, Ctx & c){
        A a = conv<A>(in[0]); const B b = conv<B>(in[1]);
        ++c.steps;
        Obs o = observe([&]{ OpF<O>::assign(a, b); return (I)0; });
        Expect e = model(in[0], in[1]);
        if(e.must != ERROR_ && !fits<TA>(e.val)) e = {ERROR_, 0, E_OVER | e.err};
        if(o.kind == 0) o.val = raw(a);
        else if(raw(a) != in[0]) c.fail("op= threw but changed its left operand to " + str(raw(a)));
        judge(c, o, e);
    }
    static void reg(){
        std::string n = std::string(opname(O)) + "." + (issafe<A>() ? "safe " : "") + tname<TA>() + "." + (issafe<B>() ? "safe " : "") + tname<TB>();
        Space sa = alpha<TA>(), sb = alpha<TB>();
        add("type." + n, {}, &type);
        add("op." + n, {sa, sb}, &one, &partners<TB>);
        if constexpr(issafe<A>()) add("assign." + n, {alpha<TA>(0), alpha<TB>(0)}, &asg, &partners<TB>);
    }
};
template<class A, class B> struct AllOps { template<class O> static void run(){ Bin<A, B, O::value>::reg(); } };
struct Pair { template<class T, class U> static void run(){
    all<AllOps<S<T>, S<U>>>(Ops());
    all<AllOps<S<T>, U>>(Ops());
    all<AllOps<T, S<U>>>(Ops());
} };

// unary operators and increments
template<class T> struct Un {
    using PR = decltype(+T());
    static void plus(const I * in, Ctx & c){ const S<T> a = in[0] < 0 ? S<T>((T)in[0]) : S<T>((T)in[0]); ++c.steps; judge(c, observe([&]{ return raw(+a); }), {VALUE, in[0], 0}); }
    static void minus(const I * in, Ctx & c){
        const S<T> a((T)in[0]); ++c.steps;
        // the built-in expression 0 - x: result in the promoted type
        judge(c, observe([&]{ return raw(-a); }), expect(SUB, 0, in[0], lo<PR>(), hi<PR>(), sizeof(PR) * 8, true));
    }
    static void inv(const I * in, Ctx & c){
        const S<T> a((T)in[0]); ++c.steps;
        judge(c, observe([&]{ return raw(~a); }), {VALUE, (I)(PR)~(T)in[0], 0});
    }
    template<int K> static void incdec(const I * in, Ctx & c){
        S<T> a((T)in[0]); ++c.steps;
        I d = K < 2 ? 1 : -1, ret = 0;
        Obs o = observe([&]{
            if(K == 0) ret = raw(++a); else if(K == 1) ret = raw(a++); else if(K == 2) ret = raw(--a); else ret = raw(a--);
            return raw(a); });
        Expect e = fits<T>(in[0] + d) ? Expect{VALUE, in[0] + d, 0} : Expect{ERROR_, 0, E_OVER};
        judge(c, o, e);
        if(o.kind != 0 && raw(a) != in[0]) c.fail("++/-- threw but changed the value");
        if(o.kind == 0 && ret != (K % 2 ? in[0] : in[0] + d)) c.fail("++/-- returned " + str(ret));
    }
    static void idtype(const I *, Ctx & c){
        c.out(19);
        S<T> a(T(1));
        if(&(++a) != &a) c.fail("++x does not return x");
        if(&(--a) != &a) c.fail("--x does not return x");
    }
    static void reg(){
        std::string n = tname<T>();
        Space s = sizeof(T) <= 2 ? alphabet(lo<T>(), hi<T>(), 2, 1 << 17) : alpha<T>(2);
        add("plus." + n, {s}, &plus); add("minus." + n, {s}, &minus); add("inv." + n, {s}, &inv);
        add("preinc." + n, {s}, &incdec<0>); add("postinc." + n, {s}, &incdec<1>);
        add("predec." + n, {s}, &incdec<2>); add("postdec." + n, {s}, &incdec<3>);
        add("incid." + n, {}, &idtype);
    }
};
struct One { template<class T> static void run(){ Un<T>::reg(); } };
}
void mc::setup(){ each2<Pair, Ints8, Ints8>(); each<One, IntsAll>(); }
MC_MAIN
