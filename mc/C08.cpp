// Delivery of detected errors to the exception policy, and what an ignored error continues with.
// Compiled with -fwrapv so that the built-in reference expressions are defined.
#include "ranges.hpp"
#include <boost/safe_numerics/cpp.hpp>
using namespace mc;
namespace {
// ---- a policy which records every call of a handler and returns
struct Call { int cat, code; bool msg; };
Call calls[16]; int ncalls = 0;
template<int CAT> struct H {
    constexpr H() = default;
    void operator()(const sn::safe_numerics_error & e, const char * m){
        if(ncalls < 16) calls[ncalls] = Call{CAT, (int)e, m != nullptr && *m != 0};
        ++ncalls;
    }
};
enum { UV = 1, AE = 2, IDB = 3, UB = 4 };
using REC = sn::exception_policy<H<AE>, H<IDB>, H<UB>, H<UV>>;
using IGN = sn::exception_policy<sn::ignore_exception, sn::ignore_exception, sn::ignore_exception, sn::ignore_exception>;
// handlers which throw for one category only
using TIDB = sn::exception_policy<sn::ignore_exception, sn::throw_exception, sn::ignore_exception, sn::ignore_exception>;
using LOOSE = sn::loose_exception_policy;
using STRICT = sn::strict_exception_policy;
int category(int code){ return code >= 1 && code <= 6 ? AE : code >= 7 && code <= 9 ? IDB : code == 10 ? UV : 0; }
template<class E> constexpr bool throws(int cat){
    return std::is_same<E, LOOSE>::value ? cat == AE : std::is_same<E, STRICT>::value ? cat == AE || cat == IDB || cat == UB
        : std::is_same<E, TIDB>::value ? cat == IDB : false;
}
template<class E> constexpr const char * en(){ return std::is_same<E, REC>::value ? "rec " : std::is_same<E, IGN>::value ? "ign "
    : std::is_same<E, LOOSE>::value ? "loose " : std::is_same<E, STRICT>::value ? "strict " : "tidb "; }

// o: what the operation did. e: what it had to do. cont: value with which an ignored error continues, if defined.
template<class E> void judge8(Ctx & c, const Obs & o, const Expect & e, bool contdef, I cont, int maxcalls = 1){
    if(std::is_same<E, REC>::value){
        if(o.kind != 0){ c.out(14); c.fail("exception although every handler returns: " + show(o)); return; }
        for(int i = 0; i < ncalls && i < 16; ++i){
            if(calls[i].cat != category(calls[i].code)) c.fail("error code " + std::string(oc_name[calls[i].code]) + " delivered to handler " + std::to_string(calls[i].cat));
            if(!calls[i].msg) c.fail("handler called without a message");
            if(e.must != VALUE && !(e.err >> calls[i].code & 1)) c.fail(std::string("reported ") + oc_name[calls[i].code] + ", expected " + show(e));
        }
        if(e.must == VALUE && ncalls) c.fail("a handler was called (" + std::string(oc_name[calls[0].code]) + ") for a correct operation");
        if(e.must == ERROR_ && !ncalls) c.fail("no handler was called, expected " + show(e));
        if(ncalls > maxcalls) c.fail("handlers called " + std::to_string(ncalls) + " times for one error");
        c.out(ncalls ? 18 : 0);
        if(!ncalls){ if(e.must != ERROR_ && o.val != e.val) c.fail("got " + show(o) + ", expected " + show(e)); }
        else if(contdef && o.val != cont) c.fail("after the ignored error: got " + show(o) + ", the built-in expression gives " + str(cont));
        return;
    }
    if(o.kind != 0){
        c.out(o.kind == 1 ? o.code : 14);
        if(o.kind == 2 || e.must == VALUE || !(e.err >> o.code & 1)) c.fail("got " + show(o) + ", expected " + show(e));
        else if(!throws<E>(category(o.code))) c.fail("got " + show(o) + " although the policy ignores this category");
        return;
    }
    if(e.must == VALUE || e.must == EITHER){
        c.out(0);
        if(e.must == EITHER && !contdef) return;        // ignored and then undefined
        if(o.val != e.val && !(e.must == EITHER && o.val == cont)) c.fail("got " + show(o) + ", expected " + show(e));
        return;
    }
    bool may = false;
    for(int k = 1; k <= 10; ++k) if((e.err >> k & 1) && !throws<E>(category(k))) may = true;
    c.out(17);
    if(!may) c.fail("no exception, expected " + show(e));
    else if(contdef && o.val != cont) c.fail("after the ignored error: got " + show(o) + ", the built-in expression gives " + str(cont));
}
// built-in t op u in type R (operands converted to R); defined?
template<Op O, class R> bool builtin(I t, I u, I & r){
    R a = (R)t, b = (R)u;
    if(O == SHL || O == SHR){ if(u < 0 || u >= (I)(sizeof(R) * 8) || t < 0 && O == SHR && false) return false; }
    if(O == DIV || O == MOD){ if(b == 0) return false; if(std::is_signed<R>::value && b == (R)-1){ r = O == MOD ? 0 : (I)(R)-(I)a; if(O == DIV && (I)a == lo<R>()) return false; return true; } }
    if constexpr(O == ADD) r = (I)(R)(a + b); else if constexpr(O == SUB) r = (I)(R)(a - b); else if constexpr(O == MUL) r = (I)(R)(a * b);
    else if constexpr(O == DIV) r = (I)(R)(a / b); else if constexpr(O == MOD) r = (I)(R)(a % b);
    else if constexpr(O == SHL) r = (I)(R)(a << (int)u); else if constexpr(O == SHR) r = (I)(R)(a >> (int)u);
    else if constexpr(O == AND) r = (I)(R)(a & b); else if constexpr(O == OR) r = (I)(R)(a | b); else r = (I)(R)(a ^ b);
    return true;
}
template<class A, class B, Op O, class E> struct Bin {
    using TA = base_t<A>; using TB = base_t<B>;
    using NR = decltype(OpF<O>::ap(TA(), TB()));
    static Expect model(I t, I u){
        if constexpr(O == AND) return {VALUE, (I)(NR)((TA)t & (TB)u), 0};
        else if constexpr(O == OR) return {VALUE, (I)(NR)((TA)t | (TB)u), 0};
        else if constexpr(O == XOR) return {VALUE, (I)(NR)((TA)t ^ (TB)u), 0};
        else {
            const bool ok = fits<NR>(t) && fits<NR>(u);
            Expect e = expect(O, t, u, lo<NR>(), hi<NR>(), sizeof(NR) * 8, ok);
            // an operand which doesn't fit the result type is reported; continuing with the converted value may be an error again
            if(!ok && e.must != VALUE) e.err |= E_OVER | E_SHIFT;
            return e;
        }
    }
    static void one(const I * in, Ctx & c){
        const A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        ncalls = 0; ++c.steps;
        Obs o = observe([&]{ return raw(OpF<O>::ap(a, b)); });
        I r = 0; bool d = builtin<O, NR>(in[0], in[1], r);
        judge8<E>(c, o, model(in[0], in[1]), d, r, fits<NR>(in[0]) && fits<NR>(in[1]) ? 1 : 2);
    }
    static void asg(const I * in, Ctx & c){
        A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        ncalls = 0; ++c.steps;
        Obs o = observe([&]{ OpF<O>::assign(a, b); return (I)0; });
        if(o.kind == 0) o.val = raw(a);
        else if(raw(a) != in[0]) c.fail("op= threw but changed its left operand");
        I r = 0; bool d = builtin<O, NR>(in[0], in[1], r);
        Expect e = model(in[0], in[1]);
        if(e.must != ERROR_ && !fits<TA>(e.val)) e = {ERROR_, 0, E_OVER | e.err};
        if(e.must != VALUE) e.err |= E_OVER;    // the value continued with may be reported again on assignment
        judge8<E>(c, o, e, d, (I)(TA)r, 3);
    }
    template<bool AS> static void reg(){
        std::string n = std::string(en<E>()) + opname(O) + " " + sname<A>() + " " + sname<B>();
        add(n, {rspace<A>(0), rspace<B>(0)}, &one, &rpartners<A, B>);
        if constexpr(AS && issafe<A>()) add("assign " + n, {rspace<A>(0), rspace<B>(0)}, &asg);
    }
};
template<class E, class A, class B, bool AS = true> struct AllOps { template<class O> static void run(){ Bin<A, B, O::value, E>::template reg<AS>(); } };
template<class E> struct PairT { template<class T, class U> static void run(){ all<AllOps<E, sn::safe<T, sn::native, E>, sn::safe<U, sn::native, E>>>(Ops()); } };
template<class E> struct PairM { template<class T, class U> static void run(){
    all<AllOps<E, sn::safe<T, sn::native, E>, U>>(Ops()); all<AllOps<E, T, sn::safe<U, sn::native, E>>>(Ops()); } };
template<class E> struct PairR { template<class A, class B> static void run(){ all<AllOps<E, A, B, false>>(Ops()); } };

// other promotion policies: the result type is theirs (C06, C16); an ignored error continues with the built-in value in that type
template<class P> constexpr bool automatic_ = std::is_same<P, sn::automatic>::value;
template<class P, class A, class B, Op O, class E> struct BinP {
    using NR = base_t<decltype(OpF<O>::ap(std::declval<A>(), std::declval<B>()))>;
    // the automatic policy computes in a type which holds the operands, if there is one
    using W = typename std::conditional<!automatic_<P>, NR, typename std::conditional<std::is_signed<NR>::value, std::int64_t, std::uint64_t>::type>::type;
    static constexpr I rl(){ return automatic_<P> ? std::is_signed<NR>::value ? lo<std::int64_t>() : 0 : lo<NR>(); }
    static constexpr I rh(){ return automatic_<P> ? std::is_signed<NR>::value ? hi<std::int64_t>() : hi<std::uint64_t>() : hi<NR>(); }
    static Expect model(I t, I u){
        I r = 0;
        if(O == AND || O == OR || O == XOR){ builtin<O, NR>(t, u, r); return {VALUE, r, 0}; }
        const bool ok = t >= rl() && t <= rh() && u >= rl() && u <= rh();
        Expect e = expect(O, t, u, rl(), rh(), automatic_<P> ? 64 : sizeof(NR) * 8, ok);
        if(!ok && e.must != VALUE) e.err |= E_OVER | E_SHIFT;
        if(!ok && e.must == VALUE && !automatic_<P>) e = {EITHER, e.val, E_OVER};
        if(automatic_<P> && (O == SHL || O == SHR) && u >= (I)sizeof(NR) * 8 && e.must == VALUE) e = {EITHER, e.val, E_OVER | E_SHIFT};
        return e;
    }
    static void one(const I * in, Ctx & c){
        const A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        ncalls = 0; ++c.steps;
        Obs o = observe([&]{ return raw(OpF<O>::ap(a, b)); });
        I r = 0; bool d = builtin<O, W>(in[0], in[1], r); r = (I)(NR)r;
        const Expect e = model(in[0], in[1]);
        if(automatic_<P> && (O == SHL || O == SHR) && e.must != VALUE) d = false;
        judge8<E>(c, o, e, d, r, fits<NR>(in[0]) && fits<NR>(in[1]) ? 1 : 2);
    }
    static void asg(const I * in, Ctx & c){
        A a = mk<A>(in[0]); const B b = mk<B>(in[1]);
        ncalls = 0; ++c.steps;
        Obs o = observe([&]{ OpF<O>::assign(a, b); return (I)0; });
        if(o.kind == 0) o.val = raw(a);
        else if(raw(a) != in[0]) c.fail("op= threw but changed its left operand");
        I r = 0; bool d = builtin<O, W>(in[0], in[1], r); r = (I)(NR)r;
        Expect e = model(in[0], in[1]);
        if(automatic_<P> && (O == SHL || O == SHR) && e.must != VALUE) d = false;
        if(e.must != ERROR_ && !fits<base_t<A>>(e.val)) e = {ERROR_, 0, E_OVER | e.err};
        if(e.must != VALUE) e.err |= E_OVER;
        judge8<E>(c, o, e, d, (I)(base_t<A>)r, 3);
    }
    static void reg(){
        std::string n = std::string(en<E>()) + opname(O) + " " + sname<A>() + " " + sname<B>();
        add(n, {rspace<A>(0), rspace<B>(0)}, &one, &rpartners<A, B>);
        if constexpr(issafe<A>()) add("assign " + n, {rspace<A>(0), rspace<B>(0)}, &asg);
    }
};
template<class P, class E> struct PolT { template<class T, class U> static void run(){
    using A = sn::safe<T, P, E>; using B = sn::safe<U, P, E>;
    each_op<A, B>(); each_op<A, U>(); each_op<T, B>();
}
    template<class A, class B> struct F { template<class O> static void run(){ BinP<P, A, B, O::value, E>::reg(); } };
    template<class A, class B> static void each_op(){ all<F<A, B>>(Ops()); }
};
// conversions: to safe (construction, assignment) and to built-in
template<class A, class B, class E> struct Cv {
    static void one(const I * in, Ctx & c){
        using TB = base_t<B>;
        Expect e = in[0] > shi<B>() ? Expect{ERROR_, 0, E_POS} : in[0] < slo<B>() ? Expect{ERROR_, 0, E_NEG | E_DOM} : Expect{VALUE, in[0], 0};
        { const A a = mk<A>(in[0]); ncalls = 0; ++c.steps;
          Obs o = observe([&]{ const B b(a); return raw(b); });
          judge8<E>(c, o, e, true, (I)(TB)in[0]); }
        if constexpr(issafe<B>()){
            const A a = mk<A>(in[0]); B b = mk<B>(slo<B>()); ncalls = 0; ++c.steps;
            Obs o = observe([&]{ b = a; return (I)0; });
            if(o.kind == 0) o.val = raw(b);
            judge8<E>(c, o, e, true, (I)(TB)in[0]);
        }
    }
    static void reg(){
        if constexpr(!(slo<A>() > shi<B>() || shi<A>() < slo<B>()))
            add(std::string(en<E>()) + "convert " + sname<A>() + " to " + sname<B>(), {rspace<A>(2)}, &one);
    }
};
template<class E> struct CvP { template<class A, class B> static void run(){ Cv<A, B, E>::reg(); } };

// comparisons: a conversion to the common type may be reported, then the built-in comparison continues
template<class A, class B, class E> struct Cmp {
    using NR = decltype(base_t<A>() + base_t<B>());
    template<class F> static void chk(const I * in, Ctx & c, F f, bool exact, bool bi){
        const bool ok = fits<NR>(in[0]) && fits<NR>(in[1]);
        ncalls = 0; ++c.steps;
        Obs o = observe([&]{ return (I)f(mk<A>(in[0]), mk<B>(in[1])); });
        judge8<E>(c, o, Expect{ok ? VALUE : EITHER, exact, E_OVER}, true, bi, 2);
    }
    static void one(const I * in, Ctx & c){
        const NR x = (NR)in[0], y = (NR)in[1];
        chk(in, c, [](const A & a, const B & b){ return a < b; }, in[0] < in[1], x < y);
        chk(in, c, [](const A & a, const B & b){ return a == b; }, in[0] == in[1], x == y);
        chk(in, c, [](const A & a, const B & b){ return a > b; }, in[0] > in[1], x > y);
        chk(in, c, [](const A & a, const B & b){ return a != b; }, in[0] != in[1], x != y);
        chk(in, c, [](const A & a, const B & b){ return a <= b; }, in[0] <= in[1], x <= y);
        chk(in, c, [](const A & a, const B & b){ return a >= b; }, in[0] >= in[1], x >= y);
    }
    static void reg(){ add(std::string(en<E>()) + "compare " + sname<A>() + " " + sname<B>(), {rspace<A>(1), rspace<B>(1)}, &one); }
};
template<class E> struct CmpP { template<class T, class U> static void run(){ Cmp<sn::safe<T, sn::native, E>, sn::safe<U, sn::native, E>, E>::reg(); } };

// unary operators, increments, default construction
template<class T, class E> struct Un {
    using S = sn::safe<T, sn::native, E>; using PR = decltype(-T());
    template<int K> static void incdec(const I * in, Ctx & c){
        S a = mk<S>(in[0]); ncalls = 0; ++c.steps;
        I d = K < 2 ? 1 : -1, ret = 0;
        Obs o = observe([&]{
            if(K == 0) ret = raw(++a); else if(K == 1) ret = raw(a++); else if(K == 2) ret = raw(--a); else ret = raw(a--);
            return (I)0; });
        if(o.kind == 0){ o.val = raw(a); if(ret != (K % 2 ? in[0] : o.val)) c.fail("++/-- returned " + str(ret)); }
        Expect e = fits<T>(in[0] + d) ? Expect{VALUE, in[0] + d, 0} : Expect{ERROR_, 0, E_OVER};
        judge8<E>(c, o, e, true, (I)(T)(in[0] + d), 2);
    }
    static void minus(const I * in, Ctx & c){
        const S a = mk<S>(in[0]); ncalls = 0; ++c.steps;
        Obs o = observe([&]{ return raw(-a); });
        judge8<E>(c, o, expect(SUB, 0, in[0], lo<PR>(), hi<PR>(), sizeof(PR) * 8, true), true, (I)(PR)-(PR)in[0]);
    }
    static void dflt(const I *, Ctx & c){
        ncalls = 0; ++c.steps;
        Obs o = observe([&]{ S s; s = T(0); return raw(s); });
        judge8<E>(c, o, throws<E>(UV) || std::is_same<E, REC>::value ? Expect{ERROR_, 0, 1u << 10} : Expect{VALUE, 0, 0}, true, 0);
    }
    static void reg(){
        std::string n = std::string(en<E>()) + tname<T>();
        Space s = sizeof(T) <= 2 ? alphabet(lo<T>(), hi<T>(), 2, 1 << 17) : alpha<T>(2);
        add("minus " + n, {s}, &minus);
        add("preinc " + n, {s}, &incdec<0>); add("postinc " + n, {s}, &incdec<1>); add("predec " + n, {s}, &incdec<2>); add("postdec " + n, {s}, &incdec<3>);
        add("default " + n, {}, &dflt);
    }
};
template<class E> struct UnP { template<class T> static void run(){ Un<T, E>::reg(); } };
}
void mc::setup(){
    using Few = L<std::int8_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t>;
#if PART == 0
    each2<PairT<REC>, Ints8, Ints8>();
    each<UnP<REC>, IntsAll>(); each<UnP<IGN>, IntsAll>(); each<UnP<LOOSE>, IntsAll>(); each<UnP<STRICT>, IntsAll>();
    each2<CmpP<REC>, Ints8, Ints8>();
#elif PART == 1
    using RR = R<sn::native, REC>; using RI = R<sn::native, IGN>;
    each2<CvP<REC>, IntsAll, cat_tt<RR::Some, L<RR::f<std::int16_t>, RR::f<std::uint16_t>, RR::f<std::int64_t>, RR::f<char>>>>();
    each2<CvP<REC>, cat_tt<RR::Some, Lits>, cat_tt<RR::Some, IntsAll>>();
    each2<CvP<IGN>, RI::Some, Ints8>();
    each2<CvP<LOOSE>, R<sn::native, LOOSE>::Some, Ints8>();
    using Sub = L<RR::s<-10, -1>, RR::s<100, 200>, RR::s<-128, 127>, RR::s<IMN, IMX>, RR::u<0, 10>, RR::u<0, I32 - 1>, RR::s<0, 40>, RR::u<1, 31>>;
    each2<PairR<REC>, Sub, Sub>();
    each2<CmpP<IGN>, Few, Few>();
#elif PART == 3
    using Wide = L<std::int8_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t>;
    using P16 = sn::cpp<8, 16, 16, 32, 64>;
    using P32 = sn::cpp<8, 8, 32, 32, 64>;
    each2<PolT<sn::automatic, REC>, Wide, Wide>();
    each2<PolT<sn::automatic, IGN>, L<std::int16_t, std::int64_t, std::uint64_t>, L<std::int64_t, std::uint64_t>>();
    each2<PolT<P16, REC>, L<std::int8_t, std::int16_t, std::uint16_t, std::int32_t, std::int64_t, std::uint64_t>, L<std::uint8_t, std::int16_t, std::uint32_t, std::int64_t>>();
    each2<PolT<P32, IGN>, L<std::int8_t, std::uint32_t, std::int64_t>, L<std::int32_t, std::uint64_t>>();
#else
    each2<PairT<LOOSE>, Few, Few>();
    each2<PairT<IGN>, Few, L<std::int8_t, std::int32_t, std::uint64_t>>();
    each2<PairT<TIDB>, Few, L<std::int8_t, std::int32_t, std::uint64_t>>();
    each2<PairM<REC>, L<std::int8_t, std::uint32_t, std::int64_t>, L<std::uint16_t, std::int32_t, std::uint64_t>>();
#endif
}
MC_MAIN
