// Which programs contain error handling.  Every program (operator or conversion on a pair of types) gets an exception
// policy of its own whose handlers register themselves when they are instantiated - exactly what makes a trap policy
// reject a program - and the whole operand space is searched for an operand pair which must be reported.
#include "ranges.hpp"
using namespace mc;
#ifndef RP
#define RP sn::native
#endif
namespace {
const std::string pol = std::is_same<RP, sn::native>::value ? "native " : "automatic ";
enum { AE = 1, IDB = 2, UB = 4, UV = 8 };
// ---- registration by instantiation
template<class ID, int CAT> struct Reg { static int here; };
template<class ID> int & present(){ static int p = 0; return p; }
template<class ID, int CAT> int Reg<ID, CAT>::here = (present<ID>() |= CAT);
template<class ID> struct Pol {
    // ID-dependent bodies: instantiated only if the call is
    template<int CAT> struct touch { static constexpr const int * p = &Reg<ID, CAT>::here; };
    static constexpr void on_arithmetic_error(const sn::safe_numerics_error &, const char *){ (void)touch<AE>::p; }
    static constexpr void on_implementation_defined_behavior(const sn::safe_numerics_error &, const char *){ (void)touch<IDB>::p; }
    static constexpr void on_undefined_behavior(const sn::safe_numerics_error &, const char *){ (void)touch<UB>::p; }
    static constexpr void on_uninitialized_value(const sn::safe_numerics_error &, const char *){ (void)touch<UV>::p; }
};
int handlers(unsigned errs){     // categories which can deliver one of these errors
    int m = 0;
    if(errs & 0x7e) m |= AE;
    if(errs & 0x380) m |= IDB;
    return m;
}
// ---- operand types as descriptions, to be combined with any exception policy
template<std::intmax_t A, std::intmax_t B> struct s { template<class E> using t = sn::safe_signed_range<A, B, RP, E>; };
template<std::uintmax_t A, std::uintmax_t B> struct u { template<class E> using t = sn::safe_unsigned_range<A, B, RP, E>; };
template<class T> struct f { template<class E> using t = sn::safe<T, RP, E>; };
template<class T> struct b { template<class E> using t = T; };               // a built-in operand, or a literal
template<std::intmax_t N> using ls = b<sn::safe_signed_literal<N>>;
template<std::uintmax_t N> using lu = b<sn::safe_unsigned_literal<N>>;
using i8 = std::int8_t; using u8 = std::uint8_t; using i16 = std::int16_t; using u16 = std::uint16_t;
using i32 = std::int32_t; using u32 = std::uint32_t; using i64 = std::int64_t; using u64 = std::uint64_t;
using Ranges = L<s<-3, 5>, s<-10, -1>, s<7, 7>, s<100, 200>, s<0, 40>, s<-40000, 70000>, s<0, 32767>, s<-1, 1>, s<0, (I31 - 1) / 2>, s<-I31 / 2, I31 / 2 - 1>,
    u<0, 10>, u<7, 7>, u<1000, 1999>, u<1, 31>, u<0, 65535>, u<0, 46340>, u<0, I32 / 2 - 1>, u<UMX / 2 + 1, UMX>, f<i8>, f<u8>, f<i16>, f<u16>, f<i32>, f<u32>, f<i64>, f<u64>>;
using Few = L<s<-3, 5>, s<-10, -1>, s<0, 40>, s<100, 200>, u<0, 10>, u<1, 31>, f<i8>, f<i32>, f<u32>, f<u64>>;
using Others = L<b<i8>, b<u16>, b<i32>, b<u32>, b<i64>, ls<-1>, ls<3>, lu<8>, ls<0>, lu<0xffffffffu>>;
struct DefaultE {};
using D0 = sn::default_exception_policy;

template<class T> I l_(){ return slo<T>(); }
template<class T> I h_(){ return shi<T>(); }

// ---- binary operators
template<class A, class B, Op O> struct Id {};
template<class A, class B, Op O> struct IdC {};
template<class TA, class TB, Op O> void prog(const TA & a, const TB & b){ (void)OpF<O>::ap(a, b); }
template<class A, class B, Op O> struct Bin {
    using E = Pol<Id<A, B, O>>;
    using TA = typename A::template t<E>; using TB = typename B::template t<E>;
    // the same ranges for the model
    using MA = typename A::template t<D0>; using MB = typename B::template t<D0>;
    using XA = base_t<MA>; using XB = base_t<MB>;
    using NR = decltype(OpF<O>::ap(XA(), XB()));
    static constexpr bool sg = O == SUB ? true : O == SHL || O == SHR ? std::is_signed<XA>::value : (std::is_signed<XA>::value || std::is_signed<XB>::value);
    using W = typename std::conditional<std::is_same<RP, sn::native>::value, NR, typename std::conditional<sg, std::intmax_t, std::uintmax_t>::type>::type;
    static Expect model(I t, I v){ return expect(O, t, v, lo<W>(), hi<W>(), sizeof(W) * 8, fits<W>(t) && fits<W>(v)); }
    // an omitted check: no operand pair may need it
    static void one(const I * in, Ctx & c){
        ++c.steps;
        const int h = present<Id<A, B, O>>();
        if(O == AND || O == OR || O == XOR){ c.out(0); return; }
        const Expect e = model(in[0], in[1]);
        if(e.must != ERROR_){ c.out(0); return; }
        c.out(27);
        if(!(h & handlers(e.err))){
            c.out(26);
            c.fail("the program instantiates no handler for it, but these operands " + show(e));
        }
    }
    // provable programs: no handler
    static void provable(const I *, Ctx & c){
        c.out(19); ++c.steps;
        const int h = present<Id<A, B, O>>();
        bool prov = false;
        if(O == ADD || O == SUB || O == MUL){
            prov = fits<W>(l_<MA>()) && fits<W>(h_<MA>()) && fits<W>(l_<MB>()) && fits<W>(h_<MB>());
            for(I x : {l_<MA>(), h_<MA>()}) for(I y : {l_<MB>(), h_<MB>()}){
                const I r = O == ADD ? x + y : O == SUB ? x - y : exact_mul(x, y);
                prov = prov && fits<W>(r);
            }
        }
        c.out(h ? 27 : 26);
        if(prov && h) c.fail("the result always fits, but the program instantiates an error handler (a trap policy rejects it)");
        if(h & (UB | UV)) c.fail("the program instantiates a handler for undefined behaviour or uninitialized values");
    }
    static void reg(){
        auto p = &prog<TA, TB, O>; (void)p;
        volatile auto q = p; (void)q;
        std::string n = pol + opname(O) + " " + sname<MA>() + " " + sname<MB>();
        add("provable " + n, {}, &provable);
        add("omitted " + n, {rspace<MA>(0), rspace<MB>(0)}, &one, &rpartners<MA, MB>);
    }
};
template<class A, class B> struct AllOps { template<class O> static void run(){ Bin<A, B, O::value>::reg(); } };
struct Pair { template<class A, class B> static void run(){ all<AllOps<A, B>>(Ops()); } };
struct PairArith { template<class A, class B> static void run(){ all<AllOps<A, B>>(L<opc<ADD>, opc<SUB>, opc<MUL>, opc<DIV>, opc<SHL>>()); } };

// ---- conversions: construction of a safe type, assignment, conversion to a built-in type
template<class A, class B, int K> struct IdV {};
template<class TA, class TB, int K> void cprog(const TA & a, TB & x){
    if constexpr(K == 0) new (&x) TB(a);
    else if constexpr(K == 1) x = a;
    else x = static_cast<TB>(a);
}
template<class A, class B, int K> struct Conv {
    using ID = IdV<A, B, K>;
    using E = Pol<ID>;
    using TA = typename A::template t<E>; using TB = typename B::template t<E>;
    using MA = typename A::template t<D0>; using MB = typename B::template t<D0>;
    static void one(const I * in, Ctx & c){
        ++c.steps;
        const bool in_ = in[0] >= l_<MB>() && in[0] <= h_<MB>();
        c.out(in_ ? 0 : 27);
        if(!in_ && !(present<ID>() & AE)) c.fail("the program instantiates no handler, but the target cannot hold this value");
    }
    static void provable(const I *, Ctx & c){
        ++c.steps; c.out(19);
        const int h = present<ID>();
        c.out(h ? 27 : 26);
        if(l_<MA>() >= l_<MB>() && h_<MA>() <= h_<MB>() && h) c.fail("the value always fits, but the program instantiates an error handler (a trap policy rejects it)");
        if(h & (IDB | UB | UV)) c.fail("a conversion instantiates a handler of another category");
    }
    static void reg(){
        auto p = &cprog<TA, TB, K>; volatile auto q = p; (void)q;
        static const char * nm[] = {"construct ", "assign ", "to built-in "};
        std::string n = pol + nm[K] + sname<MA>() + " -> " + sname<MB>();
        add("provable " + n, {}, &provable);
        add("omitted " + n, {rspace<MA>()}, &one);
    }
};
template<class A, class B> constexpr bool overlap(){ return !(slo<typename A::template t<D0>>() > shi<typename B::template t<D0>>() || shi<typename A::template t<D0>>() < slo<typename B::template t<D0>>()); }
struct ToSafe { template<class A, class B> static void run(){ if constexpr(overlap<A, B>()){ Conv<A, B, 0>::reg(); Conv<A, B, 1>::reg(); } } };
struct ToBuiltin { template<class A, class B> static void run(){ if constexpr(overlap<A, B>()) Conv<A, B, 2>::reg(); } };

// ---- op=, ++ -- : fit the left operand's range
template<class A, class B, Op O> struct IdA {};
template<class TA, class TB, Op O> void aprog(TA & a, const TB & b){ OpF<O>::assign(a, b); }
template<class A, class B, Op O> struct Asg {
    using ID = IdA<A, B, O>; using E = Pol<ID>;
    using TA = typename A::template t<E>; using TB = typename B::template t<E>;
    using M = Bin<A, B, O>; using MA = typename M::MA; using MB = typename M::MB;
    static void one(const I * in, Ctx & c){
        ++c.steps;
        if(O == AND || O == OR || O == XOR) return;
        Expect e = M::model(in[0], in[1]);
        const int h = present<ID>();
        if(e.must == ERROR_ ? !(h & handlers(e.err)) : e.must == VALUE && (e.val < slo<MA>() || e.val > shi<MA>()) && !(h & AE))
            c.fail("the program instantiates no handler for it, but these operands " + show(e));
        c.out(e.must == ERROR_ ? 27 : 0);
    }
    static void provable(const I *, Ctx & c){ c.out(present<ID>() ? 27 : 26); ++c.steps; }
    static constexpr bool ok(){ using RT = decltype(OpF<O>::ap(std::declval<MA>(), std::declval<MB>())); return !(slo<RT>() > shi<MA>() || shi<RT>() < slo<MA>()); }
    static void reg(){
        if constexpr(ok()){
            auto p = &aprog<TA, TB, O>; volatile auto q = p; (void)q;
            std::string n = pol + opname(O) + "= " + sname<MA>() + " " + sname<MB>();
            add("provable " + n, {}, &provable);
            add("omitted " + n, {rspace<MA>(0), rspace<MB>(0)}, &one, &rpartners<MA, MB>);
        }
    }
};
template<class A, class B> struct AsgOps { template<class O> static void run(){ Asg<A, B, O::value>::reg(); } };
struct AsgPair { template<class A, class B> static void run(){ all<AsgOps<A, B>>(L<opc<ADD>, opc<SUB>, opc<MUL>, opc<SHL>>()); } };
}
void mc::setup(){
#if PART == 0
    each2<PairArith, Ranges, Few>();
    each2<AsgPair, L<s<-3, 5>, s<100, 200>, u<0, 10>, f<i8>, f<u64>>, Few>();
#elif PART == 1
    each2<Pair, Few, Others>(); each2<PairArith, Others, Few>();
    each2<ToSafe, cat_t<Ranges, Others>, Ranges>();
    each2<ToBuiltin, cat_t<Ranges, L<>>, L<b<i8>, b<u8>, b<i16>, b<u16>, b<i32>, b<u32>, b<i64>, b<u64>, b<long long>>>();
#else
    each2<Pair, Ranges, Ranges>();
#endif
}
MC_MAIN
