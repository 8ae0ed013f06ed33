// Constant evaluation against run-time evaluation: every operation is tabulated by the compiler over the whole
// operand grid and recomputed by the generated code.
#include "ranges.hpp"
#include <boost/safe_numerics/safe_compare.hpp>
#include <boost/safe_numerics/checked_default.hpp>
#include <boost/safe_numerics/checked_integer.hpp>
#include <array>
using namespace mc;
namespace {
using EP = sn::default_exception_policy;
using Er = sn::safe_numerics_error;
struct Rec { int k; I a, b; };      // kind or error code, and up to two values
constexpr bool same(const Rec & x, const Rec & y){ return x.k == y.k && x.a == y.a && x.b == y.b; }
std::string show(const Rec & r){ return "{" + std::to_string(r.k) + " " + str(r.a) + " " + str(r.b) + "}"; }

// F::N, F::M: the grid; F::eval(i, j): one evaluation; F::label(i, j)
template<class F> struct Table {
    static constexpr std::array<Rec, F::N * F::M> make(){
        std::array<Rec, F::N * F::M> t{};
        for(int i = 0; i < F::N; ++i) for(int j = 0; j < F::M; ++j) t[i * F::M + j] = F::eval(i, j);
        return t;
    }
    static void one(const I * in, Ctx & c){
        static constexpr std::array<Rec, F::N * F::M> t = make();       // evaluated by the compiler
        volatile int vi = (int)in[0], vj = (int)in[1];
        const int i = vi, j = vj;
        if(i < 0 || j < 0 || i >= F::N || j >= F::M) return;
        const Rec r = F::eval(i, j);                                      // evaluated by the program
        ++c.steps; c.out(r.k > 0 && r.k <= 10 ? r.k : r.k < 0 ? 17 : 0);
        if(!same(t[i * F::M + j], r)) c.fail("operands " + F::label(i, j) + ": constant " + show(t[i * F::M + j]) + ", run time " + show(r));
    }
    static void reg(const std::string & n){
        std::vector<I> a, b;
        for(int i = 0; i < F::N; ++i) a.push_back(i);
        for(int j = 0; j < F::M; ++j) b.push_back(j);
        add(n, {std::make_shared<const std::vector<I>>(a), std::make_shared<const std::vector<I>>(b)}, &one);
    }
};
// boundary values of [l,h], as an array with repetitions removed by clamping
constexpr int NV = 19;
constexpr I val(I l, I h, int i){
    const I v[NV] = {l, l + 1, l / 2, l / 2 - 1, -17, -8, -2, -1, 0, 1, 2, 7, 9, 31, 64, h / 2, h / 2 + 1, h - 1, h};
    return v[i] < l ? l : v[i] > h ? h : v[i];
}
template<class S> constexpr I sval(int i){ return val(slo<S>(), shi<S>(), i); }
template<class S> constexpr S smk(I v){ if constexpr(std::is_empty<S>::value) return S(); else return S(static_cast<base_t<S>>(v)); }
template<class S> constexpr int cnt(){ return std::is_empty<S>::value ? 1 : NV; }
template<class A, class B> struct Grid {
    static constexpr int N = cnt<A>(), M = cnt<B>();
    static std::string label(int i, int j){ return str(sval<A>(i)) + ", " + str(sval<B>(j)); }
};
// ------------------------------------------------------------------ checked::
template<class R> constexpr Rec rec(const sn::checked_result<R> & r){
    return r.exception() ? Rec{(int)static_cast<Er>(r), 0, 0} : Rec{0, (I)static_cast<R>(r), 0};
}
constexpr Rec rec(const boost::logic::tribool & t){ return Rec{0, t.value == boost::logic::tribool::true_value ? 1 : t.value == boost::logic::tribool::false_value ? 0 : 2, 0}; }
template<class R> constexpr Rec rec(const sn::interval<R> & v){ return Rec{0, (I)v.l, (I)v.u}; }
template<class R> constexpr I num(const sn::checked_result<R> & r){ return r.exception() ? BIG + (int)static_cast<Er>(r) : (I)static_cast<R>(r); }
template<class R> constexpr Rec rec(const sn::interval<sn::checked_result<R>> & v){ return Rec{0, num(v.l), num(v.u)}; }

template<class T, int K> struct Checked : Grid<T, T> {
    static constexpr Rec eval(int i, int j){
        const T t = (T)sval<T>(i), u = (T)sval<T>(j);
        namespace ch = sn::checked;
        if constexpr(K == 0) return rec(ch::add(t, u)); else if constexpr(K == 1) return rec(ch::subtract(t, u));
        else if constexpr(K == 2) return rec(ch::multiply(t, u)); else if constexpr(K == 3) return rec(ch::divide(t, u));
        else if constexpr(K == 4) return rec(ch::modulus(t, u)); else if constexpr(K == 5) return rec(ch::left_shift(t, u));
        else if constexpr(K == 6) return rec(ch::right_shift(t, u)); else if constexpr(K == 7) return rec(ch::bitwise_and(t, u));
        else if constexpr(K == 8) return rec(ch::bitwise_or(t, u)); else if constexpr(K == 9) return rec(ch::bitwise_xor(t, u));
        else if constexpr(K == 10) return rec(ch::minus(t));
        else return rec(ch::bitwise_not(t));
    }
};
template<class T, class R> struct CheckedCast : Grid<T, T> {
    static constexpr int M = 1;
    static constexpr Rec eval(int i, int){ return rec(sn::checked::cast<R>((T)sval<T>(i))); }
};
template<class T, class U> struct Compare : Grid<T, U> {
    static constexpr Rec eval(int i, int j){
        const T t = (T)sval<T>(i); const U u = (U)sval<U>(j);
        namespace sc = sn::safe_compare;
        return Rec{0, sc::less_than(t, u) | sc::greater_than(t, u) << 1 | sc::less_than_equal(t, u) << 2 | sc::greater_than_equal(t, u) << 3 | sc::equal(t, u) << 4 | sc::not_equal(t, u) << 5, 0};
    }
};
// ------------------------------------------------------------------ checked_result operators: values and errors
template<class R> constexpr sn::checked_result<R> cr(int i){
    return i < NV ? sn::checked_result<R>((R)sval<R>(i)) : sn::checked_result<R>(static_cast<Er>(i - NV + 1), "why");
}
template<class R, int K> struct CR {
    static constexpr int N = NV + 10, M = K >= 16 ? 1 : NV + 10;
    static std::string label(int i, int j){ return std::to_string(i) + ", " + std::to_string(j); }
    static constexpr Rec eval(int i, int j){
        const sn::checked_result<R> t = cr<R>(i), u = cr<R>(j);
        if constexpr(K < 10) return rec(OpF<static_cast<Op>(K)>::ap(t, u));
        else if constexpr(K == 10) return rec(t < u); else if constexpr(K == 11) return rec(t > u);
        else if constexpr(K == 12) return rec(t <= u); else if constexpr(K == 13) return rec(t >= u);
        else if constexpr(K == 14) return rec(t == u); else if constexpr(K == 15) return rec(t != u);
        else if constexpr(K == 16) return rec(-t); else if constexpr(K == 17) return rec(~t);
        else return rec(sn::checked_result<std::int64_t>(t));
    }
};
// ------------------------------------------------------------------ intervals
template<class T> struct IV {         // T a built-in type: small endpoints, no overflow; checked_result: all
    static constexpr int NP = 7;
    static constexpr int pt(int i){ const int v[NP] = {-5, -1, 0, 1, 2, 3, 6}; return std::is_unsigned<T>::value && v[i] < 0 ? 7 - v[i] : v[i]; }
    static constexpr int NI = NP * (NP + 1) / 2;
    static constexpr sn::interval<T> at(int k){
        for(int i = 0; i < NP; ++i) for(int j = i; j < NP; ++j) if(k-- == 0){
            const int x = pt(i), y = pt(j); return sn::interval<T>((T)(x < y ? x : y), (T)(x < y ? y : x)); }
        return sn::interval<T>(T(0), T(0));
    }
};
template<class R> struct IV<sn::checked_result<R>> {
    using T = sn::checked_result<R>;
    static constexpr int NP = 9;
    static constexpr T pt(int i){
        const I l = lo<R>(), h = hi<R>();
        const I v[NP] = {0, l, l < 0 ? -3 : 0, l < 0 ? -1 : 1, 0, 2, h / 2 + 1, h, 0};
        return i == 0 ? T(Er::negative_overflow_error, "below") : i == NP - 1 ? T(Er::positive_overflow_error, "above") : T((R)v[i]);
    }
    static constexpr int NI = NP * (NP + 1) / 2;
    static constexpr sn::interval<T> at(int k){
        for(int i = 0; i < NP; ++i) for(int j = i; j < NP; ++j) if(k-- == 0){
            const bool swap = i > 0 && j < NP - 1 && static_cast<R>(pt(i)) > static_cast<R>(pt(j));
            return sn::interval<T>(swap ? pt(j) : pt(i), swap ? pt(i) : pt(j)); }
        return sn::interval<T>(pt(1), pt(1));
    }
};
template<class T, int K> struct IntOp {
    static constexpr bool CRS = !std::is_integral<T>::value;
    static constexpr int N = IV<T>::NI, M = IV<T>::NI;
    static std::string label(int i, int j){ return "interval #" + std::to_string(i) + ", #" + std::to_string(j); }
    static constexpr Rec eval(int i, int j){
        const sn::interval<T> t = IV<T>::at(i), u = IV<T>::at(j);
        if constexpr(K == 0) return rec(t + u); else if constexpr(K == 1) return rec(t - u); else if constexpr(K == 2) return rec(t * u);
        else if constexpr(K == 3 || K == 4){
            // built-in intervals: the divisor must not contain 0
            if constexpr(!CRS){ if(u.l <= 0 && u.u >= 0) return Rec{-1, 0, 0}; }
            else if(!(u.excludes(T(0)).value == boost::logic::tribool::true_value)) return Rec{-1, 0, 0};
            if constexpr(K == 3) return rec(t / u); else return rec(t % u);
        }
        else if constexpr(K == 5 || K == 6){
            if constexpr(!CRS){ if(t.l < 0 || u.l < 0) return Rec{-1, 0, 0}; }
            if constexpr(K == 5) return rec(t << u); else return rec(t >> u);
        }
        else if constexpr(K == 7) return rec(t | u); else if constexpr(K == 8) return rec(t & u);
        else if constexpr(K == 9) return rec(t < u); else if constexpr(K == 10) return rec(t > u);
        else if constexpr(K == 11) return rec(t <= u); else if constexpr(K == 12) return rec(t >= u);
        else if constexpr(K == 13) return rec(sn::intersect(t, u)); else if constexpr(K == 14) return rec(t.includes(u));
        else if constexpr(K == 15) return rec(t.excludes(u)); else if constexpr(K == 16) return rec(t.includes(u.l));
        else if constexpr(K == 17) return rec(t.excludes(u.u)); else if constexpr(K == 18) return Rec{0, (I)(t == u), (I)(t != u)};
        else return rec(sn::make_interval(t.l));
    }
};
// ------------------------------------------------------------------ safe operators
template<class P, class A, class B, Op O> struct SafeOp : Grid<A, B> {
    using RT = decltype(OpF<O>::ap(std::declval<A>(), std::declval<B>()));
    using RB = base_t<RT>;
    static constexpr bool ok(I t, I u){      // cannot fail whichever way the library computes it
        if constexpr(O == AND || O == OR || O == XOR) return fits<RB>(t) && fits<RB>(u);
        else return expect(O, t, u, lo<RB>(), hi<RB>(), sizeof(RB) * 8, fits<RB>(t) && fits<RB>(u)).must == VALUE;
    }
    static constexpr Rec eval(int i, int j){
        const I t = sval<A>(i), u = sval<B>(j);
        if(!ok(t, u)) return Rec{-1, 0, 0};
        return Rec{0, raw(OpF<O>::ap(smk<A>(t), smk<B>(u))), 0};
    }
};
template<class A, class B> struct SafeCmp : Grid<A, B> {
    static constexpr Rec eval(int i, int j){
        const I t = sval<A>(i), u = sval<B>(j);
        if((t < 0) != (u < 0)) return Rec{-1, 0, 0};      // mixed signs may be reported
        if((t > (I)IMX || u > (I)IMX) && (std::is_signed<base_t<A>>::value || std::is_signed<base_t<B>>::value)) return Rec{-1, 0, 0};
        const A a = smk<A>(t); const B b = smk<B>(u);
        return Rec{0, (I)(a < b) | (I)(a > b) << 1 | (I)(a <= b) << 2 | (I)(a >= b) << 3 | (I)(a == b) << 4 | (I)(a != b) << 5, 0};
    }
};
template<class S, class B, Op O> struct SafeAssign : Grid<S, B> {
    using RT = decltype(OpF<O>::ap(std::declval<S>(), std::declval<B>()));
    using RB = base_t<RT>;
    static constexpr Rec eval(int i, int j){
        const I t = sval<S>(i), u = sval<B>(j);
        if(!SafeOp<void, S, B, O>::ok(t, u)) return Rec{-1, 0, 0};
        if constexpr(O == AND || O == OR || O == XOR){ if(t < 0 || u < 0 || t > shi<S>() / 2 || u > shi<S>() / 2) return Rec{-1, 0, 0}; }
        else { const Expect e = expect(O, t, u, slo<S>(), shi<S>(), sizeof(RB) * 8, true); if(e.must != VALUE) return Rec{-1, 0, 0}; }
        S s = smk<S>(t);
        OpF<O>::assign(s, smk<B>(u));
        return Rec{0, raw(s), 0};
    }
};
template<class S> struct Unary : Grid<S, S> {
    static constexpr int M = 9;
    static constexpr Rec eval(int i, int j){
        const I v = sval<S>(i);
        using P = typename sn::get_promotion_policy<S>::type;
        const I l = slo<S>(), h = shi<S>();
        S s = smk<S>(v);
        // automatic: s + 1 with the int 1 is computed in intmax_t
        if(j >= 1 && j <= 6 && v >= (I)IMX && std::is_same<P, sn::automatic>::value) return Rec{-1, 0, 0};
        switch(j){
        case 0: return Rec{0, raw(+s), 0};
        case 1: if(!std::is_signed<base_t<S>>::value && v != 0 || v == l) break; return Rec{0, raw(-s), 0};
        case 2: if constexpr(std::is_same<P, sn::native>::value && std::is_same<base_t<S>, decltype(~base_t<S>())>::value) return Rec{0, raw(~s), 0}; break;
        case 3: if(v == h) break; { const I r = raw(++s); return Rec{0, raw(s), r}; }
        case 4: if(v == l) break; { const I r = raw(--s); return Rec{0, raw(s), r}; }
        case 5: if(v == h) break; { const I r = raw(s++); return Rec{0, raw(s), r}; }
        case 6: if(v == l) break; { const I r = raw(s--); return Rec{0, raw(s), r}; }
        case 7: return Rec{0, raw(std::numeric_limits<S>::min()), raw(std::numeric_limits<S>::max())};
        case 8: { S q = s; S r(std::numeric_limits<S>::max()); r = q; return Rec{0, raw(r), raw(q)}; }
        }
        return Rec{-1, 0, 0};
    }
};
// conversions: construction, assignment and operator R
template<class A, class B> struct Conv : Grid<A, A> {
    static constexpr int M = 3;
    static constexpr Rec eval(int i, int j){
        const I v = sval<A>(i);
        if(v < slo<B>() || v > shi<B>()) return Rec{-1, 0, 0};
        const A a = smk<A>(v);
        if(j == 0){ const B b(a); return Rec{0, raw(b), 0}; }
        if(j == 1){ const B b = static_cast<B>(a); return Rec{0, raw(b), 0}; }
        B b = smk<B>(slo<B>()); b = a;
        return Rec{0, raw(b), 0};
    }
};
// ------------------------------------------------------------------ utilities
template<class T> struct Util : Grid<T, T> {
    static constexpr int M = 4;
    static constexpr Rec eval(int i, int j){
        namespace ut = sn::utility;
        const T t = (T)sval<T>(i);
        if(j == 0) return t < 0 ? Rec{-1, 0, 0} : Rec{0, (I)ut::ilog2(t), 0};
        if(j == 1) return Rec{0, (I)ut::significant_bits(t), 0};
        if(j == 2) return Rec{0, (I)ut::round_out(t), 0};
        const auto p = ut::minmax<T>({t, (T)1, (T)100}); return Rec{0, (I)p.first, (I)p.second};
    }
};
struct Codes {
    static constexpr int N = 11, M = 1;
    static std::string label(int i, int){ return oc_name[i]; }
    static constexpr Rec eval(int i, int){ const Er e = static_cast<Er>(i); return Rec{(int)sn::make_safe_numerics_action(e), sn::literal_string(e)[0], 0}; }
};
// ------------------------------------------------------------------ failing operations are no constant expressions
// the compiler decides for every pair of values whether the operation is a constant expression
struct Fld { static constexpr int NF = 10;
    static constexpr I at(I l, I h, int i){ const I v[NF] = {l, l + 1, -1, 0, 1, 2, 7, h / 2 + 1, h - 1, h}; return v[i] < l ? l : v[i] > h ? h : v[i]; } };
template<class S> constexpr I fval(int i){ return Fld::at(slo<S>(), shi<S>(), i); }
template<class F, int I_, int J_, bool = (F::run(I_, J_), true)> std::true_type is_constant(int);
template<class F, int I_, int J_> std::false_type is_constant(...);
template<class F> struct Decides {
    static constexpr int NF = Fld::NF;
    template<int... K> static std::array<bool, NF * NF> table(std::integer_sequence<int, K...>){ return {{decltype(is_constant<F, K / NF, K % NF>(0))::value...}}; }
    static void one(const I * in, Ctx & c){
        static const auto t = table(std::make_integer_sequence<int, NF * NF>());
        const int i = (int)in[0], j = (int)in[1];
        if(i < 0 || j < 0 || i >= NF || j >= NF) return;
        const Expect e = F::model(i, j);
        const bool k = t[i * NF + j];
        ++c.steps; c.out(k ? 0 : 16);
        if(e.must == EITHER) return;
        if(k != (e.must == VALUE)) c.fail("operands " + F::label(i, j) + (k ? ": fails at run time but is a constant expression" : ": succeeds at run time but is not a constant expression"));
        // the run-time outcome must be the same
        const Obs o = observe([&]{ volatile int vi = i, vj = j; F::run(vi, vj); return (I)0; });
        if((o.kind == 0) != k) c.fail("operands " + F::label(i, j) + ": run time " + show(o) + ", constant evaluation " + (k ? "succeeds" : "fails"));
    }
    static void reg(const std::string & n){ add("constant? " + n, {alphabet(0, NF - 1, 1), alphabet(0, F::ONE ? 0 : NF - 1, 1)}, &one); }
};
template<class A, class B, Op O> struct FailOp {
    static constexpr bool ONE = false;
    using RT = decltype(OpF<O>::ap(std::declval<A>(), std::declval<B>())); using RB = base_t<RT>;
    static std::string label(int i, int j){ return str(fval<A>(i)) + ", " + str(fval<B>(j)); }
    static constexpr void run(int i, int j){ (void)raw(OpF<O>::ap(smk<A>(fval<A>(i)), smk<B>(fval<B>(j)))); }
    static Expect model(int i, int j){
        const I t = fval<A>(i), u = fval<B>(j);
        if(O == AND || O == OR || O == XOR) return {fits<RB>(t) && fits<RB>(u) ? VALUE : EITHER, 0, ~0u};
        if((O == SHL || O == SHR) && u >= (I)sizeof(RB) * 8 && std::is_same<typename sn::get_promotion_policy<RT>::type, sn::automatic>::value) return {EITHER, 0, ~0u};
        return expect(O, t, u, lo<RB>(), hi<RB>(), sizeof(RB) * 8, fits<RB>(t) && fits<RB>(u));
    }
};
template<class A, class B> struct FailConv {
    static constexpr bool ONE = true;
    static std::string label(int i, int){ return str(fval<A>(i)); }
    static constexpr void run(int i, int){ const A a = smk<A>(fval<A>(i)); const B b(a); B c = smk<B>(slo<B>()); c = a; (void)raw(b); (void)raw(c); }
    static Expect model(int i, int){ const I v = fval<A>(i); return {v >= slo<B>() && v <= shi<B>() ? VALUE : ERROR_, 0, ~0u}; }
};
template<class S, int K> struct FailUn {       // ++ -- of both kinds and unary minus
    static constexpr bool ONE = true;
    static std::string label(int i, int){ return str(fval<S>(i)); }
    static constexpr void run(int i, int){ S s = smk<S>(fval<S>(i)); if constexpr(K == 0) ++s; else if constexpr(K == 1) --s; else if constexpr(K == 2) s++; else if constexpr(K == 3) s--; else (void)raw(-s); }
    static Expect model(int i, int){
        const I v = fval<S>(i);
        if(K == 4){ using RB = base_t<decltype(-std::declval<S>())>; return {-v < lo<RB>() || -v > hi<RB>() ? ERROR_ : fits<RB>(v) ? VALUE : EITHER, 0, ~0u}; }
        const I r = K & 1 ? v - 1 : v + 1;
        if(v >= (I)IMX && std::is_same<typename sn::get_promotion_policy<S>::type, sn::automatic>::value) return {EITHER, 0, ~0u};     // (as in Unary)
        return {r >= slo<S>() && r <= shi<S>() ? VALUE : ERROR_, 0, ~0u};
    }
};
struct FailOps { template<class A, class B> struct At { template<class O> static void run(){ Decides<FailOp<A, B, O::value>>::reg(std::string(opname(O::value)) + " " + sname<A>() + " " + sname<B>()); } };
    template<class A, class B> static void run(){
        if constexpr(issafe<A>() || issafe<B>()){
            all<At<A, B>>(Ops());
            if constexpr(!std::is_empty<B>::value && !std::is_empty<A>::value && slo<A>() <= shi<B>() && shi<A>() >= slo<B>()) Decides<FailConv<A, B>>::reg("conversion " + sname<A>() + " " + sname<B>());
        }
    }
};
struct FailUns { template<class S> static void run(){ go<S>(std::make_integer_sequence<int, 5>()); }
    template<class S, int... K> static void go(std::integer_sequence<int, K...>){ (Decides<FailUn<S, K>>::reg("unary " + sname<S>() + " #" + std::to_string(K)), ...); } };
// ------------------------------------------------------------------ registration
template<class T, int... K> void checked_all(std::integer_sequence<int, K...>){ (Table<Checked<T, K>>::reg(std::string("checked ") + tname<T>() + " #" + std::to_string(K)), ...); }
template<class R, int... K> void cr_all(std::integer_sequence<int, K...>){ (Table<CR<R, K>>::reg(std::string("checked_result ") + tname<R>() + " #" + std::to_string(K)), ...); }
template<class T, int... K> void iv_all(const std::string & n, std::integer_sequence<int, K...>){
    auto go = [&](auto k){ constexpr int kk = decltype(k)::value;
        if constexpr(!(kk == 18 && !std::is_integral<T>::value)) Table<IntOp<T, kk>>::reg("interval " + n + " #" + std::to_string(kk)); };
    (go(std::integral_constant<int, K>()), ...);
}
struct One { template<class T> static void run(){
    checked_all<T>(std::make_integer_sequence<int, 12>());
    Table<Util<T>>::reg(std::string("utility ") + tname<T>());
    if constexpr(sizeof(T) == 1 || sizeof(T) == 4 || std::is_same<T, std::int64_t>::value) cr_all<T>(std::make_integer_sequence<int, 19>());
    if constexpr(sizeof(T) >= 4) iv_all<T>(tname<T>(), std::make_integer_sequence<int, 20>());
    if constexpr(sizeof(T) == 1 || std::is_same<T, std::int64_t>::value) iv_all<sn::checked_result<T>>(std::string("checked_result ") + tname<T>(), std::make_integer_sequence<int, 19>());
} };
struct Two { template<class T, class U> static void run(){
    Table<Compare<T, U>>::reg(std::string("compare ") + tname<T>() + " " + tname<U>());
    Table<CheckedCast<T, U>>::reg(std::string("cast ") + tname<T>() + " " + tname<U>());
} };
template<class P, class A, class B> struct Ops2 { template<class O> static void run(){
    constexpr Op o = O::value;
    const std::string n = std::string(opname(o)) + " " + sname<A>() + " " + sname<B>();
    Table<SafeOp<P, A, B, o>>::reg(n);
    if constexpr(issafe<A>() && !std::is_empty<A>::value && shi<A>() - slo<A>() >= 255 && std::is_same<P, sn::native>::value && !std::is_empty<B>::value
        && !(O::value == SHL || O::value == SHR)) Table<SafeAssign<A, B, o>>::reg("assign " + n);
} };
template<class P> struct SafePair { template<class A, class B> static void run(){
    if constexpr((issafe<A>() || issafe<B>()) && !(std::is_empty<A>::value && std::is_empty<B>::value)){
        all<Ops2<P, A, B>>(Ops());
        Table<SafeCmp<A, B>>::reg("comparison " + sname<A>() + " " + sname<B>());
    }
    if constexpr((issafe<A>() || issafe<B>()) && !std::is_empty<B>::value && slo<A>() <= shi<B>() && shi<A>() >= slo<B>())
        Table<Conv<A, B>>::reg("conversion " + sname<A>() + " " + sname<B>());
} };
struct SafeOne { template<class S> static void run(){ Table<Unary<S>>::reg("unary " + sname<S>()); } };
}
void mc::setup(){
#if PART == 0
    each<One, Ints8>();
    each2<Two, IntsAll, IntsAll>();
    if(SHARD == 0) Table<Codes>::reg("codes");
#elif PART == 2
    using RG = R<POL, EP>;
    using S = L<RG::f<std::int8_t>, RG::f<std::uint16_t>, RG::f<int>, RG::f<std::uint64_t>, RG::f<std::int64_t>, RG::s<-3, 5>, RG::u<250, 260>>;
    using X = L<std::int8_t, unsigned, std::int64_t, sn::safe_signed_literal<3>, sn::safe_unsigned_literal<8>, sn::safe_signed_literal<-1>>;
    each2<FailOps, S, S>();
    each2<FailOps, S, X>();
    each2<FailOps, X, S>();
    each<FailUns, S>();
#else
    using RG = R<POL, EP>;
    using S = L<RG::f<std::int8_t>, RG::f<std::uint16_t>, RG::f<int>, RG::f<std::uint64_t>, RG::s<-3, 5>, RG::s<-1000, 999>, RG::u<0, 10>, RG::u<250, 260>>;
    using X = L<std::int8_t, unsigned, std::int64_t, sn::safe_signed_literal<3>, sn::safe_unsigned_literal<8>, sn::safe_signed_literal<-1>>;
    each2<SafePair<POL>, S, S>();
    each2<SafePair<POL>, S, X>();
    each2<SafePair<POL>, X, S>();
    each<SafeOne, S>();
#endif
}
MC_MAIN
