// Operands and initialisers of every kind: bool, the character types, enumerations, classes which convert to an integer.
#include "ranges.hpp"
#include <vector>
using namespace mc;
namespace {
using EP = sn::default_exception_policy;
// ---- the kinds: the type, the integer type it stands for, its limits
template<class T> struct en { enum type : T {}; };
enum Plain { plain_lo = -2000000000, plain_a = 1, plain_hi = 2000000000 };
template<class T> struct Cls { T v; constexpr operator T() const { return v; } };
template<class T> struct Ref { const T * p; operator const T &() const { return *p; } };       // a proxy such as a bit reference
template<class T> struct Der : sn::safe<T> { using sn::safe<T>::safe_base; };
template<class K, class = void> struct kind { using B = K; using P = K; static std::string nm(){ return tname<K>(); } static K make(I v){ return (K)v; } };
template<class K> struct kind<K, typename std::enable_if<std::is_enum<K>::value>::type> { using B = typename std::underlying_type<K>::type; using P = decltype(+K());
    static std::string nm(){ return std::is_same<K, Plain>::value ? "plain enum" : std::string("enum ") + tname<B>(); } static K make(I v){ return static_cast<K>(static_cast<B>(v)); } };
template<class T> struct kind<Cls<T>> { using B = T; using P = decltype(+T()); static std::string nm(){ return std::string("class ") + tname<T>(); } static Cls<T> make(I v){ return Cls<T>{(T)v}; } };
template<class T> struct kind<Ref<T>> { using B = T; using P = decltype(+T()); static std::string nm(){ return std::string("proxy ") + tname<T>(); }
    static Ref<T> make(I v){ static thread_local T cell[16]; static thread_local int k = 0; T & x = cell[k++ % 16]; x = (T)v; return Ref<T>{&x}; } };
template<class T> struct kind<Der<T>> { using B = T; using P = T; static std::string nm(){ return std::string("derived ") + tname<T>(); } static Der<T> make(I v){ return Der<T>((T)v); } };
template<> struct kind<std::vector<bool>::reference> { using B = bool; using P = int; static std::string nm(){ return "vector<bool>::reference"; }
    static std::vector<bool>::reference make(I v){ static std::vector<bool> b(2); b[0] = v != 0; return b[0]; } };
template<class K> using P_t = typename kind<K>::P;
template<class K> constexpr I klo(){ return std::is_same<K, Plain>::value ? (I)plain_lo : lo<typename kind<K>::B>(); }
template<class K> constexpr I khi(){ return std::is_same<K, Plain>::value ? (I)plain_hi : hi<typename kind<K>::B>(); }
template<class K> Space kspace(int lev){ return alphabet(klo<K>(), khi<K>(), lev, 300); }
template<class S, class K, Op O> struct Bin {
    using TS = base_t<S>; using PK = P_t<K>;
    static constexpr bool AU = std::is_same<typename sn::get_promotion_policy<S>::type, sn::automatic>::value;
    static constexpr bool BW = AU && (O == AND || O == OR || O == XOR);    // automatic: the type of a bitwise result is that of C21; only the promotion is checked here
    static void verdict(Ctx & c, const char * what, const Obs & o, Expect e, const Obs * ref){
        ++c.steps;
        if(BW && o.kind == 0) e = {EITHER, o.val, ~0u};
        if(o.kind == 2){ c.out(14); c.fail(std::string(what) + ": " + show(o)); return; }
        c.out(e.must == EITHER ? (o.kind ? 16 : 15) : o.kind ? o.code : 0);
        if(o.kind == 0 ? e.must == ERROR_ || o.val != e.val : e.must == VALUE) c.fail(std::string(what) + ": got " + show(o) + ", expected " + show(e));
        if(ref && (ref->kind != o.kind || (o.kind ? ref->code != o.code : ref->val != o.val))) c.fail(std::string(what) + ": got " + show(o) + ", with the promoted operand " + show(*ref));
    }
    // the exact result in the type the policy names
    static Expect ex(I x, CT tx, I y, CT ty){
        CT r = AU ? CT{64, O == SUB ? true : O == SHL || O == SHR ? tx.sg : tx.sg || ty.sg} : O == SHL || O == SHR ? Machine<LP64>::promote(tx, true) : Machine<LP64>::common(tx, ty, true);
        if(O == AND || O == OR || O == XOR){
            if(AU) return {EITHER, 0, ~0u};
            const unsigned __int128 m = r.bits == 64 ? ~(uint64_t)0 : ((unsigned __int128)1 << r.bits) - 1;
            const unsigned __int128 a = (unsigned __int128)x & m, b = (unsigned __int128)y & m;
            I v = (I)(O == AND ? a & b : O == OR ? a | b : a ^ b);
            if(r.sg && v > r.hi()) v -= (I)1 << r.bits;
            return {VALUE, v, 0};
        }
        Expect e = expect(O, x, y, r.lo(), r.hi(), r.bits, r.holds(x) && r.holds(y));
        if(AU && e.must == VALUE && (O == SHL || O == SHR) && y >= 8) e.must = EITHER;
        return e;
    }
    static void one(const I * in, Ctx & c){
        const S s = mk<S>(in[0]); auto && k = kind<K>::make(in[1]); K kk = k; const K & kr = kk;
        const PK p = static_cast<PK>(kind<K>::make(in[1]));
        constexpr bool same = !std::numeric_limits<K>::is_specialized;      // these must act exactly as the promoted value
        const Obs r1 = observe([&]{ return raw(OpF<O>::ap(s, p)); }), r2 = observe([&]{ return raw(OpF<O>::ap(p, s)); });
        const Expect e1 = ex(in[0], ct<TS>(), in[1], ct<PK>());
        verdict(c, "safe . operand", observe([&]{ return raw(OpF<O>::ap(s, kr)); }), e1, same ? &r1 : nullptr);
        verdict(c, "operand . safe", observe([&]{ return raw(OpF<O>::ap(kr, s)); }), ex(in[1], ct<PK>(), in[0], ct<TS>()), same ? &r2 : nullptr);
        S t = mk<S>(in[0]);
        const Obs r3 = observe([&]{ S q = mk<S>(in[0]); OpF<O>::assign(q, p); return raw(q); });
        Expect ea = e1; if(!BW && ea.must != ERROR_ && (ea.val < slo<S>() || ea.val > shi<S>())) ea = {ERROR_, 0, ~0u};
        const Obs o = observe([&]{ OpF<O>::assign(t, kr); return raw(t); });
        verdict(c, "safe .= operand", o, ea, same ? &r3 : nullptr);
        if(o.kind && raw(t) != in[0]) c.fail("a failed statement changed the variable");
    }
    static void type(const I *, Ctx & c){
        c.out(19); ++c.steps;
        using A = decltype(OpF<O>::ap(std::declval<S>(), std::declval<K &>())); using B = decltype(OpF<O>::ap(std::declval<K &>(), std::declval<S>()));
        using A2 = decltype(OpF<O>::ap(std::declval<S>(), std::declval<PK>())); using B2 = decltype(OpF<O>::ap(std::declval<PK>(), std::declval<S>()));
        if(!issafe<A>() || !issafe<B>()) c.fail("the result is not a safe type");
        if(!std::numeric_limits<K>::is_specialized && !std::is_base_of<sn::safe<typename kind<K>::B>, K>::value && (!std::is_same<A, A2>::value || !std::is_same<B, B2>::value)) c.fail("the type of the result is not that with the promoted operand");
        if(!AU && !std::is_base_of<sn::safe<typename kind<K>::B>, K>::value){
            using N = decltype(OpF<O>::ap(TS(), PK())); using M = decltype(OpF<O>::ap(PK(), TS()));
            if(!std::is_same<base_t<A>, N>::value || !std::is_same<base_t<B>, M>::value) c.fail("the base type of the result is not that of the built-in expression");
        }
        if(!std::is_same<typename sn::get_promotion_policy<A>::type, typename sn::get_promotion_policy<S>::type>::value || !std::is_same<typename sn::get_exception_policy<B>::type, EP>::value) c.fail("policy lost");
    }
};
template<class S, class K> struct Pair {
    template<class O> static void run(){
        const std::string n = std::string(opname(O::value)) + " " + sname<S>() + " " + kind<K>::nm();
        add(n, {rspace<S>(thorough() ? 2 : 0), kspace<K>(thorough() ? 2 : 0)}, &Bin<S, K, O::value>::one, &partners);
        add("type " + n, {}, &Bin<S, K, O::value>::type);
    }
    static void partners(const I * in, std::vector<I> & out){
        for(I l : {slo<S>(), shi<S>(), klo<K>(), khi<K>(), lo<P_t<K>>(), hi<P_t<K>>(), (I)INT32_MAX, (I)INT32_MIN, (I)INT64_MAX, (I)INT64_MIN}) for(int e = -1; e <= 1; ++e){
            for(I x : {l - in[0] + e, in[0] - l + e, in[0] ? l / in[0] + e : e}) if(x >= klo<K>() && x <= khi<K>()) out.push_back(x);
        }
    }
    static void cmp(const I * in, Ctx & c){
        const S s = mk<S>(in[0]); K kk = kind<K>::make(in[1]); const K & k = kk;
        constexpr bool AU = std::is_same<typename sn::get_promotion_policy<S>::type, sn::automatic>::value;
        const CT r = AU ? CT{64, std::is_signed<base_t<S>>::value || std::is_signed<P_t<K>>::value} : Machine<LP64>::common(ct<base_t<S>>(), ct<P_t<K>>(), true);
        const bool holds = r.holds(in[0]) && r.holds(in[1]);
        const I x = in[0], y = in[1];
        const Obs o[] = {observe([&]{ return (I)(s < k); }), observe([&]{ return (I)(s > k); }), observe([&]{ return (I)(s <= k); }), observe([&]{ return (I)(s >= k); }), observe([&]{ return (I)(s == k); }), observe([&]{ return (I)(s != k); }),
            observe([&]{ return (I)(k < s); }), observe([&]{ return (I)(k > s); }), observe([&]{ return (I)(k <= s); }), observe([&]{ return (I)(k >= s); }), observe([&]{ return (I)(k == s); }), observe([&]{ return (I)(k != s); })};
        const bool e[] = {x < y, x > y, x <= y, x >= y, x == y, x != y, y < x, y > x, y <= x, y >= x, x == y, x != y};
        for(int i = 0; i < 12; ++i){
            ++c.steps; c.out(o[i].kind ? holds ? 14 : 16 : e[i] ? 11 : 12);
            if(o[i].kind == 2 || (o[i].kind == 1 && holds) || (o[i].kind == 0 && (o[i].val != 0) != e[i])) c.fail(std::string("comparison #") + std::to_string(i) + ": got " + show(o[i]));
        }
    }
    static void conv(const I * in, Ctx & c){
        K kk = kind<K>::make(in[1]); const K & k = kk;
        const bool ok = in[1] >= slo<S>() && in[1] <= shi<S>();
        S s = mk<S>(in[0]), t = mk<S>(in[0]);
        const Obs o[] = {observe([&]{ return raw(S(k)); }), observe([&]{ s = k; return raw(s); }), observe([&]{ const S x = k; t = x; return raw(t); })};
        for(const Obs & x : o){
            ++c.steps; c.out(x.kind ? x.code : 0);
            if(x.kind == 2 || (x.kind == 1) == ok || (x.kind == 0 && x.val != in[1])) c.fail(std::string(&x == o ? "construction" : &x == o + 1 ? "assignment" : "initialisation") + ": got " + show(x));
        }
        if(!ok && (raw(s) != in[0] || raw(t) != in[0])) c.fail("a failed assignment changed the variable");
    }
    static void back(const I * in, Ctx & c){       // from the safe type to the built-in one
        const S s = mk<S>(in[0]);
        const bool ok = in[0] >= klo<K>() && in[0] <= khi<K>();
        const Obs o[] = {observe([&]{ return (I)static_cast<K>(s); }), observe([&]{ const K k = s; return (I)k; }), observe([&]{ K k{}; k = s; return (I)k; })};
        for(const Obs & x : o){
            ++c.steps; c.out(x.kind ? x.code : 0);
            if(x.kind == 2 || (x.kind == 1) == ok || (x.kind == 0 && x.val != in[0])) c.fail(std::string(&x == o ? "static_cast" : &x == o + 1 ? "initialisation" : "assignment") + ": got " + show(x));
        }
    }
    static void reg(){
        if constexpr(std::is_integral<K>::value) if(!(slo<S>() > khi<K>() || shi<S>() < klo<K>())){
            std::vector<I> v = *rspace<S>(2);
            for(I l : {klo<K>(), khi<K>()}) for(int e = -2; e <= 2; ++e) for(int m = 0; m < 3; ++m) for(I x : {l + e + ((I)256 << (m * 8)), l + e - ((I)256 << (m * 8)), l + e}) if(x >= slo<S>() && x <= shi<S>()) v.push_back(x);
            std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
            add("to " + sname<S>() + " " + kind<K>::nm(), {std::make_shared<const std::vector<I>>(v)}, &back);
        }
        all<Pair>(Ops());
        const std::string n = sname<S>() + " " + kind<K>::nm();
        add("compare " + n, {rspace<S>(0), kspace<K>(thorough() ? 2 : 0)}, &cmp, &partners);
        std::vector<I> few{slo<S>(), shi<S>()};
        std::vector<I> v = *kspace<K>(2);
        for(I l : {slo<S>(), shi<S>()}) for(int e = -2; e <= 2; ++e) for(I x : {l + e, l + 256 + e, l - 256 + e, l + ((I)1 << 16) + e, l + ((I)1 << 32) + e, l - ((I)1 << 32) + e}) if(x >= klo<K>() && x <= khi<K>()) v.push_back(x);
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        add("convert " + n, {std::make_shared<const std::vector<I>>(few), std::make_shared<const std::vector<I>>(v)}, &conv);
    }
};
struct All { template<class S, class K> static void run(){
    if constexpr(!(std::is_base_of<sn::safe<typename kind<K>::B>, K>::value && std::is_same<typename sn::get_promotion_policy<S>::type, sn::automatic>::value)) Pair<S, K>::reg(); } };
using N = R<sn::native, EP>; using U = R<sn::automatic, EP>;
using Ss = L<N::f<std::int8_t>, N::f<std::uint8_t>, N::f<int>, N::f<unsigned>, N::f<std::int64_t>, N::f<std::uint64_t>, N::s<-10, 100>, N::u<0, 300>, U::f<std::int16_t>, U::f<std::uint32_t>, U::s<-10, 100>, N::f<char>, N::f<wchar_t>, N::f<char16_t>, N::f<char32_t>, N::f<bool>, U::f<char>, U::f<wchar_t>>;
using Ks = L<bool, char, wchar_t, char16_t, char32_t, en<std::int8_t>::type, en<std::uint8_t>::type, en<std::uint16_t>::type, en<int>::type, en<unsigned>::type, en<std::int64_t>::type, en<std::uint64_t>::type, en<bool>::type, Plain,
    Cls<std::int8_t>, Cls<int>, Cls<unsigned>, Cls<std::int64_t>, Cls<std::uint64_t>, Cls<bool>, Ref<short>, Ref<unsigned>, Der<int>, Der<std::int8_t>, std::vector<bool>::reference>;
}
void mc::setup(){ each2<All, Ss, Ks>(); }
MC_MAIN
