// Conversions: construction, assignment, conversion to built-in types, checked::cast.
#include "ranges.hpp"
using namespace mc;
namespace {
using EP = sn::default_exception_policy;
using RN = R<sn::native, EP>;
using RA = R<sn::automatic, EP>;
using BuiltinSources = cat_tt<IntsAll, L<bool, wchar_t, char16_t, char32_t>>;
using BuiltinTargets = cat_tt<IntsAll, L<wchar_t, char16_t, char32_t>>;
template<class T> using SN = sn::safe<T>;
template<class X> struct wrap;
template<class... T> struct wrap<L<T...>> { using type = L<sn::safe<T>...>; };
using Full = wrap<L<std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t, char>>::type;
using SafeTargets = cat_tt<Full, cat_tt<RN::Signed, RN::Unsigned>>;
using SafeSources = cat_tt<Full, cat_tt<RN::Some, L<RA::s<-40000, 70000>, RA::u<0, 255>, RA::f<std::int64_t>>>>;

template<class T> constexpr I l_(){ return slo<T>(); }
template<class T> constexpr I h_(){ return shi<T>(); }

// what converting v (of type A) to B must do
template<class A, class B> Expect model(I v){
    if(v > h_<B>()) return {ERROR_, 0, E_POS};
    if(v < l_<B>()){
        bool dom = std::is_signed<base_t<A>>::value && !std::is_signed<base_t<B>>::value;
        return {ERROR_, 0, E_NEG | (dom ? E_DOM : 0)};
    }
    return {VALUE, v, 0};
}
template<class A, class B> struct Cv {
    static constexpr bool overlap = !(l_<A>() > h_<B>() || h_<A>() < l_<B>());   // otherwise the library rejects the program
    static void construct(const I * in, Ctx & c){
        const A a = mk<A>(in[0]); ++c.steps;
        judge(c, observe([&]{ const B b(a); return raw(b); }), model<A, B>(in[0]));
    }
    static void copyinit(const I * in, Ctx & c){
        const A a = mk<A>(in[0]); ++c.steps;
        judge(c, observe([&]{ auto f = [](B x){ return raw(x); }; return f(a); }), model<A, B>(in[0]));
    }
    static void assign(const I * in, Ctx & c){
        const A a = mk<A>(in[0]);
        for(I start : {l_<B>(), h_<B>()}){
            B b = mk<B>(start); ++c.steps;
            Obs o = observe([&]{ b = a; return (I)0; });
            if(o.kind == 0) o.val = raw(b);
            else if(raw(b) != start) c.fail("assignment threw but changed the target to " + str(raw(b)));
            judge(c, o, model<A, B>(in[0]));
        }
    }
    // the widest exhaustive space for which the product with the other programs stays affordable
    static Space space(){
        if(h_<A>() - l_<A>() < 1 << 16) return alphabet(l_<A>(), h_<A>(), 2, 1 << 16);
        std::vector<I> v = *alphabet(l_<A>(), h_<A>(), 2, 300);
        for(I lim : {l_<B>(), h_<B>()}) for(int e = -3; e <= 3; ++e) if(lim + e >= l_<A>() && lim + e <= h_<A>()) v.push_back(lim + e);
        // bit patterns which wrap around into the target
        for(int k : {8, 16, 32}) for(I b : {l_<B>(), h_<B>(), (I)0}) for(int m : {-1, 1, 2}) for(int e = -1; e <= 1; ++e){
            I x = b + m * ((I)1 << k) + e; if(x >= l_<A>() && x <= h_<A>()) v.push_back(x); }
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        return std::make_shared<const std::vector<I>>(v);
    }
    static void reg(){
        if constexpr(overlap){
            std::string n = sname<A>() + " to " + sname<B>();
            add("construct " + n, {space()}, &construct);
            add("copyinit " + n, {space()}, &copyinit);
            if constexpr(issafe<B>()) add("assign " + n, {space()}, &assign);
        }
    }
};
struct ToSafe { template<class A, class B> static void run(){ Cv<A, B>::reg(); } };
struct ToBuiltin { template<class A, class B> static void run(){ Cv<A, B>::reg(); } };
template<class R, class T> struct Cast {
    static void one(const I * in, Ctx & c){
        ++c.steps;
        const sn::checked_result<R> r = sn::checked::cast<R>((T)in[0]);
        const sn::safe_numerics_error e = r;
        Obs o{0, 0, 0};
        if(r.exception()){ o.kind = 1; o.code = (int)e; const char * m = r; if(!m || !*m) c.fail("error without a message"); }
        else o.val = (I)static_cast<R>(r);
        judge(c, o, model<T, R>(in[0]));
    }
};
struct Casts { template<class R, class T> static void run(){
    add(std::string("cast ") + tname<T>() + " to " + tname<R>(), {Cv<T, R>::space()}, &Cast<R, T>::one);
} };
}
void mc::setup(){
#if PART == 0
    each2<ToSafe, BuiltinSources, SafeTargets>();
    each2<Casts, BuiltinTargets, BuiltinSources>();
#else
    each2<ToSafe, cat_tt<SafeSources, Lits>, SafeTargets>();
    each2<ToBuiltin, cat_tt<SafeSources, cat_tt<Lits, cat_tt<RN::Signed, RN::Unsigned>>>, BuiltinTargets>();
#endif
}
MC_MAIN
