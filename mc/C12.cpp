// Intervals: operators enclose every point-wise result (and are tight for + - *), predicates are definite only if right.
#include "safe.hpp"
#include <sstream>
using namespace mc;
namespace {
typedef sn::safe_numerics_error Er;
// endpoints: an integer, or minus / plus infinity (an overflow state of checked_result)
const I INF = (I)1 << 100;
struct Iv { I l, u; };
template<class T> struct el {          // built-in element types
    using R = T; static constexpr bool cr = false;
    static T make(I x){ return (T)x; }
    static bool known(const T &){ return true; }
    static I val(const T & t){ return (I)t; }
    static int side(const T &){ return 0; }
    static std::string show(const T & t){ return str((I)t); }
};
template<class R_> struct el<sn::checked_result<R_>> {
    using R = R_; using T = sn::checked_result<R>; static constexpr bool cr = true;
    static T make(I x){ return x >= INF ? T(Er::positive_overflow_error, "mc") : x <= -INF ? T(Er::negative_overflow_error, "mc") : T((R)x); }
    static bool known(const T & t){ return !t.exception(); }
    static I val(const T & t){ return (I)static_cast<R>(t); }
    static int side(const T & t){ const Er e = t; return e == Er::positive_overflow_error ? 1 : e == Er::negative_overflow_error ? -1 : 0; }
    static std::string show(const T & t){ return t.exception() ? oc_name[(int)static_cast<Er>(t)] : str(val(t)); }
};
std::string sh(const Iv & i){ auto e = [](I x){ return x >= INF ? std::string("max+") : x <= -INF ? std::string("min-") : str(x); }; return "[" + e(i.l) + "," + e(i.u) + "]"; }
template<class T> std::string sh(const sn::interval<T> & i){ return "[" + el<T>::show(i.l) + "," + el<T>::show(i.u) + "]"; }
// the intervals and points explored for T
template<class T, int DOM> struct D {
    using R = typename el<T>::R;
    static const std::vector<I> & ends(){
        static std::vector<I> v;
        if(v.empty()){
            if(DOM == 0){ for(I x = fits<R>(-1) ? -7 : 0; x <= (fits<R>(-1) ? 7 : 12); ++x) v.push_back(x); if(thorough()) for(I x : {8, 9, 10, 11, -8, -9}) if(fits<R>(x)) v.push_back(x); }
            else {
                for(I x : {(I)0, (I)1, (I)2, (I)3, (I)5, (I)7, (I)8, (I)13, (I)31, (I)63, (I)64, (I)100, hi<R>() / 2, hi<R>() / 2 + 1, hi<R>() - 1, hi<R>(), hi<R>() / 3}){ v.push_back(x); v.push_back(-x); v.push_back(-x - 1); }
                if(thorough()) for(int k = 2; k < 64; k += k < 8 ? 1 : 4){ v.push_back((I)1 << k); v.push_back(-((I)1 << k)); v.push_back(((I)1 << k) - 1); }
                for(size_t k = 0; k < v.size();) if(!fits<R>(v[k])){ v.erase(v.begin() + k); } else ++k;
            }
            if(el<T>::cr){ v.push_back(INF); v.push_back(-INF); }
            std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        }
        return v;
    }
    static const std::vector<Iv> & ivs(){
        static std::vector<Iv> v;
        if(v.empty()) for(I a : ends()) for(I b : ends()) if(a <= b && !tail(a, b)) v.push_back(Iv{a, b});
        return v;
    }
    static bool tail(I x, I y){ return x == y && (x >= INF || x <= -INF); }     // [max+,max+]
    static const std::vector<I> & points(size_t k){
        static std::vector<std::vector<I>> cache(ivs().size());
        std::vector<I> & p = cache[k];
        if(p.empty()){
            const Iv & i = ivs()[k];
            auto put = [&](I x){ if(x >= i.l && x <= i.u && fits<R>(x)) p.push_back(x); };
            if(DOM == 0) for(I x = -9; x <= 12; ++x) put(x);
            else { for(I e : ends()) put(e); for(int e = -1; e <= 1; ++e){ put(i.l + e); put(i.u + e); put((i.l + i.u) / 2 + e); put(e); } }
            // beyond the limits of R
            if(i.u >= INF) for(I x : {hi<R>() + 1, hi<R>() + 2, hi<R>() * 2, hi<R>() * 5 + 3}) if(!(i.l >= INF)) p.push_back(x);
            if(i.l <= -INF) for(I x : {lo<R>() - 1, lo<R>() - 2, lo<R>() * 2 - 1, lo<R>() * 5 - 3}) if(!(i.u <= -INF)) p.push_back(x);
            const I far = (I)1 << 70;
            if(i.u >= INF) for(I x : {far, far + 1, far * 3}) p.push_back(x);
            if(i.l <= -INF) for(I x : {-far, -far - 1, -far * 3}) p.push_back(x);
            std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
        }
        return p;
    }
};
template<class T> sn::interval<T> mkiv(const Iv & i){ return sn::interval<T>(el<T>::make(i.l), el<T>::make(i.u)); }
// does r enclose the integer x?  An endpoint in error on the far side, or unknown, makes no claim.
template<class T> bool encloses(const sn::interval<T> & r, I x){
    using E = el<T>; using R = typename E::R;
    if(E::known(r.l) ? x < E::val(r.l) : (E::side(r.l) > 0 && x <= hi<R>())) return false;
    if(E::known(r.u) ? x > E::val(r.u) : (E::side(r.u) < 0 && x >= lo<R>())) return false;
    return true;
}
int ideal(Op o, I a, I b, I r[2]){
    switch(o){
    case ADD: r[0] = a + b; return 1;
    case SUB: r[0] = a - b; return 1;
    case MUL: r[0] = exact_mul(a, b); return 1;
    case DIV: if(b == 0) return 0; r[0] = a / b; return 1;
    case MOD: if(b == 0) return 0; r[0] = a % b; return 1;
    case SHL: case SHR: {
        const bool left = (o == SHL) == (b >= 0);
        const I n = b < 0 ? -b : b;
        if(left){ r[0] = exact_shl(a, n); return 1; }
        if(n > 120){ r[0] = 0; r[1] = a < 0 ? -1 : 0; return 2; }
        r[0] = a / ((I)1 << (int)n); r[1] = floor_shr(a, n); return 2; }
    default: return 0;
    }
}
// are all the corner computations defined for a built-in element type?
template<class R> bool defined(Op o, const Iv & t, const Iv & u){
    if((o == DIV || o == MOD) && u.l <= 0 && u.u >= 0) return false;
    for(I a : {t.l, t.u}) for(I b : {u.l, u.u}){
        if((o == SHL || o == SHR) && (a < 0 || b < 0 || b >= (I)sizeof(R) * 8)) return false;
        if(o == MOD && b == -1 && a == lo<R>()) return false;
        I x[2];
        if(ideal(o, a, b, x) == 0 || !fits<R>(x[0])) return false;
    }
    return true;
}
template<class T, int DOM, Op O> struct Bin { static void one(const I * in, Ctx & c){
    using DD = D<T, DOM>; using E = el<T>; using R = typename E::R;
    const Iv t = DD::ivs()[(size_t)in[0]], u = DD::ivs()[(size_t)in[1]];
    if(!E::cr && !defined<R>(O, t, u)) return;
    if((O == DIV || O == MOD) && u.l <= 0 && u.u >= 0) return;
    ++c.steps;
    const sn::interval<T> r = OpF<O>::ap(mkiv<T>(t), mkiv<T>(u));
    c.out(E::known(r.l) && E::known(r.u) ? 0 : E::side(r.l) < 0 || E::side(r.u) > 0 ? 1 : 13);
    for(I a : DD::points((size_t)in[0])) for(I b : DD::points((size_t)in[1])){
        I x[2]; const int n = ideal(O, a, b, x);
        bool ok = n == 0;
        for(int i = 0; i < n; ++i) ok |= encloses(r, x[i]);
        if(!ok){ c.fail(sh(t) + " " + opname(O) + " " + sh(u) + " = " + sh(r) + " does not contain " + str(a) + " " + opname(O) + " " + str(b) + " = " + str(x[0])); return; }
    }
    if((O == ADD || O == SUB || O == MUL) && t.l > -INF && t.u < INF && u.l > -INF && u.u < INF){
        I mn = INF, mx = -INF, x[2];
        for(I a : {t.l, t.u}) for(I b : {u.l, u.u}){ ideal(O, a, b, x); mn = std::min(mn, x[0]); mx = std::max(mx, x[0]); }
        auto tight = [&](const T & e, I v){ return fits<R>(v) ? E::known(e) && E::val(e) == v : !E::known(e) && E::side(e) == (v > 0 ? 1 : -1); };
        if(!tight(r.l, mn) || !tight(r.u, mx)) c.fail(sh(t) + " " + opname(O) + " " + sh(u) + " = " + sh(r) + ", the exact range is [" + str(mn) + "," + str(mx) + "]");
    }
} };
template<class T, int DOM> struct Pred { static void one(const I * in, Ctx & c){
    using DD = D<T, DOM>; using E = el<T>;
    const Iv t = DD::ivs()[(size_t)in[0]], u = DD::ivs()[(size_t)in[1]];
    const sn::interval<T> x = mkiv<T>(t), y = mkiv<T>(u);
    typedef boost::logic::tribool tb;
    const tb p[] = {x < y, x > y, x <= y, x >= y, x.includes(y), x.excludes(y), intersect(x, y)};
    static const char * nm[] = {"<", ">", "<=", ">=", "includes", "excludes", "intersect"};
    c.steps += 12;
    const bool inf = DD::tail(t.l, t.u) || DD::tail(u.l, u.u);
    const bool overlap = t.l <= u.u && u.l <= t.u;
    // truth: for all points / for no point
    const bool all[] = {t.u < u.l, t.l > u.u, t.u <= u.l, t.l >= u.u, t.l <= u.l && t.u >= u.u, !overlap, overlap};
    const bool none[] = {t.l >= u.u, t.u <= u.l, t.l > u.u, t.u < u.l, false, false, !overlap};
    for(int i = 0; i < 7; ++i){
        const bool ind = boost::logic::indeterminate(p[i]), tr = static_cast<bool>(p[i]);
        c.out(ind ? 13 : tr ? 11 : 12);
        const bool fin = !E::cr || (t.l > -INF && t.u < INF && u.l > -INF && u.u < INF);
        if(ind){ if(fin && i >= 4) c.fail(sh(t) + " " + nm[i] + " " + sh(u) + " is indeterminate"); continue; }
        if(inf && i >= 4) continue;      // both beyond the limit: nothing is known about their relation
        if(tr ? !all[i] : i < 4 || i == 6 ? !none[i] : all[i]) c.fail(sh(t) + " " + nm[i] + " " + sh(u) + " is " + (tr ? "true" : "false"));
        // both must be found when they hold for all points and touch nothing
        if(fin && (i == 0 || i == 1) && all[i] && !tr) c.fail(sh(t) + " " + nm[i] + " " + sh(u) + " is false");
    }
    const bool same = t.l == u.l && t.u == u.u, eq = x == y;
    if((x != y) == eq || (eq && !same)) c.fail("== / != of " + sh(t) + " and " + sh(u));
    if(!E::cr || (t.l > -INF && t.u < INF && u.l > -INF && u.u < INF)){
        if(eq != same) c.fail("== / != of " + sh(t) + " and " + sh(u));
        for(int i = 0; i < 4; ++i) if(boost::logic::indeterminate(p[i]) && (t.u < u.l || t.l > u.u)) c.fail(sh(t) + " " + nm[i] + " " + sh(u) + " is indeterminate");
    }
    // union and intersection
    const sn::interval<T> un = x | y, is = x & y;
    for(I a : DD::points((size_t)in[0])) if(!encloses(un, a)) c.fail(sh(t) + " | " + sh(u) + " = " + sh(un) + " does not contain " + str(a));
    for(I a : DD::points((size_t)in[1])){
        if(!encloses(un, a)) c.fail(sh(t) + " | " + sh(u) + " = " + sh(un) + " does not contain " + str(a));
        if(a >= t.l && a <= t.u && !encloses(is, a)) c.fail(sh(t) + " & " + sh(u) + " = " + sh(is) + " does not contain " + str(a));
    }
    if(t.l > -INF && t.u < INF && u.l > -INF && u.u < INF){
        if(E::val(un.l) != std::min(t.l, u.l) || E::val(un.u) != std::max(t.u, u.u)) c.fail(sh(t) + " | " + sh(u) + " = " + sh(un));
        if(overlap && (E::val(is.l) != std::max(t.l, u.l) || E::val(is.u) != std::min(t.u, u.u))) c.fail(sh(t) + " & " + sh(u) + " = " + sh(is));
    }
} };
template<class T, int DOM> struct Pt { static void one(const I * in, Ctx & c){
    using DD = D<T, DOM>;
    const Iv t = DD::ivs()[(size_t)in[0]]; const I v = in[1];
    if(DD::tail(t.l, t.u)) return;
    const sn::interval<T> x = mkiv<T>(t);
    const boost::logic::tribool i = x.includes(el<T>::make(v)), e = x.excludes(el<T>::make(v));
    c.steps += 2;
    const bool in_ = v >= t.l && v <= t.u;
    c.out(boost::logic::indeterminate(i) ? 13 : in_ ? 11 : 12);
    if(v < INF && v > -INF && (boost::logic::indeterminate(i) || boost::logic::indeterminate(e))) c.fail(sh(t) + " includes/excludes " + str(v) + " is indeterminate");
    if(!boost::logic::indeterminate(i) && static_cast<bool>(i) != in_) c.fail(sh(t) + " includes " + str(v) + " is wrong");
    if(!boost::logic::indeterminate(e) && static_cast<bool>(e) == in_) c.fail(sh(t) + " excludes " + str(v) + " is wrong");
} };
template<class T> void facts_(const I *, Ctx & c){
    ++c.steps; c.out(23);
    const sn::interval<T> d; const sn::interval<T> m = sn::make_interval<T>(), m2 = sn::make_interval(T());
    for(const sn::interval<T> * x : {&d, &m, &m2})
        if(!(x->l == std::numeric_limits<T>::lowest()) || !(x->u == std::numeric_limits<T>::max())) c.fail("the default interval is not the range of the type");
    const sn::interval<T> p(std::pair<T, T>(T(1), T(5)));
    if(!(p.l == T(1) && p.u == T(5))) c.fail("construction from a pair");
}
template<class T, class S> void conv(const I * in, Ctx & c){      // interval<S> -> interval<checked_result<T>> / interval<T>
    ++c.steps; c.out(23);
    const Iv t = D<S, 1>::ivs()[(size_t)in[0]];
    if(!fits<T>(t.l) || !fits<T>(t.u)) return;
    const sn::interval<sn::checked_result<T>> r(mkiv<S>(t));
    for(I a : D<S, 1>::points((size_t)in[0])) if(!encloses(r, a)) c.fail(sh(t) + " converted to " + sh(r) + " loses " + str(a));
}
// "[l,u]", the limits as numbers for every integer type but char and wchar_t
template<class T> void prt(const I * in, Ctx & c){
    c.steps += 2; c.out(20);
    const Iv t{std::min(in[0], in[1]), std::max(in[0], in[1])};
    const std::string e = "[" + str(t.l) + "," + str(t.u) + "]";
    std::ostringstream os; std::wostringstream ws; os << mkiv<T>(t) << mkiv<T>(t); ws << mkiv<T>(t);
    if(os.str() != e + e || ws.str() != std::wstring(e.begin(), e.end())) c.fail("the interval " + e + " is shown as " + os.str());
}
template<class V> Space iota(size_t n){ std::vector<I> v; for(size_t i = 0; i < n; ++i) v.push_back((I)i); return std::make_shared<const std::vector<I>>(v); }
template<class T> std::string nm(){ return (el<T>::cr ? "cr " : "") + std::string(tname<typename el<T>::R>()); }
template<class T, int DOM> struct ForOp { template<class O> static void run(){
    if constexpr(O::value <= SHR){
        Space s = iota<T>(D<T, DOM>::ivs().size());
        add("interval " + std::string(opname(O::value)) + " " + nm<T>() + (DOM ? " wide" : " small"), {s, s}, &Bin<T, DOM, O::value>::one);
    }
} };
template<class T, int DOM> void dom(){
    all<ForOp<T, DOM>>(Ops());
    Space s = iota<T>(D<T, DOM>::ivs().size());
    add("interval predicates " + nm<T>() + (DOM ? " wide" : " small"), {s, s}, &Pred<T, DOM>::one);
    add("interval points " + nm<T>() + (DOM ? " wide" : " small"), {s, std::make_shared<const std::vector<I>>(D<T, DOM>::ends())}, &Pt<T, DOM>::one);
}
struct All { template<class T> static void run(){
    dom<T, 0>(); dom<T, 1>();
    if constexpr(!el<T>::cr){ add("interval facts " + nm<T>(), {}, &facts_<T>); }
} };
struct Pr { template<class T> static void run(){ Space s = alphabet(lo<T>(), hi<T>(), 1, 1 << 8); add("interval print " + std::string(tname<T>()), {s, s}, &prt<T>); } };
struct Fl { template<class T> static void run(){ add(std::string("interval facts float") + std::to_string(sizeof(T)), {}, &facts_<T>); } };
struct Cv { template<class T, class S> static void run(){ add("interval conversion " + nm<S>() + " " + nm<T>(), {iota<S>(D<S, 1>::ivs().size())}, &conv<T, S>); } };
template<class R> using CR = sn::checked_result<R>;
using Types = L<CR<std::int8_t>, CR<std::uint8_t>, int, unsigned, std::int64_t, std::uint64_t, CR<int>, CR<unsigned>, CR<std::int64_t>, CR<std::uint64_t>>;
}
void mc::setup(){ each<All, Types>(); each<Fl, L<float, double>>(); each2<Cv, Ints8, Ints8>(); each<Pr, Ints8>(); }
MC_MAIN
