// checked_result<R> operators as arithmetic on extended integers: the values of R, below-minimum (minus infinity),
// above-maximum (plus infinity) and indeterminate.  An infinity stands for every integer of sufficiently large magnitude.
#include "safe.hpp"
using namespace mc;
namespace {
typedef sn::safe_numerics_error Er;
// element encoding: a value of R, or CODE + error code
const I CODE = (I)1 << 80;
const int NCODES = 11;
template<class R> sn::checked_result<R> el(I x){
    if(x >= CODE) return sn::checked_result<R>(static_cast<Er>((int)(x - CODE)), "mc");
    return sn::checked_result<R>((R)x);
}
enum Kind { KNOWN, BELOW, ABOVE, INDET };
Kind kind(I x){ if(x < CODE) return KNOWN; int c = (int)(x - CODE); return c == 2 ? BELOW : c == 1 ? ABOVE : INDET; }
template<class R> bool in_gamma(const sn::checked_result<R> & r, I x){    // may r stand for the integer x?
    const Er e = r;
    if(!r.exception()) return (I)static_cast<R>(r) == x;
    if(e == Er::negative_overflow_error) return x < lo<R>();
    if(e == Er::positive_overflow_error) return x > hi<R>();
    return true;
}
template<class R> std::string sh(const sn::checked_result<R> & r){
    const Er e = r;
    return r.exception() ? std::string("error ") + oc_name[(int)e] : "value " + str((I)static_cast<R>(r));
}
// representatives of what an element stands for
template<class R> const std::vector<I> & gamma(I x){
    static std::vector<I> one(1), below, above, any;
    if(below.empty()){
        const int k = 90;
        for(I b : {(I)1 << k, ((I)1 << k) * 3, (I)1 << (k + 7), (I)1 << (k + 20)}) for(int e = -6; e <= 6; ++e){ above.push_back(b + e); below.push_back(-b + e); }
        any = *alphabet(lo<R>(), hi<R>(), 0, 0);
        for(I v : {above[0], above[1], above[20], below[0], below[1], below[20]}) any.push_back(v);
        for(I v : {hi<R>() + 1, lo<R>() - 1, hi<R>() + 2}) any.push_back(v);
    }
    switch(kind(x)){
    case KNOWN: one[0] = x; return one;
    case BELOW: return below;
    case ABOVE: return above;
    default: return any;
    }
}
// the ideal operation; n results (shifts of negative values may round either way); 0 = undefined
int ideal(Op o, I a, I b, I r[2]){
    const I big = (I)1 << 80;      // larger magnitudes stand for an infinity
    const bool ainf = a > big || a < -big, binf = b > big || b < -big;
    switch(o){
    case ADD: r[0] = a + b; return 1;
    case SUB: r[0] = a - b; return 1;
    case MUL: r[0] = exact_mul(a, b); return 1;
    case DIV: if(b == 0) return 0; r[0] = ainf && !binf ? ((a < 0) == (b < 0) ? (I)1 << 126 : -((I)1 << 126)) : a / b; return 1;
    case MOD: if(b == 0) return 0; r[0] = a % b; return 1;
    case SHL: case SHR: {
        const bool left = (o == SHL) == (b >= 0);
        I n = b < 0 ? -b : b;
        if(left){ r[0] = exact_shl(a, n); return 1; }
        if(ainf && !binf){      // an infinity stays one, whatever the count
            r[0] = a > 0 ? (I)1 << 126 : -((I)1 << 126); return 1; }
        if(n > 120){ r[0] = 0; r[1] = a < 0 ? -1 : 0; return 2; }
        r[0] = a / ((I)1 << (int)n); r[1] = floor_shr(a, n); return 2; }
    default: return 0;
    }
}
template<class R, Op O> struct Bin {
    // the cells of the tables which are listed in known_findings.txt, with exactly the result they give today
    static std::string finding(I t, I u, const sn::checked_result<R> & r){
        if(O == DIV && kind(t) != kind(u) && kind(t) != KNOWN && kind(u) != KNOWN && static_cast<Er>(r) == Er::negative_overflow_error)
            return "opposite overflows div: negative overflow";
        if(O == MOD && (kind(t) == ABOVE || kind(t) == BELOW) && kind(u) == KNOWN){
            const I v = kind(t) == ABOVE ? u - 1 : 1 - u;
            if(fits<R>(v) ? !r.exception() && (I)static_cast<R>(r) == v : static_cast<Er>(r) == (v > 0 ? Er::positive_overflow_error : Er::negative_overflow_error))
                return kind(t) == ABOVE ? "overflow mod known: known - 1" : "negative overflow mod known: 1 - known";
        }
        return "";
    }
    static void one(const I * in, Ctx & c){
        const sn::checked_result<R> t = el<R>(in[0]), u = el<R>(in[1]);
        ++c.steps;
        const sn::checked_result<R> r = OpF<O>::ap(t, u);
        const Er e = r;
        c.out(r.exception() ? (int)e : 0);
        if(r.exception() != (e != Er::success)) c.fail("exception() and the error code disagree");
        if constexpr(O == AND || O == OR || O == XOR){
            if(kind(in[0]) == KNOWN && kind(in[1]) == KNOWN){
                I x = O == AND ? (I)(R)((R)in[0] & (R)in[1]) : O == OR ? (I)(R)((R)in[0] | (R)in[1]) : (I)(R)((R)in[0] ^ (R)in[1]);
                if(r.exception() || (I)static_cast<R>(r) != x) c.fail("got " + sh(r) + ", expected value " + str(x));
            } else if(!r.exception()) c.fail("got " + sh(r) + " from an operand in error");
            return;
        }
        if(kind(in[0]) == KNOWN && kind(in[1]) == KNOWN){
            I x[2]; int n = ideal(O, in[0], in[1], x);
            if(n == 0){ if(!r.exception()) c.fail("got " + sh(r) + " for an undefined operation"); return; }
            bool ok = false;
            for(int i = 0; i < n; ++i){
                if(fits<R>(x[i])) ok |= !r.exception() && (I)static_cast<R>(r) == x[i];
                else ok |= x[i] > hi<R>() ? e == Er::positive_overflow_error : e == Er::negative_overflow_error;
            }
            if(!ok) c.fail("got " + sh(r) + ", the exact result is " + str(x[0]));
            return;
        }
        // copies: gamma() shares its buffer for known values
        const std::vector<I> ga = gamma<R>(in[0]), gb = gamma<R>(in[1]);
        for(I a : ga) for(I b : gb){
            I x[2]; int n = ideal(O, a, b, x);
            bool ok = n == 0;
            for(int i = 0; i < n; ++i) ok |= in_gamma(r, x[i]);
            if(!ok){ c.fail("got " + sh(r) + ", but " + str(a) + " " + opname(O) + " " + str(b) + " = " + str(x[0]), finding(in[0], in[1], r)); return; }
        }
    }
};
template<class R> struct Cmp {
    static void one(const I * in, Ctx & c){
        const sn::checked_result<R> t = el<R>(in[0]), u = el<R>(in[1]);
        const boost::logic::tribool v[6] = {t < u, t > u, t <= u, t >= u, t == u, t != u};
        static const char * nm[] = {"<", ">", "<=", ">=", "==", "!="};
        c.steps += 6;
        const bool kn = kind(in[0]) == KNOWN && kind(in[1]) == KNOWN;
        const std::vector<I> ga = gamma<R>(in[0]), gb = gamma<R>(in[1]);
        for(int i = 0; i < 6; ++i){
            const bool ind = boost::logic::indeterminate(v[i]), tr = static_cast<bool>(v[i]);
            c.out(ind ? 13 : tr ? 11 : 12);
            if(kn && ind){ c.fail(std::string(nm[i]) + " of two known values is indeterminate"); continue; }
            if(ind) continue;
            for(I a : ga) for(I b : gb){
                bool x = i == 0 ? a < b : i == 1 ? a > b : i == 2 ? a <= b : i == 3 ? a >= b : i == 4 ? a == b : a != b;
                if(x != tr){ c.fail(std::string(nm[i]) + " is " + (tr ? "true" : "false") + " but not for " + str(a) + ", " + str(b)); goto next; }
            }
            next:;
        }
    }
};
template<class R> struct Un {
    static void one(const I * in, Ctx & c){
        const sn::checked_result<R> t = el<R>(in[0]);
        c.steps += 3;
        const sn::checked_result<R> p = +t, m = -t, n = ~t;
        const std::vector<I> g = gamma<R>(in[0]);
        for(I a : g){
            if(!in_gamma(p, a)) c.fail("unary + gave " + sh(p));
            if(!in_gamma(m, -a)) c.fail("unary - gave " + sh(m));
        }
        if(kind(in[0]) == KNOWN){
            if(p.exception()) c.fail("unary + of a known value gave " + sh(p));
            if(m.exception() && fits<R>(-in[0])) c.fail("unary - gave " + sh(m));
            if(n.exception() || (I)static_cast<R>(n) != (I)(R)~(R)in[0]) c.fail("~ gave " + sh(n));
            // accessors
            if(t.exception() || static_cast<Er>(t) != Er::success || (I)static_cast<R>(t) != in[0]) c.fail("accessors of a known value");
        } else {
            if(!n.exception()) c.fail("~ of an operand in error gave " + sh(n));
            if(!t.exception() || (int)static_cast<Er>(t) != (int)(in[0] - CODE) || std::string(static_cast<const char *>(t)) != "mc") c.fail("accessors of an error");
        }
        c.out(p.exception() ? 17 : 0);
    }
};
template<class R> Space elements(I full){
    std::vector<I> v = *alphabet(lo<R>(), hi<R>(), full ? 2 : 1, full);
    for(int e = 1; e < NCODES; ++e) v.push_back(CODE + e);
    return std::make_shared<const std::vector<I>>(v);
}
template<class R> struct ForOp { template<class O> static void run(){
    Space s = elements<R>(thorough() && sizeof(R) > 1 ? 1 << 10 : 256);
    add(std::string("cr ") + opname(O::value) + " " + tname<R>(), {s, s}, &Bin<R, O::value>::one, &partners<R>);
} };
struct All { template<class R> static void run(){
    all<ForOp<R>>(Ops());
    Space s = elements<R>(256);
    add(std::string("cr compare ") + tname<R>(), {s, s}, &Cmp<R>::one);
    add(std::string("cr unary ") + tname<R>(), {s}, &Un<R>::one);
} };
// conversion between element types: the value is kept when it is representable, errors are kept
template<class R, class T> struct Conv { static void one(const I * in, Ctx & c){
    const sn::checked_result<T> t = el<T>(in[0]); ++c.steps;
    const sn::checked_result<R> r(t);
    c.out(r.exception() ? 17 : 0);
    if(kind(in[0]) != KNOWN){ if(!r.exception() || static_cast<Er>(r) != static_cast<Er>(t)) c.fail("conversion lost the error: " + sh(r)); return; }
    if(fits<R>(in[0]) && (r.exception() || (I)static_cast<R>(r) != in[0])) c.fail("conversion gave " + sh(r));
} };
struct Convs { template<class R, class T> static void run(){ add(std::string("cr conv ") + tname<T>() + " " + tname<R>(), {elements<T>(256)}, &Conv<R, T>::one); } };
}
void mc::setup(){ each<All, IntsAll>(); each2<Convs, Ints8, Ints8>(); }
MC_MAIN
