// safe_compare on every pair of built-in integer types.
#include "safe.hpp"
#include <boost/safe_numerics/safe_compare.hpp>
using namespace mc;
namespace {
namespace sc = sn::safe_compare;
using Types = cat_tt<IntsAll, L<bool, wchar_t, char16_t, char32_t>>;

template<class T, class U> struct P {
    static void one(const I * in, Ctx & c){
        const T t = (T)in[0]; const U u = (U)in[1];
        const bool lt = sc::less_than(t, u), gt = sc::greater_than(t, u), le = sc::less_than_equal(t, u), ge = sc::greater_than_equal(t, u),
            eq = sc::equal(t, u), ne = sc::not_equal(t, u);
        c.steps += 6;
        c.out(lt ? 11 : 12);
        if(lt != (in[0] < in[1])) c.fail("less_than returned " + std::to_string(lt));
        if(gt != (in[0] > in[1])) c.fail("greater_than returned " + std::to_string(gt));
        if(le != (in[0] <= in[1])) c.fail("less_than_equal returned " + std::to_string(le));
        if(ge != (in[0] >= in[1])) c.fail("greater_than_equal returned " + std::to_string(ge));
        if(eq != (in[0] == in[1])) c.fail("equal returned " + std::to_string(eq));
        if(ne != (in[0] != in[1])) c.fail("not_equal returned " + std::to_string(ne));
    }
    // besides the alphabets: the same value and its neighbours, and the values with the same bit pattern
    static void near(const I * in, std::vector<I> & out){
        for(int k : {0, 8, 16, 32, 64}) for(int s : {-1, 1}) for(int e = -1; e <= 1; ++e){
            I x = in[0] + (k ? s * ((I)1 << k) : 0) + e;
            if(fits<U>(x)) out.push_back(x);
            if(fits<U>(-x)) out.push_back(-x);
        }
    }
};
struct Pair { template<class T, class U> static void run(){
    std::string n = std::string(tname<T>()) + "." + tname<U>();
    const I full = 1 << 16;
    Space s = alpha<T>(2), u = alpha<U>(2);
    add(n, {s, u}, &P<T, U>::one, &P<T, U>::near);
#ifndef MC_UB
    if(sizeof(T) == 2 || (thorough() && sizeof(T) <= 2)) add(n + ".every", {alphabet(lo<T>(), hi<T>(), 2, full), thorough() ? alphabet(lo<U>(), hi<U>(), 2, full) : alpha<U>(0)}, &P<T, U>::one, &P<T, U>::near);
    if(sizeof(U) == 2) add(n + ".every2", {thorough() ? u : alpha<T>(0), alphabet(lo<U>(), hi<U>(), 2, full)}, &P<T, U>::one);
#endif
} };
}
void mc::setup(){ each2<Pair, Types, Types>(); }
MC_MAIN
