// checked::* on built-in integers: exact result or matching error.
#include "safe.hpp"
using namespace mc;
namespace {
template<class R> Obs of(const sn::checked_result<R> & r, Ctx & c){
    ++c.steps;
    const sn::safe_numerics_error e = r;
    Obs o{0, 0, 0};
    if(r.exception() != (e != sn::safe_numerics_error::success)) c.fail("exception() and the error code disagree");
    if(r.exception()){
        o.kind = 1; o.code = (int)e;
        const char * m = r;
        if(m == nullptr || *m == 0) c.fail("error without a message");
    }
    else o.val = (I)static_cast<R>(r);
    return o;
}
template<class R> constexpr int width(){ return int(sizeof(R) * 8); }
template<class R, Op O> sn::checked_result<R> call(R t, R u){
    namespace k = sn::checked;
    if constexpr(O == ADD) return k::add<R>(t, u);
    else if constexpr(O == SUB) return k::subtract<R>(t, u);
    else if constexpr(O == MUL) return k::multiply<R>(t, u);
    else if constexpr(O == DIV) return k::divide<R>(t, u);
    else if constexpr(O == MOD) return k::modulus<R>(t, u);
    else if constexpr(O == SHL) return k::left_shift<R>(t, u);
    else if constexpr(O == SHR) return k::right_shift<R>(t, u);
    else if constexpr(O == AND) return k::bitwise_and<R>(t, u);
    else if constexpr(O == OR) return k::bitwise_or<R>(t, u);
    else return k::bitwise_xor<R>(t, u);
}
template<class R, Op O> Expect model(I t, I u){
    if constexpr(O == AND) return {VALUE, (I)(R)((R)t & (R)u), 0};
    else if constexpr(O == OR) return {VALUE, (I)(R)((R)t | (R)u), 0};
    else if constexpr(O == XOR) return {VALUE, (I)(R)((R)t ^ (R)u), 0};
    else return expect(O, t, u, lo<R>(), hi<R>(), width<R>(), true);
}
template<class R, Op O> void bin(const I * in, Ctx & c){
    judge(c, of(call<R, O>((R)in[0], (R)in[1]), c), model<R, O>(in[0], in[1]));
}
template<class R> void neg(const I * in, Ctx & c){
    I e = -in[0];
    judge(c, of(sn::checked::minus<R>((R)in[0]), c),
        fits<R>(e) ? Expect{VALUE, e, 0} : Expect{ERROR_, 0, e > hi<R>() ? E_POS : E_NEG});
}
template<class R> void inv(const I * in, Ctx & c){
    judge(c, of(sn::checked::bitwise_not<R>((R)in[0]), c), Expect{VALUE, (I)(R)~(R)in[0], 0});
}
template<class R> void cmp(const I * in, Ctx & c){
    const R t = (R)in[0], u = (R)in[1];
    auto is = [&](const sn::checked_result<bool> & r, bool e, const char * op){
        ++c.steps; c.out(e ? 11 : 12);
        if(r.exception() || static_cast<bool>(r) != e) c.fail(std::string("checked::") + op + (r.exception() ? " reports an error" : e ? " is false" : " is true"));
    };
    namespace k = sn::checked;
    is(k::less_than<R>(t, u), in[0] < in[1], "less_than"); is(k::greater_than<R>(t, u), in[0] > in[1], "greater_than");
    is(k::less_than_equal<R>(t, u), in[0] <= in[1], "less_than_equal"); is(k::greater_than_equal<R>(t, u), in[0] >= in[1], "greater_than_equal");
    is(k::equal<R>(t, u), in[0] == in[1], "equal");
}
template<class R, Op O> void all16(Ctx & c){   // every pair of a 16-bit type
    c.n = 2;
    for(I t = lo<R>(); t <= hi<R>(); ++t){
        static std::vector<I> row;
        if(row.empty()) for(I u = lo<R>(); u <= hi<R>(); ++u) row.push_back(u);
        c.in[0] = t;
        run_row(c, &bin<R, O>, row.data(), row.size());
    }
}
template<class R> struct ForOp {
    template<class O> static void run(){
        std::string n = std::string("checked.") + opname(O::value) + "." + tname<R>();
        if constexpr(sizeof(R) == 2){
            if(thorough()){ add_bulk(n, &bin<R, O::value>, &all16<R, O::value>); return; }
            Space every = alphabet(lo<R>(), hi<R>(), 1, 1 << 20), some = alphabet(lo<R>(), hi<R>(), 1);
            add(n, {every, some}, &bin<R, O::value>, &partners<R>);
            add(n + ".T", {some, every}, &bin<R, O::value>);
            return;
        }
        add(n, {alpha<R>(2), alpha<R>(2)}, &bin<R, O::value>, &partners<R>);
    }
};
struct ForT {
    template<class R, class O> static void run(){ ForOp<R>::template run<O>(); }
    template<class R> static void run(){
        std::string n = std::string("checked.");
        Space s = sizeof(R) <= 2 ? alphabet(lo<R>(), hi<R>(), 2, 1 << 20) : alpha<R>(2);
        add(n + "minus." + tname<R>(), {s}, &neg<R>);
        add(n + "not." + tname<R>(), {s}, &inv<R>);
        add(n + "compare." + tname<R>(), {alpha<R>(1), alpha<R>(1)}, &cmp<R>);
    }
};
}
void mc::setup(){ each2<ForT, IntsAll, Ops>(); each<ForT, IntsAll>(); }
MC_MAIN
