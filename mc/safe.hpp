// Observation of safe_numerics objects through their public interface.
#ifndef MC_SAFE_HPP
#define MC_SAFE_HPP
#include "mc.hpp"
#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <boost/safe_numerics/checked_result.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/interval.hpp>
namespace sn = boost::safe_numerics;
namespace mc {
template<class S> using base_t = typename sn::base_type<typename std::decay<S>::type>::type;
template<class S> constexpr bool issafe(){ return sn::is_safe<typename std::decay<S>::type>::value; }
template<class S> constexpr I raw(const S & s){
    if constexpr(issafe<S>()) return (I)static_cast<base_t<S>>(s);
    else return (I)s;
}
// numeric_limits of a safe or built-in type, as mathematical integers
template<class S> constexpr I slo(){ return raw(std::numeric_limits<S>::min()); }
template<class S> constexpr I shi(){ return raw(std::numeric_limits<S>::max()); }
template<class S> Space salpha(int lev = -1){ return alphabet(slo<S>(), shi<S>(), lev < 0 ? level() : lev); }
template<class S> S mk(I v){
    if constexpr(std::is_empty<S>::value) return S();      // a literal
    else return S(static_cast<base_t<S>>(v));
}
template<class S> std::string sname(){
    if constexpr(issafe<S>()){
        using P = typename sn::get_promotion_policy<S>::type;
        std::string p = std::is_same<P, sn::native>::value ? "n" : std::is_same<P, sn::automatic>::value ? "a" : std::is_void<P>::value ? "lit" : "p";
        return std::string("safe") + p + "<" + tname<base_t<S>>() + ":" + str(slo<S>()) + ".." + str(shi<S>()) + ">";
    } else return tname<S>();
}
struct Obs { int kind; I val; int code; };   // kind 0 value, 1 std::system_error of the library, 2 anything else
template<class F> Obs observe(F f){
    Obs o{0, 0, 0};
    try { o.val = f(); }
    catch(const std::system_error & e){
        o.code = e.code().value();
        o.kind = (e.code().category() == sn::make_error_code(sn::safe_numerics_error::success).category()
            && o.code > 0 && o.code <= 10) ? 1 : 2;
    }
    catch(...){ o.kind = 2; }
    return o;
}
inline std::string show(const Obs & o){
    return o.kind == 0 ? "value " + str(o.val) : o.kind == 1 ? std::string("error ") + oc_name[o.code] : std::string("a foreign exception");
}
inline std::string show(const Expect & e){
    std::string s = e.must == VALUE ? "value " + str(e.val) : e.must == ERROR_ ? "error" : "value " + str(e.val) + " or error";
    if(e.must != VALUE){ s += " of {"; for(int i = 1; i < 11; ++i) if(e.err >> i & 1) s += std::string(" ") + oc_name[i]; s += " }"; }
    return s;
}
inline void judge(Ctx & c, const Obs & o, const Expect & e){
    if(o.kind == 0){
        c.out(e.must == VALUE ? 0 : 15);
        if(e.must == ERROR_ || o.val != e.val) c.fail("got " + show(o) + ", expected " + show(e));
    } else if(o.kind == 1){
        c.out(e.must == EITHER ? 16 : o.code);
        if(e.must == VALUE || !(e.err >> o.code & 1)) c.fail("got " + show(o) + ", expected " + show(e));
    } else { c.out(14); c.fail("got " + show(o) + ", expected " + show(e)); }
}
} // mc
#endif
