// Ideal integers with the C++ (or automatic) result types: the reference for statements and expressions.
#ifndef MC_MODEL_HPP
#define MC_MODEL_HPP
#include "ranges.hpp"
namespace mc {
enum St { OK = 0, ERR = 1, MAYBE = 2 };        // exact value / must be reported / exact value or a report
struct V { I v; CT t; int st; };
template<bool AUTO> struct Ideal {
    static V con(I v, CT t){ return V{v, t, OK}; }
    static V op(Op o, V a, V b){
        CT r = AUTO ? CT{64, o == SUB ? true : o == SHL || o == SHR ? a.t.sg : (a.t.sg || b.t.sg)}
            : o == SHL || o == SHR ? Machine<LP64>::promote(a.t, true) : Machine<LP64>::common(a.t, b.t, true);
        if(a.st == ERR || b.st == ERR) return V{0, r, ERR};
        int st = a.st | b.st;
        if(o == AND || o == OR || o == XOR){
            unsigned __int128 m = r.bits == 64 ? ~(uint64_t)0 : ((unsigned __int128)1 << r.bits) - 1;
            unsigned __int128 x = (unsigned __int128)a.v & m, y = (unsigned __int128)b.v & m;
            x = o == AND ? x & y : o == OR ? x | y : x ^ y;
            I v = (I)x;
            if(r.sg && v > r.hi()) v -= (I)1 << r.bits;
            return V{v, r, st};
        }
        Expect e = expect(o, a.v, b.v, r.lo(), r.hi(), r.bits, r.holds(a.v) && r.holds(b.v));
        // automatic: a shift count not below the width of the result's (possibly narrower) type may be reported
        if(AUTO && e.must == VALUE && (o == SHL || o == SHR) && b.v >= 8) e.must = EITHER;
        if(e.must == ERROR_) return V{0, r, ERR};
        return V{e.val, r, st | (e.must == EITHER ? MAYBE : OK)};
    }
    static V neg(V a){ return op(SUB, con(0, CT{32, true}), a); }
    static V inv(V a){        // native only
        CT r = Machine<LP64>::promote(a.t, true);
        return V{r.sg ? -a.v - 1 : r.hi() - a.v, r, a.st};
    }
};
} // mc
#endif
