// Statements over two safe variables: breadth-first exploration of all reachable variable states, every
// statement executed in every state on the real types and on ideal integers.
#include "model.hpp"
#include <deque>
#include <unordered_map>
using namespace mc;
namespace {
using EP = sn::default_exception_policy;
template<class S> constexpr bool isauto(){ return std::is_same<typename sn::get_promotion_policy<S>::type, sn::automatic>::value; }

template<class A, class B> struct M {
    static constexpr bool AU = isauto<A>();
    using ID = Ideal<AU>;
    struct Stmt {
        const char * name;
        void (*real)(A & a, B & b, Ctx & c);            // may throw
        int (*model)(I & a, I & b);                     // OK, ERR (a, b unchanged), MAYBE
    };
    static V va(I a){ return ID::con(a, ct<base_t<A>>()); }
    static V vb(I b){ return ID::con(b, ct<base_t<B>>()); }
    static V k(I x){ return ID::con(x, CT{32, true}); }
    static V k64(I x){ return ID::con(x, CT{64, true}); }
    static V ku64(I x){ return ID::con(x, CT{64, false}); }
    static V k8(I x){ return ID::con(x, CT{8, true}); }
    static V ku8(I x){ return ID::con(x, CT{8, false}); }
    static int setA(I & a, V x){ if(x.st == ERR || x.v < slo<A>() || x.v > shi<A>()) return ERR; a = x.v; return x.st; }
    static int setB(I & b, V x){ if(x.st == ERR || x.v < slo<B>() || x.v > shi<B>()) return ERR; b = x.v; return x.st; }
    static std::vector<Stmt> stmts(){
        std::vector<Stmt> s;
#define ST(NAME, REAL, ...) s.push_back(Stmt{NAME, [](A & a, B & b, Ctx & c){ (void)a; (void)b; (void)c; REAL; }, [](I & a, I & b) -> int { (void)a; (void)b; __VA_ARGS__; }});
        ST("a = b", a = b, return setA(a, vb(b)))
        ST("b = a", b = a, return setB(b, va(a)))
        ST("a = A(b)", a = A(b), return setA(a, vb(b)))
#define CA(SYM, O) \
        ST("a " #SYM "= b", { A & r = (a SYM##= b); if(&r != &a) c.fail("op= does not return its left operand"); }, return setA(a, ID::op(O, va(a), vb(b)))) \
        ST("b " #SYM "= a", { B & r = (b SYM##= a); if(&r != &b) c.fail("op= does not return its left operand"); }, return setB(b, ID::op(O, vb(b), va(a)))) \
        ST("a " #SYM "= a", a SYM##= a, return setA(a, ID::op(O, va(a), va(a)))) \
        ST("a = a " #SYM " b", a = a SYM b, return setA(a, ID::op(O, va(a), vb(b)))) \
        ST("a " #SYM "= 3", { A & r = (a SYM##= 3); if(&r != &a) c.fail("op= does not return its left operand"); }, return setA(a, ID::op(O, va(a), k(3)))) \
        ST("b = 2 " #SYM " b", b = 2 SYM b, return setB(b, ID::op(O, k(2), vb(b))))
        CA(+, ADD) CA(-, SUB) CA(*, MUL) CA(/, DIV) CA(%, MOD) CA(<<, SHL) CA(>>, SHR)
        if constexpr(!AU){ CA(&, AND) CA(|, OR) CA(^, XOR)
            ST("a = ~b", a = ~b, return setA(a, ID::inv(vb(b))))
            ST("b = ~b", b = ~b, return setB(b, ID::inv(vb(b)))) }
        ST("++a", { A & r = ++a; if(&r != &a) c.fail("++a does not return a"); }, return setA(a, ID::op(ADD, va(a), k(1))))
        ST("--a", { A & r = --a; if(&r != &a) c.fail("--a does not return a"); }, return setA(a, ID::op(SUB, va(a), k(1))))
        ST("++b", { B & r = ++b; if(&r != &b) c.fail("++b does not return b"); }, return setB(b, ID::op(ADD, vb(b), k(1))))
        ST("--b", { B & r = --b; if(&r != &b) c.fail("--b does not return b"); }, return setB(b, ID::op(SUB, vb(b), k(1))))
        ST("a++", { I o = raw(a); A r = a++; if(raw(r) != o) c.fail("a++ does not return the old value"); }, return setA(a, ID::op(ADD, va(a), k(1))))
        ST("a--", { I o = raw(a); A r = a--; if(raw(r) != o) c.fail("a-- does not return the old value"); }, return setA(a, ID::op(SUB, va(a), k(1))))
        ST("b++", { I o = raw(b); B r = b++; if(raw(r) != o) c.fail("b++ does not return the old value"); }, return setB(b, ID::op(ADD, vb(b), k(1))))
        ST("b--", { I o = raw(b); B r = b--; if(raw(r) != o) c.fail("b-- does not return the old value"); }, return setB(b, ID::op(SUB, vb(b), k(1))))
        ST("a = -b", a = -b, return setA(a, ID::neg(vb(b))))
        ST("b = -b", b = -b, return setB(b, ID::neg(vb(b))))
        ST("a = +a", a = +a, return setA(a, va(a)))
        ST("a = a * b + 1", a = a * b + 1, return setA(a, ID::op(ADD, ID::op(MUL, va(a), vb(b)), k(1))))
        ST("b = (a + b) / 2", b = (a + b) / 2, return setB(b, ID::op(DIV, ID::op(ADD, va(a), vb(b)), k(2))))
        ST("a -= -b", a -= -b, return setA(a, ID::op(SUB, va(a), ID::neg(vb(b)))))
        ST("a = (a - b) % 7", a = (a - b) % 7, return setA(a, ID::op(MOD, ID::op(SUB, va(a), vb(b)), k(7))))
        ST("b = 100 / (a - b)", b = 100 / (a - b), return setB(b, ID::op(DIV, k(100), ID::op(SUB, va(a), vb(b)))))
        ST("a = a << 2 >> 1", a = (a << 2) >> 1, return setA(a, ID::op(SHR, ID::op(SHL, va(a), k(2)), k(1))))
        ST("a = 300", a = 300, return setA(a, k(300)))
        ST("a = -1", a = -1, return setA(a, k(-1)))
        ST("b = 7", b = 7, return setB(b, k(7)))
        ST("b = 1000000000000", b = 1000000000000ll, return setB(b, k64(1000000000000ll)))
        ST("a = 0xffffffffffffffff", a = (std::uint64_t)-1, return setA(a, ku64(((I)1 << 64) - 1)))
        ST("a += (int8_t)-5", a += (std::int8_t)-5, return setA(a, ID::op(ADD, va(a), k8(-5))))
        ST("a -= (uint8_t)200", a -= (std::uint8_t)200, return setA(a, ID::op(SUB, va(a), ku8(200))))
        ST("b *= (int64_t)-1", b *= (std::int64_t)-1, return setB(b, ID::op(MUL, vb(b), k64(-1))))
        ST("b += (uint64_t)2", b += (std::uint64_t)2, return setB(b, ID::op(ADD, vb(b), ku64(2))))
        ST("a += literal 4", a += sn::safe_signed_literal<4>(), return setA(a, ID::op(ADD, va(a), k8(4))))
        ST("b = literal 9", b = sn::safe_unsigned_literal<9>(), return setB(b, ku8(9)))
        ST("b -= literal 2", b -= sn::safe_unsigned_literal<2>(), return setB(b, ID::op(SUB, vb(b), ku8(2))))
        ST("a = b < a ? 1 : 2", a = b < a ? 1 : 2, { CT r = AU ? CT{64, va(a).t.sg || vb(b).t.sg} : Machine<LP64>::common(va(a).t, vb(b).t);
            bool ok = r.holds(a) && r.holds(b); int s = setA(a, k(b < a ? 1 : 2)); return s == ERR ? ERR : ok ? OK : MAYBE; })
        ST("a max", a = std::numeric_limits<A>::max(), return setA(a, va(shi<A>())))
        ST("b min", b = std::numeric_limits<B>::min(), return setB(b, vb(slo<B>())))
        if constexpr(std::is_same<A, B>::value) ST("swap(a,b)", std::swap(a, b), { std::swap(a, b); return OK; })
        return s;
    }
    // executes statement k in state (a0,b0); returns the state reached
    static void step(Ctx & c, const Stmt & s, I a0, I b0, I & a1, I & b1){
        A a = mk<A>(a0); B b = mk<B>(b0);
        ++c.steps;
        I ma = a0, mb = b0;
        const int m = s.model(ma, mb);
        Obs o = observe([&]{ s.real(a, b, c); return (I)0; });
        a1 = raw(a); b1 = raw(b);
        auto st = [](I x, I y){ return "(" + str(x) + "," + str(y) + ")"; };
        if(o.kind == 0){
            c.out(m == MAYBE ? 15 : 23);
            if(m == ERR) c.fail(std::string(s.name) + " in " + st(a0, b0) + " gave " + st(a1, b1) + " instead of an error");
            else if(a1 != ma || b1 != mb) c.fail(std::string(s.name) + " in " + st(a0, b0) + " gave " + st(a1, b1) + ", expected " + st(ma, mb));
        } else {
            c.out(m == MAYBE ? 16 : 22);
            if(o.kind == 2) c.fail(std::string(s.name) + ": foreign exception");
            if(m == OK) c.fail(std::string(s.name) + " in " + st(a0, b0) + " threw " + show(o) + ", expected " + st(ma, mb));
            if(a1 != a0 || b1 != b0) c.fail(std::string(s.name) + " in " + st(a0, b0) + " threw and left " + st(a1, b1));
        }
    }
    static const std::vector<Stmt> & ss(){ static const std::vector<Stmt> s = stmts(); return s; }
    static void one(const I * in, Ctx & c){ I x, y; step(c, ss()[(size_t)in[2]], in[0], in[1], x, y); }
    static void bfs(Ctx & c){
        std::set<std::pair<I, I>> seen; std::deque<std::pair<std::pair<I, I>, int>> q;
        auto push = [&](I a, I b, int d){ if(a >= slo<A>() && a <= shi<A>() && b >= slo<B>() && b <= shi<B>() && seen.insert({a, b}).second) q.push_back({{a, b}, d}); };
        const bool small = shi<A>() - slo<A>() < 1024 && shi<B>() - slo<B>() < 1024;
        // small: the full reachable state space. Otherwise all histories of length <= depth + 1 from the seeds
        const int depth = small ? 1 << 30 : 2;
        std::vector<I> sa{slo<A>(), 0, shi<A>()}, sb{slo<B>(), 0, shi<B>()};
        if(thorough()) for(I x : {(I)1, (I)-1, (I)2, (I)100, (I)-77}){ sa.push_back(x); sb.push_back(x); }
        for(I a : sa) for(I b : sb) push(a, b, 0);
        c.n = 3;
        while(!q.empty()){
            auto f = q.front(); q.pop_front();
            for(size_t k = 0; k < ss().size(); ++k){
                c.in[0] = f.first.first; c.in[1] = f.first.second; c.in[2] = (I)k;
                I x = 0, y = 0;
                ++c.evals; in_case() = true;
                static const Stmt * st; static I * xp, * yp; static Ctx * cp;
                st = &ss()[k]; xp = &x; yp = &y; cp = &c;
                int sg = sigsetjmp(jb(), 1);
                if(sg == 0) step(*cp, *st, cp->in[0], cp->in[1], *xp, *yp);
                else { cp->fail(std::string(st->name) + " ended in signal " + std::to_string(sg)); cp->out(60); in_case() = false; continue; }
                in_case() = false;
                if(f.second < depth) push(x, y, f.second + 1);
            }
        }
        c.states += seen.size();
    }
};
template<int K, class A, class B> void regk(){ if constexpr(K % NSHARDS == SHARD) add_bulk("machine " + sname<A>() + " " + sname<B>(), &M<A, B>::one, &M<A, B>::bfs); }
}
void mc::setup(){
    using N = R<sn::native, EP>; using U = R<sn::automatic, EP>;
    using i8 = std::int8_t; using u8 = std::uint8_t; using i16 = std::int16_t; using u16 = std::uint16_t;
    using i32 = std::int32_t; using u32 = std::uint32_t; using i64 = std::int64_t; using u64 = std::uint64_t;
    regk<0, N::f<i8>, N::f<i8>>();
    regk<1, N::f<u8>, N::f<i8>>();
    regk<2, N::f<u8>, N::f<u8>>();
    regk<3, N::s<-3, 15>, N::u<0, 10>>();
    regk<4, N::s<-100, 200>, N::f<i8>>();
    regk<5, U::f<i8>, U::f<u8>>();
    regk<6, U::s<-3, 15>, U::u<0, 10>>();
    regk<7, N::f<i32>, N::f<u32>>();
    regk<8, N::f<i64>, N::f<u64>>();
    regk<9, N::f<i16>, N::f<i64>>();
    regk<10, U::f<i32>, U::f<u32>>();
    regk<11, U::f<i64>, U::f<u64>>();
    regk<12, N::f<u16>, N::f<i32>>();
    regk<13, N::f<u64>, N::u<0, 20>>();
    regk<14, N::f<i32>, N::f<i32>>();
    regk<15, N::f<i64>, N::f<i64>>();
}
MC_MAIN
