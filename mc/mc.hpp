// Bounded exhaustive exploration of the real library code.
//
// A job is a piece of real code (one template instantiation of the library) together with the finite
// space of operand tuples on which it is run; the framework enumerates the whole space, runs the code on
// each tuple, and the job's `one` function compares what it observed with the reference model.
#ifndef MC_HPP
#define MC_HPP
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

#ifndef SHARD
#define SHARD 0
#endif
#ifndef NSHARDS
#define NSHARDS 1
#endif

typedef __int128 I;
namespace mc {

inline std::string str(I v){
    if(v == 0) return "0";
    bool neg = v < 0;
    unsigned __int128 x = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string s;
    while(x){ s += char('0' + int(x % 10)); x /= 10; }
    if(neg) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
inline I parse(const std::string & s){
    bool neg = s[0] == '-';
    unsigned __int128 x = 0;
    for(size_t i = neg ? 1 : 0; i < s.size(); ++i) x = x * 10 + (s[i] - '0');
    return neg ? -(I)x : (I)x;
}
constexpr I BIG = (I)1 << 126;

// ------------------------------------------------------------------ jobs
struct Ctx;
typedef std::shared_ptr<const std::vector<I>> Space;
typedef void (*OneFn)(const I * in, Ctx & c);
typedef void (*PartnerFn)(const I * in, std::vector<I> & out);   // extra values of the last dimension
struct Job {
    std::string name;
    std::vector<Space> dims;
    OneFn one;
    PartnerFn partners;
    void (*bulk)(Ctx & c);           // alternative: enumerates itself
};
inline std::vector<Job> & jobs(){ static std::vector<Job> j; return j; }
inline void add(std::string name, std::vector<Space> dims, OneFn one, PartnerFn p = nullptr){
    jobs().push_back(Job{std::move(name), std::move(dims), one, p, nullptr});
}
inline void add_bulk(std::string name, OneFn one, void (*bulk)(Ctx &)){
    jobs().push_back(Job{std::move(name), {}, one, nullptr, bulk});
}

struct Failure { std::string key, job, inputs, msg; };
struct Ctx {
    const Job * job = nullptr;
    I in[8];
    int n = 0;
    uint64_t evals = 0, steps = 0;       // operand tuples explored / library operations executed
    uint64_t states = 0;                 // distinct (job, tuple) or machine states
    std::map<std::string, uint64_t> outcomes;
    uint64_t oc[64];
    uint64_t nfail = 0, nknown = 0;
    std::vector<Failure> fails;
    std::set<std::string> known, known_hit;
    std::vector<std::string> samples;
    bool case_failed = false;
    bool replay = false;
    Ctx(){ memset(oc, 0, sizeof oc); }
    std::string inputs() const {
        std::string s;
        for(int i = 0; i < n; ++i){ if(i) s += ","; s += str(in[i]); }
        return s;
    }
    void out(int o){ ++oc[o]; }
    void fail(const std::string & msg, std::string key = ""){
#ifdef MC_UB     // this build decides only whether undefined operations are executed
        if(msg.compare(0, 9, "undefined") != 0 && msg.compare(0, 14, "the call ended") != 0) return;
#endif
        case_failed = true;
        if(key.empty()) key = job->name + "|" + inputs();
        if(known.count(key)){ ++nknown; known_hit.insert(key); return; }
        ++nfail;
        size_t same = 0;
        for(auto & f : fails) if(f.job == job->name) ++same;
        if(same < 3 && fails.size() < 300)
            fails.push_back(Failure{key, job->name, inputs(), msg});
    }
};
inline Ctx & cx(){ static Ctx c; return c; }
inline bool & thorough(){ static bool b = false; return b; }
inline int & level(){ static int l = 1; return l; }

// ------------------------------------------------------------------ trapping crashes, hangs and UB
inline sigjmp_buf & jb(){ static sigjmp_buf b; return b; }
extern "C" inline void mc_sig(int s){ siglongjmp(jb(), s); }
inline volatile uint64_t & tick(){ static volatile uint64_t t = ~0ull; return t; }
inline volatile bool & in_case(){ static volatile bool b = false; return b; }
extern "C" inline void mc_alarm(int){
    if(!in_case()){ tick() = ~0ull; return; }
    if(tick() == cx().evals) siglongjmp(jb(), SIGVTALRM);
    tick() = cx().evals;
}
inline void install(){
    static char stack[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    for(int s : {SIGFPE, SIGSEGV, SIGBUS, SIGILL, SIGABRT}){
        struct sigaction a; memset(&a, 0, sizeof a);
        a.sa_handler = mc_sig; a.sa_flags = SA_NODEFER | SA_ONSTACK;
        sigaction(s, &a, nullptr);
    }
    struct sigaction a; memset(&a, 0, sizeof a);
    a.sa_handler = mc_alarm; a.sa_flags = SA_NODEFER | SA_RESTART;
    sigaction(SIGVTALRM, &a, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 10; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// ------------------------------------------------------------------ enumeration
inline void run_one(Ctx & c, OneFn one){
    c.case_failed = false;
    ++c.evals; ++c.states;
    in_case() = true;
    int s = sigsetjmp(jb(), 1);
    if(s == 0) one(c.in, c);
    else {
        const char * n = s == SIGFPE ? "SIGFPE" : s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT (assert)"
            : s == SIGVTALRM ? "hang (10 s of CPU without returning)" : "signal";
        c.fail(std::string("the call ended in ") + n);
        c.out(60);
    }
    in_case() = false;
}
// as run_one but with one sigsetjmp for a whole row (the last dimension)
inline void run_row(Ctx & c, OneFn one, const I * v, size_t n){
    static size_t i; static const I * vv; static size_t nn; static OneFn f;
    i = 0; vv = v; nn = n; f = one;
    int s = sigsetjmp(jb(), 1);
    if(s){
        const char * nm = s == SIGFPE ? "SIGFPE" : s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT (assert)"
            : s == SIGVTALRM ? "hang (10 s of CPU without returning)" : "signal";
        c.fail(std::string("the call ended in ") + nm);
        c.out(60);
        ++i;
    }
    in_case() = true;
    for(; i < nn; ++i){
        c.in[c.n - 1] = vv[i];
        c.case_failed = false;
        ++c.evals; ++c.states;
        f(c.in, c);
    }
    in_case() = false;
}
inline void explore(Ctx & c, const Job & j, int part, int nparts){
    c.job = &j;
    if(j.bulk){
        c.n = 0;
        int s = sigsetjmp(jb(), 1);
        if(s == 0){ in_case() = false; j.bulk(c); }
        else c.fail("the exploration ended in signal " + std::to_string(s) + " at " + c.inputs());
        return;
    }
    c.n = (int)j.dims.size();
    if(c.n == 0){ if(part == 0) run_one(c, j.one); return; }
    std::vector<size_t> ix(c.n, 0);
    for(auto & d : j.dims) if(d->empty()) return;
    std::vector<I> extra;
    for(;;){
        if((int)(ix[0] % (size_t)nparts) == part){
            for(int k = 0; k + 1 < c.n; ++k) c.in[k] = (*j.dims[k])[ix[k]];
            const std::vector<I> & last = *j.dims[c.n - 1];
            if(c.n == 1){ c.in[0] = last[ix[0]]; run_one(c, j.one); }
            else {
                run_row(c, j.one, last.data(), last.size());
                if(j.partners){
                    extra.clear();
                    j.partners(c.in, extra);
                    std::sort(extra.begin(), extra.end());
                    extra.erase(std::unique(extra.begin(), extra.end()), extra.end());
                    // keep only values not already in the (sorted) alphabet
                    std::vector<I> e2;
                    for(I v : extra) if(!std::binary_search(last.begin(), last.end(), v)) e2.push_back(v);
                    if(!e2.empty()) run_row(c, j.one, e2.data(), e2.size());
                }
            }
        }
        int k = c.n == 1 ? 0 : c.n - 2;
        for(; k >= 0; --k){ if(++ix[k] < j.dims[k]->size()) break; ix[k] = 0; }
        if(k < 0) break;
    }
}

inline std::string esc(const std::string & s){
    std::string o;
    for(unsigned char ch : s){
        if(ch == '"' || ch == '\\'){ o += '\\'; o += char(ch); }
        else if(ch < 32 || ch > 126){ char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += char(ch);
    }
    return o;
}
const char * const oc_name[64] = {
    "value","positive_overflow_error","negative_overflow_error","domain_error","range_error",
    "precision_overflow_error","underflow_error","negative_value_shift","negative_shift","shift_too_large",
    "uninitialized_value","true","false","indeterminate","other_exception","either_value","either_error",
    "ignored","handler_called","static_fact","parsed","rejected","unchanged_after_throw","state_changed",
    "compiled","not_compiled","handler_absent","handler_present"};

int main_(int argc, char ** argv);
void setup();      // provided by each check: registers jobs

inline int main_(int argc, char ** argv){
    std::string outf, replay_job, replay_in, knownf; int part = 0, nparts = 1; bool list = false, do_replay = false;
    for(int i = 1; i < argc; ++i){
        std::string a = argv[i];
        if(a == "--tier"){ thorough() = std::string(argv[++i]) == "thorough"; level() = thorough() ? 2 : 1; }
        else if(a == "--level") level() = atoi(argv[++i]);
        else if(a == "--out") outf = argv[++i];
        else if(a == "--part"){ sscanf(argv[++i], "%d/%d", &part, &nparts); }
        else if(a == "--replay"){ do_replay = true; replay_job = argv[++i]; replay_in = argv[++i]; }
        else if(a == "--known") knownf = argv[++i];
        else if(a == "--list") list = true;
    }
    Ctx & c = cx();
    if(!knownf.empty()){
        if(FILE * f = fopen(knownf.c_str(), "r")){
            char b[4096];
            while(fgets(b, sizeof b, f)){ std::string s(b); while(!s.empty() && (s.back()=='\n'||s.back()=='\r')) s.pop_back(); if(!s.empty()) c.known.insert(s); }
            fclose(f);
        }
    }
    install();
    setup();
    if(list){ for(auto & j : jobs()) printf("%s\n", j.name.c_str()); return 0; }
    if(do_replay){
        c.replay = true;
        for(auto & j : jobs()) if(j.name == replay_job){
            c.job = &j; c.n = 0;
            size_t p = 0;
            while(p < replay_in.size()){
                size_t q = replay_in.find(',', p); if(q == std::string::npos) q = replay_in.size();
                c.in[c.n++] = parse(replay_in.substr(p, q - p)); p = q + 1;
            }
            run_one(c, j.one);
            for(auto & f : c.fails) printf("REPRODUCED %s inputs=%s: %s\n", f.job.c_str(), f.inputs.c_str(), f.msg.c_str());
            if(c.fails.empty()) printf("NOT REPRODUCED %s\n", replay_job.c_str());
            return c.fails.empty() ? 0 : 1;
        }
        printf("NO SUCH JOB %s\n", replay_job.c_str());
        return 2;
    }
    for(auto & j : jobs()) explore(c, j, part, nparts);
    // samples: the first and the middle job's first tuples
    for(size_t k = 0; k < jobs().size() && c.samples.size() < 4; k += std::max<size_t>(1, jobs().size() / 3)){
        const Job & j = jobs()[k];
        std::string s = j.name;
        for(auto & d : j.dims) s += " " + str((*d)[d->size() / 3]);
        c.samples.push_back(s);
    }
    FILE * f = outf.empty() ? stdout : fopen(outf.c_str(), "w");
    fprintf(f, "{\"jobs\": %zu, \"evals\": %llu, \"steps\": %llu, \"states\": %llu, \"nfail\": %llu, \"nknown\": %llu,\n",
        jobs().size(), (unsigned long long)c.evals, (unsigned long long)c.steps, (unsigned long long)c.states,
        (unsigned long long)c.nfail, (unsigned long long)c.nknown);
    fprintf(f, " \"outcomes\": {");
    bool first = true;
    for(int i = 0; i < 64; ++i) if(c.oc[i]){
        fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", i == 60 ? "signal" : oc_name[i] ? oc_name[i] : "?", (unsigned long long)c.oc[i]); first = false; }
    for(auto & o : c.outcomes){ fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(o.first).c_str(), (unsigned long long)o.second); first = false; }
    fprintf(f, "},\n \"samples\": [");
    for(size_t i = 0; i < c.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(c.samples[i]).c_str());
    fprintf(f, "],\n \"known_hit\": [");
    first = true;
    for(auto & k : c.known_hit){ fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(k).c_str()); first = false; }
    fprintf(f, "],\n \"fails\": [");
    for(size_t i = 0; i < c.fails.size(); ++i)
        fprintf(f, "%s\n  {\"key\": \"%s\", \"job\": \"%s\", \"inputs\": \"%s\", \"msg\": \"%s\"}", i ? "," : "",
            esc(c.fails[i].key).c_str(), esc(c.fails[i].job).c_str(), esc(c.fails[i].inputs).c_str(), esc(c.fails[i].msg).c_str());
    fprintf(f, "]}\n");
    if(f != stdout) fclose(f);
    fflush(stdout);
    _exit(0);
}

// ------------------------------------------------------------------ type lists and sharding
template<class... T> struct L { static constexpr size_t n = sizeof...(T); };
template<class... A, class... B> L<A..., B...> cat_l(L<A...>, L<B...>);
template<class X, class Y> using cat_tt = decltype(cat_l(X(), Y()));
template<size_t K, class X> struct at;
template<class H, class... T> struct at<0, L<H, T...>> { using type = H; };
template<size_t K, class H, class... T> struct at<K, L<H, T...>> : at<K - 1, L<T...>> {};
template<size_t K, class X> using at_t = typename at<K, X>::type;

// F::template run<A>() for the members of a list that belong to this shard
template<class F, class LA, size_t... K> void each_(std::index_sequence<K...>){
    auto go = [](auto k){
        constexpr size_t kk = decltype(k)::value;
        if constexpr(kk % NSHARDS == SHARD) F::template run<at_t<kk, LA>>();
    };
    (go(std::integral_constant<size_t, K>()), ...);
}
template<class F, class LA> void each(){ each_<F, LA>(std::make_index_sequence<LA::n>()); }
// F::template run<A,B>() for the pairs that belong to this shard
template<class F, class LA, class LB, size_t... K> void each2_(std::index_sequence<K...>){
    auto go = [](auto k){
        constexpr size_t kk = decltype(k)::value;
        if constexpr((kk * 7 + kk / LB::n) % NSHARDS == SHARD)
            F::template run<at_t<kk / LB::n, LA>, at_t<kk % LB::n, LB>>();
    };
    (go(std::integral_constant<size_t, K>()), ...);
}
template<class F, class LA, class LB> void each2(){ each2_<F, LA, LB>(std::make_index_sequence<LA::n * LB::n>()); }
// all members, no sharding
template<class F, class... T> void all(L<T...>){ (F::template run<T>(), ...); }

using Ints8 = L<std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t>;
using IntsAll = L<std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t,
    char, long long, unsigned long long>;

template<class T> const char * tname(){
    return std::is_same<T, char>::value ? "char" : std::is_same<T, bool>::value ? "bool"
        : std::is_same<T, wchar_t>::value ? "wchar_t" : std::is_same<T, char16_t>::value ? "char16_t" : std::is_same<T, char32_t>::value ? "char32_t"
        : std::is_same<T, long long>::value ? "llong" : std::is_same<T, unsigned long long>::value ? "ullong"
        : std::is_signed<T>::value ? (sizeof(T)==1 ? "i8" : sizeof(T)==2 ? "i16" : sizeof(T)==4 ? "i32" : "i64")
        : (sizeof(T)==1 ? "u8" : sizeof(T)==2 ? "u16" : sizeof(T)==4 ? "u32" : "u64");
}
template<class T> constexpr I lo(){ return (I)std::numeric_limits<T>::min(); }
template<class T> constexpr I hi(){ return (I)std::numeric_limits<T>::max(); }
template<class T> constexpr bool fits(I v){ return v >= lo<T>() && v <= hi<T>(); }

// ------------------------------------------------------------------ value alphabets
// every value when the range has at most `full` elements, otherwise the neighbourhoods of all powers of two
// (both signs), of the limits, of decimal powers, some bit patterns and roots of the limits.
inline Space alphabet(I lo, I hi, int lev, I full = 256){
    static std::map<std::pair<std::pair<std::string, std::string>, std::pair<int, long>>, Space> cache;
    auto key = std::make_pair(std::make_pair(str(lo), str(hi)), std::make_pair(lev, (long)full));
    auto it = cache.find(key);
    if(it != cache.end()) return it->second;
    std::vector<I> v;
    if(hi - lo + 1 <= full) for(I x = lo; x <= hi; ++x) v.push_back(x);
    else {
        auto put = [&](I x){ if(x >= lo && x <= hi) v.push_back(x); };
        int d = lev >= 2 ? 2 : 1;
        for(I x = -3 - lev; x <= 5 + lev; ++x) put(x);
        for(int e = -2; e <= 2; ++e){ put(lo + e); put(hi + e); put((lo + hi) / 2 + e); }
        for(int k = 2; k <= 64; ++k){
            bool major = k == 7 || k == 8 || k == 15 || k == 16 || k == 31 || k == 32 || k == 63 || k == 64 || k == 4;
            if(lev == 0 && !major) continue;
            I p = (I)1 << k;
            int dd = major ? std::max(d, lev == 0 ? 1 : 2) : lev >= 2 ? 2 : (k % 2 == 0 || lev >= 1) ? 1 : 0;
            for(int e = -dd; e <= dd; ++e){ put(p + e); put(-p + e); }
        }
        if(lev >= 1){
            for(I p : {(I)10, (I)100, (I)1000, (I)10000, (I)1000000, (I)1000000000, (I)1000000000000ll, (I)3, (I)5, (I)7, (I)13, (I)37, (I)101, (I)257, (I)641, (I)6700417, (I)0x5555555555555555ll, (I)0x2aaaaaaaaaaaaaaall, (I)0x55555555, (I)0x2aaaaaaa, (I)0x5555, (I)0x2aaa,
                (I)46340, (I)46341, (I)65535, (I)181, (I)182, (I)255, (I)256, (I)3037000499ll, (I)3037000500ll, (I)0x123456789abcdefll, (I)0x1234567, (I)0x1234,
                (I)48, (I)99, (I)190, (I)211, (I)300, (I)777, (I)1999, (I)40000, (I)50000, (I)5000000000ll}){
                put(p); put(-p);
            }
            put(hi / 2); put(hi / 2 + 1); put(hi / 3); put(hi / 3 + 1); put(lo / 2); put(lo / 2 - 1); put(lo / 3); put(lo / 3 - 1);
            put(hi / 7); put(hi / 10); put(hi / 10 + 1); put(lo / 10); put(lo / 10 - 1); put(hi - hi / 3); put(lo - lo / 3);
        }
        if(lev >= 2) for(int k = 3; k <= 64; ++k){ I p = (I)1 << k; put(p + p / 2); put(-p - p / 2); put(p + p / 3); put(-p - p / 3); put(p - p / 4 + 1); put(p + 7); put(-p - 7);}
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    Space s = std::make_shared<const std::vector<I>>(std::move(v));
    cache[key] = s;
    return s;
}
template<class T> Space alpha(){ return alphabet(lo<T>(), hi<T>(), level()); }
template<class T> Space alpha(int lev){ return alphabet(lo<T>(), hi<T>(), lev); }

// values u in [ulo,uhi] for which t op u lands on or next to a limit of some type in play, for op in + - * / % << >>
inline void critical(I t, I ulo, I uhi, const std::vector<I> & limits, std::vector<I> & out){
    auto put = [&](I x){ if(x >= ulo && x <= uhi) out.push_back(x); };
    for(I lim : limits){
        for(int e = -1; e <= 1; ++e){
            put(lim - t + e); put(t - lim + e); put(lim + t + e);
            if(t != 0){ put(lim / t + e); put(-(lim / t) + e); }
        }
    }
    if(t > 1 || t < -1) for(int e = -1; e <= 1; ++e){ put(t + e); put(-t + e); put(t / 2 + e); put(2 * t + e); put(-(t / 2) + e); }
}
inline const std::vector<I> & std_limits(){
    static const std::vector<I> v = {-((I)1<<7), ((I)1<<7)-1, ((I)1<<8)-1, -((I)1<<15), ((I)1<<15)-1, ((I)1<<16)-1,
        -((I)1<<31), ((I)1<<31)-1, ((I)1<<32)-1, -((I)1<<63), ((I)1<<63)-1, ((I)1<<64)-1};
    return v;
}
template<class U> void partners(const I * in, std::vector<I> & out){ critical(in[0], lo<U>(), hi<U>(), std_limits(), out); }

// ------------------------------------------------------------------ reference model
enum Op { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, OR, XOR, NOPS };
constexpr inline I sat(I v){ return v > BIG ? BIG : v < -BIG ? -BIG : v; }
constexpr inline I exact_mul(I a, I b){
    I r = 0; if(__builtin_mul_overflow(a, b, &r)) return (a < 0) == (b < 0) ? BIG : -BIG;
    return sat(r);
}
constexpr inline I exact_shl(I a, I n){
    if(a == 0) return 0;
    if(n > 70) return a < 0 ? -BIG : BIG;
    return exact_mul(a, (I)1 << (int)n);
}
constexpr inline I floor_shr(I a, I n){ if(n > 120) return a < 0 ? -1 : 0; return a >> (int)n; }

// error masks: bit per safe_numerics_error value
constexpr unsigned E_POS = 1u << 1, E_NEG = 1u << 2, E_DOM = 1u << 3, E_RNG = 1u << 4, E_NVS = 1u << 7, E_NS = 1u << 8, E_STL = 1u << 9;
constexpr unsigned E_OVER = E_POS | E_NEG | E_DOM, E_SHIFT = E_NVS | E_NS | E_STL;
enum Must { VALUE, ERROR_, EITHER };
struct Expect { Must must; I val; unsigned err; };

// What t op u must do in the integer range [rmin,rmax] with `width` bits under a policy that reports everything.
// opsok: both operands are representable in the result type. For bitwise operators see bits() below.
constexpr inline Expect expect(Op op, I t, I u, I rmin, I rmax, int width, bool opsok){
    unsigned any = opsok ? 0u : E_OVER;
    I e = 0;
    switch(op){
    case ADD: e = t + u; break;
    case SUB: e = t - u; break;
    case MUL: e = exact_mul(t, u); break;
    case DIV: if(u == 0) return {ERROR_, 0, E_DOM | any}; e = t / u; break;
    case MOD: if(u == 0) return {ERROR_, 0, E_DOM | any}; e = t % u; break;
    case SHL:
        if(u < 0) return {ERROR_, 0, E_NVS | E_NS | (t < 0 ? E_SHIFT : 0) | any};
        if(t < 0){
            if(u == 0) return {EITHER, t, E_NVS | E_NS | any};
            return {ERROR_, 0, E_SHIFT | any};
        }
        if(t == 0 && u >= width) return {EITHER, 0, E_STL | any};
        if(u >= width) return {ERROR_, 0, E_STL | E_POS | any};
        e = exact_shl(t, u);
        if(e > rmax) return {ERROR_, 0, E_STL | E_POS | any};
        return {opsok ? VALUE : EITHER, e, E_STL | any};
    case SHR:
        if(u < 0) return {ERROR_, 0, E_NVS | E_NS | any};
        if(t < 0){
            if(u == 0) return {EITHER, t, E_NVS | E_NS | any};
            return {ERROR_, 0, E_SHIFT | any};
        }
        if(u >= width) return {ERROR_, 0, E_STL | any};
        e = floor_shr(t, u);
        if(e > rmax) return {ERROR_, 0, E_POS | any};
        return {opsok ? VALUE : EITHER, e, any};
    default: return {EITHER, 0, ~0u};
    }
    if(e > rmax) return {ERROR_, 0, E_POS | any};
    if(e < rmin) return {ERROR_, 0, E_NEG | any};
    return {opsok ? VALUE : EITHER, e, any};
}
inline const char * opname(Op o){ static const char * n[] = {"add","sub","mul","div","mod","shl","shr","and","or","xor"}; return n[o]; }

template<Op O> struct OpF;
#define MC_OP(NAME, SYM) template<> struct OpF<NAME> { \
    static constexpr Op id = NAME; \
    template<class A, class B> static constexpr auto ap(const A & a, const B & b) -> decltype(a SYM b) { return a SYM b; } \
    template<class A, class B> static constexpr void assign(A & a, const B & b){ a SYM##= b; } \
    template<class A, class B> static constexpr decltype(auto) assign_r(A & a, const B & b){ return (a SYM##= b); } };
MC_OP(ADD, +) MC_OP(SUB, -) MC_OP(MUL, *) MC_OP(DIV, /) MC_OP(MOD, %) MC_OP(SHL, <<) MC_OP(SHR, >>) MC_OP(AND, &) MC_OP(OR, |) MC_OP(XOR, ^)
#undef MC_OP
template<Op O> using opc = std::integral_constant<Op, O>;
using Ops = L<opc<ADD>, opc<SUB>, opc<MUL>, opc<DIV>, opc<MOD>, opc<SHL>, opc<SHR>, opc<AND>, opc<OR>, opc<XOR>>;
using ArithOps = L<opc<ADD>, opc<SUB>, opc<MUL>, opc<DIV>, opc<MOD>>;

} // mc

#ifdef MC_UB
// -fsanitize= handlers: record the first undefined operation of the current case
namespace mc { struct UbLoc { const char * file; uint32_t line, col; };
inline bool & ub_quiet(){ static bool b = false; return b; }
inline void ub(const char * kind, const UbLoc * l){
    if(!in_case() || ub_quiet()) return;
    const char * f = l && l->file ? l->file : "?";
    if(!strstr(f, "safe_numerics")){ // in the harness itself: an error of the check, not of the library
        fprintf(stderr, "MC-INTERNAL: %s in %s:%u\n", kind, f, l ? l->line : 0); return; }
    const char * b = strrchr(f, '/');
    cx().fail(std::string("undefined behaviour: ") + kind + " at " + (b ? b + 1 : f) + ":" + std::to_string(l->line));
}}
#define MC_UBH1(n, k) extern "C" inline __attribute__((used)) void __ubsan_handle_##n(void * d, uintptr_t){ mc::ub(k, (mc::UbLoc *)d); }
#define MC_UBH2(n, k) extern "C" inline __attribute__((used)) void __ubsan_handle_##n(void * d, uintptr_t, uintptr_t){ mc::ub(k, (mc::UbLoc *)d); }
MC_UBH2(add_overflow, "signed overflow in +") MC_UBH2(sub_overflow, "signed overflow in -") MC_UBH2(mul_overflow, "signed overflow in *")
MC_UBH1(negate_overflow, "signed overflow in negation") MC_UBH2(divrem_overflow, "division by zero or overflow")
MC_UBH2(shift_out_of_bounds, "invalid shift") MC_UBH1(load_invalid_value, "load of invalid value") MC_UBH1(out_of_bounds, "index out of bounds")
extern "C" inline __attribute__((used,noreturn)) void __ubsan_handle_builtin_unreachable(void * d){ mc::ub("unreachable code reached", (mc::UbLoc*)d); abort(); }
extern "C" inline __attribute__((used,noreturn)) void __ubsan_handle_missing_return(void * d){ mc::ub("missing return", (mc::UbLoc*)d); abort(); }
#endif

#define MC_MAIN int main(int c, char ** v){ return mc::main_(c, v); }
#endif
