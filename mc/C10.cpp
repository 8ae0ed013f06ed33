// Stream extraction and insertion.
#include "ranges.hpp"
#include <locale>
#include <iterator>
#include <boost/safe_numerics/range_value.hpp>
#include <sstream>
using namespace mc;
namespace {
using EP = sn::default_exception_policy;
const char alphabet_[] = {'0', '1', '2', '5', '9', '-', '+', ' ', 'x', '.'};
const int NC = 10;
// what the text denotes: the longest integer after leading white space
struct Parsed { bool ok, neg; I val; size_t end; };
Parsed parse_text(const std::string & s, size_t p = 0){
    while(p < s.size() && (s[p] == ' ' || (s[p] >= 9 && s[p] <= 13))) ++p;
    bool neg = false;
    if(p < s.size() && (s[p] == '-' || s[p] == '+')){ neg = s[p] == '-'; ++p; }
    size_t q = p; I v = 0;
    while(q < s.size() && s[q] >= '0' && s[q] <= '9'){ v = v > BIG / 16 ? v : v * 10 + (s[q] - '0'); ++q; }
    return Parsed{q > p, neg, neg ? -v : v, q};
}
template<class S> Expect model(const Parsed & p){
    const unsigned any = ~0u;
    if(!p.ok || p.val < slo<S>() || p.val > shi<S>()) return {ERROR_, 0, any};
    if(p.neg && p.val == 0 && !std::is_signed<base_t<S>>::value) return {EITHER, 0, any};   // "-0"
    return {VALUE, p.val, any};
}
template<class S, class Ch> struct Ex {
    using str_t = std::basic_string<Ch>;
    static void text(const std::string & s, Ctx & c){
        const I start = slo<S>() <= 3 && shi<S>() >= 3 ? 3 : slo<S>();
        std::basic_istringstream<Ch> is(str_t(s.begin(), s.end()));
        S x = mk<S>(start); ++c.steps;
        Obs o = observe([&]{ is >> x; return (I)0; });
        if(o.kind == 0) o.val = raw(x);
        else if(raw(x) != start) c.fail("extraction from \"" + s + "\" threw but changed the variable to " + str(raw(x)));
        Expect e = model<S>(parse_text(s));
        if(o.kind == 2 || (o.kind == 1 && e.must == VALUE) || (o.kind == 0 && (e.must == ERROR_ || o.val != e.val)))
            c.fail("extraction from \"" + s + "\": got " + show(o) + ", expected " + show(e));
        c.out(o.kind ? 21 : 20);
        if(o.kind == 0 && e.must == VALUE){             // the rest of the text is still there
            const std::string r = s.substr(parse_text(s).end);
            if(is.fail() || is.eof() != r.empty()) c.fail("state of the stream after \"" + s + "\"");
            str_t rest((std::istreambuf_iterator<Ch>(is.rdbuf())), std::istreambuf_iterator<Ch>());
            if(rest != str_t(r.begin(), r.end())) c.fail("extraction from \"" + s + "\" leaves another rest");
        }
    }
    // a stream which throws by itself
    static void mask(const I * in, Ctx & c){
        const std::string s = prefix(in[1]) + str(in[0]) + suffix(in[2]);
        const I start = slo<S>() <= 3 && shi<S>() >= 3 ? 3 : slo<S>();
        std::basic_istringstream<Ch> is(str_t(s.begin(), s.end()));
        is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        S x = mk<S>(start); ++c.steps;
        int k = 0;
        try { is >> x; } catch(const std::system_error &){ k = 1; } catch(...){ k = 2; }
        const Expect e = model<S>(parse_text(s));
        c.out(k ? 21 : 20);
        if(k == 2 || (k == 1 && e.must == VALUE) || (k == 0 && (e.must == ERROR_ || raw(x) != e.val))) c.fail("extraction from \"" + s + "\" of a stream which throws: " + (k ? "exception" : str(raw(x))));
        if(k && raw(x) != start) c.fail("extraction from \"" + s + "\" of a stream which throws changed the variable to " + str(raw(x)));
    }
    struct Group : std::numpunct<Ch> { std::string do_grouping() const override { return "\3"; } Ch do_thousands_sep() const override { return Ch('\''); } };
    static std::string decode(I k){
        std::string s; I n = 1;
        while(k >= n){ k -= n; n *= NC; s += ' '; }      // lengths 0, 1, 2, ...
        for(auto & ch : s){ ch = alphabet_[(int)(k % NC)]; k /= NC; }
        return s;
    }
    static void any(const I * in, Ctx & c){ text(decode(in[0]), c); }
    static const char * prefix(I k){ static const char * p[] = {"", " ", "\t\n", "+", "000", "  -", "\r\v\f00", "0x"}; return p[(int)k]; }
    static const char * suffix(I k){ static const char * p[] = {"", " 7", "x", "-1", ".5", ",000", "\n"}; return p[(int)k]; }
    static void number(const I * in, Ctx & c){ text(prefix(in[1]) + str(in[0]) + suffix(in[2]), c); }
    // three values one after the other; then the end of the stream; then a failed stream
    static void sequence(const I * in, Ctx & c){
        const Ch sp = ' ';
        std::basic_ostringstream<Ch> os;
        for(int i = 0; i < 3; ++i){ os << mk<S>(in[i]); if(i < 2) os << sp; }
        std::basic_istringstream<Ch> is(os.str());
        for(int i = 0; i < 3; ++i){
            S x = mk<S>(in[(i + 1) % 3]); ++c.steps;
            Obs o = observe([&]{ is >> x; return (I)0; });
            c.out(o.kind ? 21 : 20);
            if(o.kind || raw(x) != in[i]) c.fail("extraction " + std::to_string(i) + " of the values: got " + (o.kind ? show(o) : str(raw(x))));
        }
        for(int i = 0; i < 2; ++i){
            S x = mk<S>(in[0]); ++c.steps;
            Obs o = observe([&]{ is >> x; return (I)0; });
            c.out(o.kind ? 21 : 20);
            if(o.kind != 1) c.fail("extraction at the end of the stream did not throw");
            if(raw(x) != in[0]) c.fail("failed extraction changed the variable");
        }
        std::basic_istringstream<Ch> bad(os.str());
        bad.setstate(in[1] % 2 ? std::ios_base::failbit : std::ios_base::badbit);
        S x = mk<S>(in[0]); ++c.steps;
        Obs o = observe([&]{ bad >> x; return (I)0; });
        c.out(o.kind ? 21 : 20);
        if(o.kind != 1) c.fail("extraction from a failed stream did not throw");
        if(raw(x) != in[0]) c.fail("extraction from a failed stream changed the variable");
        S y = mk<S>(in[2]); std::basic_istringstream<Ch> is2(os.str());      // chained
        S z = mk<S>(in[2]); ++c.steps;
        Obs o2 = observe([&]{ is2 >> y >> z; return (I)0; });
        if(o2.kind || raw(y) != in[0] || raw(z) != in[1]) c.fail("chained extraction");
    }
    static void roundtrip(const I * in, Ctx & c){
        std::basic_ostringstream<Ch> os;
        const S s = mk<S>(in[0]); c.steps += 2;
        os << s;
        const std::string e = str(in[0]);
        if(os.str() != str_t(e.begin(), e.end())) c.fail("inserted text is not " + e);
        S x = mk<S>(slo<S>());
        std::basic_istringstream<Ch> is(os.str());
        Obs o = observe([&]{ is >> x; return (I)0; });
        c.out(o.kind ? 21 : 20);
        if(o.kind || raw(x) != in[0]) c.fail("read back: " + (o.kind ? show(o) : str(raw(x))));
    }
    // formatting flags act as on built-in integers: bases, width, fill, sign, base prefix; then read back in the same base
    static void flags(const I * in, Ctx & c){
        const S s = mk<S>(in[0]);
        const int k = (int)in[1];
        auto set = [&](std::basic_ios<Ch> & o){
            if(k % 3 == 1) o.setf(std::ios_base::hex, std::ios_base::basefield); else if(k % 3 == 2) o.setf(std::ios_base::oct, std::ios_base::basefield);
            if(k / 3 % 2) o.setf(std::ios_base::showbase);
            if(k / 24 % 2) o.setf(std::ios_base::showpos | std::ios_base::uppercase);
            if(k / 48 % 2){ static const std::locale l(std::locale::classic(), new Group); o.imbue(l); }
            if(k / 6 % 2){ o.width(14); o.fill(Ch('*')); o.setf(k / 12 % 2 ? std::ios_base::left : std::ios_base::internal, std::ios_base::adjustfield); }
        };
        if(in[0] < 0 && k % 3) return;
        std::basic_ostringstream<Ch> os, ref, alt;
        set(os); set(ref); set(alt);
        os << s; if(std::is_signed<base_t<S>>::value) ref << (long long)in[0]; else ref << (unsigned long long)in[0];
        if(std::is_signed<base_t<S>>::value || in[0] > INT32_MAX) alt << (unsigned long long)in[0]; else alt << (int)in[0];
        c.steps += 2;
        // narrow unsigned types are printed as int, which shows in the sign only
        if(os.str() != ref.str() && (std::is_signed<base_t<S>>::value || sizeof(base_t<S>) >= sizeof(int) || os.str() != alt.str())) c.fail("inserted text with flags #" + std::to_string(k) + " is not that of the built-in integer");
        if(os.width() != ref.width()) c.fail("field width remains set");
        if(k / 6 % 2) return;
        std::basic_istringstream<Ch> is(os.str() + Ch('z'));
        set(is);
        S x = mk<S>(slo<S>());
        Obs o = observe([&]{ is >> x; return (I)0; });
        c.out(o.kind ? 21 : 20);
        if(o.kind || raw(x) != in[0]) c.fail("read back with flags #" + std::to_string(k) + ": " + (o.kind ? show(o) : str(raw(x))));
    }
    // range_value: "[min,max]value"; result_display: the same in base 16, then "(value)" in base 10; the base is left decimal
    static void display(const I * in, Ctx & c){
        const S s = mk<S>(in[0]); c.steps += 3; c.out(20);
        auto wide = [](const std::string & t){ return str_t(t.begin(), t.end()); };
        const std::string lim = "[" + str(slo<S>()) + "," + str(shi<S>()) + "]";
        std::basic_ostringstream<Ch> os, hex, lit; os << make_range_value(s) << Ch(';') << make_range_value(s);
        if(os.str() != wide(lim + str(in[0]) + ";" + lim + str(in[0]))) c.fail("range_value of " + str(in[0]) + " is not shown as " + lim + str(in[0]));
        hex << make_result_display(s) << Ch(';') << 16;
        if(slo<S>() >= 0){
            lit << std::hex << Ch('[') << (unsigned long long)slo<S>() << Ch(',') << (unsigned long long)shi<S>() << Ch(']') << (unsigned long long)in[0] << Ch('(') << std::dec << (unsigned long long)in[0] << Ch(')') << Ch(';') << 16;
            if(hex.str() != lit.str()) c.fail("result_display of " + str(in[0]));
        } else { const std::string t = "(" + str(in[0]) + ");16"; const str_t w = wide(t), h = hex.str(); if(h.size() < w.size() || h.substr(h.size() - w.size()) != w) c.fail("result_display of " + str(in[0]) + " does not end with the decimal value"); }
    }
    // the same text read into a type whose policy records: one call for a rejected text, none for an accepted one
    struct Count { static int & n(){ static int v = 0; return v; } static int & code(){ static int v = 0; return v; } static bool & msg(){ static bool v = false; return v; }
        void operator()(const sn::safe_numerics_error & e, const char * m){ ++n(); code() = (int)e; msg() = m && *m; } };
    struct Never { static int & n(){ static int v = 0; return v; } void operator()(const sn::safe_numerics_error &, const char *){ ++n(); } };
    static void handlers(const I * in, Ctx & c){
        using Q = sn::safe_base<base_t<S>, (base_t<S>)slo<S>(), (base_t<S>)shi<S>(), typename sn::get_promotion_policy<S>::type, sn::exception_policy<Count, Never, Never, Never>>;
        const std::string s = prefix(in[1]) + str(in[0]) + suffix(in[2]);
        std::basic_istringstream<Ch> is(str_t(s.begin(), s.end()));
        Q x(static_cast<base_t<S>>(slo<S>())); ++c.steps;
        Count::n() = 0; Never::n() = 0; Count::msg() = false;
        is >> x;
        const Expect e = model<S>(parse_text(s));
        c.out(Count::n() ? 21 : 20);
        if(Never::n()) c.fail("extraction from \"" + s + "\" called a handler of another category");
        if(e.must == VALUE && (Count::n() || raw(x) != e.val)) c.fail("extraction from \"" + s + "\": " + std::to_string(Count::n()) + " reports, value " + str(raw(x)));
        if(e.must == ERROR_ && (Count::n() != 1 || !Count::msg())) c.fail("extraction from \"" + s + "\" gave " + std::to_string(Count::n()) + " reports" + (Count::msg() ? "" : ", no message"));
    }
    static void reg(const std::string & w){
        std::string n = w + sname<S>();
        if(std::is_same<base_t<S>, char>::value) n += "char";
        I N = 0, p = 1;
        for(int l = 0; l <= (sizeof(Ch) > 1 ? 3 : thorough() ? 7 : 6); ++l){ N += p; p *= NC; }
        add("text " + n, {alphabet(0, N - 1, 1, (I)1 << 40)}, &any);
        std::vector<I> v = *alphabet(slo<S>(), shi<S>(), 1, 300);
        for(I l : {slo<S>(), shi<S>()}) for(int e = -12; e <= 12; ++e) v.push_back(l + e);
        for(int k : {7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 120}) for(int e = -2; e <= 2; ++e){ v.push_back(((I)1 << k) + e); v.push_back(-((I)1 << k) + e); }
        for(I l : {slo<S>(), shi<S>()}) for(int k : {8, 16, 32, 64}) for(int e : {-1, 0, 1}){ v.push_back(l + ((I)1 << k) + e); v.push_back(l - ((I)1 << k) + e); }
        { I t = 1; for(int k = 0; k < 36; ++k){ for(int e = -1; e <= 1; ++e){ v.push_back(t + e); v.push_back(-t + e); } t *= 10; } }
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        Space ix8 = alphabet(0, 7, 1), ix7 = alphabet(0, 6, 1);
        add("number " + n, {std::make_shared<const std::vector<I>>(v), ix8, ix7}, &number);
        std::vector<I> few{slo<S>(), slo<S>() + (shi<S>() - slo<S>()) / 3, shi<S>()};
        for(I x : {(I)0, (I)1, (I)-1, (I)48, (I)9}) if(x >= slo<S>() && x <= shi<S>()) few.push_back(x);
        std::sort(few.begin(), few.end()); few.erase(std::unique(few.begin(), few.end()), few.end());
        Space fs = std::make_shared<const std::vector<I>>(few);
        add("sequence " + n, {fs, fs, fs}, &sequence);
        add("flags " + n, {alphabet(slo<S>(), shi<S>(), 1, 1 << 9), alphabet(0, 95, 1, 96)}, &flags);
        add("throwing stream " + n, {std::make_shared<const std::vector<I>>(v), ix8, ix7}, &mask);
        add("display " + n, {alphabet(slo<S>(), shi<S>(), 1, 1 << 9)}, &display);
        add("handlers " + n, {std::make_shared<const std::vector<I>>(v), ix8, ix7}, &handlers);
        add("roundtrip " + n, {alphabet(slo<S>(), shi<S>(), 2, 1 << 16)}, &roundtrip);
    }
};
struct All { template<class S> static void run(){ Ex<S, char>::reg(""); Ex<S, wchar_t>::reg("wide "); } };
using N = R<sn::native, EP>; using U = R<sn::automatic, EP>;
using Types = L<N::f<std::int8_t>, N::f<std::uint8_t>, N::f<char>, N::f<std::int16_t>, N::f<std::uint16_t>, N::f<std::int32_t>, N::f<std::uint32_t>, N::f<std::int64_t>, N::f<std::uint64_t>,
    N::s<-3, 5>, N::u<2, 50>, N::s<100, 200>, N::u<7, 7>, N::s<-40000, 70000>, U::s<-10, -1>, U::f<std::uint16_t>>;
}
void mc::setup(){ each<All, Types>(); }
MC_MAIN
