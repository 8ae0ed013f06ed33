// Error codes, their texts, their conditions and the handlers they are dispatched to.
#include "safe.hpp"
#include <boost/safe_numerics/exception.hpp>
#include <boost/safe_numerics/exception_policies.hpp>
#include <future>
using namespace mc;
namespace {
typedef sn::safe_numerics_error Er;
typedef sn::safe_numerics_actions Ac;
const int NCODES = 11, NACTIONS = 5;
// documented: which action an error calls for
Ac action(int e){
    return e == 0 ? Ac::no_action : e <= 6 ? Ac::arithmetic_error : e <= 9 ? Ac::implementation_defined_behavior : Ac::uninitialized_value;
}
std::error_condition condition(int a){
    static const std::error_category & cat = sn::safe_numerics_actions_category;
    return std::error_condition(a, cat);
}
struct Call { int handler, code; std::string msg; };
std::vector<Call> calls;
template<int A> struct H { constexpr H() = default; void operator()(const Er & e, const char * m){ calls.push_back(Call{A, (int)e, m}); } };
using REC = sn::exception_policy<H<(int)Ac::arithmetic_error>, H<(int)Ac::implementation_defined_behavior>, H<(int)Ac::undefined_behavior>, H<(int)Ac::uninitialized_value>>;
template<class EP> int thrown(void (*f)(const char *)){    // -1: nothing
    try { f("some message"); } catch(const std::system_error & e){
        return e.code().category() == sn::make_error_code(Er::success).category() && std::string(e.what()).find("some message") != std::string::npos ? e.code().value() : -2; }
    catch(...){ return -3; }
    return -1;
}
typedef void (*Disp)(const char *);
template<class EP, size_t... K> const Disp * disp_(std::index_sequence<K...>){
    static const Disp d[] = {nullptr, static_cast<Disp>(&sn::dispatch<EP, static_cast<Er>(K + 1)>)...};
    return d;
}
template<class EP> const Disp * disp(){ return disp_<EP>(std::make_index_sequence<NCODES - 1>()); }

void code(const I * in, Ctx & c){
    const int n = (int)in[0]; const Er e = static_cast<Er>(n);
    ++c.steps; c.out(n);
    const std::error_code ec = sn::make_error_code(e), ic = e;
    if(ec.value() != n || ic != ec || static_cast<Er>(ec.value()) != e) c.fail("make_error_code changes the code");
    if(&ec.category() != &sn::make_error_code(Er::success).category()) c.fail("more than one category");
    if(static_cast<bool>(ec) != (n != 0)) c.fail("error_code to bool");
    if(ec.message().empty() || ec.category().name() == std::string()) c.fail("empty message or category name");
    if(!sn::literal_string(e) || !*sn::literal_string(e)) c.fail("empty name");
    if(!std::is_error_code_enum<Er>::value || !std::is_error_condition_enum<Ac>::value) c.fail("traits");
    if(sn::make_safe_numerics_action(e) != action(n)) c.fail("make_safe_numerics_action");
    int k = 0;
    for(int a = 0; a < NACTIONS; ++a) k += ec == condition(a);
    if(k != 1) c.fail("equal to " + std::to_string(k) + " conditions");
    // the exception carries the code and the message
    try { sn::throw_exception()(e, "a message"); c.fail("throw_exception returned"); }
    catch(const std::system_error & x){ if(x.code() != ec || std::string(x.what()).find("a message") == std::string::npos) c.fail("the exception does not carry code and message"); }
    sn::ignore_exception()(e, "a message");
    // checked_result carries the code and the message
    if(n){ sn::checked_result<int> r(e, "why"); if(static_cast<Er>(r) != e || !r.exception() || std::string(static_cast<const char *>(r)) != "why") c.fail("checked_result"); }
}
void codes(const I * in, Ctx & c){
    const Er a = static_cast<Er>((int)in[0]), b = static_cast<Er>((int)in[1]);
    ++c.steps; c.out(in[0] == in[1] ? 11 : 12);
    const bool same = in[0] == in[1];
    if((sn::make_error_code(a) == sn::make_error_code(b)) != same) c.fail("equality of codes");
    if((sn::make_error_code(a).message() == sn::make_error_code(b).message()) != same) c.fail("messages are not distinct: " + sn::make_error_code(a).message());
    if((std::string(sn::literal_string(a)) == sn::literal_string(b)) != same) c.fail("names are not distinct");
}
void match(const I * in, Ctx & c){
    const std::error_code ec = sn::make_error_code(static_cast<Er>((int)in[0]));
    const bool m = ec == condition((int)in[1]), m2 = condition((int)in[1]) == ec;
    ++c.steps; c.out(m ? 11 : 12);
    const Ac a = static_cast<Ac>((int)in[1]);
    if((ec == a) != m || (a == ec) != m || (ec != a) == m || std::error_condition(a) != condition((int)in[1])) c.fail("an action and the condition made from it differ");
    if(m != m2 || (ec != condition((int)in[1])) == m) c.fail("asymmetric comparison with a condition");
    if(m != ((int)action((int)in[0]) == (int)in[1])) c.fail(std::string("code ") + oc_name[(int)in[0]] + (m ? " equals" : " does not equal") + " condition " + str(in[1]));
}
void dispatched(const I * in, Ctx & c){
    const int n = (int)in[0];
    calls.clear();
    disp<REC>()[n]("some message");
    ++c.steps; c.out(18);
    if(calls.size() != 1) { c.fail(std::to_string(calls.size()) + " handlers called"); return; }
    if(calls[0].code != n || calls[0].msg != "some message") c.fail("the handler got another code or message");
    if(!(sn::make_error_code(static_cast<Er>(n)) == condition(calls[0].handler))) c.fail("the handler's category is not the condition the code equals");
    const Ac a = action(n);
    const int loose = thrown<sn::loose_exception_policy>(disp<sn::loose_exception_policy>()[n]), strict = thrown<sn::strict_exception_policy>(disp<sn::strict_exception_policy>()[n]),
        def = thrown<sn::default_exception_policy>(disp<sn::default_exception_policy>()[n]);
    if(loose != (a == Ac::arithmetic_error ? n : -1)) c.fail("loose_exception_policy: " + std::to_string(loose));
    if(strict != (a == Ac::uninitialized_value ? -1 : n)) c.fail("strict_exception_policy: " + std::to_string(strict));
    if(def != strict) c.fail("default_exception_policy: " + std::to_string(def));
}
struct Foreign : std::error_category {
    const char * name() const noexcept override { return "safe numerics error"; }     // the same name, another category
    std::string message(int) const override { return "success"; }
};
const Foreign foreign_;
const std::error_category & cat(int k){ return k == 0 ? std::generic_category() : k == 1 ? std::system_category() : k == 2 ? std::iostream_category() : k == 3 ? std::future_category() : foreign_; }
void foreign(const I * in, Ctx & c){
    const std::error_code ec((int)in[1], cat((int)in[0]));
    ++c.steps; c.out(12);
    if(ec == condition((int)in[2])) c.fail("a code of another category equals a condition");
    if(in[1] >= 0 && in[1] < NCODES && ec == sn::make_error_code(static_cast<Er>((int)in[1]))) c.fail("a code of another category equals a safe numerics code");
    const std::error_code sc = sn::make_error_code(static_cast<Er>(in[1] >= 0 && in[1] < NCODES ? (int)in[1] : 1));
    if(sc == std::error_condition((int)in[1], cat((int)in[0]))) c.fail("a safe numerics code equals a foreign condition");
}
Space upto(I a, I b){ std::vector<I> v; for(I x = a; x <= b; ++x) v.push_back(x); return std::make_shared<const std::vector<I>>(v); }
}
void mc::setup(){
    add("code", {upto(0, NCODES - 1)}, &code);
    add("codes", {upto(0, NCODES - 1), upto(0, NCODES - 1)}, &codes);
    add("code condition", {upto(0, NCODES - 1), upto(0, NACTIONS - 1)}, &match);
    add("dispatched", {upto(1, NCODES - 1)}, &dispatched);
    add("foreign", {upto(0, 4), upto(-3, 200), upto(0, NACTIONS - 1)}, &foreign);
}
MC_MAIN
