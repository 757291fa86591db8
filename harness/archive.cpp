// Saving values in archives and loading them again.
#include "trace.hpp"
#include <memory>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/unordered_map.hpp>
#include <boost/serialization/vector.hpp>
#include <esl/agent.hpp>
#include <esl/computation/timing.hpp>
#include <esl/data/serialization.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/economics/finance/share_class.hpp>
#include <esl/economics/interest_rate.hpp>
#include <esl/economics/iso_4217.hpp>
#include <esl/economics/markets/impact_function/order.hpp>
#include <esl/economics/markets/impact_function/quote.hpp>
#include <esl/economics/markets/logout_message.hpp>
#include <esl/economics/markets/order_status_request_message.hpp>
#include <esl/economics/markets/quote.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/economics/owner.hpp>
#include <esl/interaction/transfer.hpp>
#include <esl/law/jurisdiction.hpp>
#include <esl/law/legal_entity.hpp>
#include <esl/law/property_collection.hpp>
#include <esl/mathematics/rational.hpp>
#include <esl/simulation/time.hpp>
using namespace esl;
namespace ec = esl::economics;
namespace mk = esl::economics::markets;
typedef std::vector<std::vector<std::string>> script;
typedef std::int64_t i64;
typedef std::uint64_t u64;

// the numbers of a test line, repeated as often as needed
struct nums {
    std::vector<std::string> v;
    size_t k = 0;
    std::string next() { return v.empty() ? "0" : v[k++ % v.size()]; }
    u64 u() { auto s = next(); return s[0] == '-' ? u64(-std::stoll(s)) : std::stoull(s); }
    i64 i() { auto s = next(); return s[0] == '-' || s.size() < 19 ? std::stoll(s) : i64(std::stoull(s) >> 1); }
    u64 upto(u64 n) { return u() % (n + 1); }
};
struct ping : interaction::message<ping, 77> { using interaction::message<ping, 77>::message; };
template<class T> void show(std::ostream &o, const T &v);
template<class T> T make(nums &n);
typedef std::ostream out;

#define CODEC(T, MAKE, SHOW) template<> T make<T>(nums &n) { (void)n; MAKE } template<> void show<T>(out &o, const T &v) { (void)v; o << SHOW; }
template<class E> identity<E> id(nums &n) { std::vector<u64> d; for(u64 k = 1 + n.upto(3); k; --k) d.push_back(n.u()); return identity<E>(d); }
template<class E> std::string str(const identity<E> &i) { std::string r = "<"; for(auto d : i.digits) r += std::to_string(d) + "."; return r + ">"; }
template<> void show<std::string>(out &o, const std::string &s) { o << s; }
template<> void show<u64>(out &o, const u64 &v) { o << v; }
template<> void show<double>(out &o, const double &v) { o << v; }
template<class A, class B> void show(out &o, const std::pair<A, B> &v) { show(o, v.first); o << ":"; show(o, v.second); }

CODEC(quantity, return quantity(n.u());, v.amount)
template<> ec::iso_4217 make<ec::iso_4217>(nums &n) { std::array<char, 3> a; for(auto &c : a) c = char('A' + n.upto(25)); return ec::iso_4217(a, 1 + n.upto(1000)); }
template<> void show<ec::iso_4217>(out &o, const ec::iso_4217 &v) { o << std::string(v.code.begin(), v.code.end()) << "/" << v.denominator; }
template<> ec::price make<ec::price>(nums &n) { auto a = n.i(); return ec::price(i64(a), make<ec::iso_4217>(n)); }
template<> void show<ec::price>(out &o, const ec::price &v) { o << v.value << " "; show(o, v.valuation); }
CODEC(boost::rational<i64>, auto a = n.i() / 4; return boost::rational<i64>(a, 1 + i64(n.upto(1000000)));, v.numerator() << "/" << v.denominator())
CODEC(boost::rational<u64>, auto a = n.u() / 4; return boost::rational<u64>(a, 1 + n.upto(1000000000000));, v.numerator() << "/" << v.denominator())
CODEC(ec::rate<>, auto a = n.i() / 4; return ec::rate<>(a, 1 + i64(n.upto(1000000)));, v.numerator() << "/" << v.denominator())
CODEC(ec::exchange_rate, auto a = 1 + n.upto(1000000000000); return ec::exchange_rate(a, 1 + n.upto(1000000000000));, v.numerator() << "/" << v.denominator())
typedef esl::computation::agent_timing timing;
CODEC(timing, timing t; t.messaging = std::chrono::milliseconds(n.i()); t.acting = std::chrono::milliseconds(n.i()); return t;, v.messaging.count() << " " << v.acting.count())
CODEC(ec::interest_rate, auto a = n.i() / 4; auto b = 1 + i64(n.upto(1000000)); return ec::interest_rate(ec::rate<>(a, b), n.u());, v.numerator() << "/" << v.denominator() << " per " << v.duration)
template<> mk::quote make<mk::quote>(nums &n) { auto p = make<ec::price>(n); return mk::quote(p, std::uint32_t(1 + n.upto(4294967290))); }
template<> void show<mk::quote>(out &o, const mk::quote &v) { o << v.lot << "@"; show(o, std::get<ec::price>(v.type)); }
CODEC(identity<agent>, return id<agent>(n);, str(v))
CODEC(identity<law::property>, return id<law::property>(n);, str(v))
CODEC(simulation::time_interval, auto a = n.u(); return simulation::time_interval(a, n.u());, v.lower << ".." << v.upper)
template<> geography::iso_3166_1_alpha_2 make<geography::iso_3166_1_alpha_2>(nums &n) { std::array<char, 2> a; for(auto &c : a) c = char('A' + n.upto(25)); return geography::iso_3166_1_alpha_2(a); }
template<> void show<geography::iso_3166_1_alpha_2>(out &o, const geography::iso_3166_1_alpha_2 &v) { o << std::string(v.code.begin(), v.code.end()); }
static std::string code(nums &n, size_t k, bool l) { std::string r; while(k--) { auto d = n.upto(l ? 35 : 9); r += d < 10 ? char('0' + d) : char('A' + d - 10); } return r; }
template<> law::iso_17442 make<law::iso_17442>(nums &n)
{
    std::array<char, 4> a; std::array<char, 12> b;
    auto s = code(n, 4, false), t = code(n, 12, true);
    std::copy(s.begin(), s.end(), a.begin()); std::copy(t.begin(), t.end(), b.begin());
    return law::iso_17442(a, b);
}
template<> void show<law::iso_17442>(out &o, const law::iso_17442 &v) { o << std::string(v.local.begin(), v.local.end()) << std::string(v.code.begin(), v.code.end()); }
template<> law::jurisdiction make<law::jurisdiction>(nums &n) { auto g = make<geography::iso_3166_1_alpha_2>(n); return law::jurisdiction(g, make<ec::iso_4217>(n)); }
template<> void show<law::jurisdiction>(out &o, const law::jurisdiction &v) { show(o, v.sovereign); o << "/"; show(o, v.tender); }
template<> ec::finance::share_class make<ec::finance::share_class>(nums &n)
{
    ec::finance::share_class s;
    s.rank = std::uint8_t(n.upto(255)); s.votes = std::uint8_t(n.upto(255)); s.preference = float(n.upto(100)) / 4;
    auto b = n.u(); s.dividend = b & 1; s.cumulative = b & 2; s.redeemable = b & 4;
    return s;
}
template<> void show<ec::finance::share_class>(out &o, const ec::finance::share_class &v) { o << int(v.rank) << "," << int(v.votes) << "," << v.preference << "," << v.dividend << v.cumulative << v.redeemable; }
template<> ec::finance::dividend_policy make<ec::finance::dividend_policy>(nums &n)
{
    ec::finance::dividend_policy p;
    p.announcement_date = n.u(); p.ex_dividend_date = n.u(); p.dividend_period = make<simulation::time_interval>(n); p.payable_date = n.u();
    p.dividend_currency = make<ec::iso_4217>(n);
    for(u64 k = n.upto(3); k; --k) { auto s = make<ec::finance::share_class>(n); auto c = n.u(); p.dividend_per_share[s] = std::make_tuple(c, make<ec::price>(n)); }
    return p;
}
template<> void show<ec::finance::dividend_policy>(out &o, const ec::finance::dividend_policy &v)
{
    o << v.announcement_date << "," << v.ex_dividend_date << ","; show(o, v.dividend_period); o << "," << v.payable_date << ","; show(o, v.dividend_currency);
    for(auto &[s, d] : v.dividend_per_share) { o << " ("; show(o, s); o << ")" << std::get<0>(d) << "x"; show(o, std::get<1>(d)); }
}
template<> interaction::header make<interaction::header>(nums &n) { interaction::header h; h.type = n.u(); h.sender = id<agent>(n); h.recipient = id<agent>(n); h.sent = n.u(); h.received = n.u(); return h; }
template<> void show<interaction::header>(out &o, const interaction::header &v) { o << v.type << str(v.sender) << str(v.recipient) << v.sent << "," << v.received << "|"; }
template<class M> void address(M &m, nums &n) { m.sender = id<agent>(n); m.recipient = id<agent>(n); m.sent = n.u(); m.received = n.u(); }
#define MESSAGE(T, FILL, SHOW) template<> T make<T>(nums &n) { T m; address(m, n); FILL return m; } template<> void show<T>(out &o, const T &v) { show(o, (const interaction::header &)v); SHOW }
template<class V> law::property_map<V> properties(nums &n) { law::property_map<V> r; for(u64 k = n.upto(4); k; --k) { auto p = std::make_shared<law::property>(id<law::property>(n)); r.emplace(p, make<V>(n)); } return r; }
template<class M> void showmap(out &o, const M &m)
{
    std::map<std::string, std::string> s;
    for(auto &[p, v] : m) { std::ostringstream t; show(t, v); s[str(p->identifier)] += t.str() + ";"; }
    for(auto &[a, b] : s) o << a << "=" << b << " ";
}
template<> u64 make<u64>(nums &n) { return n.u(); }
typedef std::pair<u64, mk::impact_function::order_message::side_t> side;
template<> side make<side>(nums &n) { auto a = n.u(); return {a, n.upto(1) ? mk::impact_function::order_message::sell : mk::impact_function::order_message::buy}; }
MESSAGE(ping, , )
MESSAGE(mk::logout_message, , )
MESSAGE(mk::order_status_request_message, , )
MESSAGE(ec::finance::dividend_announcement_message, m.policy = make<ec::finance::dividend_policy>(n);, show(o, v.policy);)
MESSAGE(ec::finance::dividend_record, for(u64 k = n.upto(3); k; --k) { auto s = make<ec::finance::share_class>(n); m.shares_on_record[s] = n.u(); }, for(auto &x : v.shares_on_record) { show(o, x); o << ";"; })
MESSAGE(interaction::transfer, m.transferor = id<law::owner<law::property>>(n); m.transferee = id<law::owner<law::property>>(n);
        for(u64 k = n.upto(3); k; --k) { auto p = std::make_shared<law::property>(id<law::property>(n)); m.transferred.insert(p, quantity(n.upto(1000000))); },
        o << str(v.transferor) << str(v.transferee); showmap(o, v.transferred.items);)
MESSAGE(mk::impact_function::quote_message, m.proposed = properties<mk::quote>(n); m.binding = n.upto(1) ? mk::indication::firm : mk::indication::indicative;, o << int(v.binding) << " "; showmap(o, v.proposed);)
MESSAGE(mk::walras::quote_message, m.proposed = properties<mk::quote>(n);, o << int(v.binding) << " "; showmap(o, v.proposed);)
template<> mk::impact_function::order_message make<mk::impact_function::order_message>(nums &n)
{
    mk::impact_function::order_message m{identity<agent>(), identity<agent>()};
    address(m, n);
    m.volumes = properties<side>(n);
    return m;
}
template<> void show<mk::impact_function::order_message>(out &o, const mk::impact_function::order_message &v) { show(o, (const interaction::header &)v); std::map<std::string, std::string> s; for(auto &[p, x] : v.volumes) s[str(p->identifier)] = std::to_string(x.first) + (x.second == mk::impact_function::order_message::buy ? "b" : "s"); for(auto &[a, b] : s) o << a << "=" << b << " "; }
template<> law::property_map<quantity> make<law::property_map<quantity>>(nums &n) { return properties<quantity>(n); }
template<> void show<law::property_map<quantity>>(out &o, const law::property_map<quantity> &v) { showmap(o, v); }
typedef std::tuple<u64, double, std::string> triple;
template<> triple make<triple>(nums &n) { auto a = n.u(); auto b = double(n.upto(1000)) / 8; return {a, b, code(n, n.upto(9), true)}; }
template<> void show<triple>(out &o, const triple &v) { o << std::get<0>(v) << "," << std::get<1>(v) << "," << std::get<2>(v); }
typedef std::tuple<quantity> single;
template<> single make<single>(nums &n) { return {make<quantity>(n)}; }
template<> void show<single>(out &o, const single &v) { o << std::get<0>(v).amount; }
typedef std::vector<ec::price> prices;
template<> prices make<prices>(nums &n) { prices r; for(u64 k = n.upto(4); k; --k) r.push_back(make<ec::price>(n)); return r; }
template<> void show<prices>(out &o, const prices &v) { for(auto &p : v) { show(o, p); o << ";"; } }
typedef std::map<u64, mk::quote> quotes;
template<> quotes make<quotes>(nums &n) { quotes r; for(u64 k = n.upto(4); k; --k) { auto a = n.u(); r.insert_or_assign(a, make<mk::quote>(n)); } return r; }
template<> void show<quotes>(out &o, const quotes &v) { for(auto &p : v) { show(o, p); o << ";"; } }
typedef std::shared_ptr<law::property> handle;
template<> handle make<handle>(nums &n) { return std::make_shared<law::property>(id<law::property>(n)); }
template<> void show<handle>(out &o, const handle &v) { o << str(v->identifier); }

struct box {
    virtual ~box() = default;
    virtual std::string show() const = 0;
    virtual void save(boost::archive::text_oarchive &) = 0;
    virtual void save(boost::archive::binary_oarchive &) = 0;
    virtual void load(boost::archive::text_iarchive &) = 0;
    virtual void load(boost::archive::binary_iarchive &) = 0;
};
template<class T> struct boxed : box {
    T v;
    explicit boxed(nums &n) : v(make<T>(n)) {}
    std::string show() const override { std::ostringstream o; ::show(o, v); return o.str(); }
    void save(boost::archive::text_oarchive &a) override { a << boost::serialization::make_nvp("v", v); }
    void save(boost::archive::binary_oarchive &a) override { a << boost::serialization::make_nvp("v", v); }
    void load(boost::archive::text_iarchive &a) override { a >> boost::serialization::make_nvp("v", v); }
    void load(boost::archive::binary_iarchive &a) override { a >> boost::serialization::make_nvp("v", v); }
};
static std::unique_ptr<box> fresh(const std::string &t, nums &n)
{
#define KIND(N, ...) if(t == N) return std::make_unique<boxed<__VA_ARGS__>>(n);
    KIND("quantity", quantity) KIND("price", ec::price) KIND("rational", boost::rational<i64>) KIND("urational", boost::rational<u64>)
    KIND("rate", ec::rate<>) KIND("exchange_rate", ec::exchange_rate) KIND("interest_rate", ec::interest_rate) KIND("quote", mk::quote)
    KIND("agent_id", identity<agent>) KIND("property_id", identity<law::property>) KIND("interval", simulation::time_interval)
    KIND("currency", ec::iso_4217) KIND("country", geography::iso_3166_1_alpha_2) KIND("lei", law::iso_17442) KIND("jurisdiction", law::jurisdiction)
    KIND("share_class", ec::finance::share_class) KIND("policy", ec::finance::dividend_policy) KIND("header", interaction::header)
    KIND("message", ping) KIND("logout", mk::logout_message) KIND("status", mk::order_status_request_message)
    KIND("announcement", ec::finance::dividend_announcement_message) KIND("record", ec::finance::dividend_record) KIND("transfer", interaction::transfer)
    KIND("impact_quote", mk::impact_function::quote_message) KIND("walras_quote", mk::walras::quote_message) KIND("impact_order", mk::impact_function::order_message)
    KIND("properties", law::property_map<quantity>) KIND("tuple", triple) KIND("single", single) KIND("timing", timing) KIND("prices", prices) KIND("quotes", quotes) KIND("property", handle)
    throw std::runtime_error("kind " + t);
}

// T <text|binary>      N <slot> <kind> numbers ...     S <slot>    R (read what was written)    L <slot>    W (a new archive)
template<class O, class I> static void run(const script &ops)
{
    std::vector<std::unique_ptr<box>> slots(4);
    std::vector<std::string> kinds(4, "none");
    std::vector<std::unique_ptr<box>> kept;      // archives track pointers by address: objects outlive the archive
    auto stream = std::make_unique<std::stringstream>();
    auto o = std::make_unique<O>(*stream);
    std::unique_ptr<I> in;
    auto emit = [&](const char *e, int s) {
        std::vector<std::string> v;
        for(auto &b : slots) v.push_back(b ? b->show() : "");
        vt::obj(e).i("s", s + 1).list("kinds", kinds).list("values", v).emit();
    };
    emit("new", 0);
    for(size_t n = 1; n < ops.size(); ++n) {
        auto &x = ops[n];
        int s = x.size() > 1 ? std::stoi(x[1]) : 0;
        if(x[0] == "N") { nums m{std::vector<std::string>(x.begin() + 3, x.end())}; if(slots[s]) kept.push_back(std::move(slots[s])); slots[s] = fresh(x[2], m); kinds[s] = x[2]; emit("set", s); }
        else if(x[0] == "S") { slots[s]->save(*o); emit("save", s); }
        else if(x[0] == "R") { o.reset(); in = std::make_unique<I>(*stream); emit("read", 0); }
        else if(x[0] == "L") { slots[s]->load(*in); emit("load", s); }
        else if(x[0] == "W") { in.reset(); stream = std::make_unique<std::stringstream>(); o = std::make_unique<O>(*stream); emit("write", 0); }
    }
}
static void body(const script &ops)
{
    if(ops[0].size() > 1 && ops[0][1] == "binary") run<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(ops);
    else run<boost::archive::text_oarchive, boost::archive::text_iarchive>(ops);
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body); }
