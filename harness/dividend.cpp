// Companies announcing dividends to shareholders inside a simulation; distribution of profits over share classes.
#include "trace.hpp"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <esl/agent.hpp>
#include <esl/computation/environment.hpp>
#include <esl/economics/company.hpp>
#include <esl/simulation/model.hpp>
using namespace esl;
using namespace esl::simulation;
using namespace esl::economics;
using vt::num;
typedef std::vector<std::vector<std::string>> script;
typedef __int128 wide;
static std::string big(wide v)
{
    int s = v < 0 ? -1 : v > 0 ? 1 : 0;
    if(v < 0) v = -v;
    std::string d;
    for(; v; v /= 10000) d += (d.empty() ? "" : ",") + std::to_string(int(v % 10000));
    return "[" + std::to_string(s) + ",[" + d + "]]";
}
struct change { int act, c, rank; std::uint64_t n; };
struct plan_t
{
    bool company = false;
    std::vector<finance::dividend_policy> policies;
    std::vector<int> holders;
    std::vector<change> changes;
    std::vector<time_point> wakes;
};
struct world_t { std::vector<plan_t> plans; std::vector<std::shared_ptr<agent>> agents; std::map<identity<agent>, int> index; };
static world_t *W;
static std::string terms(const finance::dividend_policy &p)
{
    std::stringstream s;
    s << p.dividend_currency.denominator << " " << p.dividend_period.lower << "-" << p.dividend_period.upper;
    for(auto &[c, t] : p.dividend_per_share) s << ";" << int(c.rank) << ":" << std::get<0>(t) << "*" << std::get<1>(t).value;
    s << " = " << p.total_dividends().value;
    return s.str();
}
static std::string show(const finance::dividend_policy &p)
{
    return vt::obj().s + "{\"ann\":" + std::to_string(p.announcement_date) + ",\"ex\":" + std::to_string(p.ex_dividend_date) + ",\"pay\":" + std::to_string(p.payable_date) + ",\"terms\":" + vt::obj::quote(terms(p)) + "}";
}
static std::string show(const std::map<finance::share_class, std::uint64_t> &m, const std::string &prefix = "")
{
    std::string s;
    for(auto &[c, n] : m) s += (s.empty() ? "[" : ",[") + prefix + std::to_string(int(c.rank)) + "," + std::to_string(n) + "]";
    return s;
}
static int who(const identity<agent> &i) { auto k = W->index.find(i); return k == W->index.end() ? -1 : k->second; }

// what every agent of the test does as a shareholder
template<class self_t> struct holds
{
    self_t &self;
    int me;
    size_t acts = 0;
    std::string got;
    holds(self_t &s, int me) : self(s), me(me) { hook(); }
    void hook()
    {
        self.template register_callback<finance::dividend_announcement_message>([this](std::shared_ptr<finance::dividend_announcement_message> m, time_interval s, std::seed_seq &) {
            got += std::string(got.empty() ? "" : ",") + "{\"c\":" + std::to_string(who(m->sender)) + ",\"pol\":" + show(m->policy) + "}";
            return s.upper;
        }, interaction::communicator::priority_t(-3), "d", "m", "f", 1);
    }
    void changes(int act)
    {
        for(auto &c : W->plans[me].changes) if(c.act == act) {
            identity<company> id(W->agents[c.c]->identifier.digits);
            if(c.n) self.shares[id][finance::share_class(c.rank)] = c.n;
            else { self.shares[id].erase(finance::share_class(c.rank)); if(self.shares[id].empty()) self.shares.erase(id); }
        }
    }
    time_point act(time_interval s)
    {
        std::string hold, sent;
        for(auto &[c, m] : self.shares) hold += (hold.empty() ? "" : ",") + show(m, std::to_string(who(c)) + ",");
        self.submit_dividend_record(s);
        for(auto &m : self.outbox) if(auto r = std::dynamic_pointer_cast<finance::dividend_record>(m)) {
            sent += std::string(sent.empty() ? "" : ",") + "{\"c\":" + std::to_string(who(r->sender) == me + 1 ? who(r->recipient) : -1) + ",\"shares\":[" + show(r->shares_on_record) + "]}";
        }
        vt::obj("hact").i("a", me + 1).i("lo", (long long)s.lower).i("hi", (long long)s.upper).raw("got", "[" + got + "]").raw("hold", "[" + hold + "]").raw("sent", "[" + sent + "]").emit();
        got.clear();
        changes(int(acts));
        auto w = acts < W->plans[me].wakes.size() ? W->plans[me].wakes[acts] : s.upper;
        ++acts;
        return w > s.lower && w < s.upper ? w : s.upper;
    }
};
struct holder_t : public finance::shareholder, public identifiable_as<holder_t>
{
    std::unique_ptr<holds<holder_t>> h;
    holder_t(identity<holder_t> i, int k) : agent(identity<agent>(i.digits)), law::owner<cash>(identity<law::owner<cash>>(i.digits)), law::owner<finance::stock>(identity<law::owner<finance::stock>>(i.digits)), finance::shareholder(identity<finance::shareholder>(i.digits)), h(std::make_unique<holds<holder_t>>(*this, k)) {}
    time_point act(time_interval s, std::seed_seq &) override { return h->act(s); }
};
struct company_t : public company, public identifiable_as<company_t>
{
    std::unique_ptr<holds<company_t>> h;
    int me;
    size_t current = 0;
    std::string recs;
    company_t(identity<company_t> i, int k) : agent(identity<agent>(i.digits)), law::owner<cash>(identity<law::owner<cash>>(i.digits)), law::owner<finance::stock>(identity<law::owner<finance::stock>>(i.digits)), law::owner<finance::bond>(identity<law::owner<finance::bond>>(i.digits)), company(identity<company>(i.digits), law::jurisdiction(geography::countries::US, currencies::USD)), h(std::make_unique<holds<company_t>>(*this, k)), me(k)
    {
        register_callback<finance::dividend_record>([this](std::shared_ptr<finance::dividend_record> m, time_interval s, std::seed_seq &) {
            recs += std::string(recs.empty() ? "" : ",") + "{\"from\":" + std::to_string(who(m->sender)) + ",\"shares\":[" + show(m->shares_on_record) + "]}";
            return s.upper;
        }, 0, "d", "m", "f", 1);
    }
    std::optional<finance::dividend_policy> upcoming_dividend(time_interval, std::seed_seq &) override
    {
        auto &p = W->plans[me].policies;
        return current < p.size() ? std::optional<finance::dividend_policy>(p[current]) : std::nullopt;
    }
    time_point act(time_interval s, std::seed_seq &seed) override
    {
        if(!recs.empty()) vt::obj("crec").i("a", me + 1).raw("recs", "[" + recs + "]").emit();
        recs.clear();
        auto &ps = W->plans[me].policies;
        auto before = outbox.size();
        std::string pol = current < ps.size() ? show(ps[current]) : "", sent;
        auto ret = company::act(s, seed);
        for(auto k = before; k < outbox.size(); ++k) if(auto m = std::dynamic_pointer_cast<finance::dividend_announcement_message>(outbox[k])) {
            sent += std::string(sent.empty() ? "" : ",") + "{\"to\":" + std::to_string(who(m->sender) == me + 1 ? who(m->recipient) : -1) + ",\"at\":" + std::to_string(m->received) + ",\"pol\":" + show(m->policy) + "}";
        }
        vt::obj("cact").i("a", me + 1).i("lo", (long long)s.lower).i("hi", (long long)s.upper).raw("pol", "[" + pol + "]").raw("sent", "[" + sent + "]").i("ret", (long long)ret).emit();
        if(current < ps.size() && s.lower >= ps[current].payable_date) {
            ++current;
            if(current < ps.size()) ret = std::min(ret, std::max(s.lower + 1, ps[current].announcement_date));
        }
        return std::min(ret, h->act(s));
    }
};
// T sim <start> <end> <window: length of the steps, 0 for the whole simulation>
// C | H                      the next agent: a company or a shareholder
// P <company> <ann> <ex> <pay> <rank:n:per> ...     R <company> <agent> ...   registered shareholders
// S <agent> <act> <company> <rank> <n>              holdings after the act (-1: from the start)      W <agent> <time> ...
static void sim(const script &ops)
{
    world_t w;
    W = &w;
    for(size_t k = 1; k < ops.size(); ++k) {
        auto &o = ops[k];
        if(o[0] == "C" || o[0] == "H") { w.plans.emplace_back(); w.plans.back().company = o[0] == "C"; continue; }
        auto &p = w.plans.at(size_t(num(o[1]) - 1));
        if(o[0] == "P") {
            std::map<finance::share_class, std::tuple<std::uint64_t, price>> d;
            for(size_t j = 5; j < o.size(); ++j) { int r; long long n, v; std::sscanf(o[j].c_str(), "%d:%lld:%lld", &r, &n, &v); d.insert({finance::share_class(r), {n, price(v, currencies::USD)}}); }
            auto t = [&](int j) { return time_point(num(o[j])); };
            p.policies.push_back(finance::dividend_policy(t(2), t(3), {0, t(2)}, t(4), currencies::USD, d));
        } else if(o[0] == "R") for(size_t j = 2; j < o.size(); ++j) p.holders.push_back(int(num(o[j]) - 1));
        else if(o[0] == "S") p.changes.push_back({int(num(o[2])), int(num(o[3]) - 1), int(num(o[4])), std::uint64_t(num(o[5]))});
        else if(o[0] == "W") for(size_t j = 2; j < o.size(); ++j) p.wakes.push_back(time_point(num(o[j])));
    }
    std::string reg;
    std::vector<int> ones;
    for(auto &p : w.plans) {
        ones.push_back(1);
        std::string r;
        for(int h : p.holders) r += (r.empty() ? "" : ",") + std::to_string(h + 1);
        if(p.company) reg += (reg.empty() ? "[" : ",[") + r + "]";
    }
    vt::obj("new").raw("reg", "[" + reg + "]").list("agents", ones).emit();
    struct mod : public model { using model::model; };
    computation::environment e;
    parameter::parametrization p(std::uint64_t(3), time_point(num(ops[0][2])), time_point(num(ops[0][3])), 0, 1);
    mod m(e, p);
    std::vector<std::shared_ptr<company_t>> cs(w.plans.size());
    std::vector<std::shared_ptr<holder_t>> hs(w.plans.size());
    for(size_t k = 0; k < w.plans.size(); ++k) {
        if(w.plans[k].company) w.agents.push_back(cs[k] = m.create<company_t, simulation::world>(m.world, int(k)));
        else w.agents.push_back(hs[k] = m.create<holder_t, simulation::world>(m.world, int(k)));
        w.index[w.agents[k]->identifier] = int(k) + 1;
    }
    for(size_t k = 0; k < w.plans.size(); ++k) {
        if(cs[k]) cs[k]->h->changes(-1); else hs[k]->h->changes(-1);
        if(cs[k]) for(int h : w.plans[k].holders) {
            auto &mine = cs[k]->shareholders[identity<finance::shareholder>(w.agents[h]->identifier.digits)];
            for(int r = 0; r <= h % 3; ++r) mine[finance::share_class(std::uint8_t(r))] = 10;
        }
    }
    if(auto window = time_point(num(ops[0][4])); window == 0) e.run(m);
    else {
        m.initialize();
        for(time_point t = m.start; t < m.end;) {
            e.activate();
            t = m.step({t, std::min(t + window, m.end)});
        }
    }
    vt::obj("fin").emit();
    w.agents.clear();
}
// T dps        D <profit units> <currency> <rank:eligible:number> ...
static void dps(const script &ops)
{
    vt::obj("new").raw("reg", "[]").raw("agents", "[]").emit();
    for(size_t k = 1; k < ops.size(); ++k) {
        auto &o = ops[k];
        company c(identity<company>(std::vector<std::uint64_t>{1, 2}), law::jurisdiction(geography::countries::US, currencies::USD));
        auto cur = o[2] == "JPY" ? currencies::JPY : o[2] == "EUR" ? currencies::EUR : currencies::USD;
        std::string classes, res;
        std::map<int, std::pair<bool, std::uint64_t>> cl;
        for(size_t j = 3; j < o.size(); ++j) { int r, d; unsigned long long n; std::sscanf(o[j].c_str(), "%d:%d:%llu", &r, &d, &n); cl[r] = {d != 0, n}; }
        for(auto &[r, x] : cl) {
            c.shares_outstanding[finance::share_class(r, 1, 0.f, x.first)] = x.second;
            classes += std::string(classes.empty() ? "" : ",") + "{\"rank\":" + std::to_string(r) + ",\"div\":" + (x.first ? "true" : "false") + ",\"n\":" + big(x.second) + "}";
        }
        price profit(std::int64_t(num(o[1])), cur);
        auto d = c.compute_dividend_per_share(profit);
        bool ok = true;
        for(auto &[s, t] : d) {
            ok = ok && std::get<1>(t).valuation == cur;
            res += std::string(res.empty() ? "" : ",") + "{\"rank\":" + std::to_string(int(s.rank)) + ",\"n\":" + big(std::get<0>(t)) + ",\"per\":" + big(std::get<1>(t).value) + "}";
        }
        finance::dividend_policy p(1, 2, {0, 1}, 3, cur, d);
        auto total = p.total_dividends();
        vt::obj("dps").raw("profit", big(profit.value)).raw("classes", "[" + classes + "]").raw("shares", big(c.total_shares())).raw("res", "[" + res + "]").raw("total", big(total.value)).b("currency", ok && total.valuation == cur).emit();
    }
    vt::obj("fin").emit();
}
static void body(const script &ops) { if(ops[0][1] == "sim") sim(ops); else dps(ops); }
int main(int c, char **v) { return vt::main_(c, v, body, 20); }
