// An impact-function market, driven directly and in a running simulation with participants that answer its quotes.
#include "trace.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <mutex>
#include <esl/computation/environment.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/impact_function/market.hpp>
#include <esl/economics/markets/impact_function/quote.hpp>
#include <esl/simulation/model.hpp>
using namespace esl;
using namespace esl::simulation;
using namespace esl::economics;
namespace impact = esl::economics::markets::impact_function;
using vt::num;
typedef std::vector<std::vector<std::string>> script;
typedef law::owner<law::property> owner;
struct line { int p; bool buy; unsigned long long q; };
static int index_of(const identity<law::property> &i) { return i.digits.size() == 2 && i.digits[0] == 7 ? int(i.digits[1]) : -1; }
static std::shared_ptr<law::property> prop(int p) { return std::make_shared<law::property>(identity<law::property>(std::vector<std::uint64_t>{7, std::uint64_t(p)})); }
template<class M> static std::string quotes_json(const M &m)
{
    std::vector<std::string> v;
    for(auto &[k, q] : m) v.push_back("[" + std::to_string(index_of(k->identifier)) + "," + std::to_string(std::get<price>(q.type).value) + "," + std::to_string(q.lot) + "]");
    std::sort(v.begin(), v.end());
    std::string r;
    for(auto &x : v) r += (r.empty() ? "" : ",") + x;
    return "[" + r + "]";
}
static std::string orders_json(const std::vector<std::shared_ptr<impact::order_message>> &os, const std::function<int(const identity<agent> &)> &who)
{
    std::string r;
    for(auto &o : os) {
        std::string v;
        for(auto &[k, x] : o->volumes)
            v += (v.empty() ? "" : ",") + std::string("{\"p\":") + std::to_string(index_of(k->identifier)) + ",\"side\":\"" + (x.second == impact::order_message::buy ? "buy" : "sell") + "\",\"q\":" + std::to_string(x.first) + "}";
        r += (r.empty() ? "" : ",") + std::string("{\"from\":") + std::to_string(who(o->sender)) + ",\"sent\":" + std::to_string(o->sent) + ",\"vols\":[" + v + "]}";
    }
    return "[" + r + "]";
}
struct world_t { std::map<identity<agent>, int> index; std::mutex m; };
static world_t *W = nullptr;
static int who(const identity<agent> &i) { auto k = W->index.find(i); return k == W->index.end() ? -1 : k->second; }

struct observed : public impact::market
{
    std::vector<double> args;
    long long slope = 1;
    size_t puts = 0, given = 0;
    observed(const identity<observed> &i, law::property_map<markets::quote> q, long long k)
    : agent(identity<agent>(i.digits)), impact::market(identity<impact::market>(i.digits), q), slope(k)
    {
        impact_function = [this](double v) { args.push_back(v); return slope * v; };
    }
    using agent::inbox;
    using agent::outbox;
    time_point act(time_interval s, std::seed_seq &seed) override
    {
        std::vector<std::shared_ptr<impact::order_message>> os;
        for(auto &[k, m] : inbox) if(auto o = std::dynamic_pointer_cast<impact::order_message>(m)) os.push_back(o);
        args.clear();
        size_t before = outbox.size(), b2 = output_clearing_prices_->values.size();
        auto next = impact::market::act(s, seed);
        std::string out, cleared, calls;
        for(size_t k = before; k < outbox.size(); ++k) {
            auto m = std::dynamic_pointer_cast<impact::quote_message>(outbox[k]);
            out += (out.empty() ? "" : ",") + std::string("{\"to\":") + std::to_string(who(outbox[k]->recipient)) + ",\"at\":" + std::to_string(outbox[k]->received)
                 + ",\"typed\":" + (m ? "true" : "false") + ",\"quotes\":" + (m ? quotes_json(m->proposed) : "[]") + "}";
        }
        for(size_t k = b2; k < output_clearing_prices_->values.size(); ++k) cleared += (cleared.empty() ? "" : ",") + std::to_string(std::get<0>(output_clearing_prices_->values[k]));
        for(double v : args) calls += (calls.empty() ? "" : ",") + std::to_string(v == std::floor(v) && std::fabs(v) < 1e9 ? (long long)v : 2000000001LL);
        std::unique_lock<std::mutex> g(W->m);
        vt::obj("act").i("lo", s.lower).i("hi", s.upper).raw("orders", orders_json(os, who)).raw("calls", "[" + calls + "]").raw("out", "[" + out + "]").raw("cleared", "[" + cleared + "]").i("next", next).emit();
        vt::obj("held").raw("quotes", quotes_json(traded_properties)).emit();
        return next;
    }
};
// replies to each quote with the next order of its script, in the step in which the quote arrives
struct trader : public owner
{
    std::vector<std::vector<line>> script_;
    size_t answers = 0;
    time_point last = time_point(-1);
    int me;
    trader(const identity<trader> &i, int k, std::vector<std::vector<line>> s) : agent(identity<agent>(i.digits)), owner(identity<owner>(i.digits)), script_(s), me(k)
    {
        register_callback<impact::quote_message>([this](std::shared_ptr<impact::quote_message> m, time_interval s, std::seed_seq &) {
            { std::unique_lock<std::mutex> g(W->m); vt::obj("recv").i("who", me).i("at", s.lower).raw("quotes", quotes_json(m->proposed)).emit(); }
            if(last == s.lower) return s.upper;
            last = s.lower;
            std::vector<line> v;
            if(answers < script_.size()) v = script_[answers];
            ++answers;
            auto o = this->template create_message<impact::order_message>(m->sender, s.lower, identifier, m->sender);
            o->sent = s.lower;
            for(auto &x : v) o->volumes.emplace(prop(x.p), std::make_pair(std::uint64_t(x.q), x.buy ? impact::order_message::buy : impact::order_message::sell));
            return s.upper;
        });
    }
    time_point act(time_interval s, std::seed_seq &) override { return s.upper; }
};
static std::vector<line> lines(const std::vector<std::string> &o, size_t from)
{
    std::vector<line> r;
    for(size_t k = from; k < o.size(); ++k) {
        auto a = o[k].find(':'), b = o[k].find(':', a + 1);
        r.push_back({std::stoi(o[k].substr(0, a)), o[k].substr(a + 1, b - a - 1) == "b", std::stoull(o[k].substr(b + 1))});
    }
    return r;
}
// T direct|sim <participants> <slope> <traded> price:lot ...
// O <from> <sent> p:side:q ...     an order          A <lo> <hi>   the market acts on the orders       C  clear_market with the orders
// P <participant> p:side:q ...     next answer of a participant (simulation)                           X <start> <end>  runs it
static void body(const script &ops)
{
    world_t w;
    W = &w;
    int people = std::stoi(ops[0][2]);
    long long slope = std::stoll(ops[0][3]);
    law::property_map<markets::quote> q;
    std::string traded, members;
    for(size_t k = 4; k < ops[0].size(); ++k) {
        auto c = ops[0][k].find(':');
        long long v = std::stoll(ops[0][k].substr(0, c));
        unsigned lot = (unsigned)std::stoul(ops[0][k].substr(c + 1));
        q.emplace(prop(int(k) - 3), markets::quote(price(v, currencies::USD), lot));
        traded += (traded.empty() ? "[" : ",[") + std::to_string(k - 3) + "," + std::to_string(v) + "," + std::to_string(lot) + "]";
    }
    for(int k = 1; k <= people; ++k) members += (k > 1 ? "," : "") + std::to_string(k);
    vt::obj("new").b("sim", ops[0][1] == "sim").raw("traded", "[" + traded + "]").raw("members", "[" + members + "]").emit();
    std::vector<std::shared_ptr<impact::order_message>> os;
    if(ops[0][1] == "direct") {
        auto id = [](int k) { return std::vector<std::uint64_t>{3, std::uint64_t(k)}; };
        observed m(identity<observed>(id(0)), q, slope);
        w.index[m.identifier] = 0;
        for(int k = 1; k <= people; ++k) { w.index[identity<agent>(id(k))] = k; m.participants.insert(identity<owner>(id(k))); }
        for(size_t n = 1; n < ops.size(); ++n) {
            auto &o = ops[n];
            if(o[0] == "O") {
                auto x = std::make_shared<impact::order_message>(identity<agent>(id(std::stoi(o[1]))), m.identifier, time_point(num(o[2])), time_point(num(o[2])));
                for(auto &y : lines(o, 3)) x->volumes.emplace(prop(y.p), std::make_pair(std::uint64_t(y.q), y.buy ? impact::order_message::buy : impact::order_message::sell));
                os.push_back(x);
            } else if(o[0] == "A") {
                for(auto &x : os) m.inbox.insert({x->received, x});
                std::seed_seq s{1};
                m.act({time_point(num(o[1])), time_point(num(o[2]))}, s);
                m.inbox.clear();
                m.outbox.clear();
                os.clear();
            } else if(o[0] == "C") {
                std::unordered_map<identity<agent>, std::shared_ptr<impact::order_message>> map;
                for(auto &x : os) map.emplace(x->sender, x);
                auto r = m.clear_market(map, {0, 1});
                std::string rs;
                bool exact = true;
                for(auto &[p, v] : r) {
                    auto t = q.find(std::make_shared<law::property>(p));
                    long long net = 2000000001LL;
                    if(t != q.end()) {
                        double unit = double(std::get<price>(t->second.type).value) / 100 / t->second.lot;
                        double x = (v - 1) * unit / slope;
                        net = std::isfinite(x) && std::fabs(x) < 1e9 ? std::llround(x) : 2000000002LL;
                        if(!(std::fabs((unit + slope * double(net)) / unit - v) <= 1e-9 * (1 + std::fabs(v)))) exact = false;
                    }
                    rs += (rs.empty() ? "[" : ",[") + std::to_string(index_of(p)) + "," + std::to_string(net) + "]";
                }
                vt::obj("clear").raw("orders", orders_json(os, who)).raw("r", "[" + rs + "]").b("exact", exact).emit();
                vt::obj("held").raw("quotes", quotes_json(m.traded_properties)).emit();
                os.clear();
            }
        }
    } else {
        std::map<int, std::vector<std::vector<line>>> answers;
        time_point start = 0, end = 0;
        for(size_t n = 1; n < ops.size(); ++n) {
            if(ops[n][0] == "P") answers[std::stoi(ops[n][1])].push_back(lines(ops[n], 2));
            else if(ops[n][0] == "X") { start = time_point(num(ops[n][1])); end = time_point(num(ops[n][2])); }
        }
        computation::environment e;
        simulation::model mod(e, simulation::parameter::parametrization(0, start, end, 0, 1));
        auto m = mod.create<observed, simulation::world>(mod.world, q, slope);
        w.index[m->identifier] = 0;
        std::vector<std::shared_ptr<trader>> ts;
        for(int k = 1; k <= people; ++k) {
            auto t = mod.create<trader, simulation::world>(mod.world, k, answers[k]);
            w.index[t->identifier] = k;
            m->participants.insert(identity<owner>(t->identifier.digits));
            ts.push_back(t);
        }
        for(int k = 0; k < 1000 && mod.time < mod.end; ++k) e.step(mod);
        vt::obj("fin").i("end", end).emit();
    }
    W = nullptr;
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body); }
