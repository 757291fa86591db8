// A Walrasian price setter, driven directly with excess demand functions and in running simulations with shareholders that answer it.
#include "trace.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <mutex>
#include <gsl/gsl_errno.h>
#include <esl/computation/environment.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/bondholder.hpp>
#include <esl/economics/finance/securities_lending_contract.hpp>
#include <esl/economics/finance/shareholder.hpp>
#include <esl/economics/markets/walras/price_setter.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/interaction/transfer.hpp>
#include <esl/simulation/model.hpp>
using namespace esl;
using namespace esl::simulation;
using namespace esl::economics;
namespace walras = esl::economics::markets::walras;
using vt::num;
typedef std::vector<std::vector<std::string>> script;
typedef law::owner<law::property> owner;
struct line { int p; char kind; double w, s; int j; double c; std::uint64_t l, h; };
static int index_of(const identity<law::property> &i) { return i.digits.size() == 2 && i.digits[0] == 7 ? int(i.digits[1]) : -1; }
static identity<law::property> pid(int p) { return identity<law::property>(std::vector<std::uint64_t>{7, std::uint64_t(p)}); }
static std::shared_ptr<law::property> make(int p) { return std::make_shared<finance::stock>(pid(p), identity<company>({5, std::uint64_t(p)}), finance::share_class()); }
static long long clip(double v) { return std::isfinite(v) ? (long long)std::floor(std::max(-2e9, std::min(2e9, v))) : 2000000001LL; }
static std::string triple(long long a, long long b, long long c) { return "[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "]"; }
static std::string join(std::vector<std::string> v)
{
    std::string r;
    for(auto &x : v) r += (r.empty() ? "" : ",") + x;
    return "[" + r + "]";
}
template<class M> static std::string quotes_json(const M &m)
{
    std::vector<std::string> v;
    for(auto &[k, q] : m) v.push_back(triple(index_of(k->identifier), std::get<price>(q.type).value, q.lot));
    return join(v);
}
struct world_t { std::map<identity<agent>, int> index; std::mutex m; };
static world_t *W = nullptr;
static int who(const identity<agent> &i) { auto k = W->index.find(i); return k == W->index.end() ? -1 : k->second; }

struct order : public walras::differentiable_order_message
{
    std::vector<line> lines;
    typedef std::map<identity<law::property>, std::tuple<markets::quote, variable>> quotes_t;
    mutable std::map<identity<law::property>, std::pair<double, double>> seen;      // unit price, multiplier of the latest evaluation
    order(const identity<agent> &s, const identity<agent> &r, time_point a, time_point b, std::vector<line> v)
    : differentiable_order_message(s, r, a, b), lines(v)
    {
        for(auto &x : lines) supply.emplace(pid(x.p), std::make_tuple(quantity(x.l), quantity(x.h)));
    }
    template<class T> static T demand(const line &x, const T &k, double unit, const T &j, double other)
    {
        T r = (-x.s * unit) * k;
        if(x.kind == 'a') r += x.w / 100; else if(x.kind == 'h') r += (x.w / 100) / k;
        if(x.c != 0) r += x.c * other * j;
        return r;
    }
    double excess(const line &x) const { auto k = seen.at(pid(x.p)), j = seen.at(pid(x.c != 0 ? x.j : x.p)); return demand<double>(x, k.second, k.first, j.second, j.first); }
    std::map<identity<law::property>, variable> excess_demand(const quotes_t &q) const override
    {
        std::map<identity<law::property>, variable> r;
        seen.clear();
        for(auto &[k, v] : q) seen[k] = {double(std::get<0>(v)), esl::value(std::get<1>(v))};
        for(auto &x : lines) {
            auto k = q.find(pid(x.p)), j = q.find(pid(x.c != 0 ? x.j : x.p));
            if(k == q.end()) continue;
            r.insert({pid(x.p), demand<variable>(x, std::get<1>(k->second), double(std::get<0>(k->second)), std::get<1>(j->second), double(std::get<0>(j->second)))});
        }
        return r;
    }
};
// whether excess demand vanishes at multipliers strictly within the circuit breaker, around which it decreases in the own price
static bool root_inside(const std::vector<std::shared_ptr<order>> &os, const law::property_map<markets::quote> &quotes)
{
    std::vector<int> ps;
    std::map<int, double> unit;
    for(auto &[k, q] : quotes) { ps.push_back(index_of(k->identifier)); unit[ps.back()] = double(q); }
    size_t n = ps.size();
    std::vector<std::vector<double>> a(n, std::vector<double>(n + 1, 0.));
    bool curved = false, coupled = false;
    for(size_t i = 0; i < n; ++i) {
        double W = 0, H = 0, S = 0;
        for(auto &o : os) for(auto &x : o->lines) if(x.p == ps[i]) {
            (x.kind == 'h' ? H : W) += x.w / 100;
            S += x.s * unit[ps[i]];
            if(x.kind == 'h') curved = true;
            if(x.c != 0) { coupled = true; for(size_t j = 0; j < n; ++j) if(ps[j] == x.j) a[i][j] -= x.c * unit[x.j]; }
        }
        a[i][i] += S;
        a[i][n] = W;
        if(H < 0 || !(S + H > 0)) return false;
        auto f = [&](double k) { return W + H / k - S * k; };
        if(!coupled && !(f(1.001 / 11) > 0 && f(10.999) < 0)) return false;
    }
    if(!coupled) return true;
    if(curved) return false;
    auto slope = a;
    for(size_t i = 0; i < n; ++i) {
        size_t b = i;
        for(size_t k = i; k < n; ++k) if(std::abs(a[k][i]) > std::abs(a[b][i])) b = k;
        std::swap(a[i], a[b]);
        if(std::abs(a[i][i]) < 1e-9) return false;
        for(size_t k = 0; k < n; ++k) if(k != i) { double m = a[k][i] / a[i][i]; for(size_t j = i; j <= n; ++j) a[k][j] -= m * a[i][j]; }
    }
    for(size_t i = 0; i < n; ++i) { double k = a[i][n] / a[i][i]; if(!(k > 1.001 / 11 && k < 10.999) || !(slope[i][i] > 0)) return false; }
    return true;
}
struct observed : public walras::price_setter
{
    observed(const identity<observed> &i, law::property_map<markets::quote> q)
    : agent(identity<agent>(i.digits)), walras::price_setter(identity<walras::price_setter>(i.digits), q) {}
    using agent::inbox;
    using agent::outbox;
    std::vector<std::pair<line, std::uint64_t>> unused;
    time_point act(time_interval s, std::seed_seq &seed) override
    {
        std::vector<std::shared_ptr<order>> os;
        for(auto &[k, m] : inbox) if(auto o = std::dynamic_pointer_cast<order>(m)) os.push_back(o);
        std::vector<std::vector<std::pair<std::uint64_t, std::uint64_t>>> positions;
        for(auto &o : os) {
            o->seen.clear();
            positions.emplace_back();
            for(auto &x : o->lines) { auto i = o->supply.find(pid(x.p)); positions.back().push_back(i == o->supply.end() ? std::make_pair(std::uint64_t(0), std::uint64_t(0)) : std::make_pair(std::get<0>(i->second).amount, std::get<1>(i->second).amount)); }
        }
        auto old = traded_properties;
        size_t before = outbox.size(), b2 = output_clearing_prices_->values.size();
        auto next = walras::price_setter::act(s, seed);
        std::map<int, double> mult, res;
        std::vector<std::string> ords, raw, rest, out, cleared, transfers;
        bool solvable = true, curved = false;
        for(auto &o : os) for(auto &x : o->lines) curved = curved || x.kind == 'h';
        for(size_t n = 0; n < os.size(); ++n) {
            auto &o = os[n];
            std::vector<std::string> ls;
            for(auto &[k, v] : o->seen) mult[index_of(k)] = v.second;
            for(size_t m = 0; m < o->lines.size(); ++m) {
                auto &x = o->lines[m];
                auto k = o->seen.find(pid(x.p));
                double u = 0;
                if(k != o->seen.end()) { double e = o->excess(x); u = e / (k->second.first * k->second.second); res[x.p] += e; }
                ls.push_back("{\"p\":" + std::to_string(x.p) + ",\"kind\":\"" + x.kind + "\",\"w\":" + std::to_string((long long)x.w) + ",\"s\":" + std::to_string((long long)x.s) + ",\"c\":" + std::to_string(x.c != 0)
                           + ",\"long\":" + std::to_string(positions[n][m].first) + ",\"short\":" + std::to_string(positions[n][m].second) + ",\"u\":" + std::to_string(clip(u * 1000)) + "}");
            }
            ords.push_back("{\"from\":" + std::to_string(who(o->sender)) + ",\"sent\":" + std::to_string(o->sent) + ",\"lines\":" + join(ls) + "}");
        }
        for(auto &[k, q] : old) {
            int p = index_of(k->identifier);
            double x = mult.count(p) ? mult[p] : 1.;
            raw.push_back("[" + std::to_string(p) + "," + std::to_string(clip(100. * std::get<price>(q.type).value * x)) + "]");
            rest.push_back("[" + std::to_string(p) + "," + std::to_string(clip(res[p] * 10000)) + "]");
            // (with a curved demand, a solver may find a root beyond the circuit breaker rather than the one within it)
            if(!mult.count(p) || (curved && (x <= 1.001 / 11 || x >= 10.999))) solvable = false;
        }
        solvable = solvable && root_inside(os, old);
        for(size_t k = before; k < outbox.size(); ++k) {
            if(auto t = std::dynamic_pointer_cast<interaction::transfer>(outbox[k])) {
                std::vector<std::string> items;
                for(auto &[i, q] : t->transferred.items) {
                    if(auto c = std::dynamic_pointer_cast<finance::securities_lending_contract>(i))
                        items.push_back("[\"short\"," + std::to_string(index_of(c->security)) + "," + std::to_string(q.amount) + "]");
                    else if(auto c = std::dynamic_pointer_cast<cash>(i)) items.push_back("[\"" + std::string(c->denomination == currencies::USD ? "cash" : "other") + "\",0," + std::to_string(q.amount) + "]");
                    else items.push_back("[\"own\"," + std::to_string(index_of(i->identifier)) + "," + std::to_string(q.amount) + "]");
                }
                int a = who(identity<agent>(t->transferor.digits)), b = who(identity<agent>(t->transferee.digits));
                bool ok = (a == 0) != (b == 0) && who(t->recipient) == (a == 0 ? b : a);
                transfers.push_back("{\"who\":" + std::to_string(a == 0 ? b : a) + ",\"sign\":" + (a == 0 ? "1" : "-1") + ",\"ok\":" + (ok ? "true" : "false") + ",\"at\":" + std::to_string(outbox[k]->received) + ",\"items\":" + join(items) + "}");
                continue;
            }
            auto m = std::dynamic_pointer_cast<walras::quote_message>(outbox[k]);
            out.push_back("{\"to\":" + std::to_string(who(outbox[k]->recipient)) + ",\"at\":" + std::to_string(outbox[k]->received) + ",\"typed\":" + (m ? "true" : "false") + ",\"quotes\":" + (m ? quotes_json(m->proposed) : "[]") + "}");
        }
        for(size_t k = b2; k < output_clearing_prices_->values.size(); ++k) {
            std::vector<std::string> v;
            for(auto &x : std::get<1>(output_clearing_prices_->values[k])) v.push_back(std::to_string(x.value));
            cleared.push_back("[" + std::to_string(std::get<0>(output_clearing_prices_->values[k])) + "," + join(v) + "]");
        }
        std::unique_lock<std::mutex> g(W->m);
        vt::obj("act").i("lo", s.lower).i("hi", s.upper).raw("orders", join(ords)).raw("quotes", quotes_json(traded_properties)).raw("raw", join(raw)).raw("res", join(rest)).b("solvable", solvable)
            .raw("out", join(out)).raw("transfers", join(transfers)).raw("cleared", join(cleared)).i("next", next).emit();
        return next;
    }
};
// answers each quote with the next order of its script, in the step in which the quote arrives
struct trader : public finance::shareholder
{
    std::vector<std::vector<line>> script_;
    size_t answers = 0;
    time_point last = time_point(-1);
    int me;
    using agent::inbox;
    trader(const identity<trader> &i, int k, std::vector<std::vector<line>> s)
    : agent(identity<agent>(i.digits)), finance::shareholder(identity<finance::shareholder>(i.digits)), script_(s), me(k) {}
    void position(int p, std::uint64_t &own, std::uint64_t &lent) const
    {
        own = lent = 0;
        for(auto &[i, q] : inventory) {
            if(auto c = std::dynamic_pointer_cast<finance::securities_lending_contract>(i)) { if(c->security == pid(p)) lent += q.amount; }
            else if(i->identifier == pid(p)) own += q.amount;
        }
    }
    std::string holdings(int properties) const
    {
        std::vector<std::string> v;
        long long c = 0;
        for(int p = 1; p <= properties; ++p) { std::uint64_t a, b; position(p, a, b); v.push_back(triple(p, (long long)a, (long long)b)); }
        for(auto &[i, q] : inventory) if(std::dynamic_pointer_cast<cash>(i)) c += (long long)q.amount;
        return "\"who\":" + std::to_string(me) + ",\"own\":" + join(v) + ",\"cash\":" + std::to_string(c);
    }
    time_point act(time_interval s, std::seed_seq &) override
    {
        std::shared_ptr<walras::quote_message> q;
        for(auto &[k, m] : inbox) if(auto x = std::dynamic_pointer_cast<walras::quote_message>(m); x && x->received <= s.lower) q = x;
        if(!q) return s.upper;
        std::vector<std::string> known, told;
        for(auto &[k, v] : prices) known.push_back(triple(index_of(k->identifier), v.value, v.valuation == currencies::USD));
        for(auto &[k, v] : q->proposed) told.push_back(triple(index_of(k->identifier), std::get<price>(v.type).value, std::get<price>(v.type).valuation == currencies::USD));
        std::sort(known.begin(), known.end());
        std::sort(told.begin(), told.end());
        { std::unique_lock<std::mutex> g(W->m); vt::obj("know").i("who", me).raw("prices", join(known)).raw("quotes", join(told)).emit(); }
        if(last == s.lower) return s.upper;
        last = s.lower;
        std::vector<line> v;
        if(!script_.empty()) v = script_[answers % script_.size()];
        ++answers;
        for(auto &x : v) position(x.p, x.l, x.h);
        auto o = this->template create_message<order>(q->sender, s.lower, identifier, q->sender, s.lower, s.lower, v);
        o->sent = s.lower;
        return s.upper;
    }
};
// p:kind:w:s:long:short:other:coupling
static std::vector<line> lines(const std::vector<std::string> &o, size_t from)
{
    std::vector<line> r;
    for(size_t k = from; k < o.size(); ++k) {
        std::istringstream i(o[k]);
        std::string x;
        std::vector<std::string> f;
        while(std::getline(i, x, ':')) f.push_back(x);
        r.push_back({std::stoi(f[0]), f[1][0], std::stod(f[2]), std::stod(f[3]), std::stoi(f[6]), std::stod(f[7]), std::stoull(f[4]), std::stoull(f[5])});
    }
    return r;
}
struct creditor : finance::bondholder
{
    explicit creditor(const identity<finance::bondholder> &i)
    : agent(i), owner<law::property>(i), owner<cash>(i), owner<finance::bond>(i), finance::bondholder(i) {}
};
// T direct|sim <participants> <traded> value:lot ...
// O <from> <sent> line ...         an order          A <lo> <hi>   the market acts on the orders
// N <time> p:value:currency ...   a shareholder and a bondholder are told these quotes
// H <participant> <cash> units ... holdings          P <participant> line ...   an answer (the answers are repeated)      X <start> <end>
static void body(const script &ops)
{
    gsl_set_error_handler(nullptr);     // the default: an error that nobody handles ends the process
    world_t w;
    W = &w;
    int people = std::stoi(ops[0][2]);
    law::property_map<markets::quote> q;
    std::string traded, members;
    std::map<int, std::shared_ptr<law::property>> props;
    for(size_t k = 3; k < ops[0].size(); ++k) {
        auto c = ops[0][k].find(':');
        long long v = std::stoll(ops[0][k].substr(0, c));
        unsigned lot = (unsigned)std::stoul(ops[0][k].substr(c + 1));
        int p = int(k) - 2;
        props[p] = make(p);
        q.emplace(props[p], markets::quote(price(v, currencies::USD), lot));
        traded += (traded.empty() ? "" : ",") + triple(p, v, lot);
    }
    for(int k = 1; k <= people; ++k) members += (k > 1 ? "," : "") + std::to_string(k);
    auto begin = [&](const std::string &hold) { vt::obj("new").raw("traded", "[" + traded + "]").raw("members", "[" + members + "]").raw("hold", "[" + hold + "]").emit(); };
    if(ops[0][1] == "direct") {
        begin("");
        auto id = [](int k) { return std::vector<std::uint64_t>{3, std::uint64_t(k)}; };
        observed m(identity<observed>(id(0)), q);
        w.index[m.identifier] = 0;
        for(int k = 1; k <= people; ++k) { w.index[identity<agent>(id(k))] = k; m.participants.insert(identity<owner>(id(k))); }
        trader listener(identity<trader>(id(99)), 99, {});
        creditor lender(identity<finance::bondholder>(id(98)));
        for(size_t n = 1; n < ops.size(); ++n) {
            auto &o = ops[n];
            if(o[0] == "N") {
                law::property_map<markets::quote> told;
                std::vector<std::string> qs;
                for(size_t k = 2; k < o.size(); ++k) {
                    int p = 0, v = 0, cur = 0;
                    if(std::sscanf(o[k].c_str(), "%d:%d:%d", &p, &v, &cur) != 3) std::abort();
                    told.emplace(make(p), markets::quote(price(v, cur == 0 ? currencies::USD : cur == 1 ? currencies::EUR : currencies::GBP), 1));
                    qs.push_back(triple(p, v, cur));
                }
                auto x = std::make_shared<walras::quote_message>(m.identifier, listener.identifier, told, time_point(num(o[1])), time_point(num(o[1])));
                listener.inbox.insert({x->received, x});
                std::seed_seq s{1};
                listener.process_messages({time_point(num(o[1])), time_point(num(o[1]) + 1)}, s);
                listener.inbox.clear();
                lender.inbox.insert({x->received, x});
                lender.process_messages({time_point(num(o[1])), time_point(num(o[1]) + 1)}, s);
                lender.inbox.clear();
                auto known = [](auto &prices) {
                    std::vector<std::string> ps;
                    for(auto &[k, v] : prices) ps.push_back(triple(index_of(k->identifier), v.value, v.valuation == currencies::USD ? 0 : v.valuation == currencies::EUR ? 1 : v.valuation == currencies::GBP ? 2 : 9));
                    return join(ps);
                };
                vt::obj("told").raw("quotes", join(qs)).raw("prices", known(listener.prices)).raw("bonds", known(lender.bond_prices)).emit();
            } else if(o[0] == "O") {
                auto x = std::make_shared<order>(identity<agent>(id(std::stoi(o[1]))), m.identifier, time_point(num(o[2])), time_point(num(o[2])), lines(o, 3));
                m.inbox.insert({x->received, x});
            } else if(o[0] == "A") {
                std::seed_seq s{1};
                m.act({time_point(num(o[1])), time_point(num(o[2]))}, s);
                m.inbox.clear();
                m.outbox.clear();
            }
        }
    } else {
        std::map<int, std::vector<std::vector<line>>> answers;
        std::map<int, std::vector<long long>> held;
        time_point start = 0, end = 0;
        for(size_t n = 1; n < ops.size(); ++n) {
            if(ops[n][0] == "P") answers[std::stoi(ops[n][1])].push_back(lines(ops[n], 2));
            else if(ops[n][0] == "H") for(size_t k = 2; k < ops[n].size(); ++k) held[std::stoi(ops[n][1])].push_back(num(ops[n][k]));
            else if(ops[n][0] == "X") { start = time_point(num(ops[n][1])); end = time_point(num(ops[n][2])); }
        }
        computation::environment e;
        simulation::model mod(e, simulation::parameter::parametrization(0, start, end, 0, 1));
        auto m = mod.create<observed, simulation::world>(mod.world, q);
        w.index[m->identifier] = 0;
        std::vector<std::shared_ptr<trader>> ts;
        std::string hold;
        for(int k = 1; k <= people; ++k) {
            auto t = mod.create<trader, simulation::world>(mod.world, k, answers[k]);
            w.index[t->identifier] = k;
            m->participants.insert(identity<owner>(t->identifier.digits));
            t->law::owner<cash>::take(std::make_shared<cash>(currencies::USD), quantity(std::uint64_t(held[k][0])));
            for(size_t n = 1; n < held[k].size(); ++n) if(held[k][n]) t->law::owner<finance::stock>::take(std::dynamic_pointer_cast<finance::stock>(props[int(n)]), quantity(std::uint64_t(held[k][n])));
            hold += (hold.empty() ? "{" : ",{") + t->holdings(int(props.size())) + "}";
            ts.push_back(t);
        }
        begin(hold);
        for(int k = 0; k < 1000 && mod.time < mod.end; ++k) {
            e.step(mod);
            for(auto &t : ts) vt::put("{\"e\":\"have\"," + t->holdings(int(props.size())) + "}");
        }
        vt::obj("fin").emit();
    }
    W = nullptr;
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body, 10); }
