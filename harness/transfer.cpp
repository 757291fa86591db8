// Owners with and without per-type views exchange property by transfer messages.
#include "trace.hpp"
#include <map>
#include <memory>
#include <esl/economics/owner.hpp>
#include <esl/economics/fungibility.hpp>
#include <esl/interaction/transfer.hpp>
using namespace esl;
using vt::num;
typedef std::vector<std::vector<std::string>> script;
struct fung : public law::property, public economics::fungible { using law::property::property; };
struct ufun : public law::property, public economics::fungible { using law::property::property; };
struct infu : public law::property, public economics::infungible { using law::property::property; };
typedef identity<law::owner<law::property>> oid;
struct plain : public law::owner<law::property> { explicit plain(const oid &i) : agent(i), law::owner<law::property>(i) {} };
struct single : public virtual law::owner<fung> { explicit single(const oid &i) : agent(i), law::owner<law::property>(i), law::owner<fung>(i) {} };
struct dual : public virtual law::owner<fung>, public virtual law::owner<infu>
{ explicit dual(const oid &i) : agent(i), law::owner<law::property>(i), law::owner<fung>(i), law::owner<infu>(i) {} };
struct triple : public virtual law::owner<fung>, public virtual law::owner<infu>, public virtual law::owner<ufun>
{ explicit triple(const oid &i) : agent(i), law::owner<law::property>(i), law::owner<fung>(i), law::owner<infu>(i), law::owner<ufun>(i) {} };

// property p: kind by the script; a new object with the same identifier every time
static std::string kinds;
static std::shared_ptr<law::property> prop(int p)
{
    identity<law::property> id(std::vector<std::uint64_t>{7, std::uint64_t(p)});
    switch(kinds[size_t(p)]) {
        case 'F': return std::make_shared<fung>(id);
        case 'U': return std::make_shared<ufun>(id);
        case 'I': return std::make_shared<infu>(id);
        default: return std::make_shared<law::property>(id);
    }
}
static std::vector<std::shared_ptr<law::owner<law::property>>> owners;
static std::string state()
{
    std::string a = "[", b = "[";
    for(auto &o : owners) {
        std::vector<long long> inv, view;
        size_t seen = 0;
        for(size_t p = 0; p < kinds.size(); ++p) {
            auto x = prop(int(p));
            auto i = o->inventory.find(x);
            inv.push_back(i == o->inventory.end() ? 0 : (long long)i->second.amount);
            if(i != o->inventory.end()) ++seen;
            long long v = -1;
            auto f = std::dynamic_pointer_cast<law::owner<fung>>(o);
            auto u = std::dynamic_pointer_cast<law::owner<ufun>>(o);
            auto n = std::dynamic_pointer_cast<law::owner<infu>>(o);
            if(f && kinds[p] == 'F') { auto j = f->properties.items.find(std::dynamic_pointer_cast<fung>(x)); v = j == f->properties.items.end() ? 0 : (long long)j->second.amount; }
            if(u && kinds[p] == 'U') { auto j = u->properties.items.find(std::dynamic_pointer_cast<ufun>(x)); v = j == u->properties.items.end() ? 0 : (long long)j->second.amount; }
            if(n && kinds[p] == 'I') v = (long long)n->properties.items.count(std::dynamic_pointer_cast<infu>(x));
            view.push_back(v);
        }
        if(seen != o->inventory.size()) inv.push_back(-9);
        auto put = [](std::string &s, const std::vector<long long> &v) { s += s.size() > 1 ? ",[" : "["; for(size_t k = 0; k < v.size(); ++k) s += (k ? "," : "") + std::to_string(v[k]); s += "]"; };
        put(a, inv);
        put(b, view);
    }
    return "\"inv\":" + a + "],\"view\":" + b + "]";
}
static simulation::time_point asked;
static bool give(size_t o, std::shared_ptr<interaction::transfer> m)
{
    auto &a = owners.at(o - 1);
    a->inbox.insert({simulation::time_point(0), m});
    std::seed_seq s{1};
    bool ok = true;
    asked = 10;
    try { asked = a->process_messages({0, 10}, s); } catch(const economics::accounting::insufficent_inventory &) { ok = false; }
    a->inbox.clear();
    return ok;
}
// T <owner kinds, letters p s d t> <property kinds, letters F U I P>
// H <owner> <property> <q>                 initial holding (before the first other line)
// K <owner> <property> <q>                 take
// S <t> <from> <to> p:q ...                transferor processes transfer t      D <t> transferee processes it   B <t> <owner> third party
static void body(const script &ops)
{
    kinds = ops[0][2];
    owners.clear();
    std::uint64_t n = 0;
    for(char c : ops[0][1]) {
        oid i(std::vector<std::uint64_t>{3, n++});
        if(c == 'p') owners.push_back(std::make_shared<plain>(i));
        else if(c == 's') owners.push_back(std::make_shared<single>(i));
        else if(c == 'd') owners.push_back(std::make_shared<dual>(i));
        else owners.push_back(std::make_shared<triple>(i));
    }
    struct tr { size_t from, to; std::shared_ptr<interaction::transfer> m; };
    std::map<long long, tr> transfers;
    bool started = false;
    auto start = [&] { if(!started) { started = true; vt::put("{\"e\":\"new\"," + state() + "}"); } };
    auto take = [&](size_t o, int p, quantity q) {
        auto x = prop(p);
        auto &a = owners.at(o - 1);
        if(auto f = std::dynamic_pointer_cast<law::owner<fung>>(a); f && kinds[size_t(p)] == 'F') f->law::owner<fung>::take(std::dynamic_pointer_cast<fung>(x), q);
        else if(auto u = std::dynamic_pointer_cast<law::owner<ufun>>(a); u && kinds[size_t(p)] == 'U') u->law::owner<ufun>::take(std::dynamic_pointer_cast<ufun>(x), q);
        else if(auto i = std::dynamic_pointer_cast<law::owner<infu>>(a); i && kinds[size_t(p)] == 'I') i->law::owner<infu>::take(std::dynamic_pointer_cast<infu>(x), q);
        else a->inventory.insert({x, q});      // no view: the inventory is the only record
    };
    for(size_t k = 1; k < ops.size(); ++k) {
        auto &o = ops[k];
        if(o[0] == "H") { take(size_t(num(o[1])), int(num(o[2])) - 1, quantity(std::uint64_t(num(o[3])))); continue; }
        start();
        std::string h;
        bool ok = true;
        if(o[0] == "K") {
            take(size_t(num(o[1])), int(num(o[2])) - 1, quantity(std::uint64_t(num(o[3]))));
            h = "{\"e\":\"take\",\"o\":" + o[1] + ",\"p\":" + o[2] + ",\"q\":" + o[3];
        } else if(o[0] == "S") {
            economics::accounting::inventory_filter<law::property> f;
            std::string ps, qs;
            for(size_t j = 4; j < o.size(); ++j) {
                auto c = o[j].find(':');
                f.insert(prop(int(num(o[j].substr(0, c))) - 1), quantity(std::uint64_t(num(o[j].substr(c + 1)))));
                ps += (ps.empty() ? "" : ",") + o[j].substr(0, c);
                qs += (qs.empty() ? "" : ",") + o[j].substr(c + 1);
            }
            size_t from = size_t(num(o[2])), to = size_t(num(o[3]));
            auto &x = owners.at(from - 1), &y = owners.at(to - 1);
            auto m = std::make_shared<interaction::transfer>(x->identifier, y->identifier, oid(x->identifier.digits), oid(y->identifier.digits), f);
            ok = give(from, m);
            if(ok && from != to) transfers[num(o[1])] = {from, to, m};
            h = "{\"e\":\"send\",\"t\":" + o[1] + ",\"from\":" + o[2] + ",\"to\":" + o[3] + ",\"ps\":[" + ps + "],\"qs\":[" + qs + "]";
        } else {
            auto i = transfers.find(num(o[1]));
            if(i == transfers.end()) continue;
            if(o[0] == "D") { ok = give(i->second.to, i->second.m); h = "{\"e\":\"deliver\",\"t\":" + o[1]; transfers.erase(i); }
            else { size_t w = size_t(num(o[2])); if(w == i->second.from || w == i->second.to) continue; ok = give(w, i->second.m); h = "{\"e\":\"third\",\"t\":" + o[1]; }
        }
        vt::put(h + (o[0] == "K" ? std::string() : ",\"next\":" + std::to_string(asked)) + ",\"ok\":" + (ok ? "true," : "false,") + state() + "}");
    }
    start();
}
int main(int c, char **v) { return vt::main_(c, v, body, 20); }
