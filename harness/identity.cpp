// Entities create entities through every interface of the library; their identifiers are recorded, compared and rendered.
#include "trace.hpp"
#include <map>
#include <memory>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <esl/agent.hpp>
#include <esl/computation/environment.hpp>
#include <esl/law/property.hpp>
#include <esl/simulation/model.hpp>
using namespace esl;
using vt::num;
typedef std::vector<std::vector<std::string>> script;
typedef std::vector<std::uint64_t> digits;
struct person : public agent { explicit person(const identity<person> &i) : agent(i) {} };
struct estate : public law::property { explicit estate(const identity<law::property> &i = identity<law::property>()) : law::property(i) {} };
struct node { simulation::world *w = nullptr; std::shared_ptr<agent> a; std::shared_ptr<law::property> p;
    digits d() const { return w ? w->identifier.digits : a ? a->identifier.digits : p->identifier.digits; } };
static std::string plain(const digits &d) { std::string s = "["; for(size_t k = 0; k < d.size(); ++k) s += (k ? "," : "") + std::to_string(d[k]); return s + "]"; }
static std::string limbs(const digits &d)
{
    digits r;
    for(auto x : d) { r.push_back(x >> 44); r.push_back((x >> 22) & 0x3fffff); r.push_back(x & 0x3fffff); }
    return plain(r);
}
struct alpha {}; struct beta : alpha {};
static void compare(const digits &x, const digits &y)
{
    identity<alpha> a(x), b(y);
    identity<beta> c(y), c2(x);
    std::hash<identity<alpha>> h;
    std::hash<identity<beta>> g;
    entity<law::property> ea{identity<law::property>(x)};
    entity<agent> eb{identity<agent>(y)};
    entity<law::property> ec{identity<law::property>(y)};
    identity<alpha> up(c);
    bool types = a == c, ok = (c == a) == types && (up == a) == types && (a != c) == !types && (c2 < b) == (a < b) && (c2 <= b) == (a <= b)
        && (c2 > b) == (a > b) && (c2 >= b) == (a >= b) && (dynamic_identity_cast<beta>(b) == a) == types && (reinterpret_identity_cast<agent>(b) == a) == types;
    vt::obj("cmp").raw("a", limbs(x)).raw("b", limbs(y)).b("eq", a == b).b("ne", a != b).b("lt", a < b).b("le", a <= b).b("gt", a > b).b("ge", a >= b)
        .b("hash", h(a) == h(b) && h(a) == g(c)).b("types", ok ? types : !(x == y)).b("ent", (ea == eb) == (ea == ec) && (ea != ec) == !(ea == ec) ? ea == ec : !(x == y)).emit();
}
// T <own roots, digits joined by '.', or ->    C <parent> <api>      X <digits> <digits> compare     R <node> store and load a property
// S <digits> <width>                           A all pairs of the identifiers so far
static digits parse(const std::string &s) { digits d; std::istringstream i(s == "-" ? "" : s); std::string x; while(std::getline(i, x, '.')) d.push_back(std::stoull(x)); return d; }
static void body(const script &ops)
{
    computation::environment e;
    simulation::parameter::parametrization prm(0, 0, 10);
    simulation::model m(e, prm);
    std::vector<node> n;
    node root;
    root.w = &m.world;
    n.push_back(root);
    for(size_t k = 1; k < ops[0].size(); ++k) {
        if(ops[0][k] == "-") continue;
        node r;
        r.p = std::make_shared<law::property>(identity<law::property>(parse(ops[0][k])));
        n.push_back(r);
    }
    std::string roots;
    for(auto &x : n) roots += (roots.empty() ? "" : ",") + plain(x.d());
    vt::put("{\"e\":\"new\",\"roots\":[" + roots + "]}");
    auto born = [&](const digits &parent, const digits &child, char api) {
        vt::obj("create").raw("p", plain(parent)).raw("c", plain(child)).t("api", std::string(1, api)).emit();
    };
    for(size_t k = 1; k < ops.size(); ++k) {
        auto &o = ops[k];
        if(o[0] == "C") {
            node p = n.at(size_t(num(o[1])) % n.size()), c;
            char api = o[2][0];
            digits id;
            auto mkagent = [&](const identity<person> &i) { id = i.digits; c.a = std::make_shared<person>(i); };
            if(api == 'w') { auto a = m.create<person>(); c.a = a; id = a->identifier.digits; p = n[0]; }
            else if(api == 'v') { mkagent(m.create_identifier<person>()); p = n[0]; }
            else if(api == 'a') {
                std::shared_ptr<person> a = p.w ? m.create<person, simulation::world>(*p.w) : p.a ? m.create<person, agent>(*p.a) : m.agents.create<person, law::property>(*p.p);
                c.a = a; id = a->identifier.digits;
            }
            else if(api == 'm') mkagent(p.w ? m.create_identifier<person>(*p.w) : p.a ? m.create_identifier<person>(*p.a) : m.create_identifier<person>(*p.p));
            else if(api == 'i') mkagent(p.w ? p.w->identifier.create<person>(*p.w) : p.a ? p.a->identifier.create<person>(*p.a) : p.p->identifier.create<person>(*p.p));
            else if(api == 'e') mkagent(p.w ? p.w->create<person>() : p.a ? p.a->create<person>() : p.p->create<person>());
            else { auto i = p.w ? p.w->create<law::property>() : p.a ? p.a->create<law::property>() : p.p->create<law::property>(); id = i.digits; c.p = std::make_shared<law::property>(i); }
            born(p.d(), id, api);
            // the identifier the entity itself states
            if(c.d() != id) vt::obj("create").raw("p", plain(p.d())).raw("c", plain(c.d())).emit();
            n.push_back(c);
        } else if(o[0] == "R") {
            auto &x = n.at(size_t(num(o[1])) % n.size());
            if(!x.p) continue;
            std::stringstream s;
            auto y = std::make_shared<law::property>();
            { boost::archive::text_oarchive a(s); const law::property &z = *x.p; a << z; }
            { boost::archive::text_iarchive a(s); a >> *y; }
            vt::obj("store").raw("a", plain(x.d())).raw("b", plain(y->identifier.digits)).emit();
            x.p = y;
        } else if(o[0] == "X") compare(parse(o[1]), parse(o[2]));
        else if(o[0] == "S") {
            auto d = parse(o[1]);
            vt::obj("show").raw("a", plain(d)).i("w", num(o[2])).t("s", identity<agent>(d).representation(num(o[2]))).emit();
        } else if(o[0] == "A") {
            for(auto &a : n) for(auto &b : n) compare(a.d(), b.d());
            for(auto &a : n) vt::obj("show").raw("a", plain(a.d())).i("w", 0).t("s", a.w ? a.w->representation() : a.a ? a.a->representation() : a.p->representation()).emit();
        }
    }
}
int main(int c, char **v) { return vt::main_(c, v, body, 20); }
