// Cash-flow statements and valuations.
#include "trace.hpp"
#include <functional>
#include <map>
#include <esl/economics/accounting/standard.hpp>
#include <esl/economics/accounting/cash_flow_statement.hpp>
#include <esl/economics/finance/loan.hpp>
using namespace esl;
using namespace esl::economics;
typedef std::vector<std::vector<std::string>> script;
typedef __int128 wide;
static std::string big(wide v)
{
    std::string s = v == 0 ? "[0,[" : v < 0 ? "[-1,[" : "[1,[";
    if(v < 0) v = -v;
    for(bool f = true; v; v /= 10000, f = false) s += (f ? "" : ",") + std::to_string(int(v % 10000));
    return s + "]]";
}
static std::string cur(const iso_4217 &c) { return std::string(c) + std::to_string(c.denominator); }
static iso_4217 code(const std::string &s) { return iso_4217({s[0], s[1], s[2]}, std::stoull(s.substr(3))); }
static bool fits(wide v) { return v > INT64_MIN && v <= INT64_MAX; }
// T home          F t v      R c n d     r c      Q s v c lot     q s
// S lo hi         V cash c q | V money c q | V stock s q | V short s size q | V loan q
static void body(const script &ops)
{
    accounting::standard std_(code(ops[0][1]));
    accounting::cash_flow_statement st;
    std::string home = cur(std_.reporting_currency);
    vt::obj("new").t("home", home).emit();
    auto security = [](const std::string &s) { return identity<law::property>({7, std::uint64_t(std::stoul(s))}); };
    std::map<std::string, std::pair<wide, wide>> rate;
    std::map<std::string, std::pair<wide, std::pair<wide, std::string>>> quoted;
    auto homef = [&](wide v, const std::string &c) { return c == home || !rate.count(c) || fits(v * rate[c].first); };
    for(size_t n = 1; n < ops.size(); ++n) {
        auto &o = ops[n];
        if(o[0] == "F") {
            auto t = std::stoull(o[1]);
            auto v = std::stoll(o[2]);
            st.mutations.emplace(t, price(std::int64_t(v), std_.reporting_currency));
            vt::obj("flow").i("t", (long long)t).raw("v", big(v)).emit();
        } else if(o[0] == "R") {
            // the map entry of the reporting currency is set up by the standard itself
            if(cur(code(o[1])) == home) continue;
            std_.foreign_currencies.erase(code(o[1]));
            exchange_rate x(std::stoull(o[2]), std::stoull(o[3]));
            std_.foreign_currencies.emplace(code(o[1]), x);
            rate[o[1]] = {x.numerator(), x.denominator()};
            vt::obj("rate").t("c", o[1]).raw("n", big(x.numerator())).raw("d", big(x.denominator())).emit();
        } else if(o[0] == "r") {
            if(cur(code(o[1])) == home) continue;
            std_.foreign_currencies.erase(code(o[1]));
            rate.erase(o[1]);
            vt::obj("norate").t("c", o[1]).emit();
        } else if(o[0] == "Q") {
            auto id = security(o[1]);
            std_.mark_to_market.erase(id);
            std_.mark_to_market.emplace(id, markets::quote(price(std::int64_t(std::stoll(o[2])), code(o[3])), std::uint32_t(std::stoul(o[4]))));
            quoted[o[1]] = {std::stoll(o[2]), {std::stoul(o[4]), o[3]}};
            vt::put("{\"e\":\"quote\",\"s\":" + o[1] + ",\"q\":{\"v\":" + big(std::stoll(o[2])) + ",\"c\":\"" + o[3] + "\",\"l\":" + big(std::stoul(o[4])) + "}}");
        } else if(o[0] == "q") {
            std_.mark_to_market.erase(security(o[1]));
            quoted.erase(o[1]);
            vt::obj("noquote").raw("s", o[1]).emit();
        } else if(o[0] == "S") {
            simulation::time_interval p{std::stoull(o[1]), std::stoull(o[2])};
            auto r = st.revenue(p, std_), i = st.income(p, std_), e = st.expenses(p, std_), h = st.history(p, std_);
            bool same = r.valuation == std_.reporting_currency && i.valuation == r.valuation && e.valuation == r.valuation && h.valuation == r.valuation;
            vt::obj("statement").raw("lo", o[1]).raw("hi", o[2]).raw("revenue", big(r.value)).raw("income", big(i.value)).raw("expenses", big(e.value))
                .raw("history", big(h.value)).t("c", same ? cur(r.valuation) : "mixed").emit();
        } else {
            const std::string &k = o[1];
            price r(0, std_.reporting_currency);
            bool ok = true;
            wide size = 0, local = 0, q = 0;
            std::string s = "0";
            try {
                if(k == "cash" || k == "money") {
                    q = std::stoll(o[3]);
                    s = vt::obj::quote(o[2]);
                    if(!homef(q, o[2])) continue;
                    cash c(code(o[2]));
                    r = k == "cash" ? std_.value(c, quantity(std::uint64_t(q))) : std_.value(static_cast<const money &>(c), quantity(std::uint64_t(q)));
                } else if(k == "loan") {
                    q = std::stoll(o[2]);
                    size = std_.reporting_currency.denominator;
                    if(!fits(q * size)) continue;
                    finance::loan l(identity<agent>({1}), identity<agent>({2}));
                    r = std_.value(l, quantity(std::uint64_t(q)));
                } else {
                    s = o[2];
                    q = std::stoll(o[k == "short" ? 4 : 3]);
                    size = k == "short" ? std::stoll(o[3]) : 1;
                    if(!fits(size * q)) continue;
                    if(quoted.count(s)) {
                        auto &m = quoted[s];
                        // products that do not fit are outside the domain
                        if(m.first != 0 && (m.first < 0 ? -m.first : m.first) > wide(INT64_MAX) / (size * q == 0 ? 1 : size * q)) continue;
                        local = m.first * size * q / m.second.first;
                        if(!homef(local, m.second.second)) continue;
                    }
                    if(k == "short") {
                        finance::securities_lending_contract c(identity<agent>({1}), identity<agent>({2}), security(s), quantity(std::uint64_t(size)));
                        r = std_.value(c, quantity(std::uint64_t(q)));
                    } else {
                        finance::stock c(security(s), identity<company>({3}), finance::share_class());
                        r = std_.value(c, quantity(std::uint64_t(q)));
                    }
                }
            } catch(const std::exception &) { ok = false; }
            vt::obj("value").t("k", k == "money" ? "cash" : k).raw("s", s).raw("q", big(q)).raw("size", big(size)).raw("local", big(local)).b("ok", ok)
                .t("c", cur(r.valuation)).raw("r", big(r.value)).emit();
        }
    }
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body); }
