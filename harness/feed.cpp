// Reads recorded OpenBook files, and asks the Avellaneda-Stoikov market maker for quotes.
#include "trace.hpp"
#include <array>
#include <cassert>
#include <cmath>
#include <cstring>
#include <fstream>
#include <tuple>
#include <unistd.h>
#include <esl/economics/currencies.hpp>
#include <esl/economics/price.hpp>
#include <esl/economics/markets/quote.hpp>
#include <esl/economics/markets/order_book/order.hpp>
#include <esl/economics/markets/order_book/avellaneda_stoikov.hpp>
#include <esl/simulation/time.hpp>
#ifndef NOFEED
#include <esl/data/format/openbook.hpp>
#endif
using namespace esl;
namespace eco = esl::economics;
typedef std::vector<std::vector<std::string>> script;
// a number as sign and digits in base 10000
static std::string big(std::int64_t v)
{
    std::string s = "[" + std::to_string(v < 0 ? -1 : v > 0) + ",[";
    std::uint64_t u = v < 0 ? 0 - std::uint64_t(v) : std::uint64_t(v);
    for(bool first = true; u; u /= 10000, first = false) s += (first ? "" : ",") + std::to_string(u % 10000);
    return s + "]]";
}
#ifndef NOFEED
static std::string ints(const std::string &s)
{
    std::string r = "[";
    for(size_t k = 0; k < s.size(); ++k) r += (k ? "," : "") + std::to_string((unsigned char)s[k]);
    return r + "]";
}
static std::string unhex(const std::string &s)
{
    std::string r;
    for(size_t k = 0; k + 1 < s.size(); k += 2) r += char(std::stoi(s.substr(k, 2), nullptr, 16));
    return r;
}
static void fields(vt::obj &o, const std::string &symbol, char status, char reason, std::int64_t time, const eco::markets::quote &q, std::uint32_t quantity, bool buy)
{
    auto p = std::get<eco::price>(q.type);
    o.raw("symbol", ints(symbol)).i("status", (unsigned char)status).i("reason", (unsigned char)reason).raw("time", big(time))
     .raw("value", big(p.value)).raw("lot", big(q.lot)).b("usd", p.valuation == eco::currencies::USD).raw("quantity", big(quantity)).b("buy", buy);
}
#endif
// T     F <hex of the partial record at the end or -> <hex of a record> ...     S <hex of symbol or -> : the main session of the last file
// Q mid long short t sig g kk den
static void body(const script &ops)
{
    vt::obj("new").emit();
    std::string path = "/tmp/esl-feed-" + std::to_string(getpid());
    for(size_t n = 1; n < ops.size(); ++n) {
        auto &o = ops[n];
#ifndef NOFEED
        if(o[0] == "F") {
            std::string all, rs;
            for(size_t k = 2; k < o.size(); ++k) { auto b = unhex(o[k]); if(b.size() != 71) std::abort(); all += b; rs += (k > 2 ? "," : "") + ints(b); }
            auto tail = o[1] == "-" ? std::string() : unhex(o[1]);
            { std::ofstream f(path, std::ios::binary | std::ios::trunc); f << all << tail; }
            vt::obj("file").raw("records", "[" + rs + "]").i("tail", (long long)tail.size()).emit();
            try {
                data::read_openbook(path, [](const std::string &symbol, char status, char reason, simulation::time_point t, const eco::markets::quote &q,
                                             const std::uint32_t &quantity, eco::markets::order_book::limit_order::side_t side) {
                    vt::obj e("event");
                    fields(e, symbol, status, reason, std::int64_t(t), q, quantity, side == eco::markets::order_book::limit_order::buy);
                    e.emit();
                });
                vt::obj("done").emit();
            } catch(const std::exception &x) { vt::obj("exc").t("what", x.what()).emit(); }
        } else if(o[0] == "S") {
            auto symbol = o[1] == "-" ? std::string() : unhex(o[1]);
            std::string es;
            try {
                for(auto &[s, status, reason, t, q, quantity, side] : data::parse_main_session(path, symbol)) {
                    vt::obj e("event");
                    fields(e, s, status, reason, std::int64_t(t), q, quantity, side == eco::markets::order_book::limit_order::buy);
                    es += (es.empty() ? "" : ",") + e.str();
                }
                vt::obj("session").raw("symbol", ints(symbol)).raw("events", "[" + es + "]").emit();
            } catch(const std::exception &x) { vt::obj("exc").t("what", x.what()).emit(); }
        }
#endif
        if(o[0] == "Q") {
            long long a[8];
            for(int k = 0; k < 8; ++k) a[k] = vt::num(o[k + 1]);
            eco::iso_4217 c = a[7] == 1 ? eco::currencies::JPY : a[7] == 1000 ? eco::currencies::KWD : eco::currencies::USD;
            vt::obj("ask").raw("mid", big(a[0])).i("long", a[1]).i("short", a[2]).i("t", a[3]).i("sig", a[4]).i("g", a[5]).i("kk", a[6]).i("den", (long long)c.denominator).emit();
            auto [b, s] = eco::markets::order_book::avellaneda_stoikov(eco::price(a[0], c), std::uint64_t(a[1]), std::uint64_t(a[2]), a[3] / 8., a[4] / 4., a[5] / 1024., a[6] / 4.);
            vt::obj("quotes").raw("bid", big(b.value)).raw("ask", big(s.value)).b("same", b.valuation == c && s.valuation == c).emit();
        }
    }
    ::unlink(path.c_str());
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body, 20); }
