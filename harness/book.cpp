// Drives an order book (fixed-range or tree) through the public order-book interface and records every report.
#include "trace.hpp"
#include <memory>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>
using namespace esl::economics;
using namespace esl::economics::markets;
using namespace esl::economics::markets::order_book;
using vt::num;
typedef std::vector<std::vector<std::string>> script;

static long long value_of(const quote &q) { return std::get<price>(q.type).value; }
static long long ident(std::uint64_t i) { return i == basic_book::direct_order ? -1 : (long long)(i > 2000000000ull ? 2000000000ull : i); }
static esl::economics::iso_4217 currency = currencies::USD;
static quote mk(long long cents, std::uint32_t lot) { return quote(price(cents, currency), lot); }

// T <kind s|t> <lo> <hi> <lot> <capacity> [minor units per currency unit: 1, 100 or 1000]
// I <side> <price> <qty> <life> [lot] : insert      C <k> : cancel the order inserted by the k-th I (0-based) 
// X <id>: cancel a raw identifier
static void body(const script &ops)
{
    auto kind = ops[0][1];
    long long lo = num(ops[0][2]), hi = num(ops[0][3]);
    std::uint32_t lot = std::uint32_t(num(ops[0][4])), cap = std::uint32_t(num(ops[0][5]));
    auto minor = ops[0].size() > 6 ? num(ops[0][6]) : 100;
    currency = minor == 1 ? currencies::JPY : minor == 1000 ? currencies::KWD : currencies::USD;
    vt::obj("new").t("kind", kind == "s" ? "static" : "tree").i("lo", lo).i("hi", hi).i("lot", lot).emit();
    std::unique_ptr<basic_book> book;
    try {
        if(kind == "s") book = std::make_unique<static_order_book>(mk(lo, lot), mk(hi, lot), cap);
        else book = std::make_unique<binary_tree_order_book>();
    } catch(const std::exception &x) { vt::obj("exc").t("what", x.what()).emit(); return; }
    std::vector<long long> ids;   // identifier of the k-th inserted order, or -2 if it was never placed
    for(size_t k = 1; k < ops.size(); ++k) {
        auto &o = ops[k];
        try {
            if(o[0] == "I") {
                auto n = (long long)ids.size();
                std::uint32_t l = o.size() > 5 ? std::uint32_t(num(o[5])) : lot;
                limit_order order(ticker(), esl::identity<esl::agent>({std::uint64_t(n)}),
                                  num(o[1]) ? limit_order::sell : limit_order::buy, mk(num(o[2]), l), std::uint32_t(num(o[3])),
                                  limit_order::lifetime_t(num(o[4])));
                vt::obj("insert").i("side", num(o[1])).i("price", num(o[2])).i("lot", l).i("qty", num(o[3])).i("owner", n).i("life", num(o[4])).emit();
                ids.push_back(-2);
                book->insert(order);
            } else {
                std::uint64_t id;
                if(o[0] == "C") {
                    auto q = size_t(num(o[1]));
                    id = q < ids.size() && ids[q] >= 0 ? std::uint64_t(ids[q]) : std::uint64_t(1000000 + q);
                } else id = std::uint64_t(num(o[1]));
                vt::obj("cancel").i("id", ident(id)).emit();
                book->cancel(id);
            }
        } catch(const std::exception &x) { vt::obj("exc").t("what", x.what()).emit(); }
        for(auto &r : book->reports) {
            long long owner = r.owner.digits.empty() ? -1 : (long long)r.owner.digits[0];
            vt::obj("rep").i("state", r.state).i("side", r.side).i("qty", r.quantity).i("id", ident(r.identifier)).i("price", value_of(r.limit)).i("owner", owner).emit();
            if(r.state == execution_report::placement && o[0] == "I") ids.back() = (long long)r.identifier;
        }
        book->reports.clear();
        try {
            auto b = book->bid(), a = book->ask();
            std::vector<long long> os;
            for(auto i : book->orders()) { os.push_back(ident(i)); if(os.size() > 5000) break; }
            vt::obj("ret").i("bid", b ? value_of(*b) : -1).i("ask", a ? value_of(*a) : -1).list("orders", os).emit();
        } catch(const std::exception &x) { vt::obj("exc").t("what", x.what()).emit(); }
    }
}
int main(int c, char **v) { return vt::main_(c, v, body, 20); }
