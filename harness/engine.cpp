// Drives the matching engine with orders and cancellations over several instruments.
#include "books.hpp"
#include <esl/economics/markets/order_book/matching_engine.hpp>
using namespace vb;
using vt::num;
// T <s|t> <lo> <hi> <lot> <cap> <instruments>
// I <t> <side> <price> <qty> <life> [lot]      C <t> <k>: cancel the order of the k-th I on instrument t     X <t>: collect the reports
static void body(const script &ops)
{
    auto kind = ops[0][1];
    long long lo = num(ops[0][2]), hi = num(ops[0][3]), n = num(ops[0][6]);
    std::uint32_t lot = std::uint32_t(num(ops[0][4])), cap = std::uint32_t(num(ops[0][5]));
    vt::obj("new").t("kind", kind == "s" ? "static" : "tree").i("lo", lo).i("hi", hi).i("lot", lot).emit();
    try {
        auto e = kind == "d" ? std::make_unique<matching_engine>() : std::make_unique<matching_engine>([&] { return make(kind, lo, hi, lot, cap); });
        std::vector<long long> ids;
        for(size_t k = 1; k < ops.size(); ++k) {
            auto &o = ops[k];
            auto t = num(o[1]);
            vt::obj x(o[0] == "I" ? "insert" : o[0] == "C" ? "cancel" : "clear");
            x.i("t", t);
            if(o[0] == "I") {
                std::uint32_t l = o.size() > 6 ? std::uint32_t(num(o[6])) : lot;
                long long owner = 10 * (long long)ids.size() + t;
                limit_order order(instrument(t), agent_of(owner), num(o[2]) ? limit_order::sell : limit_order::buy, mk(num(o[3]), l), std::uint32_t(num(o[4])), limit_order::lifetime_t(num(o[5])));
                x.i("side", num(o[2])).i("price", num(o[3])).i("lot", l).i("qty", num(o[4])).i("owner", owner).i("life", num(o[5]));
                e->insert(order);
                ids.push_back(-2);
                auto b = e->books.find(instrument(t));
                if(b != e->books.end() && !b->second->reports.empty() && b->second->reports.back().state == execution_report::placement) ids.back() = (long long)b->second->reports.back().identifier;
            } else if(o[0] == "C") {
                auto q = size_t(num(o[2]));
                long long id = q < ids.size() && ids[q] >= 0 ? ids[q] : (long long)(1000000 + q);
                x.i("id", id);
                e->cancel(instrument(t), std::uint64_t(id));
            } else {
                auto b = e->books.find(instrument(t));
                if(b != e->books.end()) b->second->reports.clear();
            }
            std::vector<std::string> bs;
            for(auto &[s, b] : e->books) bs.push_back(seen(instrument_of(s, n), *b, true));
            x.raw("books", join(bs)).emit();
        }
    } catch(const std::exception &x) { vt::obj("exc").t("what", x.what()).emit(); }
}
int main(int c, char **v) { return vt::main_(c, v, body, 20); }
