// Drives a centralized exchange through its inbox and records its outbox and what it publishes.
#include "books.hpp"
#include <map>
#include <sstream>
#include <esl/economics/markets/centralized_exchange.hpp>
using vt::num;
using namespace vb;

struct fixed_latency : esl::interaction::communication::latency_model
{
    std::vector<long long> by;
    esl::simulation::time_duration sample(const esl::identity<esl::agent> &, const esl::identity<esl::agent> &recipient, std::seed_seq &) override
    {
        auto a = number_of(recipient);
        return a >= 1 && a <= (long long)by.size() ? by[size_t(a - 1)] : 0;
    }
};

static const long long N = 9;
static std::string brace(const vt::obj &o) { return "{" + o.str().substr(1); }

// T <s|t> <lo> <hi> <lot> <cap> | <instruments with a book> | <traded> | <latency of participants 1..>
// A <request> ; <request> ; ...   with requests
//   O <t> <from> <owner> <side> <price> <qty> <life> [lot]    order
//   C <t or 0> <from> <p>     cancel the p-th placement that was reported (on instrument t, or its own if 0)
//   S|R|U <from> <depth> <t>...      snapshot, stream, unsubscribe       L <from> <t> <q> ...   logon     X <from>  logout
static void body(const script &ops)
{
    std::vector<std::vector<std::string>> parts(1);
    for(auto &w : ops[0]) { if(w == "|") parts.emplace_back(); else parts.back().push_back(w); }
    auto &h = parts[0];
    auto kind = h[1];
    long long lo = num(h[2]), hi = num(h[3]);
    std::uint32_t lot = std::uint32_t(num(h[4])), cap = std::uint32_t(num(h[5]));
    std::vector<long long> inst, traded, lat;
    for(auto &w : parts[1]) inst.push_back(num(w));
    for(auto &w : parts[2]) traded.push_back(num(w));
    for(auto &w : parts[3]) lat.push_back(num(w));
    vt::obj("new").t("kind", kind == "s" ? "static" : "tree").i("lo", lo).i("hi", hi).i("lot", lot).list("inst", inst).list("traded", traded).list("latency", lat).emit();
    std::vector<ticker> ts;
    for(auto t : traded) ts.push_back(instrument(t));
    centralized_exchange x(esl::identity<centralized_exchange>({0}), ts);
    x.schedule = esl::interaction::communicator::in_order;
    for(auto t : inst) x.books.emplace(instrument(t), make(kind, lo, hi, lot, cap));
    for(auto l : lat) if(l) {
        auto m = std::make_shared<fixed_latency>();
        m->by = lat;
        x.communication_model = m;
        break;
    }
    std::vector<std::pair<long long, long long>> placed;
    esl::simulation::time_point now = 1;
    for(size_t k = 1; k < ops.size(); ++k, now += 1 + k % 3) {
        std::vector<std::vector<std::string>> rs(1);
        for(size_t j = 1; j < ops[k].size(); ++j) { if(ops[k][j] == ";") rs.emplace_back(); else rs.back().push_back(ops[k][j]); }
        std::vector<std::string> ms;
        for(auto &o : rs) {
            vt::obj m;
            std::shared_ptr<esl::interaction::header> message;
            long long from;
            if(o[0] == "O") {
                from = num(o[2]);
                std::uint32_t l = o.size() > 8 ? std::uint32_t(num(o[8])) : lot;
                auto p = std::make_shared<new_order_single_message>();
                p->order_details = limit_order(instrument(num(o[1])), agent_of(num(o[3])), num(o[4]) ? limit_order::sell : limit_order::buy, mk(num(o[5]), l), std::uint32_t(num(o[6])), limit_order::lifetime_t(num(o[7])));
                m.t("k", "order").i("t", num(o[1])).i("owner", num(o[3])).i("side", num(o[4])).i("price", num(o[5])).i("lot", l).i("qty", num(o[6])).i("life", num(o[7]));
                message = p;
            } else if(o[0] == "C") {
                from = num(o[2]);
                auto q = size_t(num(o[3]));
                long long id = q < placed.size() ? placed[q].second : (long long)(1000000 + q);
                long long t = num(o[1]) ? num(o[1]) : q < placed.size() ? placed[q].first : inst[0];
                auto p = std::make_shared<cancel_order_message>();
                p->symbol = instrument(t);
                p->order = std::uint64_t(id);
                m.t("k", "cancel").i("t", t).i("id", id);
                message = p;
            } else if(o[0] == "L") {
                from = num(o[1]);
                auto p = std::make_shared<logon_message>();
                std::string s = "[";
                for(size_t j = 2; j + 1 < o.size(); j += 2) {
                    p->supply[instrument(num(o[j]))] = std::uint64_t(num(o[j + 1]));
                    s += (j > 2 ? "," : "") + std::string("[") + o[j] + "," + o[j + 1] + "]";
                }
                m.t("k", "logon").raw("supply", s + "]");
                message = p;
            } else if(o[0] == "X") {
                from = num(o[1]);
                message = std::make_shared<logout_message>();
                m.t("k", "logout");
            } else {
                from = num(o[1]);
                auto p = std::make_shared<market_data_request_message>();
                p->type = o[0] == "S" ? market_data_request_message::snapshot : o[0] == "R" ? market_data_request_message::stream : market_data_request_message::cancel;
                p->depth = std::uint8_t(num(o[2]));
                std::vector<long long> is;
                for(size_t j = 3; j < o.size(); ++j) { is.push_back(num(o[j])); p->instruments.push_back(instrument(is.back())); }
                m.t("k", o[0] == "S" ? "snap" : o[0] == "R" ? "stream" : "unsub").i("depth", p->depth).list("ts", is);
                message = p;
            }
            m.i("from", from);
            ms.push_back(brace(m));
            message->sender = agent_of(from);
            message->recipient = x.identifier;
            message->sent = now;
            message->received = now;
            x.inbox.insert({now, message});
        }
        bool refused = false;
        try {
            std::seed_seq seed{int(k)};
            x.process_messages({now, now + 1}, seed);
        } catch(const std::exception &) { refused = true; }
        x.inbox.clear();
        std::vector<std::string> ex, da, bs, po;
        for(auto &m : x.outbox) {
            vt::obj r;
            r.i("from", number_of(m->sender)).i("to", number_of(m->recipient)).i("sent", (long long)m->sent).i("recv", (long long)m->received);
            if(auto e = std::dynamic_pointer_cast<execution_report_message>(m)) {
                auto t = instrument_of(e->order.symbol, N);
                if(e->report.state == execution_report::placement) placed.push_back({t, ident(e->report.identifier)});
                vt::obj o;
                o.i("side", e->order.side).i("qty", e->order.quantity).i("price", value_of(e->order.limit)).i("owner", number_of(e->order.owner));
                ex.push_back(brace(r.i("t", t).raw("rep", report(e->report)).raw("order", brace(o))));
            } else if(auto d = std::dynamic_pointer_cast<market_data_message>(m)) {
                std::vector<long long> a, b;
                std::string s;
                for(auto &[q, z] : d->ask) a.push_back(z > 0 ? value_of(q) : -1);      // somebody stands behind a quote
                for(auto &[q, z] : d->bid) b.push_back(z > 0 ? value_of(q) : -1);
                for(auto &[q, z] : d->trades) s += (s.empty() ? "[" : ",[") + std::to_string(value_of(q)) + "," + std::to_string(z) + "]";
                da.push_back(brace(r.i("t", instrument_of(d->symbol, N)).list("ask", a).list("bid", b).raw("trades", "[" + s + "]")));
            } else vt::obj("other").emit();
        }
        x.outbox.clear();
        for(auto &[s, b] : x.books) bs.push_back(seen(instrument_of(s, N), *b, false));
        for(auto &[s, p] : x.positions) for(auto &[a, r] : p) po.push_back("[" + std::to_string(instrument_of(s, N)) + "," + std::to_string(number_of(a)) + "," + std::to_string(r.supply) + "]");
        vt::obj(refused ? "refused" : "act").i("now", (long long)now).raw("ms", join(ms)).raw("exec", join(ex)).raw("data", join(da)).raw("books", join(bs)).raw("pos", join(po)).emit();
    }
}
int main(int c, char **v) { return vt::main_(c, v, body, 20); }
