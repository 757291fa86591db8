// Runs scripted agents in the simulation engine and records, per round, what every agent was given and answered.
#include "trace.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <esl/agent.hpp>
#include <esl/computation/environment.hpp>
#include <esl/interaction/message.hpp>
#include <esl/simulation/model.hpp>
using namespace esl;
using namespace esl::simulation;
using vt::num;
typedef std::vector<std::vector<std::string>> script;

struct m0 : interaction::message<m0, (std::uint64_t(1) << 62) | 0x900> { long long id = 0; };
struct m1 : interaction::message<m1, (std::uint64_t(1) << 62) | 0x901> { long long id = 0; };
struct m2 : interaction::message<m2, (std::uint64_t(1) << 62) | 0x902> { long long id = 0; };

struct send_t { int to; long long delay; int type; };
struct step_t { std::string dt; std::vector<send_t> sends; int create = 0; std::vector<int> gone; };
typedef std::vector<std::pair<int, int>> callbacks_t;
struct config_t { callbacks_t cbs; std::vector<step_t> acts; std::vector<std::string> rets; };
struct world_t
{
    std::vector<config_t> config;      // by agent index
    size_t initial = 0;
    interaction::communicator::scheduling order = interaction::communicator::random;
    std::map<identity<agent>, int> index;
    std::vector<std::shared_ptr<agent>> agents;
    std::vector<std::string> idents;
    std::map<int, std::string> proc;      // record of each agent processed in the current round
    std::vector<std::string> extra;       // second and later records of the same agent in one round
    std::mutex m;
    simulation::model *mod = nullptr;
};
static world_t *W = nullptr;
static void make(int k, bool nested, std::string *into);

static time_point next(const std::string &d, time_interval s)
{
    if(d == "U") return s.upper;
    if(d == "P") return s.lower ? s.lower - 1 : s.lower;
    return std::min<time_point>(s.upper, s.lower + time_point(num(d)));
}

struct scripted : public agent
{
    int me = -1;
    size_t acts = 0, calls = 0, sent = 0;
    std::string callseq;
    std::string name_;
    scripted(identity<scripted> i, int k) : agent(identity<agent>(i.digits)), me(k)
    {
        schedule = W->order;
        name_ = identifier.representation();
        int n = 0;
        for(auto [t, p] : W->config[k].cbs) {
            ++n;
            if(t == 0) hook<m0>(n, p); else if(t == 1) hook<m1>(n, p); else hook<m2>(n, p);
        }
    }
    template<class M> void hook(int n, int p)
    {
        register_callback<M>([this, n](std::shared_ptr<M> m, time_interval s, std::seed_seq &) {
            auto &r = W->config[me].rets;
            auto ret = r.empty() ? s.upper : next(r[calls % r.size()], s);
            ++calls;
            if(!callseq.empty()) callseq += ",";
            callseq += "{\"id\":" + std::to_string(m ? m->id : -5) + ",\"k\":" + std::to_string(n) + ",\"ret\":" + std::to_string(ret)
                     + ",\"lo\":" + std::to_string(s.lower) + ",\"hi\":" + std::to_string(s.upper) + "}";
            return ret;
        }, interaction::communicator::priority_t(p), "d", "m", "f", 1);
    }
    template<class M> void dispatch(int to, time_point at, long long id, bool create)
    {
        identity<agent> r;
        if(to < int(W->agents.size())) r = W->agents[to]->identifier;
        else r = identity<agent>(std::vector<std::uint64_t>{99, std::uint64_t(to)});
        if(create) { auto m = create_message<M>(r, at); m->id = id; m->sender = identifier; }
        else { auto m = std::make_shared<M>(); m->recipient = r; m->received = at; m->sender = identifier; m->id = id; send_message(m); }
    }
    time_point act(time_interval s, std::seed_seq &seed) override
    {
        auto &c = W->config[me];
        std::string sends, fresh, gone;
        std::string dt = "U";
        if(acts < c.acts.size()) {
            auto &b = c.acts[acts];
            dt = b.dt;
            for(auto &x : b.sends) {
                auto at = x.delay < 0 ? (time_point(-x.delay) > s.lower ? 0 : s.lower - time_point(-x.delay)) : s.lower + time_point(x.delay);
                long long id = 1000 * (me + 1) + (long long)sent++;
                bool how = id % 2;
                if(x.type == 0) dispatch<m0>(x.to, at, id, how); else if(x.type == 1) dispatch<m1>(x.to, at, id, how); else dispatch<m2>(x.to, at, id, how);
                if(!sends.empty()) sends += ",";
                sends += "{\"id\":" + std::to_string(id) + ",\"to\":" + std::to_string(x.to < int(W->agents.size()) ? x.to : 1000 + x.to) + ",\"recv\":" + std::to_string(at) + ",\"type\":" + std::to_string(x.type) + "}";
            }
            for(int i = 0; i < b.create; ++i) {
                if(W->agents.size() < W->config.size()) make(int(W->agents.size()), true, &fresh);
            }
            for(int g : b.gone) {
                if(g < int(W->agents.size()) && W->agents[g] && W->mod->agents[W->agents[g]->identifier]) {
                    W->mod->agents.deactivate(W->agents[g]);
                    gone += (gone.empty() ? "" : ",") + std::to_string(g);
                }
            }
        }
        ++acts;
        auto ret = next(dt, s);
        std::vector<std::uint32_t> sq(3);
        seed.generate(sq.begin(), sq.end());
        std::string seeds = std::to_string(sq[0]) + "-" + std::to_string(sq[1]) + "-" + std::to_string(sq[2]);
        auto o = vt::obj("proc").i("a", me).i("lo", (long long)s.lower).i("hi", (long long)s.upper).raw("calls", "[" + callseq + "]")
            .i("ret", (long long)ret).raw("sends", "[" + sends + "]").raw("new", "[" + fresh + "]").raw("gone", "[" + gone + "]").t("seed", seeds)
            .b("idok", identifier.representation() == name_ && W->idents[me] == name_).str();
        callseq.clear();
        {
            std::unique_lock<std::mutex> g(W->m);
            if(!W->proc.emplace(me, o).second) W->extra.push_back(o);
        }
        return ret;
    }
};

static std::string cbs_json(const callbacks_t &c)
{
    std::string r;
    for(auto [t, p] : c) r += (r.empty() ? "[" : ",[") + std::to_string(t) + "," + std::to_string(p) + "]";
    return "[" + r + "]";
}
static void make(int k, bool nested, std::string *into)
{
    W->agents.push_back(nullptr);
    W->idents.push_back("");
    auto a = W->mod->create<scripted, simulation::world>(W->mod->world, k);
    W->agents[k] = a;
    W->idents[k] = a->identifier.representation();
    bool found = W->mod->agents[a->identifier] == a && W->mod->agents.global_agents_.count(a->identifier) == 1;
    for(int j = 0; j < k; ++j) found = found && W->idents[j] != W->idents[k];
    if(nested) {
        *into += std::string(into->empty() ? "" : ",") + "{\"a\":" + std::to_string(k) + ",\"cbs\":" + cbs_json(W->config[k].cbs) + "}";
    } else vt::obj("create").i("a", k).raw("cbs", cbs_json(W->config[k].cbs)).b("found", found).emit();
}
using vt::put;
static void flush_round()
{
    for(auto &kv : W->proc) put(kv.second);
    for(auto &x : W->extra) put(x);
    W->proc.clear();
    W->extra.clear();
}
struct env : public computation::environment
{
    size_t send_messages(simulation::model &m) override
    {
        flush_round();
        auto n = computation::environment::send_messages(m);
        vt::obj("round").i("n", (long long)n).emit();
        return n;
    }
    void before_step() override { computation::environment::before_step(); vt::obj("before").i("time", (long long)W->mod->time).emit(); }
    void after_step(simulation::model &m) override { computation::environment::after_step(m); vt::obj("after").i("time", (long long)m.time).emit(); }
    void after_run(simulation::model &m) override { computation::environment::after_run(m); vt::obj("conclude").emit(); }
    size_t activate() override { auto n = computation::environment::activate(); vt::obj("activated").i("n", (long long)n).emit(); return n; }
    size_t deactivate() override { auto n = computation::environment::deactivate(); vt::obj("deactivated").i("n", (long long)n).emit(); return n; }
};
struct mod : public model
{
    using model::model;
    void terminate() override { model::terminate(); vt::obj("terminate").emit(); }
    void initialize() override { vt::obj("initialize").emit(); for(size_t k = 0; k < W->initial; ++k) make(int(k), false, nullptr); }
    time_point step(time_interval s) override
    {
        vt::obj("step").i("lo", (long long)s.lower).i("hi", (long long)s.upper).emit();
        auto r = model::step(s);
        vt::obj("endstep").i("ret", (long long)r).i("time", (long long)time).emit();
        return r;
    }
};

// T <mode run|env|model> <threads,threads,..> <in_order|random> <start> <end> <sample>
// A t:p ...        initial agent with its callbacks          N t:p ...   agent that can be created during the run
// B <agent> <dt|U|P> [s:<to>:<delay>:<type>] [c:<n>] [d:<agent>]   next act of the agent
// R <agent> <dt> ...                                         answers of its callbacks, in turn
// X <gap> ...                                                mode model: delay of each step after the time asked for
static void body(const script &ops)
{
    auto &h = ops[0];
    std::vector<std::uint64_t> threads;
    { std::istringstream ts(h[2]); std::string x; while(std::getline(ts, x, ',')) threads.push_back(std::uint64_t(num(x))); }
    time_point start = time_point(num(h[4])), end = time_point(num(h[5]));
    bool firstrun = true;
    std::vector<long long> gaps;
    for(auto n : threads) {
        world_t w;
        W = &w;
        gaps.clear();
        w.order = h[3] == "in_order" ? interaction::communicator::in_order : interaction::communicator::random;
        for(size_t k = 1; k < ops.size(); ++k) {
            auto &o = ops[k];
            if(o[0] == "A" || o[0] == "N") {
                config_t c;
                for(size_t j = 1; j < o.size(); ++j) { auto p = o[j].find(':'); c.cbs.push_back({int(num(o[j].substr(0, p))), int(num(o[j].substr(p + 1)))}); }
                w.config.push_back(c);
                if(o[0] == "A") w.initial = w.config.size();
            } else if(o[0] == "B") {
                step_t b;
                b.dt = o[2];
                for(size_t j = 3; j < o.size(); ++j) {
                    if(o[j][0] == 's') { int to, ty; long long d; std::sscanf(o[j].c_str(), "s:%d:%lld:%d", &to, &d, &ty); b.sends.push_back({to, d, ty}); }
                    else if(o[j][0] == 'c') b.create = int(num(o[j].substr(2)));
                    else if(o[j][0] == 'd') b.gone.push_back(int(num(o[j].substr(2))));
                }
                w.config.at(size_t(num(o[1]))).acts.push_back(b);
            } else if(o[0] == "R") {
                for(size_t j = 2; j < o.size(); ++j) w.config.at(size_t(num(o[1]))).rets.push_back(o[j]);
            } else if(o[0] == "X") for(size_t j = 1; j < o.size(); ++j) gaps.push_back(num(o[j]));
        }
        if(firstrun) vt::obj("new").t("mode", h[1]).i("end", (long long)end).t("order", h[3]).emit();
        else vt::obj("rerun").i("threads", (long long)n).emit();
        firstrun = false;
        env e;
        parameter::parametrization p(std::uint64_t(num(h[6])), start, end, 0, unsigned(n));
        mod m(e, p);
        if(m.threads != std::max<std::uint64_t>(1, n) || m.time != start || m.start != start || m.end != end || m.sample != std::uint64_t(num(h[6]))) vt::obj("parameters").emit();
        w.mod = &m;
        try {
            if(h[1] == "run") {
                e.run(m);
            } else if(h[1] == "env") {
                m.initialize();
                for(int k = 0; k < 200 && m.time < m.end; ++k) e.step(m);
                if(m.time >= m.end) e.step(m);      // nothing is left to do
            } else {
                m.initialize();
                size_t g = 0;
                time_point t = start;
                for(int k = 0; k < 200 && t < m.end; ++k) {
                    e.activate();
                    e.deactivate();
                    time_point gap = g < gaps.size() ? time_point(gaps[g]) : 0;
                    if(k > 0 && t + gap < m.end) { t += gap; ++g; }
                    t = (k % 2 == 0 && gap == 0) ? static_cast<model &>(m).step() : m.step({t, end});
                }
            }
            vt::obj("done").i("time", (long long)m.time).emit();
        } catch(const std::exception &x) {
            flush_round();
            std::string what = x.what();
            const char *kind = what.find("recipient") != std::string::npos ? "recipient" : what.find("before current time") != std::string::npos ? "past" : "other";
            vt::obj("error").t("kind", kind).t("what", what).emit();
        }
        w.agents.clear();
    }
    vt::obj("fin").emit();
}
int main(int c, char **v) { vt::max_events = 6000; return vt::main_(c, v, body, 20); }
