// Producers hand tasks to a thread_pool under a chosen schedule; every submission, execution and result is recorded.
#include "vsched.hpp"
#include <Python.h>
#include "trace.hpp"
#include <esl/computation/thread_pool.hpp>
using vt::num;
typedef std::vector<std::vector<std::string>> script;
typedef esl::computation::thread_pool tpool;
static std::atomic<int> ids{0};
static thread_local int mine = -1;
static int worker() { if(mine < 0) mine = ids++; return mine; }
static void log(vt::obj o)
{
#ifdef FREE
    std::unique_lock<std::mutex> l(vs::logm);
#endif
    o.emit();
}
static std::map<int, std::vector<std::string>> bodies;
static std::map<int, std::future<int>> futures;
static tpool *pool;
static std::mutex fm;
static int task(int i, int k);
static void put(int i, std::future<int> f)
{
#ifdef FREE
    std::unique_lock<std::mutex> l(fm);
#endif
    futures[i] = std::move(f);
}
static void submit(const std::string &o, int by)
{
    int i = int(num(o.substr(1)));
    log(vt::obj("submit").i("i", i).i("by", by).b("fut", o[0] == 't'));
    // the task has the arguments as they were when it was submitted
    int *a = new int(i);
    if(o[0] == 'w') pool->enqueue_work([](int a, int b) { task(a, b); }, *a, 3);
    else put(i, pool->enqueue_task(task, *a, 3));
    *a = 0;
    log(vt::obj("accepted").i("i", i));
}
static int task(int i, int k)
{
    int w = worker();
    log(vt::obj("start").i("i", i).i("w", w).i("k", k));
    bool fail = false;
    if(i <= 0) return 0;
    for(auto &o : bodies[i]) {
        if(o[0] == 'w' || o[0] == 't') submit(o, w);
        else if(o[0] == 'y') { vs::point();
#ifdef FREE
            std::this_thread::yield();
#endif
        }
        else if(o[0] == 'x') fail = true;
    }
    log(vt::obj("finish").i("i", i).i("w", w).b("fail", fail));
    if(fail) throw std::runtime_error("task " + std::to_string(i));
    return i * 7 + k;
}
static void get(int i)
{
    std::future<int> f;
    {
#ifdef FREE
        std::unique_lock<std::mutex> l(fm);
#endif
        auto j = futures.find(i);
        if(j == futures.end() || !j->second.valid()) return;
        f = std::move(j->second);
    }
#ifndef FREE
    vs::block([&] { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; });
#endif
    try { int r = f.get(); log(vt::obj("got").i("i", i).b("fail", false).i("r", r)); }
    catch(const std::future_error &) { log(vt::obj("got").i("i", i).b("fail", true).i("r", -1)); }
    catch(const std::runtime_error &e) { log(vt::obj("got").i("i", i).b("fail", true).i("r", e.what() == "task " + std::to_string(i) ? 0 : -2)); }
}
// T <seed> <preempt %> <spurious> <plan> <threads>
// M <ops of the main thread>    w<i> enqueue work i, t<i> enqueue task i, g<i> wait for the result of i, s wait until all is quiet
// W <ops of another producer>   the main thread joins the producers before it destroys the pool
// B <i> <ops of task i>         w/t nested submissions, y yield, x fail
static void body(const script &ops)
{
    std::vector<int> plan;
    if(ops[0][4] != "-") { std::istringstream s(ops[0][4]); std::string x; while(std::getline(s, x, ',')) plan.push_back(int(num(x))); }
    vs::begin(plan, std::uint64_t(num(ops[0][1])), int(num(ops[0][2])));
    unsigned n = unsigned(num(ops[0][5])), hw = std::thread::hardware_concurrency();
#ifndef FREE
    vs::g->spurious = num(ops[0][3]) != 0;
    vs::g->stuck = [] { vt::obj("stuck").emit(); vt::flush(); _exit(3); };
#endif
    bodies.clear(); futures.clear();
    int producers = 1;
    std::vector<std::string> mainops;
    for(auto &o : ops) {
        if(o[0] == "B") bodies[int(num(o[1]))] = std::vector<std::string>(o.begin() + 2, o.end());
        if(o[0] == "W") ++producers;
        if(o[0] == "M") mainops = std::vector<std::string>(o.begin() + 1, o.end());
    }
    for(auto &o : ops) if(o[0] == "M" || o[0] == "W" || o[0] == "B") for(auto &x : o) if(x[0] == 't' || x[0] == 'w') bodies[int(num(x.substr(1)))];
    ids = 1;
    mine = 0;
    vt::obj("new").i("n", n == 0 ? (hw ? hw : 1) : n).i("p", producers).emit();
    {
        auto p = std::make_unique<tpool>(n);
        pool = p.get();
        log(vt::obj("pool").i("threads", p->threads));
        std::vector<std::thread> t;
        auto act = [](const std::vector<std::string> &os, int by) {
            for(auto &o : os) {
                if(o[0] == 'g') get(int(num(o.substr(1))));
                else if(o[0] == 's') vs::settle();
                else submit(o, by);
            }
        };
        int k = 0;
        for(auto &o : ops) {
            if(o[0] != "W") continue;
            ++k;
            t.emplace_back([&act, o, k] { mine = 1000 + k; act(std::vector<std::string>(o.begin() + 1, o.end()), 1000 + k); });
        }
        act(mainops, 0);
        for(auto &x : t) x.join();
        log(vt::obj("destroy"));
        p.reset();
        log(vt::obj("gone"));
    }
    std::vector<int> rest;
    for(auto &f : futures) rest.push_back(f.first);
    for(int i : rest) get(i);
    vt::obj("end").emit();
    futures.clear();
    mine = -1;
    vs::end();
}
int main(int c, char **v) { return vt::main_(c, v, body, 20); }
