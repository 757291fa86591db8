// Several threads work on one blocking_queue under a chosen schedule; calls and returns are recorded.
#include "vsched.hpp"
#include <Python.h>
#include "trace.hpp"
#include <esl/computation/blocking_queue.hpp>
using vt::num;
typedef std::vector<std::vector<std::string>> script;
struct value
{
    int x = -7;
    value() = default;
    explicit value(int x) : x(x) {}
    value(const value &) = default;
    value &operator=(const value &) = default;
    value(value &&o) noexcept : x(o.x) { o.x = -8; }
    value &operator=(value &&o) noexcept { x = o.x; if(&o != this) o.x = -8; return *this; }
};
// elements that can only be moved, or only be copied
struct moved : value
{
    using value::value;
    moved() = default;
    moved(moved &&) = default;
    moved &operator=(moved &&) = default;
};
struct copied : value
{
    using value::value;
    copied() = default;
    copied(const copied &) = default;
    copied &operator=(const copied &) = default;
    copied &operator=(copied &&) = delete;
};
static void log(const vt::obj &o)
{
#ifdef FREE
    std::unique_lock<std::mutex> l(vs::logm);
#endif
    o.emit();
}
template<class element> static void run(esl::computation::blocking_queue<element> &q, int t, const std::string &w)
{
    constexpr bool copies = !std::is_same<element, moved>::value, moves = !std::is_same<element, copied>::value;
    static const std::map<char, const char *> names = {{'u', "push"}, {'m', "push"}, {'U', "try_push"}, {'M', "try_push"}, {'p', "pop"}, {'P', "try_pop"}, {'c', "close"}, {'e', "empty"}, {'s', "size"}};
    int x = w.size() > 1 ? int(num(w.substr(1))) : 0;
    log(vt::obj("call").i("t", t).t("op", names.at(w[0])).i("x", x));
    bool ok = true;
    int r = 0;
    element v(x);
    switch(w[0]) {
        case 'u':
        case 'm':
            if constexpr(copies) if(w[0] == 'u' || !moves) { q.push(static_cast<const element &>(v)); break; }
            if constexpr(moves) q.push(std::move(v));
            break;
        case 'U':
        case 'M':
            if constexpr(copies) if(w[0] == 'U' || !moves) { ok = q.try_push(static_cast<const element &>(v)); break; }
            if constexpr(moves) ok = q.try_push(std::move(v));
            break;
        case 'p': { element o; ok = q.pop(o); r = ok ? o.x : o.x == -7 ? 0 : -1; } break;
        case 'P': { element o; ok = q.try_pop(o); r = ok ? o.x : o.x == -7 ? 0 : -1; } break;
        case 'c': q.close(); break;
        case 'e': ok = q.empty(); break;
        case 's': r = int(q.size()); break;
    }
    log(vt::obj("ret").i("t", t).b("ok", ok).i("x", r));
}
// T <seed> <preempt %> <spurious> <plan t,t,t or ->
// W <ops of one thread>    u/m push copy/move, U/M try_push, p pop, P try_pop, c close, e empty, s size
template<class element> static void with(const script &ops)
{
    std::vector<int> plan;
    if(ops[0][4] != "-") { std::istringstream s(ops[0][4]); std::string x; while(std::getline(s, x, ',')) plan.push_back(int(num(x))); }
    vs::begin(plan, std::uint64_t(num(ops[0][1])), int(num(ops[0][2])));
#ifndef FREE
    vs::g->spurious = num(ops[0][3]) != 0;
    vs::g->stuck = [] { vt::obj("stuck").emit(); vt::flush(); _exit(3); };
#endif
    vt::obj("new").i("n", (long long)ops.size()).emit();
    {
        esl::computation::blocking_queue<element> q;
        std::vector<std::thread> t;
#ifdef FREE
        std::atomic<int> gate{0};
#endif
        for(size_t k = 1; k < ops.size(); ++k) {
            t.emplace_back([&, k] {
#ifdef FREE
                ++gate;
                while(gate < int(ops.size()) - 1) std::this_thread::yield();
#endif
                for(size_t j = 1; j < ops[k].size(); ++j) run(q, int(k), ops[k][j]);
            });
        }
        vs::settle();
#ifndef FREE
        vt::obj("quiet").emit();
#endif
        run(q, 0, "c");
        for(auto &x : t) x.join();
        run(q, 0, "s");
        while(!q.empty()) run(q, 0, "P");
        run(q, 0, "P");
        run(q, 0, "p");
        run(q, 0, "e");
    }
    vt::obj("end").emit();
    vs::end();
}
static void body(const script &ops)
{
#ifndef PLAIN
    auto k = num(ops[0][1]) % 5;
    if(k == 3) return with<moved>(ops);
    if(k == 4) return with<copied>(ops);
#endif
    with<value>(ops);
}
int main(int c, char **v) { return vt::main_(c, v, body, 20); }
