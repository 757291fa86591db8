// Runs code that uses std::mutex / std::condition_variable / std::thread under a scheduler of its own: one thread runs at
// a time, and at every synchronisation operation the schedule decides which thread continues.  With -DFREE the same
// harness runs on the real primitives.
#pragma once
#include <bits/stdc++.h>
#include <sys/mman.h>
#ifdef FREE
namespace vs {
    inline std::mutex logm;
    inline void begin(const std::vector<int> &, std::uint64_t, int) {}
    inline void end() {}
    inline void point() {}
    inline int self() { return 0; }
}
#else
namespace vs {
    enum class st { ready, blocked, done };
    struct vthread
    {
        st s = st::ready;
        std::function<bool()> ready;        // when blocked: may continue
        std::thread real;
    };
    struct global
    {
        std::mutex m;
        std::condition_variable cv;
        std::deque<vthread> t;
        int current = 0;
        std::vector<int> plan;              // preferred thread at each decision
        size_t at = 0;
        std::uint64_t rng = 1;
        int preempt = 30;                   // per cent, after the plan is used up
        bool spurious = false;
        long decisions = 0;
        std::function<void()> stuck;        // everybody is blocked
        std::function<bool()> quiet;        // called first: true if it made somebody runnable
    };
    inline global *g = nullptr;
    inline thread_local int me = -1;
    inline std::uint64_t rnd()
    {
        g->rng ^= g->rng << 13; g->rng ^= g->rng >> 7; g->rng ^= g->rng << 17;
        return g->rng >> 11;
    }
    inline int self() { return me; }
    // with g->m held: choose who runs next
    inline int choose(bool may_stay)
    {
        ++g->decisions;
        std::vector<int> r;
        for(int i = 0; i < int(g->t.size()); ++i) {
            auto &v = g->t[size_t(i)];
            if(v.s == st::ready || (v.s == st::blocked && v.ready())) r.push_back(i);
        }
        if(r.empty()) return -1;
        while(g->at < g->plan.size()) {
            int w = g->plan[g->at++];
            if(std::find(r.begin(), r.end(), w) != r.end()) return w;
        }
        bool can = may_stay && std::find(r.begin(), r.end(), me) != r.end();
        if(can && g->decisions < 20000 && int(rnd() % 100) >= g->preempt) return me;
        return r[rnd() % r.size()];
    }
    inline void hand(std::unique_lock<std::mutex> &l, int next)
    {
        if(next < 0) {
            if(g->stuck) g->stuck();        // does not return
            _exit(3);
        }
        auto &n = g->t[size_t(next)];
        n.s = st::ready;
        n.ready = nullptr;
        g->current = next;
        if(next == me) return;
        g->cv.notify_all();
        if(g->t[size_t(me)].s == st::done) return;
        int who = me;
        g->cv.wait(l, [who] { return g->current == who; });
    }
    inline void point()
    {
        if(!g || me < 0) return;
        std::unique_lock<std::mutex> l(g->m);
        hand(l, choose(true));
    }
    template<class P> void block(P p)
    {
        std::unique_lock<std::mutex> l(g->m);
        if(p()) return;
        g->t[size_t(me)].s = st::blocked;
        g->t[size_t(me)].ready = p;
        hand(l, choose(false));
    }
    inline void begin(const std::vector<int> &plan, std::uint64_t seed, int preempt)
    {
        delete g;
        g = new global;
        g->plan = plan;
        g->rng = seed * 2654435761u + 88172645463325252ull;
        g->preempt = preempt;
        g->t.emplace_back();
        me = 0;
    }
    inline void end() { me = -1; delete g; g = nullptr; }
    inline int start(std::function<void()> f)
    {
        int id;
        {
            std::unique_lock<std::mutex> l(g->m);
            id = int(g->t.size());
            g->t.emplace_back();
            g->t.back().real = std::thread([id, f = std::move(f)]() mutable {
                me = id;
                {
                    std::unique_lock<std::mutex> l2(g->m);
                    g->cv.wait(l2, [id] { return g->current == id; });
                }
                f();
                f = nullptr;
                std::unique_lock<std::mutex> l2(g->m);
                g->t[size_t(id)].s = st::done;
                hand(l2, choose(false));
            });
        }
        point();
        return id;
    }
    inline void join(int id)
    {
        point();
        block([id] { return g->t[size_t(id)].s == st::done; });
        g->t[size_t(id)].real.join();
    }
}
namespace std {
    struct vs_mutex
    {
        bool held = false;
        constexpr vs_mutex() noexcept {}
        vs_mutex(const vs_mutex &) = delete;
        void lock() { if(!vs::g) { held = true; return; } vs::point(); vs::block([this] { return !held; }); held = true; }
        bool try_lock() { vs::point(); if(held) return false; held = true; return true; }
        void unlock() { vs::point(); held = false; }
    };
    struct vs_condition_variable
    {
        struct waiter { bool woken = false; };
        std::deque<waiter *> q;
        vs_condition_variable() {}
        vs_condition_variable(const vs_condition_variable &) = delete;
        void wait(std::unique_lock<vs_mutex> &l)
        {
            vs::point();
            waiter w;
            q.push_back(&w);
            l.mutex()->held = false;
            auto *m = l.mutex();
            if(vs::g->spurious && vs::rnd() % 4 == 0) { w.woken = true; q.erase(std::find(q.begin(), q.end(), &w)); vs::point(); }
            vs::block([&w] { return w.woken; });
            vs::block([m] { return !m->held; });
            m->held = true;
        }
        template<class P> void wait(std::unique_lock<vs_mutex> &l, P p) { while(!p()) wait(l); }
        // time-outs may always expire at once
        template<class D> std::cv_status wait_for(std::unique_lock<vs_mutex> &l, const D &) { timed(l); return std::cv_status::timeout; }
        template<class D, class P> bool wait_for(std::unique_lock<vs_mutex> &l, const D &, P p) { if(!p()) timed(l); return p(); }
        template<class D> std::cv_status wait_until(std::unique_lock<vs_mutex> &l, const D &) { timed(l); return std::cv_status::timeout; }
        template<class D, class P> bool wait_until(std::unique_lock<vs_mutex> &l, const D &, P p) { if(!p()) timed(l); return p(); }
        void timed(std::unique_lock<vs_mutex> &l) { l.unlock(); vs::point(); l.lock(); }
        void notify_one() noexcept
        {
            vs::point();
            if(q.empty()) return;
            size_t k = size_t(vs::rnd() % q.size());
            q[k]->woken = true;
            q.erase(q.begin() + long(k));
        }
        void notify_all() noexcept
        {
            vs::point();
            for(auto *w : q) w->woken = true;
            q.clear();
        }
    };
    struct vs_thread
    {
        int v = -1;
        typedef int id;
        vs_thread() noexcept {}
        template<class F, class... A, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, vs_thread>>>
        explicit vs_thread(F &&f, A &&... a)
        {
            auto t = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
            v = vs::start([t] {
                std::apply([](auto &g, auto &... x) { std::invoke(std::move(g), std::move(x)...); }, *t);
            });
        }
        vs_thread(vs_thread &&o) noexcept : v(o.v) { o.v = -1; }
        vs_thread &operator=(vs_thread &&o) noexcept { if(v >= 0) std::terminate(); v = o.v; o.v = -1; return *this; }
        ~vs_thread() { if(v >= 0) std::terminate(); }
        bool joinable() const noexcept { return v >= 0; }
        void join() { vs::join(v); v = -1; }
        void detach() { vs::g->t[size_t(v)].real.detach(); v = -1; }
        int get_id() const { return v; }
        static unsigned int hardware_concurrency() noexcept { return 3; }
    };
}
#define mutex vs_mutex
#define condition_variable vs_condition_variable
#define condition_variable_any vs_condition_variable
#define thread vs_thread
#endif
namespace vs {
#ifdef FREE
    inline void settle() { std::this_thread::sleep_for(std::chrono::microseconds(300)); }
#else
    // waits until nobody else can continue
    inline void settle()
    {
        block([w = me] {
            for(int i = 0; i < int(g->t.size()); ++i) {
                auto &v = g->t[size_t(i)];
                if(i != w && (v.s == st::ready || (v.s == st::blocked && v.ready()))) return false;
            }
            return true;
        });
    }
#endif
}
