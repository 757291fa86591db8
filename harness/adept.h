// Stand-in for the absent Adept library: a reverse-mode tape with the part of Adept's interface that ESL uses.  The matrix of
// Stack::jacobian is column-major, the dependent variable varying fastest, as in Adept.
#pragma once
#include <cmath>
#include <cstddef>
#include <vector>
#define ADEPT_VERSION 10100
namespace adept {
    class Stack;
    namespace internal {
        struct node { std::size_t a[2]; double d[2]; };
        inline thread_local Stack *current = nullptr;
    }
    class adouble;
    class Stack
    {
    public:
        std::vector<internal::node> tape;
        std::vector<double> adjoint;
        std::vector<std::size_t> in, out;
        bool recording = true;
        std::size_t generation = 1;
        Stack *previous;
        Stack() : previous(internal::current) { internal::current = this; }
        Stack(const Stack &) = delete;
        ~Stack() { if(internal::current == this) internal::current = previous; }
        void new_recording() { tape.clear(); adjoint.clear(); in.clear(); out.clear(); recording = true; ++generation; }
        bool pause_recording() { recording = false; return true; }
        bool continue_recording() { recording = true; return true; }
        std::size_t add(std::size_t a, double da, std::size_t b, double db)      // returns index + 1; 0 is a constant
        {
            tape.push_back({{a, b}, {da, db}});
            return tape.size();
        }
        void sweep()
        {
            for(std::size_t k = tape.size(); k-- > 0;)
                for(int j = 0; j < 2; ++j)
                    if(tape[k].a[j] && adjoint[k] != 0) adjoint[tape[k].a[j] - 1] += adjoint[k] * tape[k].d[j];
        }
        void compute_adjoint() { adjoint.resize(tape.size(), 0.); sweep(); }
        inline void independent(adouble *x, std::size_t n);
        inline void dependent(adouble *x, std::size_t n);
        void jacobian(double *out_)
        {
            for(std::size_t i = 0; i < out.size(); ++i) {
                adjoint.assign(tape.size(), 0.);
                if(out[i]) adjoint[out[i] - 1] = 1.;
                sweep();
                for(std::size_t j = 0; j < in.size(); ++j) out_[j * out.size() + i] = in[j] ? adjoint[in[j] - 1] : 0.;
            }
        }
    };
    class adouble
    {
        double v = 0;
        mutable std::size_t index_ = 0, generation = 0;
        bool input = false;
    public:
        static bool on() { return internal::current && internal::current->recording; }
        adouble() { v = 0; fresh(); }
        adouble(double x) : v(x) { fresh(); }
        adouble(const adouble &o) : v(o.v), index_(o.index_), generation(o.generation) { if(o.input) { index_ = o.node(); generation = internal::current ? internal::current->generation : 0; } }
        adouble &operator=(const adouble &o) { v = o.v; std::size_t i = o.node(); index_ = i; generation = internal::current ? internal::current->generation : 0; input = false; return *this; }
        adouble &operator=(double x) { v = x; fresh(); return *this; }
        // a variable assigned a value before a recording starts becomes an independent variable when it is first used in it
        void fresh() { input = true; index_ = 0; generation = 0; }
        std::size_t node() const
        {
            if(!on()) return 0;
            auto &s = *internal::current;
            if(generation == s.generation) return index_;
            if(!input) return 0;
            generation = s.generation;
            return index_ = s.add(0, 0., 0, 0.);
        }
        double value() const { return v; }
        void set_gradient(double g)
        {
            auto &s = *internal::current;
            s.adjoint.resize(s.tape.size(), 0.);
            auto n = node();
            s.adjoint.resize(s.tape.size(), 0.);
            if(n) s.adjoint[n - 1] = g;
        }
        double get_gradient() const
        {
            auto &s = *internal::current;
            auto n = generation == s.generation ? index_ : 0;
            return n && n <= s.adjoint.size() ? s.adjoint[n - 1] : 0.;
        }
        static adouble make(double x, const adouble &a, double da, const adouble &b, double db)
        {
            adouble r(x);
            if(on()) { auto i = a.node(), j = b.node(); r.index_ = internal::current->add(i, da, j, db); r.generation = internal::current->generation; r.input = false; }
            return r;
        }
        static adouble make(double x, const adouble &a, double da)
        {
            adouble r(x);
            if(on()) { auto i = a.node(); r.index_ = internal::current->add(i, da, 0, 0.); r.generation = internal::current->generation; r.input = false; }
            return r;
        }
        adouble &operator+=(const adouble &o) { return *this = make(v + o.v, *this, 1., o, 1.); }
        adouble &operator-=(const adouble &o) { return *this = make(v - o.v, *this, 1., o, -1.); }
        adouble &operator*=(const adouble &o) { return *this = make(v * o.v, *this, o.v, o, v); }
        adouble &operator/=(const adouble &o) { return *this = make(v / o.v, *this, 1. / o.v, o, -v / (o.v * o.v)); }
    };
    inline void Stack::independent(adouble *x, std::size_t n) { for(std::size_t k = 0; k < n; ++k) in.push_back(x[k].node()); }
    inline void Stack::dependent(adouble *x, std::size_t n) { for(std::size_t k = 0; k < n; ++k) out.push_back(x[k].node()); }
    inline double value(const adouble &a) { return a.value(); }
    inline double value(double a) { return a; }
    inline adouble operator+(const adouble &a, const adouble &b) { return adouble::make(a.value() + b.value(), a, 1., b, 1.); }
    inline adouble operator-(const adouble &a, const adouble &b) { return adouble::make(a.value() - b.value(), a, 1., b, -1.); }
    inline adouble operator*(const adouble &a, const adouble &b) { return adouble::make(a.value() * b.value(), a, b.value(), b, a.value()); }
    inline adouble operator/(const adouble &a, const adouble &b) { return adouble::make(a.value() / b.value(), a, 1. / b.value(), b, -a.value() / (b.value() * b.value())); }
    inline adouble operator-(const adouble &a) { return adouble::make(-a.value(), a, -1.); }
    inline adouble pow(const adouble &a, double p) { return adouble::make(std::pow(a.value(), p), a, p * std::pow(a.value(), p - 1)); }
    inline adouble exp(const adouble &a) { double e = std::exp(a.value()); return adouble::make(e, a, e); }
    inline adouble log(const adouble &a) { return adouble::make(std::log(a.value()), a, 1. / a.value()); }
    inline adouble sqrt(const adouble &a) { double e = std::sqrt(a.value()); return adouble::make(e, a, .5 / e); }
    inline bool operator<(const adouble &a, const adouble &b) { return a.value() < b.value(); }
    inline bool operator>(const adouble &a, const adouble &b) { return a.value() > b.value(); }
    inline void get_gradients(const adouble *x, std::size_t n, double *g) { for(std::size_t k = 0; k < n; ++k) g[k] = x[k].get_gradient(); }
}
