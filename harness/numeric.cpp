// Numeric helpers.
#include "trace.hpp"
#include <cmath>
#include <list>
#include <set>
#include <esl/algorithms.hpp>
#include <esl/mathematics/interval.hpp>
typedef std::vector<std::vector<std::string>> script;
template<class T, bool L, bool R> static void interval(long lo, long hi, double unit)
{
    esl::mathematics::interval<T, L, R> i(T(lo * unit), T(hi * unit));
    std::vector<long> v;
    std::string c;
    for(long x = (std::is_unsigned_v<T> && lo <= 2 ? 0 : lo - 2); x <= hi + 2; ++x) { v.push_back(x); c += (c.empty() ? "" : ",") + std::string(i.contains(T(x * unit)) ? "true" : "false"); }
    vt::obj("interval").i("lo", lo).i("hi", hi).b("lc", L).b("rc", R).b("dense", !std::is_integral_v<T>).b("left", i.left_closed()).b("right", i.right_closed())
        .b("empty", i.empty()).b("singleton", i.singleton()).b("degenerate", i.degenerate()).list("values", v).raw("contains", "[" + c + "]").emit();
}
template<class T> static void intervals(const std::string &b, long lo, long hi, double unit = 1)
{
    if(b == "cc") interval<T, true, true>(lo, hi, unit);
    else if(b == "co") interval<T, true, false>(lo, hi, unit);
    else if(b == "oc") interval<T, false, true>(lo, hi, unit);
    else interval<T, false, false>(lo, hi, unit);
}
template<size_t F, size_t T, size_t N> static void slice(const std::vector<int> &v)
{
    std::array<int, N> a;
    for(size_t k = 0; k < N; ++k) a[k] = v[k];
    std::vector<int> s(a.begin(), a.end());
    std::list<int> l(a.begin(), a.end());
    auto out = [&](const auto &r, const auto &from) { vt::obj("slice").list("s", std::vector<int>(from.begin(), from.end())).i("from", F).i("to", T).list("r", r).emit(); };
    out(esl::array_slice<F, T>(a), a);
    auto x = esl::to_array<F, T, int>(s); out(x, s);
    auto y = esl::to_array<F, T, long>(l); out(y, l);
    std::set<int> t(a.begin(), a.end());
    if(t.size() >= T) { auto z = esl::to_array<F, T, int>(t); out(z, t); }
    auto p = esl::array_slice<0, F>(a);
    auto q = esl::array_slice<F, T>(a);
    vt::obj("concat").list("a", p).list("b", q).list("r", esl::array_concatenate(p, q)).emit();
}
template<class C> static void enumerated(C c)
{
    std::vector<int> before(c.begin(), c.end());
    std::string p;
    for(auto [i, x] : esl::enumerate(c)) { p += (p.empty() ? "[" : ",[") + std::to_string(i) + "," + std::to_string(x) + "]"; x += int(i); }
    vt::obj("enumerate").list("s", before).raw("pairs", "[" + p + "]").list("after", std::vector<int>(c.begin(), c.end())).emit();
}
// T   I <type> <bounds> lo hi    P x p   S numbers(8)   E numbers   A u fractions   G dim u   M exponents
static void body(const script &ops)
{
    vt::obj("new").emit();
    for(size_t n = 1; n < ops.size(); ++n) {
        auto &o = ops[n];
        std::vector<int> v;
        if(o[0] != "I") for(size_t k = 1; k < o.size(); ++k) v.push_back(std::stoi(o[k]));
        if(o[0] == "I") {
            long lo = std::stol(o[3]), hi = std::stol(o[4]);
            if(o[1] == "int") intervals<int>(o[2], lo, hi);
            else if(o[1] == "long") intervals<std::int64_t>(o[2], lo, hi);
            else if(o[1] == "unsigned") intervals<std::uint64_t>(o[2], lo, hi);
            else intervals<double>(o[2], lo, hi, .25);
        } else if(o[0] == "P") {
            vt::obj("power").i("x", v[0]).i("p", v[1]).i("r", (long long)esl::nonnegative_integer_power<unsigned>(v[0], v[1])).emit();
            vt::obj("power").i("x", v[0]).i("p", v[1]).i("r", (long long)esl::nonnegative_integer_power<std::uint64_t>(v[0], v[1])).emit();
        } else if(o[0] == "S") {
            slice<0, 0, 8>(v); slice<0, 8, 8>(v); slice<2, 5, 8>(v); slice<7, 8, 8>(v); slice<0, 1, 1>(v); slice<1, 4, 5>(v); slice<3, 3, 6>(v);
        } else if(o[0] == "E") {
            enumerated(v);
            enumerated(std::list<int>(v.begin(), v.end()));
        } else if(o[0] == "A") {
            std::vector<double> f;
            for(size_t k = 1; k < v.size(); ++k) f.push_back(double(v[k]) / v[0]);
            vt::obj("allocate").i("u", v[0]).list("fs", std::vector<int>(v.begin() + 1, v.end())).list("r", esl::allocate_fractions(f, 0)).emit();
        } else if(o[0] == "G") {
            std::string p;
            for(auto &x : esl::sample_barycentric(size_t(v[0]), size_t(v[1]))) {
                std::string q;
                for(double d : x) q += (q.empty() ? "" : ",") + std::to_string(std::lround(d * v[1]));
                p += (p.empty() ? "[" : ",[") + q + "]";
            }
            vt::obj("grid").i("dim", v[0]).i("u", v[1]).raw("points", "[" + p + "]").emit();
        } else if(o[0] == "M") {
            std::vector<double> f;
            for(int k : v) f.push_back(std::pow(2., k));
            vt::obj("mean").list("exponents", v).i("r", std::lround(esl::geometric_mean(f) * 1000)).emit();
        }
    }
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body); }
