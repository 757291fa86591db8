// Registers of quantities, prices and quotes; every operator of the classes on them.
#include "trace.hpp"
#include <cmath>
#include <type_traits>
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/markets/quote.hpp>
#include <esl/economics/price.hpp>
#include <esl/quantity.hpp>
using namespace esl;
using namespace esl::economics;
using economics::markets::quote;
typedef std::vector<std::vector<std::string>> script;
typedef __int128 wide;
static std::string big(wide v)
{
    std::string s = v == 0 ? "[0,[" : v < 0 ? "[-1,[" : "[1,[";
    if(v < 0) v = -v;
    for(bool f = true; v; v /= 10000, f = false) s += (f ? "" : ",") + std::to_string(int(v % 10000));
    return s + "]]";
}
struct preg { price p; std::uint32_t lot; };       // lot 0: a price
static std::vector<quantity> Q;
static std::vector<preg> P;
static std::string qs() { std::string s = "["; for(auto &q : Q) s += (s.size() > 1 ? "," : "") + big(q.amount); return s + "]"; }
static std::string cur(const iso_4217 &c) { return std::string(c) + std::to_string(c.denominator); }
static std::string show(const price &p, std::uint32_t lot) { return "{\"v\":" + big(p.value) + ",\"c\":\"" + cur(p.valuation) + "\",\"l\":" + std::to_string(lot) + "}"; }
static std::string show(const quote &q) { return show(std::get<price>(q.type), q.lot); }
static std::string pshow() { std::string s = "["; for(auto &p : P) s += (s.size() > 1 ? "," : "") + show(p.p, p.lot); return s + "]"; }
static quote as_quote(const preg &r) { return quote(r.p, r.lot); }
template<class F> static bool attempt(F f) { try { f(); return true; } catch(const std::exception &) { return false; } }
template<class A, class B> static std::string compare(const A &a, const B &b)
{
    std::string s = "{";
    auto put = [&](const char *n, auto f) {
        bool r = false;
        bool ok = attempt([&] { r = f(); });
        s += std::string(s.size() > 1 ? "," : "") + "\"" + n + "\":\"" + (!ok ? "refused" : r ? "yes" : "no") + "\"";
    };
    put("eq", [&] { return a == b; });
    put("ne", [&] { return a != b; });
    put("lt", [&] { return a < b; });
    put("gt", [&] { return a > b; });
    put("le", [&] { return a <= b; });
    put("ge", [&] { return a >= b; });
    return s + "}";
}
template<size_t... k> static std::vector<quantity> split(const quantity &q, std::uint64_t n, std::index_sequence<k...>)
{
    std::vector<quantity> r;
    auto one = [&](auto m) { constexpr std::uint64_t c = decltype(m)::value; auto a = q.template divide<c>(); r.assign(a.begin(), a.end()); };
    ((n == k + 1 ? (one(std::integral_constant<std::uint64_t, k + 1>()), 0) : 0), ...);
    return r;
}
static iso_4217 code(const std::string &s) { return iso_4217({s[0], s[1], s[2]}, std::stoull(s.substr(3))); }
static bool fits64(wide v) { return v >= INT64_MIN && v <= INT64_MAX; }
// T <quantity>... | <value> <currency, e.g. USD100> <lot> ...
// q <op> <form> i j: form a assign, r result, n literal (j is the number)    inc/dec: form p prefix, s postfix
// c i j     d i k (parts)  D i k (static parts)   / i k (divide assign)
// p <op> <form> i j     n i    s i k <side>     x i num den     k i j     f i (as floating point)     a n k i <form> (n / 2^k as a price)
static void body(const script &ops)
{
    Q.clear();
    P.clear();
    size_t w = 1;
    for(; ops[0][w] != "|"; ++w) Q.emplace_back(std::stoull(ops[0][w]));
    for(++w; w + 2 < ops[0].size(); w += 3) P.push_back({price(std::stoll(ops[0][w]), code(ops[0][w + 1])), std::uint32_t(std::stoul(ops[0][w + 2]))});
    vt::put("{\"e\":\"new\",\"qs\":" + qs() + ",\"ps\":" + pshow() + "}");
    for(size_t n = 1; n < ops.size(); ++n) {
        auto &o = ops[n];
        auto at = [&](size_t k) { return size_t(std::stoul(o[k])) - 1; };
        if(o[0] == "q") {
            const std::string &op = o[1];
            char form = o[2][0];
            size_t i = at(3), t = 0;
            bool literal = form == 'n' || form == 'l';
            bool un = op == "inc" || op == "dec", post = un && form == 's';
            quantity b(un ? 0 : literal ? std::stoull(o[4]) : Q[at(4)].amount);
            wide x = Q[i].amount, y = b.amount;
            // results that do not fit are outside the domain
            if((op == "add" && x + y > wide(UINT64_MAX)) || (op == "mul" && y && wide(UINT64_MAX) / y < x) || (op == "inc" && x == wide(UINT64_MAX))) continue;
            quantity r(0);
            bool assign = form == 'a' || form == 'l' || un;
            bool self = !literal && !un && assign;
            bool ok = attempt([&] {
                quantity &a = Q[i];
                const quantity &c = self ? Q[at(4)] : b;
                if(op == "add") r = assign ? (a += c) : a + c;
                else if(op == "sub") r = assign ? (a -= c) : a - c;
                else if(op == "mul") r = assign ? (a *= b.amount) : literal ? a * b.amount : a * b;
                else if(op == "inc") { if(post) r = a++; else r = ++a; }
                else if(op == "dec") { if(post) r = a--; else r = --a; }
            });
            if(assign) t = i + 1;
            vt::obj("q").t("op", op).i("i", i + 1).i("j", literal || un ? 0 : at(4) + 1).raw("b", big(y)).i("t", t).b("ok", ok).b("post", post).raw("r", big(r.amount)).raw("after", qs()).emit();
        } else if(o[0] == "c") {
            vt::obj("qcmp").i("i", at(1) + 1).i("j", at(2) + 1).raw("res", compare(Q[at(1)], Q[at(2)])).emit();
        } else if(o[0] == "d" || o[0] == "D") {
            std::uint64_t k = std::stoull(o[2]);
            auto parts = o[0] == "d" ? Q[at(1)] / k : split(Q[at(1)], k, std::make_index_sequence<12>());
            std::string s = "[";
            for(auto &q : parts) s += (s.size() > 1 ? "," : "") + big(q.amount);
            vt::obj("parts").i("i", at(1) + 1).i("k", k).raw("parts", s + "]").raw("after", qs()).emit();
        } else if(o[0] == "/") {
            Q[at(1)] /= std::stoull(o[2]);
            vt::obj("qquot").i("i", at(1) + 1).raw("k", big(std::stoull(o[2]))).raw("after", qs()).emit();
        } else if(o[0] == "p") {
            const std::string &op = o[1];
            char form = o[2][0];
            size_t i = at(3), j = at(4), t = 0;
            wide x = P[i].p.value, y = P[j].p.value;
            if(op == "quot" && (y == 0 || !fits64(y == -1 ? -x : 0))) continue;
            if(op == "add" ? !fits64(x + y) : op == "sub" ? !fits64(x - y) : op == "mul" ? !fits64(x * y) : false) continue;
            if((P[i].lot == 0) != (P[j].lot == 0)) continue;      // a price and a quote have no common operator
            std::string r = show(price(), 0);
            bool ok;
            if(P[i].lot == 0) {
                bool assign = form == 'a';
                price &a = P[i].p;
                const price &b = P[j].p;
                ok = attempt([&] {
                    price z;
                    if(op == "add") z = assign ? (a += b) : a + b;
                    else if(op == "sub") z = assign ? (a -= b) : a - b;
                    else if(op == "mul") z = assign ? (a *= b) : a * b;
                    else z = assign ? (a /= b) : a / b;
                    r = show(z, 0);
                });
                t = assign ? i + 1 : 0;
            } else {
                quote a = as_quote(P[i]), b = as_quote(P[j]);
                ok = attempt([&] { r = show(op == "add" ? a + b : op == "sub" ? a - b : op == "mul" ? a * b : a / b); });
            }
            vt::obj(op == "quot" ? "pquot" : "p").t("op", op).i("i", i + 1).i("j", j + 1).i("t", t).b("ok", ok).raw("r", r).raw("after", pshow()).emit();
        } else if(o[0] == "n") {
            if(P[at(1)].lot || P[at(1)].p.value == INT64_MIN) continue;
            vt::obj("neg").i("i", at(1) + 1).raw("r", show(-P[at(1)].p, 0)).raw("after", pshow()).emit();
        } else if(o[0] == "s") {
            auto &p = P[at(1)];
            std::uint64_t k = std::stoull(o[2]);
            if(p.lot || !fits64(wide(p.p.value) * wide(k)) || (p.p.value && k > std::uint64_t(INT64_MAX))) continue;
            price r = o[3] == "l" ? k * p.p : o[3] == "r" ? p.p * k : k < (1u << 31) ? (o[3] == "i" ? p.p * int(k) : p.p * std::int64_t(k)) : p.p * std::int64_t(k);
            vt::obj("scale").i("i", at(1) + 1).raw("k", big(k)).raw("r", show(r, 0)).raw("after", pshow()).emit();
        } else if(o[0] == "x") {
            auto &p = P[at(1)];
            std::uint64_t a = std::stoull(o[2]), b = std::stoull(o[3]);
            if(p.lot) continue;
            exchange_rate e(a, b);
            if(!fits64(wide(p.p.value) * wide(e.numerator())) || wide(e.denominator()) > INT64_MAX) continue;
            vt::obj("convert").i("i", at(1) + 1).raw("n", big(a)).raw("d", big(b)).raw("r", show(e * p.p, 0)).raw("after", pshow()).emit();
        } else if(o[0] == "f") {
            auto &a = P[at(1)];
            double d = a.lot ? double(as_quote(a)) : double(a.p);
            // d = m / 2^s exactly, for one of the two
            int e;
            wide m = wide(std::llround(std::ldexp(std::frexp(d, &e), 53)));
            e -= 53;
            while(e > 0) { m *= 2; --e; }
            while(e < 0 && m % 2 == 0 && m) { m /= 2; ++e; }
            if(!m) e = 0;
            vt::obj("float").i("i", at(1) + 1).raw("m", big(m)).i("s", -e).raw("den", big(wide(a.p.valuation.denominator) * (a.lot ? a.lot : 1))).emit();
        } else if(o[0] == "a") {
            auto &a = P[at(3)];
            long long v = std::stoll(o[1]);
            int k = std::stoi(o[2]);
            double d = std::ldexp(double(v), -k);
            price r = o[4] == "s" ? price(d, a.p) : price::approximate(d, a.p.valuation);
            vt::obj("approx").i("i", at(3) + 1).raw("n", big(v)).i("s", k).raw("den", big(a.p.valuation.denominator)).raw("r", show(r, 0)).emit();
        } else if(o[0] == "k") {
            auto &a = P[at(1)], &b = P[at(2)];
            if((a.lot == 0) != (b.lot == 0)) continue;
            vt::obj("pcmp").i("i", at(1) + 1).i("j", at(2) + 1).raw("res", a.lot ? compare(as_quote(a), as_quote(b)) : compare(a.p, b.p)).emit();
        }
    }
}
int main(int c, char **v) { return vt::main_(c, v, body, 20); }
