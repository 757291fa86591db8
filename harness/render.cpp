// Delimited records and representations of containers.
#include "trace.hpp"
#include <array>
#include <forward_list>
#include <list>
#include <map>
#include <queue>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <esl/data/format/delimiter_separated_values.hpp>
#include <esl/data/representation.hpp>
namespace dsv = esl::data::format::delimiter_separated_values;
typedef std::vector<std::vector<std::string>> script;
static std::string unhex(const std::string &s) { std::string r; for(size_t k = 1; k + 1 < s.size(); k += 2) r += char(std::stoi(s.substr(k, 2), nullptr, 16)); return r; }
static std::string codes(const std::string &s) { std::string r = "["; for(unsigned char c : s) r += (r.size() > 1 ? "," : "") + std::to_string(int(c)); return r + "]"; }
template<class T> static std::string plain(const T &v) { std::ostringstream o; o << v; return o.str(); }
template<> std::string plain(const std::string &v) { return v; }
template<class T> static T from(const std::string &s);
template<> std::string from(const std::string &s) { return unhex(s); }
template<> long from(const std::string &s) { return std::stol(s); }
template<> unsigned from(const std::string &s) { return (unsigned)std::stoul(s); }
template<> double from(const std::string &s) { return std::stod(s); }
template<class... Ts, size_t... K> static void block(const script &ops, size_t from_, size_t to, std::index_sequence<K...>)
{
    std::vector<std::tuple<Ts...>> rows;
    std::string js;
    for(size_t n = from_; n < to; ++n) {
        rows.push_back(std::tuple<Ts...>(from<Ts>(ops[n][K + 1])...));
        std::string r;
        ((r += (r.empty() ? "" : ",") + codes(plain(std::get<K>(rows.back())))), ...);
        js += (js.empty() ? "[" : ",[") + r + "]";
    }
    std::ostringstream a, b;
    dsv::render_records(a, rows);
    for(auto &r : rows) dsv::render_row(b, r);
    vt::obj("records").raw("rows", "[" + js + "]").raw("out", codes(a.str())).emit();
    vt::obj("records").raw("rows", "[" + js + "]").raw("out", codes(b.str())).emit();
}
template<class... Ts> static void block(const script &ops, size_t f, size_t t) { block<Ts...>(ops, f, t, std::index_sequence_for<Ts...>()); }

static std::string atom(const std::string &t) { return "{\"k\":\"atom\",\"t\":" + vt::obj::quote(t) + "}"; }
template<class T> struct shape { static std::string json(const T &v) { return atom(plain(v)); } };
static std::string of(const char *k, const std::vector<std::string> &v)
{
    std::string r;
    for(auto &x : v) r += (r.empty() ? "" : ",") + x;
    return std::string("{\"k\":\"") + k + "\",\"items\":[" + r + "]}";
}
#define SHAPE(N, ...) { static std::string json(const __VA_ARGS__ &v) { std::vector<std::string> r; for(auto &x : v) r.push_back(shape<std::decay_t<decltype(x)>>::json(x)); return of(N, r); } }
#define SHAPEM(N, ...) { static std::string json(const __VA_ARGS__ &v) { std::vector<std::string> r; for(auto &[a, b] : v) r.push_back(of("pair", {shape<std::decay_t<decltype(a)>>::json(a), shape<std::decay_t<decltype(b)>>::json(b)})); return of(N, r); } }
template<class T> struct shape<std::vector<T>> SHAPE("vector", std::vector<T>);
template<class T> struct shape<std::list<T>> SHAPE("list", std::list<T>);
template<class T> struct shape<std::forward_list<T>> SHAPE("forward_list", std::forward_list<T>);
template<class T> struct shape<std::set<T>> SHAPE("set", std::set<T>);
template<class T> struct shape<std::unordered_set<T>> SHAPE("unordered_set", std::unordered_set<T>);
template<class T, size_t N> struct shape<std::array<T, N>> SHAPE("array", std::array<T, N>);
template<class K, class T> struct shape<std::map<K, T>> SHAPEM("map", std::map<K, T>);
template<class K, class T> struct shape<std::unordered_map<K, T>> SHAPEM("unordered_map", std::unordered_map<K, T>);
template<class K, class T> struct shape<boost::container::flat_map<K, T>> SHAPEM("flat_map", boost::container::flat_map<K, T>);
template<class T> struct shape<std::queue<T>> { static std::string json(std::queue<T> q) { std::vector<std::string> r; for(; !q.empty(); q.pop()) r.push_back(shape<T>::json(q.front())); return of("queue", r); } };
template<class... Ts> struct shape<std::tuple<Ts...>> { static std::string json(const std::tuple<Ts...> &v) { std::vector<std::string> r; std::apply([&](auto &... x) { (r.push_back(shape<std::decay_t<decltype(x)>>::json(x)), ...); }, v); return of("tuple", r); } };
template<class T> static void show(const T &v)
{
    std::ostringstream o;
    using namespace std;
    o << v;
    vt::obj("show").raw("value", shape<T>::json(v)).t("out", o.str()).emit();
}
// T       R <type> fields ...   consecutive lines of one type are one block      E <d> <q> <x> text       S <kind> numbers ...
static void body(const script &ops)
{
    vt::obj("new").emit();
    for(size_t n = 1; n < ops.size(); ++n) {
        auto &o = ops[n];
        if(o[0][0] == 'R') {
            size_t e = n;
            while(e < ops.size() && ops[e][0] == o[0]) ++e;
            auto t = o[0].substr(1);
            if(t == "s") block<std::string>(ops, n, e);
            else if(t == "ss") block<std::string, std::string>(ops, n, e);
            else if(t == "sss") block<std::string, std::string, std::string>(ops, n, e);
            else if(t == "is") block<long, std::string>(ops, n, e);
            else if(t == "sid") block<std::string, long, double>(ops, n, e);
            else if(t == "dsu") block<double, std::string, unsigned>(ops, n, e);
            else if(t == "id") block<long, double>(ops, n, e);
            else if(t == "i") block<long>(ops, n, e);
            else if(t == "sssss") block<std::string, std::string, std::string, std::string, std::string>(ops, n, e);
            n = e - 1;
        } else if(o[0] == "E") {
            char d = char(std::stoi(o[1])), q = char(std::stoi(o[2])), x = char(std::stoi(o[3]));
            auto s = unhex(o[4]);
            vt::obj("render").i("d", d).i("q", q).i("x", x).raw("text", codes(s)).raw("out", codes(dsv::render(s, d, q, x))).emit();
        } else if(o[0] == "S") {
            std::vector<int> v;
            for(size_t k = 2; k < o.size(); ++k) v.push_back(std::stoi(o[k]));
            std::vector<std::string> w;
            for(int x : v) w.push_back("w" + std::to_string(x));
            auto &t = o[1];
            if(t == "vector") { show(v); show(w); show(std::vector<std::vector<int>>{v, {}, v}); }
            else if(t == "list") { show(std::list<int>(v.begin(), v.end())); show(std::vector<std::list<int>>{std::list<int>(v.begin(), v.end())}); }
            else if(t == "forward_list") show(std::forward_list<std::string>(w.begin(), w.end()));
            else if(t == "set") { show(std::set<int>(v.begin(), v.end())); show(std::set<std::vector<int>>{v, {}}); }
            else if(t == "unordered_set") show(std::unordered_set<int>(v.begin(), v.end()));
            else if(t == "queue") { std::queue<int> q; for(int x : v) q.push(x); show(q); }
            else if(t == "array") {
                if(v.size() == 0) show(std::array<int, 0>{});
                else if(v.size() == 1) show(std::array<int, 1>{v[0]});
                else if(v.size() == 2) show(std::array<int, 2>{v[0], v[1]});
                else show(std::array<std::string, 3>{w[0], w[1], w[2]});
            } else if(t == "tuple") {
                v.resize(4);
                show(std::tuple<int>(v[0]));
                show(std::tuple<int, std::string>(v[0], "t"));
                show(std::tuple<int, double, std::string, std::vector<int>>(v[0], v[1] / 4., "x", v));
            } else {
                std::map<int, std::string> m;
                for(size_t k = 0; k < v.size(); ++k) m[v[k]] = w[(k + 1) % v.size()];
                if(t == "map") { show(m); show(std::map<std::string, std::vector<int>>{{"a", v}, {"b", {}}}); }
                else if(t == "unordered_map") show(std::unordered_map<int, std::string>(m.begin(), m.end()));
                else if(t == "flat_map") show(boost::container::flat_map<int, std::string>(m.begin(), m.end()));
            }
        }
    }
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body); }
