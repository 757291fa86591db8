// Codes of securities and legal entities through every way of constructing them.
#include "trace.hpp"
#include <cassert>
#include <sys/wait.h>
#include <esl/economics/finance/cusip.hpp>
#include <esl/economics/finance/isin.hpp>
#include <esl/economics/finance/sedol.hpp>
#include <esl/law/legal_entity.hpp>
using namespace esl::economics::finance;
using esl::geography::iso_3166_1_alpha_2;
using esl::law::iso_17442;
typedef std::vector<std::vector<std::string>> script;
static std::string codes(const std::string &s) { std::string r = "["; for(unsigned char c : s) r += (r.size() > 1 ? "," : "") + std::to_string(int(c)); return r + "]"; }
template<size_t n> static std::array<char, n> arr(const std::string &s, size_t at = 0) { std::array<char, n> a{}; for(size_t i = 0; i < n; ++i) a[i] = s.at(at + i); return a; }
static std::string lei_text(const iso_17442 &e) { std::stringstream s; s << e; return s.str(); }
// E <kind> <way> <symbols>
// isin: a country+array, b full array, c country+string, d two strings, e string, f country+cusip
// cusip: a issuer+code, b array of 8, c array of 9 (check digit verified), s string     sedol: a array, s string     lei: a arrays, s string
static bool assertions(const std::string &text)       // refused by the constructor's assertions?
{
    pid_t p = fork();
    if(p == 0) {
        for(int s : {SIGABRT, SIGSEGV}) std::signal(s, SIG_DFL);
        int null = ::open("/dev/null", O_WRONLY);
        ::dup2(null, 2);
        try { iso_17442 e(text); _exit(lei_text(e).size() == 20 ? 0 : 1); } catch(...) { _exit(2); }
    }
    int st = 0;
    ::waitpid(p, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
static void body(const script &ops)
{
    vt::obj("new").emit();
    for(size_t n = 1; n < ops.size(); ++n) {
        auto &o = ops[n];
        if(o[0] == "L") {            // L k text: wrong length
            bool ok = true;
            try {
                if(o[1] == "nsin") isin i(iso_3166_1_alpha_2("GB"), o[2]);
                else if(o[1] == "isin") isin i(o[2]);
                else if(o[1] == "country") iso_3166_1_alpha_2 c(o[2]);
            } catch(const std::exception &) { ok = false; }
            vt::obj("length").b("ok", ok).emit();
            continue;
        }
        if(o[0] == "C") {            // C number local
            size_t h = std::stoull(o[1]);
            auto a = lei_text(iso_17442::create(h, arr<4>(o[2]))), b = lei_text(iso_17442::create(h, arr<4>(o[2])));
            vt::obj("create").raw("text", codes(a)).b("same", a == b).raw("local", codes(o[2])).emit();
            continue;
        }
        const std::string &k = o[1], &s = o[3];
        char way = o[2][0];
        bool ok = true, full = false, strict = false;
        std::string text, check, again;
        auto take = [&](auto &&c) {
            text = c.representation();
            std::stringstream t;
            t << c;
            again = t.str();
            check = std::string(1, char(c.checksum()));
        };
        try {
            if(k == "isin") {
                if(way == 'f') take(isin(iso_3166_1_alpha_2(s.substr(0, 2)), cusip(arr<6>(s, 2), arr<2>(s, 8))));
                else if(way == 'a') take(isin(iso_3166_1_alpha_2(arr<2>(s)), arr<9>(s, 2)));
                else if(way == 'b') take(isin(arr<11>(s)));
                else if(way == 'c') take(isin(iso_3166_1_alpha_2(s.substr(0, 2)), s.substr(2))), full = s.size() == 12;
                else if(way == 'd') take(isin(s.substr(0, 2), s.substr(2))), full = s.size() == 12;
                else take(isin(s)), full = s.size() == 12;
            } else if(k == "cusip") {
                strict = way == 'c';
                full = s.size() == 9;
                if(way == 'a') take(cusip(arr<6>(s), arr<2>(s, 6)));
                else if(way == 'b') take(cusip(arr<8>(s)));
                else if(way == 'c') take(cusip(arr<9>(s)));
                else take(cusip(s));
            } else if(k == "sedol") {
                full = s.size() == 7;
                if(way == 'a') take(sedol(arr<6>(s)));
                else take(sedol(s));
            } else {
                strict = full = s.size() == 20;
                auto f = [&](const iso_17442 &e) { again = text = lei_text(e); auto c = e.checksum(); check = {std::get<0>(c), std::get<1>(c)}; };
                if(way == 'a') { strict = full = false; f(iso_17442(arr<4>(s), arr<12>(s, 6))); }
                else { ok = !assertions(s); if(ok) f(iso_17442(s)); }
            }
        } catch(const std::exception &) { ok = false; }
        if(text != again) vt::put("{\"e\":\"differs\"}");
        vt::obj("enter").raw("k", vt::obj::quote(k)).raw("s", codes(s)).b("full", full).b("strict", strict).b("ok", ok)
            .raw("text", codes(text)).raw("check", codes(check)).t("way", o[2]).emit();
    }
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body); }
