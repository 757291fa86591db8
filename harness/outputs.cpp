// Outputs of producers, streams (in memory, on file), logs.
#include "trace.hpp"
#include <filesystem>
#include <map>
#include <memory>
#include <esl/data/file.hpp>
#include <esl/data/log.hpp>
#include <esl/data/producer.hpp>
using namespace esl;
using namespace esl::data;
typedef std::vector<std::vector<std::string>> script;
template<severity f> struct open_log : log<f> { using log<f>::log; std::string text() const { return this->buffer_.str(); } };
struct sink { std::ostringstream text; std::shared_ptr<data::stream> s; std::filesystem::path path; };
// sequences of letters, digits and minus signs
static std::string tokens(const std::string &line)
{
    std::string r = "[", w;
    auto flush = [&] { if(!w.empty()) r += (r.size() > 1 ? ",\"" : "\"") + w + "\""; w.clear(); };
    for(char c : line) if(std::isalnum((unsigned char)c) || c == '-' || c == '_' || c == '.') w += c; else flush();
    flush();
    return r + "]";
}
static std::string lines(const std::string &text)
{
    std::istringstream in(text);
    std::string line, r = "[";
    while(std::getline(in, line)) r += (r.size() > 1 ? "," : "") + tokens(line);
    return r + "]";
}
static int scratch_count = 0;
// T filter      C name kind      O memory|file|prefixed      A name stream      B name 0|1     P name time v...      V name     L stream      S level how text     M
static void body(const script &ops)
{
    auto dir = std::filesystem::current_path() / ("outputs-" + std::to_string(::getpid()) + "-" + std::to_string(++scratch_count));
    std::filesystem::create_directories(dir);
    producer p;
    std::vector<std::unique_ptr<sink>> sinks;
    std::map<std::string, std::shared_ptr<output<int>>> ints;
    std::map<std::string, std::shared_ptr<output<int, int>>> pairs;
    std::map<std::string, std::shared_ptr<output<std::string>>> texts;
    std::map<std::string, std::shared_ptr<output<double>>> reals;
    const std::string filter = ops[0][1];
    open_log<trace> l0("zero");
    open_log<notice> l1("one");
    open_log<warning> l2("two");
    open_log<errorlog> l3("three");
    vt::obj("new").emit();
    for(size_t n = 1; n < ops.size(); ++n) {
        auto &o = ops[n];
        if(o[0] == "C") {
            bool ok = true;
            try {
                if(o[2] == "int") ints[o[1]] = p.create_output<int>(o[1]);
                else if(o[2] == "pair") pairs[o[1]] = p.create_output<int, int>(o[1]);
                else if(o[2] == "real") reals[o[1]] = p.create_output<double>(o[1]);
                else texts[o[1]] = p.create_output<std::string>(o[1]);
            } catch(const std::exception &) { ok = false; }
            vt::obj("create").t("n", o[1]).t("kind", o[2]).b("ok", ok).emit();
        } else if(o[0] == "O") {
            auto k = std::make_unique<sink>();
            bool ok = true;
            try {
                if(o[1] == "memory") k->s = std::make_shared<data::stream>(k->text);
                else if(o[1] == "file") { k->path = dir / ("f" + std::to_string(n)); k->s = std::make_shared<data::file>(k->path); }
                else { k->path = dir / "sub" / "deep" / ("f" + std::to_string(n)); k->s = std::make_shared<data::file>("f" + std::to_string(n), dir / "sub" / "deep"); }
            } catch(const std::exception &) { ok = false; }
            if(o[1] != "memory") vt::obj("file").b("ok", ok && std::filesystem::exists(k->path)).b("possible", true).emit();
            if(!ok) break;
            sinks.push_back(std::move(k));
            vt::obj("stream").emit();
        } else if(o[0] == "A") {
            size_t s = std::stoul(o[2]);
            if(s > sinks.size()) continue;
            bool ok = true;
            try { p.add_output_stream(o[1], sinks[s - 1]->s); } catch(const std::exception &) { ok = false; }
            vt::obj("attach").t("n", o[1]).i("s", (long long)s).b("ok", ok).emit();
        } else if(o[0] == "B") {
            if(!p.outputs.count(o[1])) continue;
            p.outputs.find(o[1])->second->buffered = o[2] == "1";
            vt::obj("buffer").t("n", o[1]).b("b", o[2] == "1").emit();
        } else if(o[0] == "P") {
            const std::string &nm = o[1];
            simulation::time_point t = std::stoull(o[2]);
            std::vector<std::string> v;
            if(ints.count(nm)) { ints[nm]->put(t, std::stoi(o[3])); v = {o[3]}; }
            else if(pairs.count(nm)) { pairs[nm]->put(t, std::stoi(o[3]), std::stoi(o[4])); v = {o[3], o[4]}; }
            else if(reals.count(nm)) { reals[nm]->put(t, std::stoi(o[3]) / 4.); std::ostringstream s; s << std::stoi(o[3]) / 4.; v = {s.str()}; }
            else if(texts.count(nm)) { texts[nm]->put(t, "w" + o[3]); v = {"w" + o[3]}; }
            else continue;
            vt::obj("put").t("n", nm).t("t", o[2]).list("v", v).emit();
        } else if(o[0] == "V") {
            const std::string &nm = o[1];
            std::string r = "[";
            auto add = [&](const std::string &s) { r += (r.size() > 1 ? "," : "") + tokens(s); };
            auto real = [](double d) { std::ostringstream s; s << d; return s.str(); };
            // as held by the producer
            if(!p.outputs.count(nm)) continue;
            auto held = p.outputs.find(nm)->second;
            if(auto i = std::dynamic_pointer_cast<output<int>>(held)) for(auto &[t, a] : i->values) add(std::to_string(t) + " " + std::to_string(a));
            if(auto i = std::dynamic_pointer_cast<output<int, int>>(held)) for(auto &[t, a, b] : i->values) add(std::to_string(t) + " " + std::to_string(a) + " " + std::to_string(b));
            if(auto i = std::dynamic_pointer_cast<output<double>>(held)) for(auto &[t, a] : i->values) add(std::to_string(t) + " " + real(a));
            if(auto i = std::dynamic_pointer_cast<output<std::string>>(held)) for(auto &[t, a] : i->values) add(std::to_string(t) + " " + a);
            vt::obj("values").t("n", nm).raw("values", r + "]").emit();
        } else if(o[0] == "L") {
            size_t s = std::stoul(o[1]);
            if(s > sinks.size()) continue;
            auto &k = *sinks[s - 1];
            std::string text = k.text.str();
            if(!k.path.empty()) {
                static_cast<std::ostream &>(*k.s).flush();
                std::ifstream in(k.path);
                std::stringstream b;
                b << in.rdbuf();
                text = b.str();
            }
            vt::obj("lines").i("s", (long long)s).raw("lines", lines(text)).emit();
        } else if(o[0] == "S") {
            auto say = [&](auto &l, auto level) {
                constexpr severity sv = decltype(level)::value;
                // the source position is optional, and so is the prefix with the severity
                if(o[2] == "m") l.template get<sv>(BOOST_CURRENT_FUNCTION, __FILE__, __LINE__) << "x" << o[3] << std::endl;
                else if(o[2] == "c") l.template get<sv>() << "x" << o[3] << channel::endl;
                else if(o[2] == "s") l.template get<sv>() << "x" << o[3] << std::endl;
                else { l.get(sv) << '(' << sv << ')' << " x" << o[3] << std::endl; }
            };
            auto level = [&](auto &l) {
                if(o[1] == "trace") say(l, std::integral_constant<severity, trace>());
                else if(o[1] == "notice") say(l, std::integral_constant<severity, notice>());
                else if(o[1] == "warning") say(l, std::integral_constant<severity, warning>());
                else say(l, std::integral_constant<severity, errorlog>());
            };
            if(filter == "trace") level(l0); else if(filter == "notice") level(l1); else if(filter == "warning") level(l2); else level(l3);
            vt::obj("say").t("filter", filter).t("level", o[1]).t("text", "x" + o[3]).emit();
        } else {
            std::string text = filter == "trace" ? l0.text() : filter == "notice" ? l1.text() : filter == "warning" ? l2.text() : l3.text();
            std::istringstream in(text);
            std::string line, r = "[";
            // (severity, file[line]) text
            while(std::getline(in, line)) {
                auto b = line.find('('), e = line.find_first_of(",)"), x = line.rfind(' ');
                std::string lv = b == 0 && e != std::string::npos ? line.substr(1, e - 1) : "?";
                r += (r.size() > 1 ? ",{" : "{") + std::string("\"level\":\"") + lv + "\",\"text\":" + vt::obj::quote(x == std::string::npos ? line : line.substr(x + 1)) + "}";
            }
            vt::obj("log").raw("messages", r + "]").emit();
        }
    }
    sinks.clear();
    std::error_code ec;
    if(dir.filename().string().rfind("outputs-", 0) == 0) std::filesystem::remove_all(dir, ec);
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body); }
