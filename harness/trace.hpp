// Shared by the conformance harnesses: reads operation scripts, records one JSON event per line.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <vector>

namespace vt {
    inline int fd = -1;
    inline long events = 0, max_events = 20000;      // per test: a run-away test ends as a hang
    inline std::string buffer;

    inline void flush()
    {
        size_t o = 0;
        while(o < buffer.size()) {
            auto n = ::write(fd, buffer.data() + o, buffer.size() - o);
            if(n <= 0) { _exit(70); }
            o += size_t(n);
        }
        buffer.clear();
    }

    // best effort from a signal handler: the buffer is only appended to by the (single) logging thread
    inline void die(int sig)
    {
        (void)!::write(fd, buffer.data(), buffer.rfind('\n') == std::string::npos ? 0 : buffer.rfind('\n') + 1);
        const char *m = sig == SIGALRM ? "{\"e\":\"hang\"}\n" : "{\"e\":\"crash\"}\n";
        (void)!::write(fd, m, std::char_traits<char>::length(m));
        _exit(3);
    }

    inline void put(const std::string &line)
    {
        buffer += line;
        buffer += "\n";
        if(++events > max_events) die(SIGALRM);
        if(buffer.size() > 60000) flush();
    }

    struct obj
    {
        std::string s;
        explicit obj(const char *e) : s(std::string("{\"e\":\"") + e + "\"") {}
        explicit obj() : s("") {}
        obj &raw(const char *k, const std::string &v)
        {
            s += ",\""; s += k; s += "\":"; s += v;
            return *this;
        }
        obj &i(const char *k, long long v) { return raw(k, std::to_string(v)); }
        obj &b(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
        static std::string quote(const std::string &v)
        {
            std::string r = "\"";
            for(char c : v) { if(c == '"' || c == '\\') r += '\\'; if((unsigned char)c < 32) c = ' '; r += c; }
            return r + "\"";
        }
        obj &t(const char *k, const std::string &v) { return raw(k, quote(v)); }
        template<class V> obj &list(const char *k, const V &v)
        {
            std::string r = "[";
            bool first = true;
            for(const auto &x : v) {
                if(!first) r += ",";
                first = false;
                if constexpr(std::is_convertible_v<decltype(x), std::string>) r += quote(x); else r += std::to_string(x);
            }
            return raw(k, r + "]");
        }
        std::string str() const { return s + "}"; }
        void emit() const
        {
            put(s + "}");
        }
    };

    // runs body(test) for each test of the script
    template<class F> int main_(int argc, char **argv, F body, unsigned seconds = 30)
    {
        if(argc < 3) { return 70; }
        fd = ::open(argv[2], O_CREAT | O_WRONLY | O_TRUNC, 0644);
        if(fd < 0) { return 70; }
        buffer.reserve(1 << 20);
        for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) { std::signal(s, die); }
        std::ifstream in(argv[1]);
        std::vector<std::vector<std::string>> test;
        std::string line;
        auto run = [&] {
            if(test.empty()) return;
            flush();
            events = 0;
            ::alarm(seconds);
            body(test);
            ::alarm(0);
            test.clear();
        };
        while(std::getline(in, line)) {
            std::istringstream ls(line);
            std::vector<std::string> w;
            std::string x;
            while(ls >> x) w.push_back(x);
            if(w.empty()) continue;
            if(w[0] == "T") run();
            test.push_back(w);
        }
        run();
        flush();
        return 0;
    }
    inline long long num(const std::string &s) { return std::stoll(s); }
}
