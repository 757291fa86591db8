// Samplers of the parameter space and named parameters.
#include "trace.hpp"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <tuple>
#include <unordered_map>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/vector.hpp>
#include <esl/simulation/parameter/sampler.hpp>
#include <esl/simulation/parameter/parametrization.hpp>
using namespace esl::simulation::parameter;
typedef std::vector<std::vector<std::string>> script;
typedef std::shared_ptr<interval<double>> dim;
typedef std::vector<std::map<dim, double>> points;
static std::string hex(double v) { char b[64]; std::snprintf(b, sizeof b, "%a", v); return b; }
// index of the level of a value: 1..n, 0 if it is none
static int level(const dim &d, double v, unsigned n, bool &exact)
{
    if(!(v >= d->lower && v <= d->upper)) { exact = false; return 0; }
    double width = d->upper - d->lower;
    int i = n <= 1 ? 1 : 1 + int(std::llround((v - d->lower) / width * (n - 1)));
    double ideal = n <= 1 ? d->lower : d->lower + width * (i - 1) / (n - 1);
    if(std::fabs(v - ideal) > 1e-9 * (std::fabs(d->lower) + std::fabs(d->upper) + width)) { exact = false; return 0; }
    if((i == 1 && v != d->lower) || (n > 1 && i == int(n) && v != d->upper)) exact = false;
    return i;
}
static std::string arr(const std::vector<std::string> &v) { std::string r = "["; for(auto &x : v) r += (r.size() > 1 ? "," : "") + x; return r + "]"; }
// T lower:upper ...      grid d...      latin n seed      random n seed      improved dims n seed dup      set name type value      get name type
static void body(const script &ops)
{
    std::vector<dim> ds;
    for(size_t i = 1; i < ops[0].size(); ++i) {
        auto c = ops[0][i].find(':');
        ds.push_back(std::make_shared<interval<double>>(std::stod(ops[0][i].substr(0, c)), std::stod(ops[0][i].substr(c + 1))));
    }
    vt::obj("new").emit();
    std::unique_ptr<parametrization> par;
    auto seq = [](const std::string &s) { return (unsigned)std::stoul(s); };
    auto sample = [&](const char *m, const std::vector<std::string> &args, const std::string &seed, const std::string &r, bool exact) {
        vt::obj("sample").t("method", m).raw("args", arr(args)).raw("seed", seed).raw("r", r).b("exact", exact).emit();
    };
    for(size_t n = 1; n < ops.size(); ++n) {
        auto &o = ops[n];
        bool exact = true;
        std::vector<std::string> rs, args;
        if(o[0] == "grid") {
            std::map<dim, unsigned> density;
            for(size_t i = 0; i < ds.size(); ++i) { density.emplace(ds[i], seq(o[1 + i])); args.push_back(o[1 + i]); }
            points p = sampler::grid(density);
            for(auto &s : p) {
                std::vector<std::string> x;
                if(s.size() != ds.size()) exact = false;
                for(auto &d : ds) x.push_back(std::to_string(s.count(d) ? level(d, s.at(d), density[d], exact) : 0));
                rs.push_back(arr(x));
            }
            std::sort(rs.begin(), rs.end());       // the order of the points is not specified
            sample("grid", args, "0", arr(rs), exact);
        } else if(o[0] == "latin" || o[0] == "random") {
            unsigned k = seq(o[1]);
            points p = o[0] == "latin" ? sampler::latin_hypercube<double>(ds, k, std::seed_seq{seq(o[2]), seq(o[2]) + 7})
                                       : sampler::uniform_random<double>(ds, k, std::seed_seq{seq(o[2]), seq(o[2]) + 7});
            for(auto &s : p) {
                std::vector<std::string> x;
                if(s.size() != ds.size()) exact = false;
                for(auto &d : ds)
                    if(o[0] == "latin") x.push_back(std::to_string(s.count(d) ? level(d, s.at(d), k, exact) : 0));
                    else x.push_back(s.count(d) ? "{\"v\":\"" + hex(s.at(d)) + "\",\"within\":" + (d->contains(s.at(d)) ? "true}" : "false}") : "{\"within\":false}");
                rs.push_back(arr(x));
            }
            sample(o[0].c_str(), {std::to_string(ds.size()), o[1]}, o[2], arr(rs), exact);
        } else if(o[0] == "improved") {
            unsigned dims = seq(o[1]), k = seq(o[2]);
            std::seed_seq seed{seq(o[3]), seq(o[3]) + 1};
            std::vector<std::vector<unsigned>> r;
            try { r = sampler::improved_hypercube_sampling(dims, k, seed, seq(o[4])); } catch(const std::exception &) { exact = false; }
            if(r.size() != dims) exact = false;
            for(unsigned i = 0; i < k; ++i) {
                std::vector<std::string> x;
                for(auto &d : r) { if(d.size() != k) exact = false; x.push_back(std::to_string(i < d.size() ? d[i] : 0)); }
                rs.push_back(arr(x));
            }
            sample("improved", {o[1], o[2]}, std::to_string(seq(o[3]) * 16 + seq(o[4])), arr(rs), exact);
        } else if(o[0] == "par") {           // par sample start end verbosity threads
            par = std::make_unique<parametrization>(std::stoull(o[1]), std::stoull(o[2]), std::stoull(o[3]), std::stoull(o[4]), (unsigned)std::stoul(o[5]));
            const char *names[] = {"sample", "start", "end", "verbosity", "threads"};
            for(int i = 0; i < 5; ++i) vt::obj("set").t("n", names[i]).t("type", "whole").t("v", o[1 + i]).emit();
        } else if(!par) {
            continue;
        } else if(o[0] == "set") {
            auto &v = par->values[o[1]];
            if(o[2] == "whole") v = std::make_shared<constant<std::uint64_t>>(std::stoull(o[3]));
            else if(o[2] == "real") v = std::make_shared<constant<double>>(std::stod(o[3]));
            else if(o[2] == "text") v = std::make_shared<constant<std::string>>(o[3]);
            else v = std::make_shared<interval<double>>(0, 1);
            vt::obj("set").t("n", o[1]).t("type", o[2]).t("v", o[2] == "range" ? "" : o[2] == "real" ? hex(std::stod(o[3])) : o[3]).emit();
        } else {
            bool ok = true;
            std::string v;
            try {
                if(o[2] == "whole") v = std::to_string(par->get<std::uint64_t>(o[1]));
                else if(o[2] == "real") v = hex(par->get<double>(o[1]));
                else v = par->get<std::string>(o[1]);
            } catch(const std::exception &) { ok = false; }
            vt::obj("get").t("n", o[1]).t("type", o[2]).b("ok", ok).t("v", v).emit();
        }
    }
}
int main(int argc, char **argv) { return vt::main_(argc, argv, body); }
