// Drives the block pool through its public interface.
#include "trace.hpp"
#include <map>
#include <memory>
#include <esl/computation/block_pool.hpp>
using vt::num;
typedef std::vector<std::vector<std::string>> script;
typedef esl::computation::block_pool::static_block_pool<long long> pool;

// T <capacity>
// E <value>        emplace            D <k>  erase the index issued by the k-th E         X <i>  erase a raw index
// R <k>            read the k-th issued index (only if the script knows it is live)
static void body(const script &ops)
{
    auto cap = size_t(num(ops[0][1]));
    vt::obj("new").i("cap", (long long)cap).emit();
    pool p(cap);
    const pool &cp = p;
    std::vector<std::uint64_t> issued;
    std::vector<esl::computation::block_pool::block<long long> *> address;
    std::map<std::uint64_t, size_t> live;
    auto sweep = [&] {   // every live element: value through both accessors and at its original address
        std::vector<long long> a, b, c, d;
        for(auto &kv : live) { a.push_back((long long)kv.first); b.push_back(p[kv.first]); c.push_back(cp[kv.first]); d.push_back(address[kv.second]->data); }
        vt::obj("state").i("size", (long long)p.size()).i("cap", (long long)p.capacity()).list("ids", a).list("vals", b).list("cvals", c).list("avals", d).emit();
    };
    for(size_t k = 1; k < ops.size(); ++k) {
        auto &o = ops[k];
        if(o[0] == "E") {
            long long v = num(o[1]);
            try {
                auto r = p.emplace(v);
                vt::obj("emplace").i("v", v).b("ok", true).i("id", (long long)r.first).i("got", r.second ? r.second->data : -7).i("own", r.second ? (long long)r.second->index : -7).emit();
                live[r.first] = issued.size();
                issued.push_back(r.first);
                address.push_back(r.second);
            } catch(const std::length_error &) { vt::obj("emplace").i("v", v).b("ok", false).i("id", -1).i("got", v).i("own", -1).emit(); }
            catch(const std::exception &x) { vt::obj("exc").t("what", x.what()).emit(); }
        } else {
            std::uint64_t id;
            if(o[0] == "D") { auto q = size_t(num(o[1])); if(q >= issued.size()) { id = 1000000 + q; } else { id = issued[q]; } }
            else id = std::uint64_t(num(o[1]));
            auto n = p.erase(id);
            vt::obj("erase").i("id", id > 2000000000ull ? 2000000000ll : (long long)id).i("n", (long long)n).emit();
            live.erase(id);
        }
        sweep();
    }
}
int main(int c, char **v) { return vt::main_(c, v, body, 20); }
