// C04: rank answers at every position.
#include "bv_common.hpp"
using namespace bvc;
static void one(const bit_vector& b, tr::Rng& g, bool large)
{
    uint64_t n = b.size();
    std::vector<uint32_t> pos;
    std::vector<tr::Group> gr;
    if (large) pos = bvin::positions(b, g, 1200);
    for (int p = 0; p < NPAT; ++p) {
        gr.emplace_back(large ? "rank_at" : "rank");
        gr[p].arg("pat", patname[p]);
        if (large) gr[p].arg("pos", pos);
    }
    each(b, g, [&](const bit_vector&, const Obj& o, const std::string& name) {
        for (int p = 0; p < NPAT; ++p) if (o.has_rank(p)) {
            std::string s = "[";
            if (large) for (size_t i = 0; i < pos.size(); ++i) { if (i) s += ','; s += tr::jv((uint64_t)o.rank(p, pos[i])); }
            else for (uint64_t i = 0; i <= n; ++i) { if (i) s += ','; s += tr::jv((uint64_t)o.rank(p, i)); }
            gr[p].addj(name, s + "]");
        }
    });
    for (auto& x : gr) x.done();
}
static void reg() { register_jobs(4, one); }
TR_REGISTER(reg);
