// C03: every bitvector representation reports the bits it was built from.
#include "bv_common.hpp"
using namespace bvc;
static void one(const bit_vector& b, tr::Rng& g, bool large)
{
    tr::Group size("size"), access("access"), iter("iter"), accat("access_at"), geti("get_int");
    uint64_t n = b.size();
    std::vector<uint32_t> gi; std::vector<unsigned> gl;
    int q = n < 9 ? 0 : large ? 200 : n < 2000 ? 30 : 80;
    if (n && n < 9) { for (uint64_t i = 0; i < n; ++i) for (uint64_t l = 1; i + l <= n; ++l) { gi.push_back(i); gl.push_back(l); } }
    for (int k = 0; k < q; ++k) {
        uint64_t l = std::min<uint64_t>(n, g.chance(1, 4) ? 64 : g.in(1, 64));
        uint64_t i = g.chance(1, 5) ? n - l : g.below(n - l + 1);
        gi.push_back(i); gl.push_back(l);
    }
    std::vector<uint32_t> pos;
    if (large) { pos = bvin::positions(b, g, 1500); while (!pos.empty() && pos.back() >= n) pos.pop_back(); accat.arg("pos", pos); }
    geti.arg("idx", gi).arg("len", gl);
    each(b, g, [&](const bit_vector&, const Obj& o, const std::string& name) {
        size.add(name, o.size());
        if (large) {
            std::string s = "[";
            for (size_t i = 0; i < pos.size(); ++i) { if (i) s += ','; s += tr::jv((uint64_t)o.at(pos[i])); }
            accat.addj(name, s + "]");
        } else {
            std::string s = "[";
            for (uint64_t i = 0; i < n; ++i) { if (i) s += ','; s += tr::jv((uint64_t)o.at(i)); }
            access.addj(name, s + "]");
            if (o.has_iter()) iter.add(name, o.iter());
        }
        if (o.has_int()) {
            std::string s = "[";
            for (size_t k = 0; k < gi.size(); ++k) { if (k) s += ','; s += tr::bits64(o.get_int(gi[k], gl[k]), gl[k]).s; }
            geti.addj(name, s + "]");
        }
    });
    size.done(); access.done(); iter.done(); accat.done(); geti.done();
}
static void reg() { register_jobs(3, one); }
TR_REGISTER(reg);
