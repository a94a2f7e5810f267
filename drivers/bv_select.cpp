// C05: select answers for every argument.
#include "bv_common.hpp"
using namespace bvc;
static void one(const bit_vector& b, tr::Rng& g, bool large)
{
    uint64_t n = b.size();
    uint64_t cnt[NPAT] = {0, 0, 0, 0, 0, 0};   // how many arguments exist (only bounds the queries)
    for (uint64_t i = 0; i < n; ++i) {
        int x = b[i], y = i ? (int)b[i - 1] : -1;
        cnt[x ? P1 : P0]++;
        if (y == 1 && x == 0) cnt[P10]++;
        if (y == 0 && x == 1) cnt[P01]++;
        if (y == 0 && x == 0) cnt[P00]++;
        if (y == 1 && x == 1) cnt[P11]++;
    }
    std::vector<uint64_t> bord;                // borders of blocks: the arguments before and after them
    std::vector<std::vector<int64_t>> at(NPAT);
    if (large) {
        static const unsigned bs[] = {64, 128, 512, 1024, 4096, 15 * 32, 15 * 48, 31 * 32, 63 * 32, 64 * 32, 127 * 32, 255 * 32, 256 * 16};
        for (unsigned s : bs) {
            for (int q = 0; q < 14; ++q) bord.push_back(s * g.below(n / s + 1));
            for (uint64_t lb = 0, rb = n / s + 1; lb < rb;) { uint64_t m = (lb + rb) / 2; bord.push_back(m * s); if (g.chance(1, 2)) rb = m; else lb = m + 1; }
        }
        std::sort(bord.begin(), bord.end());
        int64_t c[NPAT] = {0, 0, 0, 0, 0, 0};
        size_t z = 0;
        for (uint64_t i = 0; i <= n && z < bord.size(); ++i) {
            for (; z < bord.size() && bord[z] == i; ++z) for (int p = 0; p < NPAT; ++p) at[p].push_back(c[p]);
            if (i == n) break;
            int x = b[i], y = i ? (int)b[i - 1] : -1;
            c[x ? P1 : P0]++;
            if (y >= 0) c[y ? (x ? P11 : P10) : (x ? P01 : P00)]++;
        }
    }
    std::vector<tr::Group> gr;
    std::vector<std::vector<uint32_t>> ks(NPAT);
    for (int p = 0; p < NPAT; ++p) {
        gr.emplace_back(large ? "select_at" : "select");
        gr[p].arg("pat", patname[p]);
        if (large) {
            auto& k = ks[p];
            uint64_t c = cnt[p];
            auto add = [&](int64_t x) { for (int d = -1; d <= 1; ++d) if (x + d >= 1 && (uint64_t)(x + d) <= c) k.push_back(x + d); };
            if (c) {
                add(1); add(c);
                for (int q = 0; q < 70; ++q) add(4096 * g.below(c / 4096 + 1));
                for (int q = 0; q < 100; ++q) add(64 * g.below(c / 64 + 1));
                for (int64_t x : at[p]) add(x);
                for (int q = 0; q < 200; ++q) k.push_back(g.in(1, c));
                std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end());
            }
            gr[p].arg("k", k);
        }
    }
    each(b, g, [&](const bit_vector&, const Obj& o, const std::string& name) {
        for (int p = 0; p < NPAT; ++p) if (o.has_select(p)) {
            std::string s = "[";
            if (large) for (size_t i = 0; i < ks[p].size(); ++i) { if (i) s += ','; s += tr::jv((uint64_t)o.select(p, ks[p][i])); }
            else for (uint64_t i = 1; i <= cnt[p]; ++i) { if (i > 1) s += ','; s += tr::jv((uint64_t)o.select(p, i)); }
            gr[p].addj(name, s + "]");
        }
    });
    for (auto& x : gr) x.done();
}
static void reg() { register_jobs(5, one); }
TR_REGISTER(reg);
