#ifndef VERIF_BV_COMMON_HPP
#define VERIF_BV_COMMON_HPP
#include "bv_impl.hpp"
#include "bv_inputs.hpp"
namespace bvc {
using namespace bvi;
using sdsl::bit_vector;
static const char* const modename[] = {"", " copied", " moved", " copy-assigned", " move-assigned", " swapped", " stored+loaded"};
typedef std::function<void(const bit_vector&, const Obj&, const std::string&)> Visit;
// visit every implementation, built directly, and once more after having been copied/moved/...
inline void each(const bit_vector& bv, tr::Rng& g, const Visit& v, int extra_modes = 1)
{
    for (auto& im : impls()) {
        if (bv.size() > im.maxn) continue;
        { auto o = im.make(bv, 0); v(bv, *o, im.name); }
        for (int k = 0; k < extra_modes; ++k) {
            int m = 1 + g.below(MODES - 1);
            auto o = im.make(bv, m);
            v(bv, *o, im.name + modename[m]);
        }
    }
}
typedef std::function<void(const bit_vector&, tr::Rng&, bool large)> CaseFn;
inline void register_jobs(uint64_t salt, CaseFn fn)
{
    unsigned maxn = tr::thorough ? 11 : 8;
    for (unsigned n = 0; n <= maxn; ++n)
        for (unsigned part = 0; part < (1u << n); part += 128)
            tr::job("exhaustive n=" + std::to_string(n) + "/" + std::to_string(part), [=] {
                tr::Rng g(tr::seed + n * 7919 + part);
                for (unsigned x = part; x < (1u << n) && x < part + 128; ++x) {
                    bit_vector b(n, 0);
                    for (unsigned i = 0; i < n; ++i) b[i] = (x >> i) & 1;
                    bvin::emit_bits_case(b, "exh");
                    fn(b, g, false);
                }
            }, 120);
    auto ms = bvin::mids(salt);
    for (size_t q = 0; q < ms.size(); q += 10)
        tr::job("mid " + std::to_string(q), [=] {
            for (size_t i = q; i < q + 10 && i < ms.size(); ++i) {
                tr::Rng g(ms[i].seed);
                bit_vector b = bvin::content(ms[i].n, ms[i].kind, g);
                bvin::emit_bits_case(b, "n=" + std::to_string(ms[i].n) + " kind=" + std::to_string(ms[i].kind));
                fn(b, g, false);
            }
        }, 120);
    int idx = 0;
    for (auto& L : bvin::larges()) {
        ++idx;
        tr::job("large " + L.name + " n=" + std::to_string(L.n) + " #" + std::to_string(idx), [=] {
            tr::Rng g(tr::seed * 31 + salt + idx * 1013);
            bit_vector b = bvin::large(L, g);
            bvin::emit_runs_case(b, L.name);
            fn(b, g, true);
        }, 200);
    }
}
inline std::vector<uint32_t> occ_count(const bit_vector&);
}
#endif
