#ifndef VERIF_WT_COMMON_HPP
#define VERIF_WT_COMMON_HPP
#include "wt_impl.hpp"
namespace wtc {
using namespace wti;
// A sequence over codes 0..K-1; syms[code] is the actual symbol (strictly increasing).
struct Case { vec codes, syms; std::string what; };
inline void emit_case(const Case& c)
{
    u64 K = c.syms.size();
    std::vector<vec> occ(K);
    for (size_t i = 0; i < c.codes.size(); ++i) occ[c.codes[i]].push_back(i);
    tr::emit(tr::Ev("case").f("what", c.what).f("n", c.codes.size()).f("s", c.codes).f("syms", tr::limbvec(c.syms)).f("occ", occ));
}
inline vec text(const Case& c) { vec t; for (u64 x : c.codes) t.push_back(c.syms[x]); return t; }
struct Dec {   // symbol -> code (-1 if the structure reports a symbol that is not in the table)
    std::map<u64, long> m;
    explicit Dec(const Case& c) { for (size_t i = 0; i < c.syms.size(); ++i) m[c.syms[i]] = i; }
    long operator()(u64 s) const { auto it = m.find(s); return it == m.end() ? -1 : it->second; }
};
typedef std::function<void(const Obj&, const std::string&)> Visit;
inline void each(const Case& c, tr::Rng& g, const Visit& v, bool both = true)
{
    vec t = text(c);
    u64 mx = c.syms.empty() ? 0 : c.syms.back();
    for (auto& im : impls()) {
        if (mx > im.maxsym || t.size() > im.maxn) continue;
        if (!both && g.chance(1, 2)) { auto o = im.make(t, 0); v(*o, im.name); continue; }
        if (both) { auto o = im.make(t, 0); v(*o, im.name); }
        int m = 1 + g.below(MODES - 1);
        { auto o = im.make(t, m); v(*o, im.name + modename[m]); }
    }
}
inline u64 zipf(tr::Rng& g, u64 sigma) { u64 x = 0; while (x + 1 < sigma && g.chance(1, 2)) ++x; return x; }
inline Case gen(u64 n, u64 sigma, int kind, const vec& syms, tr::Rng& g)
{
    Case c;
    c.syms = syms;
    u64 K = std::min<u64>(sigma, syms.size());
    for (u64 i = 0; i < n; ++i) {
        u64 x = 0;
        switch (kind) {
            case 0: x = g.below(K); break;
            case 1: x = zipf(g, K); break;
            case 2: x = (i && g.chance(9, 10)) ? c.codes.back() : g.below(K); break;
            case 3: x = i * K / (n ? n : 1); break;
            case 4: x = i % K; break;
            case 5: x = g.chance(19, 20) ? K / 2 : g.below(K); break;
            case 6: x = K - 1; break;
            case 7: x = (i * 7 + 3) % K; break;
            case 8: x = g.chance(1, 2) ? 0 : K - 1; break;
        }
        c.codes.push_back(x);
    }
    return c;
}
inline vec dense(u64 k, u64 from = 0, u64 step = 1) { vec v; for (u64 i = 0; i < k; ++i) v.push_back(from + i * step); return v; }
typedef std::function<void(const Case&, tr::Rng&, bool large)> Fn;
inline void register_jobs(u64 salt, Fn fn, bool big)
{
    // exhaustive: every sequence of length <= 5 over a three-letter alphabet (plus a letter that does not occur), three symbol sets
    unsigned maxn = tr::thorough ? 6 : 5;
    static const std::vector<vec> sets = {{0, 1, 2, 3}, {1, 3, 6, 7}, {97, 128, 254, 255}};
    unsigned total = 1;
    for (unsigned n = 0; n <= maxn; ++n, total *= 3)
        for (unsigned part = 0; part < total; part += 27)
            tr::job("exhaustive n=" + std::to_string(n) + "/" + std::to_string(part), [=] {
                tr::Rng g(tr::seed + n * 7919 + part);
                for (unsigned x = part; x < total && x < part + 27; ++x) {
                    if (n == maxn && !tr::thorough && (x % 3) != (tr::seed + salt) % 3) continue;
                    Case c;
                    c.syms = sets[g.below(3)]; c.what = "exh";
                    unsigned y = x, hole = g.below(4);
                    for (unsigned i = 0; i < n; ++i, y /= 3) { unsigned d = y % 3; c.codes.push_back(d < hole ? d : d + 1); }
                    emit_case(c);
                    fn(c, g, false);
                }
            }, 120);
    struct M { u64 n, sigma; int kind; vec syms; };
    std::vector<M> ms;
    tr::Rng g(tr::seed * 7919 + salt);
    static const u64 ns[] = {7, 16, 33, 63, 64, 65, 100, 129, 200};
    static const u64 sg[] = {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33};
    for (int r = 0; r < (tr::thorough ? 4 : 1); ++r)
        for (u64 s : sg) for (int k : {0, 1, 2, 3, 5, 8}) {
                u64 n = ns[g.below(9)];
                u64 from = g.below(3) ? g.below(20) : 0, step = 1 + g.below(3) * g.below(3);
                vec sy = dense(s + 2, from, step);
                ms.push_back(M{n, s + g.below(3), k, sy});
            }
    for (int k : {0, 1, 2, 4, 7}) ms.push_back(M{300, 256, k, dense(256)});          // the full byte alphabet
    for (int k : {0, 1, 4}) ms.push_back(M{257, 200, k, dense(200, 56)});
    for (int k : {0, 1, 2, 4, 7, 5}) ms.push_back(M{150 + (u64)k * 40, 90, k, dense(90, 100 + k, 37)});    // integer alphabet with gaps
    for (int k : {0, 1, 2}) ms.push_back(M{64, 3, k, vec{0, 255, 256, 257}});
    for (int k : {0, 2, 4, 8}) {   // very large symbols
        ms.push_back(M{60, 5, k, vec{0, 5, 1ULL << 31, (1ULL << 32) + 1, 1ULL << 40, 1ULL << 62}});
        ms.push_back(M{60, 6, k, vec{0, 1, 1ULL << 32, (1ULL << 62) + 1, (1ULL << 63) - 2, (1ULL << 63) - 1}});
        ms.push_back(M{40, 6, k, vec{0, 1, 5, 1ULL << 62, 1ULL << 63, (1ULL << 63) + 5, ~0ULL}});
        ms.push_back(M{40, 7, k, vec{3, 1ULL << 31, 1ULL << 62, (1ULL << 63) - 1, (1ULL << 63) + 1, ~0ULL - 1, ~0ULL}});
    }
    for (size_t q = 0; q < ms.size(); q += 4)
        tr::job("mid " + std::to_string(q), [=] {
            for (size_t i = q; i < q + 4 && i < ms.size(); ++i) {
                tr::Rng g(tr::seed * 31 + salt + i * 97);
                Case c = gen(ms[i].n, ms[i].sigma, ms[i].kind, ms[i].syms, g);
                c.what = "n=" + std::to_string(ms[i].n) + " sigma=" + std::to_string(ms[i].sigma) + " kind=" + std::to_string(ms[i].kind);
                emit_case(c);
                fn(c, g, false);
            }
        }, 120);
    std::vector<M> ls;
    ls.push_back(M{3000, 300, 1, dense(310)});
    ls.push_back(M{3000, 300, 5, dense(310)});
    ls.push_back(M{2500, 2000, 0, dense(2000, 0, 2)});
    ls.push_back(M{4000, 40, 2, dense(42, 3)});
    ls.push_back(M{4000, 25, 1, dense(26, 97)});
    ls.push_back(M{2048, 16, 5, dense(18)});
    if (big) {
        ls.push_back(M{30000, 5, 2, dense(6, 64)});
        ls.push_back(M{30000, 60, 0, dense(60, 1)});
        ls.push_back(M{40000, 3, 5, dense(4)});
        ls.push_back(M{20000, 4000, 0, dense(4000, 1)});
    }
    for (size_t i = 0; i < ls.size(); ++i)
        tr::job("large " + std::to_string(i), [=] {
            tr::Rng g(tr::seed * 131 + salt + i * 977);
            Case c = gen(ls[i].n, ls[i].sigma, ls[i].kind, ls[i].syms, g);
            c.what = "n=" + std::to_string(ls[i].n) + " sigma=" + std::to_string(ls[i].sigma) + " kind=" + std::to_string(ls[i].kind);
            emit_case(c);
            fn(c, g, true);
        }, 200);
}
}
#endif
