// Bitvector inputs: exhaustive small ones, boundary lengths x content kinds, large run-structured ones.
#ifndef VERIF_BV_INPUTS_HPP
#define VERIF_BV_INPUTS_HPP
#include "tr.hpp"
#include <sdsl/int_vector.hpp>
namespace bvin {
using sdsl::bit_vector;
inline void set_range(bit_vector& b, uint64_t from, uint64_t to) { for (uint64_t i = from; i < to && i < b.size(); ++i) b[i] = 1; }
enum { KINDS = 16 };
inline bit_vector content(uint64_t n, int kind, tr::Rng& g)
{
    bit_vector b(n, 0);
    switch (kind) {
        case 0: break;
        case 1: for (uint64_t i = 0; i < n; ++i) b[i] = 1; break;
        case 2: for (uint64_t i = 0; i < n; ++i) b[i] = g.next() & 1; break;
        case 3: for (uint64_t i = 0; i < n; ++i) b[i] = g.chance(1, 30); break;
        case 4: for (uint64_t i = 0; i < n; ++i) b[i] = !g.chance(1, 30); break;
        case 5: for (uint64_t i = 0; i < n; ++i) b[i] = i & 1; break;
        case 6: for (uint64_t i = 0; i < n; ++i) b[i] = !(i & 1); break;
        case 7: if (n) b[0] = 1; break;
        case 8: if (n) b[n - 1] = 1; break;
        case 9: for (uint64_t i = 0; i < n; ++i) b[i] = 1; if (n) b[n - 1] = 0; break;
        case 10: for (uint64_t i = 0; i < n; ++i) b[i] = 1; if (n) b[0] = 0; break;
        case 11: { // runs
            uint64_t i = 0; int v = g.next() & 1;
            while (i < n) { uint64_t l = 1 + g.below(1 + g.below(120)); for (; l && i < n; --l) b[i++] = v; v ^= 1; }
            break;
        }
        case 12: { // uniform or random blocks, aligned to the block sizes in use
            static const unsigned bs[] = {15, 31, 63, 64, 127, 255, 256, 384, 512};
            unsigned s = bs[g.below(9)];
            for (uint64_t i = 0; i < n; i += s) {
                int k = g.below(5);
                for (uint64_t j = i; j < i + s && j < n; ++j)
                    b[j] = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? (g.next() & 1) : k == 3 ? (j == i) : g.chance(9, 10);
            }
            break;
        }
        case 13: { // long uniform stretches (uniform super blocks), then noise
            uint64_t i = 0;
            while (i < n) { uint64_t l = 200 + g.below(2500); int k = g.below(4); for (; l && i < n; --l, ++i) b[i] = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? g.chance(1, 2) : g.chance(1, 12); }
            break;
        }
        case 14: for (uint64_t i = 0; i < n; ++i) b[i] = g.chance(1, 300); break;
        case 15: { // few bits per word, at word edges
            for (uint64_t i = 0; i < n; i += 64) { if (g.chance(1, 2)) b[i] = 1; if (i && g.chance(1, 2)) b[i - 1] = 1; }
            break;
        }
    }
    return b;
}
static const unsigned lengths[] = {9, 13, 14, 15, 16, 29, 30, 31, 32, 45, 61, 62, 63, 64, 65, 66, 95, 96, 105, 126, 127, 128, 129, 165, 166, 189, 190, 191, 192, 193, 223, 224, 225, 253, 254, 255, 256, 257, 258,
    319, 320, 321, 383, 384, 385, 447, 448, 449, 479, 480, 481, 510, 511, 512, 513, 514, 575, 576, 577, 639, 640, 641, 767, 768, 769, 895, 896, 897, 959, 960, 1007, 1008, 1009, 1023, 1024, 1025, 1279, 1280, 1281, 1535, 1536, 1537, 1791,
    1792, 2015, 2016, 2017, 2047, 2048, 2049, 2050, 2175, 2176, 2431, 2432, 2433, 2559, 2560, 2815, 2816, 3071, 3072, 3073, 4031, 4032, 4033, 4063, 4064, 4065, 4095, 4096, 4097, 4098, 5000, 6143, 6144, 6145, 8128, 8159, 8160, 8161, 8191, 8192, 8193, 10000, 12288, 16383, 16384, 16385};
struct Mid { unsigned n; int kind; uint64_t seed; };
inline std::vector<Mid> mids(uint64_t salt)
{
    std::vector<Mid> r;
    tr::Rng g(tr::seed * 1000003 + salt);
    for (unsigned n : lengths) {
        std::vector<int> ks;
        if (tr::thorough) for (int k = 0; k < KINDS; ++k) ks.push_back(k);
        else if (n <= 700) { ks = {0, 1, 2, 12}; while (ks.size() < 7) ks.push_back(3 + g.below(KINDS - 3)); }
        else if (n <= 4200) { ks = {2, 12, (int)g.below(2), (int)(3 + g.below(KINDS - 3)), (int)(3 + g.below(KINDS - 3))}; }
        else ks = {(int)g.below(3), 12, 13, (int)(3 + g.below(KINDS - 3))};
        for (int k : ks) r.push_back(Mid{n, k, g.next()});
    }
    int extra = tr::thorough ? 400 : 60;
    for (int i = 0; i < extra; ++i) r.push_back(Mid{(unsigned)(9 + g.below(g.chance(1, 2) ? 600 : 6000)), (int)g.below(KINDS), g.next()});
    return r;
}
// run-length view
struct Runs { std::vector<uint32_t> s, l, c; };
inline Runs runs_of(const bit_vector& b)
{
    Runs r; uint64_t i = 0, n = b.size(), c = 0;
    while (i < n) {
        if (!b[i]) { if ((i & 63) == 0 && i + 64 <= n && b.data()[i >> 6] == 0) i += 64; else ++i; continue; }
        uint64_t j = i;
        while (j < n && b[j]) ++j;
        r.s.push_back(i); r.l.push_back(j - i); r.c.push_back(c); c += j - i;
        i = j;
    }
    return r;
}
struct Large { std::string name; uint64_t n; int kind; };
inline std::vector<Large> larges()
{
    std::vector<Large> r = {
        {"sparse", 1 << 17, 0}, {"sparse", 1000000, 0}, {"sparse", 4200000, 0}, {"clusters", 1 << 18, 1}, {"clusters", 1500001, 1}, {"clusters", 4000000, 1},
        {"longruns", 131071, 2}, {"longruns", 2200000, 2}, {"longruns", 5000000, 2}, {"noise", 100000, 3}, {"noise", 131072, 3}, {"gaps", 3000000, 4}, {"gaps0", 3000000, 5},
        {"allone", 1100000, 6}, {"allzero", 300000, 7}, {"few", 2500000, 8}, {"fewzero", 2500000, 9}, {"spread", 3900000, 10}, {"spread0", 1900000, 11}, {"edge4096", 600000, 12}, {"noise", 99999, 3}
    };
    if (tr::thorough) {
        auto q = r;
        tr::Rng g(tr::seed + 99);
        for (int rep = 0; rep < 6; ++rep)
            for (auto x : q) { x.n = x.n / 2 + g.below(x.n * 2); r.push_back(x); }
    }
    return r;
}
inline bit_vector large(const Large& L, tr::Rng& g)
{
    uint64_t n = L.n;
    bit_vector b(n, 0);
    switch (L.kind) {
        case 0: for (int i = 0; i < 3000; ++i) b[g.below(n)] = 1; break;
        case 1: { // dense clusters separated by gaps: mixes short and long select blocks
            uint64_t i = g.below(5000);
            int budget = 8000;
            while (i < n && budget > 0) {
                uint64_t l = 300 + g.below(6000); bool noise = g.chance(1, 3);
                for (uint64_t j = i; j < i + l && j < n; ++j) { if (noise) { bool x = g.chance(1, 2); if (x) --budget; b[j] = x; } else b[j] = 1; }
                i += l + g.below(n / 12);
            }
            break;
        }
        case 2: { // long runs of both kinds
            uint64_t i = 0; int v = 0;
            while (i < n) { uint64_t l = 1 + g.below(n / 60); if (v) set_range(b, i, i + l); i += l; v ^= 1; }
            break;
        }
        case 3: for (uint64_t i = 0; i < n; ++i) b[i] = g.chance(1, 3); break;
        case 4: // exactly 4096*k ones per cluster, with one outlier far away inside a block
        case 5: {
            uint64_t i = 100;
            for (int k = 0; k < 7 && i < n; ++k) {
                set_range(b, i, i + 4096 - 7);
                i += 4096 - 7;
                for (int q = 0; q < 7; ++q) { i += (k % 2) ? 50000 : 3 + g.below(30); if (i < n) b[i] = 1; ++i; }
                i += g.below(9000);
            }
            if (L.kind == 5) b.flip();
            break;
        }
        case 6: b.flip(); break;
        case 7: break;
        case 8: for (int i = 0; i < 5; ++i) b[g.below(n)] = 1; break;
        case 9: b.flip(); for (int i = 0; i < 5; ++i) b[g.below(n)] = 0; break;
        case 10: for (uint64_t i = g.below(300); i < n; i += 1 + n / 9000) b[i] = 1; break;
        case 11: b.flip(); for (uint64_t i = g.below(300); i < n; i += 1 + n / 9000) b[i] = 0; break;
        case 12: { // counts exactly at multiples of 4096 and 64
            uint64_t i = 17;
            for (int k = 0; k < 40 && i + 9000 < n; ++k) { uint64_t l = (k % 3 == 0) ? 4096 : (k % 3 == 1) ? 64 : 4096 - 64; set_range(b, i, i + l); i += l + 1 + g.below(9000); }
            break;
        }
    }
    return b;
}
inline void emit_bits_case(const bit_vector& b, const std::string& name)
{
    std::string s = "[";
    for (uint64_t i = 0; i < b.size(); ++i) { if (i) s += ','; s += b[i] ? '1' : '0'; }
    tr::emit(tr::Ev("case").f("kind", "bits").f("name", name).f("n", b.size()).f("bits", tr::J{s + "]"}));
}
inline void emit_runs_case(const bit_vector& b, const std::string& name)
{
    Runs r = runs_of(b);
    tr::emit(tr::Ev("case").f("kind", "runs").f("name", name).f("n", b.size()).f("rs", r.s).f("rl", r.l).f("rc", r.c));
}
// interesting positions in 0..n
inline std::vector<uint32_t> positions(const bit_vector& b, tr::Rng& g, unsigned cap)
{
    uint64_t n = b.size();
    Runs r = runs_of(b);
    std::vector<uint32_t> p;
    auto add = [&](int64_t x) { for (int d = -1; d <= 1; ++d) if (x + d >= 0 && (uint64_t)(x + d) <= n) p.push_back(x + d); };
    for (unsigned k = 0; k < cap / 12 && !r.s.empty(); ++k) { auto q = g.below(r.s.size()); add(r.s[q]); add(r.s[q] + r.l[q]); }
    for (unsigned k = 0; k < cap / 8; ++k) { static const unsigned m[] = {64, 512, 1024, 2048, 4096, 8192, 65536, 3072, 384 * 64, 15 * 32, 63 * 32, 255 * 32, 127 * 32}; unsigned u = m[g.below(13)]; add((int64_t)u * g.below(n / u + 1)); }
    for (unsigned k = 0; k < cap / 4; ++k) p.push_back(g.below(n + 1));
    add(0); add(n);
    std::sort(p.begin(), p.end());
    p.erase(std::unique(p.begin(), p.end()), p.end());
    return p;
}
} // namespace bvin
#endif
