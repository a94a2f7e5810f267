// Sparse contents of vectors of more than 2^32 bits or bytes (events "huge", HugeVec.tla).
#ifndef VERIF_HUGE_HPP
#define VERIF_HUGE_HPP
#include "tr.hpp"
#include <map>
namespace hg {
typedef uint64_t u64;
struct Plan {
    unsigned w; u64 n; tr::Rng g;
    std::map<u64, u64> m;
    std::vector<u64> at;
    Plan(unsigned width, u64 len) : w(width), n(len), g(tr::seed * 7 + width) {
        at = {0, 1, n / 3, n - 2, n - 1};
        for (u64 p : {1ULL << 31, 1ULL << 32, 1ULL << 34, 1ULL << 35}) for (int d = -2; d <= 2; ++d) at.push_back(p / w + d);
        for (int z = 0; z < 60; ++z) at.push_back(g.below(n));
        std::vector<u64> a; for (u64 i : at) if (i < n) a.push_back(i);
        at = a;
    }
    u64 value(u64 i) { u64 x = g.next(); if (w < 64) x &= (1ULL << w) - 1; m[i] = x; return x; }
    std::vector<u64> queries() {
        std::vector<u64> q;
        for (auto& e : m) { for (int d = -2; d <= 2; ++d) if (e.first + d < n) q.push_back(e.first + d); for (u64 p : {1ULL << 32, 1ULL << 35}) if (e.first >= p / w) q.push_back(e.first - p / w); }
        for (int z = 0; z < 60; ++z) q.push_back(g.below(n));
        return q;
    }
    void emit(const std::string& name, u64 size, const std::vector<u64>& q, const std::vector<std::vector<u64>>& got) {
        std::vector<u64> ix, vals;
        for (auto& e : m) { ix.push_back(e.first); vals.push_back(e.second); }
        std::string s = "[";
        for (auto& x : got) { if (s.size() > 1) s += ','; s += tr::limbvec(x).s; }
        tr::emit(tr::Ev("huge").f("name", name).f("w", w).f("n", n).f("size", size).f("idx", ix).f("val", tr::limbvec(vals)).f("q", q).f("got", tr::J{s + "]"}));
    }
};
}
#endif
