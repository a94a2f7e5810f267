// Texts for the index family (C14..C18) and their reference certificates.
#ifndef VERIF_TEXT_INPUTS_HPP
#define VERIF_TEXT_INPUTS_HPP
#include "tr.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/util.hpp>
#include <sdsl/io.hpp>
#include <set>
namespace txt {
typedef uint64_t u64;
typedef std::vector<u64> vec;
// codes 0..K-1; tab[code] is the real symbol, tab[0] = 0 is the terminator (only at the end)
struct Text {
    vec tab, t;
    std::string what;
    vec sa, inv, lcp;      // certificates, judged by the specification
    size_t n() const { return t.size(); }
    u64 sym(size_t i) const { return tab[t[i]]; }
    vec syms() const { vec r; for (u64 c : t) r.push_back(tab[c]); return r; }
    std::string str() const { std::string r; for (size_t i = 0; i + 1 < t.size(); ++i) r += (char)tab[t[i]]; return r; }   // without the terminator
    long code(u64 s) const { auto it = std::lower_bound(tab.begin(), tab.end(), s); return it != tab.end() && *it == s ? it - tab.begin() : -1; }
};
inline Text make(const vec& raw, const std::string& what)     // raw: nonzero symbols
{
    Text x;
    x.what = what;
    std::set<u64> s(raw.begin(), raw.end());
    s.insert(0);
    x.tab.assign(s.begin(), s.end());
    for (u64 r : raw) x.t.push_back(x.code(r));
    x.t.push_back(0);
    size_t n = x.n();
    for (size_t i = 0; i < n; ++i) x.sa.push_back(i);
    const vec& t = x.t;
    std::sort(x.sa.begin(), x.sa.end(), [&](u64 a, u64 b) {
        while (t[a] == t[b]) { if (a == b) return false; ++a; ++b; }
        return t[a] < t[b];
    });
    x.inv.resize(n); x.lcp.assign(n, 0);
    for (size_t i = 0; i < n; ++i) x.inv[x.sa[i]] = i;
    for (size_t i = 1; i < n; ++i) { u64 a = x.sa[i], b = x.sa[i - 1], l = 0; while (t[a + l] == t[b + l] && a + l + 1 < n && b + l + 1 < n) ++l; x.lcp[i] = l; }
    return x;
}
// large texts: arrays are given by digests, and by samples of the certificate that the specification judges
inline bool& digest() { static bool d = false; return d; }
template<class V> std::string dig(const V& v)
{
    u64 h = 1469598103934665603ULL ^ v.size();
    for (auto x : v) { h ^= (u64)x; h *= 1099511628211ULL; h ^= h >> 31; }
    char c[24]; snprintf(c, sizeof c, "%016llx", (unsigned long long)h); return c;
}
struct DGroup : tr::Group {
    using tr::Group::Group;
    template<class T> void add(const std::string& impl, const T& res) {
        if (digest() && res.size() > 1000) addj(impl, tr::jv(dig(res))); else tr::Group::add(impl, res);
    }
};
inline vec bwt_of(const Text& x) { vec r; for (u64 p : x.sa) r.push_back(x.t[p ? p - 1 : x.n() - 1]); return r; }
inline void emit_big(const Text& x)
{
    const size_t n = x.n();
    vec lf, psi, first, occ(x.tab.size(), 0);
    for (u64 p : x.sa) { lf.push_back(x.inv[p ? p - 1 : n - 1]); psi.push_back(x.inv[p + 1 < n ? p + 1 : 0]); first.push_back(x.t[p]); }
    for (u64 c : x.t) ++occ[c];
    std::vector<std::string> H = {dig(x.t), dig(x.sa), dig(x.inv), dig(x.lcp), dig(bwt_of(x)), dig(lf), dig(psi), dig(first)};
    tr::Rng g(tr::seed * 977 + n);
    std::string w = "[";
    for (int z = 0; z < 600; ++z) {
        u64 k = z < 3 ? z : z < 6 ? n - 2 - (z - 3) : g.below(n - 1), a = x.sa[k], b = x.sa[k + 1], h = x.lcp[k + 1], m = std::min<u64>(h, 30) + 1;
        auto at = [&](u64 p) { return p < n ? (long)x.t[p] : -1L; };
        auto ix = [&](u64 p) { return p < n ? (long)x.inv[p] : -1L; };
        std::vector<long> wa, wb;
        for (u64 j = 0; j < m; ++j) { wa.push_back(at(a + j)); wb.push_back(at(b + j)); }
        if (z) w += ',';
        w += "{\"k\":" + tr::jv(k) + ",\"a\":" + tr::jv(a) + ",\"b\":" + tr::jv(b) + ",\"h\":" + tr::jv(h) + ",\"ia\":" + tr::jv(ix(a)) + ",\"ib\":" + tr::jv(ix(b))
           + ",\"ja\":" + tr::jv(ix(a + 1)) + ",\"jb\":" + tr::jv(ix(b + 1)) + ",\"pa\":" + tr::jv(a ? at(a - 1) : -1L) + ",\"pb\":" + tr::jv(b ? at(b - 1) : -1L)
           + ",\"lp\":" + tr::jv(b ? (long)x.lcp[x.inv[b - 1]] : -1L) + ",\"ma\":" + tr::jv(at(a + h)) + ",\"mb\":" + tr::jv(at(b + h)) + ",\"wa\":" + tr::jv(wa) + ",\"wb\":" + tr::jv(wb) + "}";
    }
    tr::emit(tr::Ev("bigtext").f("what", x.what).f("n", n).f("tab", tr::limbvec(x.tab.size() > 300 ? vec(x.tab.begin(), x.tab.begin() + 300) : x.tab)).f("sigma", x.tab.size())
             .f("occ", occ).f("text", H[0]).f("sa", H[1]).f("inv", H[2]).f("lcp", H[3]).f("bwt", H[4]).f("lf", H[5]).f("psi", H[6]).f("first", H[7]).f("samples", tr::J{w + "]"}));
}
inline void emit(const Text& x)
{
    if (digest()) { emit_big(x); return; }
    tr::emit(tr::Ev("text").f("what", x.what).f("tab", tr::limbvec(x.tab)).f("t", x.t).f("sa", x.sa).f("inv", x.inv).f("lcp", x.lcp));
}
// maps pattern codes 1..sigma onto real symbols
inline vec ren(const vec& c, const vec& syms) { vec r; for (u64 x : c) r.push_back(syms[x % syms.size()]); return r; }
inline vec periodic(size_t n, const vec& p) { vec r; for (size_t i = 0; i < n; ++i) r.push_back(p[i % p.size()]); return r; }
inline vec fib(size_t n) { vec a = {0}, b = {0, 1}; while (b.size() < n) { vec c = b; c.insert(c.end(), a.begin(), a.end()); a = b; b = c; } b.resize(n); return b; }
inline vec thue(size_t n) { vec r; for (size_t i = 0; i < n; ++i) r.push_back(__builtin_popcountll(i) & 1); return r; }
inline vec rnd(size_t n, u64 s, tr::Rng& g) { vec r; for (size_t i = 0; i < n; ++i) r.push_back(g.below(s)); return r; }
inline vec zipf(size_t n, u64 s, tr::Rng& g) { vec r; for (size_t i = 0; i < n; ++i) { u64 x = 0; while (x + 1 < s && g.chance(2, 3)) ++x; r.push_back(x); } return r; }
inline vec runs(size_t n, u64 s, tr::Rng& g) { vec r; while (r.size() < n) { u64 c = g.below(s), k = 1 + g.below(9); while (k-- && r.size() < n) r.push_back(c); } return r; }
inline vec mutcopy(size_t n, size_t blk, u64 s, unsigned muts, tr::Rng& g)    // repeated block with few mutations: long LCPs
{
    vec b = rnd(blk, s, g), r;
    while (r.size() < n) r.insert(r.end(), b.begin(), b.end());
    r.resize(n);
    while (muts--) r[g.below(n)] = g.below(s);
    return r;
}
inline vec debruijn(unsigned k, unsigned n)
{
    vec a(k * n + 1, 0), s;
    std::function<void(unsigned, unsigned)> db = [&](unsigned t, unsigned p) {
        if (t > n) { if (n % p == 0) for (unsigned i = 1; i <= p; ++i) s.push_back(a[i]); return; }
        a[t] = a[t - p]; db(t + 1, p);
        for (u64 j = a[t - p] + 1; j < k; ++j) { a[t] = j; db(t + 1, t); }
    };
    db(1, 1);
    return s;
}
inline vec range(u64 a, u64 b, u64 step = 1) { vec r; for (u64 x = a; x <= b; x += step) r.push_back(x); return r; }
// the symbol sets
inline std::vector<vec> byte_sets() { return {{97, 98, 99, 100}, {1, 2, 3, 4}, {1, 127, 128, 255}, {252, 253, 254, 255}, {5, 64, 200, 201}}; }
inline std::vector<vec> int_sets() { return {{1, 2, 3, 4}, {1, 255, 256, 257}, {5, 1000, 1001, 70000}, {3, 4, 65535, 65536}, {9, 10, 300, 5000}}; }
// medium texts; level 0: few and short, 1: many, 2: large
inline std::vector<std::function<Text()>> texts(bool bytes, u64 salt, int level)
{
    auto sets = bytes ? byte_sets() : int_sets();
    std::vector<std::function<Text()>> r;
    u64 sd = tr::seed * 1000 + salt;
    auto S = [=](int k) { return sets[(k + sd) % sets.size()]; };
    auto add = [&](const std::string& w, std::function<vec(tr::Rng&)> f) { unsigned k = r.size(); r.push_back([=] { tr::Rng g(sd * 31 + k); return make(f(g), w); }); };
    int k = 0;
    for (size_t n : {1, 2, 3, 7, 8, 15, 31, 32, 63, 64}) { vec s = S(k++); add("a^" + std::to_string(n), [=](tr::Rng&) { return vec(n, s[1]); }); }
    for (size_t n : {3, 7, 14, 31, 32, 33, 62, 127}) { vec s = S(k++); add("periodic", [=](tr::Rng& g) { vec p = rnd(2 + g.below(4), 3, g); return ren(periodic(n, p), s); }); }
    for (size_t n : {13, 34, 55, 100}) { vec s = S(k++); add("fib", [=](tr::Rng&) { return ren(fib(n), s); }); }
    for (size_t n : {16, 64, 101}) { vec s = S(k++); add("thue", [=](tr::Rng&) { return ren(thue(n), s); }); }
    for (size_t n : {20, 50, 127, 128}) for (u64 q : {2, 3, 4}) { vec s = S(k++); add("random", [=](tr::Rng& g) { return ren(rnd(n, q, g), s); }); }
    for (size_t n : {40, 111}) { vec s = S(k++); add("runs", [=](tr::Rng& g) { return ren(runs(n, 4, g), s); }); }
    { vec s = S(k++); add("debruijn2", [=](tr::Rng&) { return ren(debruijn(2, 6), s); }); add("debruijn4", [=](tr::Rng&) { return ren(debruijn(4, 3), s); }); }
    vec wide = bytes ? range(1, 255) : range(1, 900, 3);
    add("ascending", [=](tr::Rng&) { return range(1, bytes ? 40 : 60); });
    add("descending", [=](tr::Rng&) { vec v = range(1, 40); std::reverse(v.begin(), v.end()); return v; });
    add("ascdesc", [=](tr::Rng&) { vec v = range(1, 20), w = v; std::reverse(v.begin(), v.end()); w.insert(w.end(), v.begin(), v.end()); return w; });
    add("wide", [=](tr::Rng& g) { return ren(rnd(150, wide.size(), g), wide); });
    add("zipf", [=](tr::Rng& g) { return ren(zipf(150, 30, g), wide); });
    if (!bytes) add("sparse", [=](tr::Rng& g) { vec v; for (int i = 0; i < 80; ++i) v.push_back(1 + (g.chance(1, 2) ? g.below(5) : g.below(100000))); return v; });
    if (bytes) add("all", [=](tr::Rng&) { return range(1, 255); });
    if (level >= 1) {
        for (size_t n : {200, 254, 255, 256, 300, 511, 512}) for (u64 q : {1, 2, 4}) { vec s = S(k++); add("random", [=](tr::Rng& g) { return ren(rnd(n, q, g), s); }); }
        add("rep", [=](tr::Rng& g) { return ren(mutcopy(400, 50, 3, 2, g), S(2)); });
        add("rep2", [=](tr::Rng& g) { return ren(mutcopy(600, 290, 4, 1, g), S(3)); });
        add("a^600", [=](tr::Rng&) { return vec(600, S(1)[0]); });
        add("fib600", [=](tr::Rng&) { return ren(fib(610), S(0)); });
        add("perrnd", [=](tr::Rng& g) { return ren(periodic(640, rnd(37, 3, g)), S(4)); });
        add("ab600", [=](tr::Rng&) { return ren(periodic(600, {0, 1}), S(2)); });
        add("abc", [=](tr::Rng&) { vec v = periodic(570, {0, 1, 2}); v.push_back(3); vec w = v; v.insert(v.end(), w.begin(), w.end()); return ren(v, S(0)); });
        for (int z = 0; z < 4; ++z)      // long repeats between varying letters; the repeat starts with the largest (z even) or smallest symbol
            add("blocks", [=](tr::Rng& g) {
                vec v; size_t m = g.in(253, 260); u64 k = 3 + g.below(2);
                vec P = g.chance(1, 2) ? vec(m, 2) : rnd(m, 2, g);
                for (auto& q : P) q += 2;
                P[0] = z % 2 ? 1 : 40;
                for (u64 i = 0; i < k; ++i) { v.push_back(10 + g.below(2)); v.insert(v.end(), P.begin(), P.end()); v.push_back(20 + i); }
                return v;
            });
        for (int z = 0; z < 4; ++z)      // letter i becomes 0 1^(i+1), two or three times: texts whose induced sorting recurses
            add("nested", [=](tr::Rng& g) {
                vec v = z == 0 ? rnd(70, 3, g) : z == 1 ? runs(90, 2, g) : z == 2 ? periodic(80, rnd(7, 3, g)) : runs(40, 3, g);
                for (int rep = z == 3 ? 3 : 2; rep > 0; --rep) { vec w; for (u64 c : v) { w.push_back(0); w.insert(w.end(), c + 1, 1); } v = w; }
                return ren(v, S(z));
            });
        add("fans", [=](tr::Rng& g) {    // a few letters, each followed by many others
            vec v;
            for (u64 c = 1; c <= 3; ++c) { u64 d = bytes ? g.in(150, 240) : g.in(c == 2 ? 560 : 258, c == 2 ? 640 : 420); for (u64 i = 0; i < d; ++i) { v.push_back(c); v.push_back(10 + i); } }
            return v;
        });
        add("wide600", [=](tr::Rng& g) { return ren(rnd(600, wide.size(), g), wide); });
        add("zipf600", [=](tr::Rng& g) { return ren(zipf(600, 30, g), wide); });
    }
    if (level >= 2) {
        for (size_t n : {1023, 1024, 2047, 3000}) for (u64 q : {2, 4, 20}) add("random", [=](tr::Rng& g) { return ren(rnd(n, q, g), wide); });
        add("rep", [=](tr::Rng& g) { return ren(mutcopy(2000, 700, 4, 5, g), S(2)); });
        add("fib2000", [=](tr::Rng&) { return ren(fib(2000), S(0)); });
        add("a^2000", [=](tr::Rng&) { return vec(2000, S(1)[1]); });
        add("runs", [=](tr::Rng& g) { return ren(runs(2500, 4, g), S(1)); });
        add("wide3000", [=](tr::Rng& g) { return ren(rnd(3000, wide.size(), g), wide); });
    }
    return r;
}
// every text of length len over q letters, x-th one
inline Text nth(unsigned x, unsigned len, unsigned q, const vec& syms)
{
    vec c;
    for (unsigned i = 0; i < len; ++i, x /= q) c.push_back(x % q);
    return make(ren(c, syms), "exh");
}
// registers jobs: small exhaustive texts and the medium ones
typedef std::function<void(const Text&, tr::Rng&, bool small)> Fn;
inline void register_jobs(bool bytes, u64 salt, int level, unsigned exh_len, unsigned per_job, unsigned keep /* one in keep */, Fn fn, unsigned limit = 120)
{
    const std::string kind = bytes ? "bytes " : "ints ";
    unsigned total = 1;
    for (unsigned len = 0; len <= exh_len; ++len, total *= 3)
        for (unsigned part = 0; part < total; part += 81)
            tr::job(kind + "exhaustive " + std::to_string(len) + "/" + std::to_string(part), [=] {
                auto sets = bytes ? byte_sets() : int_sets();
                tr::Rng g(tr::seed * 77 + salt + len * 7919 + part);
                for (unsigned x = part; x < total && x < part + 81; ++x) {
                    if (len >= 4 && x % keep != (tr::seed + salt + len) % keep) continue;
                    Text t = nth(x, len, 3, sets[g.below(sets.size())]);
                    emit(t);
                    fn(t, g, true);
                }
            }, limit);
    auto ts = texts(bytes, salt, level);
    for (unsigned a = 0; a < ts.size(); a += per_job) {
        tr::job(kind + "texts " + std::to_string(a), [=] {
            auto tt = texts(bytes, salt, level);
            for (unsigned b = a; b < a + per_job && b < tt.size(); ++b) {
                tr::Rng g(tr::seed * 131 + salt * 7 + b);
                Text t = tt[b]();
                emit(t);
                fn(t, g, false);
            }
        }, limit);
    }
}
inline vec spread(size_t n, u64 blk, unsigned gap, u64 s, tr::Rng& g)    // a repeated block with a change about every gap symbols
{
    vec b = rnd(blk, s, g), r;
    while (r.size() < n) r.push_back(g.chance(1, gap) ? g.below(s) : b[r.size() % blk]);
    return r;
}
// one job per large text
inline void big_jobs(const std::string& kind, u64 salt, const std::vector<std::pair<std::string, std::function<vec(tr::Rng&)>>>& ts, Fn fn)
{
    for (size_t i = 0; i < ts.size(); ++i) {
        auto t = ts[i];
        tr::job(kind + "big " + t.first, [=] {
            digest() = true;
            tr::Rng g(tr::seed * 613 + salt + i);
            Text x = make(t.second(g), "big " + t.first);
            emit(x);
            fn(x, g, true);
        }, 300);
    }
}
template<uint8_t W> sdsl::int_vector<W> as_iv(const Text& x, uint8_t width = 0)      // with terminator
{
    u64 mx = x.tab.back();
    sdsl::int_vector<W> v(x.n(), 0, W ? W : (width ? width : sdsl::bits::hi(mx) + 1));
    for (size_t i = 0; i < x.n(); ++i) v[i] = x.sym(i);
    return v;
}
}
#endif
