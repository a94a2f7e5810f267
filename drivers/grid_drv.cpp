// C21: weighted point grids (k2_treap) and adjacency grids (k2_tree), built in every way the library
// offers, asked over boundary and random rectangles.
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_treap_algorithm.hpp>
#include <sdsl/k2_tree.hpp>
#include <sstream>
#include <memory>
#include <set>
#include <array>
#include "tr.hpp"
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace sdsl;
typedef uint64_t u64;
typedef std::array<u64, 3> P3;
typedef std::array<u64, 6> Q6;
typedef std::array<u64, 2> P2;
// replaces numbers by their ranks
struct Ranks {
    std::vector<u64> v;
    void add(u64 x) { v.push_back(x); }
    void done() { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    long operator()(u64 x) const { auto i = std::lower_bound(v.begin(), v.end(), x); return i == v.end() || *i != x ? -1 : i - v.begin(); }
};
struct Grid {
    std::vector<P3> p;
    std::vector<Q6> q;
    Ranks c, w;
    void ranks() { for (auto& x : p) { c.add(x[0]); c.add(x[1]); w.add(x[2]); } for (auto& x : q) { for (int i = 0; i < 4; ++i) c.add(x[i]); w.add(x[4]); w.add(x[5]); } c.done(); w.done(); }
    std::vector<long> pt(u64 x, u64 y, u64 z) const { return {c(x), c(y), w(z)}; }
};
template<class It> static std::vector<std::vector<long>> collect(It it, const Grid& g, u64 k)
{
    std::vector<std::vector<long>> r;
    for (; it && r.size() < k; ++it) { auto x = *it; r.push_back(g.pt(std::real(x.first), std::imag(x.first), x.second)); }
    return r;
}
typedef k2_treap_ns::point_type PT;
struct Groups { tr::Group size, top, first, r3, cnt; Groups() : size("size"), top("top"), first("first"), r3("range3d"), cnt("count") {} void done() { size.done(); top.done(); first.done(); r3.done(); cnt.done(); } };
template<class T> static void ask(Groups& gs, const std::string& name, const T& t, const Grid& g)
{
    gs.size.add(name, t.size());
    std::vector<std::vector<std::vector<long>>> a, b, c;
    std::vector<u64> d;
    for (auto& q : g.q) {
        PT lo(q[0], q[1]), hi(q[2], q[3]);
        auto it = top_k(t, lo, hi);
        a.push_back(collect(it, g, g.p.size() + 3));
        b.push_back(collect(top_k(t, lo, hi), g, 4));
        c.push_back(collect(range_3d(t, lo, hi, PT(q[4], q[5])), g, g.p.size() + 3));
        d.push_back(count(t, lo, hi));
    }
    gs.top.add(name, a); gs.first.add(name, b); gs.r3.add(name, c); gs.cnt.add(name, d);
}
template<class X, class Y, class W> static bool fits(const Grid& g) { for (auto& x : g.p) if ((u64)(X)x[0] != x[0] || (u64)(Y)x[1] != x[1] || (u64)(W)x[2] != x[2]) return false; return true; }
template<class T, class X, class Y, class W> static void from(T& t, const Grid& g)
{
    std::vector<std::tuple<X, Y, W>> v;
    for (auto& x : g.p) v.push_back(std::tuple<X, Y, W>(x[0], x[1], x[2]));
    T x(v, tr::scratch + "/t");
    t = std::move(x);
}
template<class T> static void store(const std::string& f, const Grid& g, int width)
{
    for (int d = 0; d < 3; ++d) { int_vector<> v(g.p.size(), 0, 64); for (size_t i = 0; i < g.p.size(); ++i) v[i] = g.p[i][d]; if (width) util::bit_compress(v); store_to_file(v, f + (d == 0 ? ".x" : d == 1 ? ".y" : ".w")); }
}
template<class T> static void treap(Groups& gs, const char* name, const Grid& g, tr::Rng& r)
{
    std::unique_ptr<T> t(new T);
    int how = r.below(8);
    std::string nm = name;
    if (how == 1 && fits<uint32_t, uint32_t, uint32_t>(g)) { from<T, uint32_t, uint32_t, uint32_t>(*t, g); }
    else if (how <= 2 && fits<uint8_t, uint8_t, uint8_t>(g)) { from<T, uint8_t, uint8_t, uint8_t>(*t, g); }
    else if (how == 3 && fits<uint16_t, uint16_t, uint64_t>(g)) { from<T, uint16_t, uint16_t, uint64_t>(*t, g); }
    else if (how == 4) { std::string f = tr::scratch + "/g"; store<T>(f, g, r.below(2)); construct(*t, f); }
    else if (how == 5) { std::vector<std::array<u64, 3>> v; for (auto& x : g.p) v.push_back({x[0], x[1], x[2]}); construct_im(*t, v); }
    else from<T, u64, u64, u64>(*t, g);
    switch (r.below(7)) {
        case 0: { std::unique_ptr<T> c(new T(*t)); t = std::move(c); break; }
        case 1: { std::unique_ptr<T> c(new T); *c = *t; t = std::move(c); break; }
        case 2: { std::unique_ptr<T> c(new T(std::move(*t))); t = std::move(c); break; }
        case 3: { std::stringstream o; t->serialize(o); std::unique_ptr<T> c(new T); c->load(o); t = std::move(c); break; }
        case 4: { std::unique_ptr<T> c(new T); c->swap(*t); t = std::move(c); break; }
    }
    ask(gs, nm, *t, g);
}
static void grid(Grid& g, u64 seed)
{
    tr::Rng r(seed);
    // rectangles: around points, around powers, degenerate, full
    u64 mx = 0, wm = 0;
    for (auto& x : g.p) { mx = std::max({mx, x[0], x[1]}); wm = std::max(wm, x[2]); }
    auto rect = [&](u64 a, u64 b, u64 c, u64 d) {
        Q6 q{std::min(a, c), std::min(b, d), std::max(a, c), std::max(b, d), 0, 0};
        u64 s = g.p.empty() ? 0 : g.p[r.below(g.p.size())][2], e = g.p.empty() ? 1 : g.p[r.below(g.p.size())][2];
        switch (r.below(5)) { case 0: q[4] = 0; q[5] = wm; break; case 1: q[4] = q[5] = s; break; case 2: q[4] = s; q[5] = ~0ULL; break; case 3: q[4] = 0; q[5] = s; break; default: q[4] = std::min(s, e); q[5] = std::max(s, e); }
        g.q.push_back(q);
    };
    rect(0, 0, mx, mx); rect(0, 0, 0, 0); rect(mx, mx, mx, mx); rect(0, 0, mx + 1, mx + 1); rect(mx + 1, 0, mx + 5, mx); rect(0, mx / 2, mx, mx / 2);
    for (int i = 0; i < 14 && !g.p.empty(); ++i) {
        P3 a = g.p[r.below(g.p.size())], b = g.p[r.below(g.p.size())];
        switch (r.below(6)) {
            case 0: rect(a[0], a[1], a[0], a[1]); break;
            case 1: rect(a[0], a[1], b[0], b[1]); break;
            case 2: rect(a[0] + 1, a[1] + 1, b[0], b[1]); break;
            case 3: { u64 k = 1ULL << r.below(1 + (mx ? 63 - __builtin_clzll(mx) : 0)); rect(a[0] / k * k, a[1] / k * k, a[0] / k * k + k - 1, a[1] / k * k + k - 1); break; }
            case 4: rect(a[0] ? a[0] - 1 : 0, 0, a[0] + 1, mx); break;
            default: rect(r.below(mx + 1), r.below(mx + 1), r.below(mx + 1), r.below(mx + 1));
        }
    }
    g.ranks();
    std::vector<std::vector<long>> v, q, q6;
    for (auto& x : g.p) v.push_back(g.pt(x[0], x[1], x[2]));
    for (auto& x : g.q) { std::vector<long> y{g.c(x[0]), g.c(x[1]), g.c(x[2]), g.c(x[3])}; q.push_back(y); y.push_back(g.w(x[4])); y.push_back(g.w(x[5])); q6.push_back(y); }
    tr::emit(tr::Ev("points").f("v", v).f("max", tr::hex64(mx)));
    Groups gs;
    gs.top.arg("q", q); gs.first.arg("q", q).arg("k", 4); gs.r3.arg("q", q6); gs.cnt.arg("q", q);
#define TR(k, ...) if (mx < lim(k)) treap<k2_treap<__VA_ARGS__>>(gs, "k2_treap<" #__VA_ARGS__ ">", g, r)
    auto lim = [](u64 k) { u64 x = 1; while (x <= ~0ULL / k) x *= k; return x; };
#if PART == 0
    TR(2, 2); TR(2, 2, rrr_vector<63>); TR(3, 3); TR(4, 4);
#elif PART == 1
    TR(8, 8); TR(16, 16); TR(5, 5, bit_vector, rank_support_v5<>); TR(2, 2, sd_vector<>);
#else
    TR(2, 2, bit_vector, rank_support_v<>, vlc_vector<>); TR(4, 4, bit_vector_il<512>, rank_support_il<1, 512>, dac_vector<8>); TR(7, 7, rrr_vector<15>, rank_support_rrr<1, 15>, enc_vector<>); TR(3, 3, bit_vector, rank_support_v<>, dac_vector_dp<>);
#endif
    gs.done();
}
static Grid points(tr::Rng& r, u64 n, u64 w, u64 wmax, int kind)
{
    Grid g;
    std::set<P2> s;
    for (u64 i = 0; i < 4 * n && s.size() < n; ++i) {
        u64 x = kind == 1 ? (r.chance(1, 2) ? w - 1 - r.below(std::min<u64>(w, 3)) : r.below(std::min<u64>(w, 3))) : r.below(w);
        u64 y = kind == 2 ? x : kind == 1 ? (r.chance(1, 2) ? w - 1 : r.below(w)) : r.below(w);
        if (kind == 3) { x = w / 2 + r.below(4) - std::min<u64>(w / 2, 2); y = w / 2 + r.below(4) - std::min<u64>(w / 2, 2); }
        if (s.insert({x, y}).second) g.p.push_back({x, y, wmax == 0 ? 0 : wmax == ~0ULL ? r.next() : r.below(wmax + 1)});
    }
    if (kind == 1 && s.insert({0, 0}).second) g.p.push_back({0, 0, 0});
    if (kind == 1 && s.insert({w - 1, w - 1}).second) g.p.push_back({w - 1, w - 1, wmax});
    return g;
}
// ---------------------------------------------------------------- graphs
template<class T> struct Kof;
template<uint8_t k, class B, class R> struct Kof<k2_tree<k, B, R>> { static const u64 v = k; };
struct Graph {
    u64 n;
    std::vector<P2> e, other;
    std::vector<u64> nodes;
    std::vector<P2> pairs;
    std::vector<std::array<u64, 4>> rects;
    Ranks c;
    void ranks() { for (auto& x : e) { c.add(x[0]); c.add(x[1]); } for (auto& x : other) { c.add(x[0]); c.add(x[1]); } for (u64 x : nodes) c.add(x); for (auto& x : pairs) { c.add(x[0]); c.add(x[1]); } for (auto& x : rects) for (u64 y : x) c.add(y); c.done(); }
};
template<class T> static void build(T& t, const std::vector<P2>& e, u64 n, int how, tr::Rng& r)
{
    typedef typename T::idx_type I;
    if (how == 0 && n <= 300) {
        std::vector<std::vector<int>> m(n, std::vector<int>(n, 0));
        for (auto& x : e) m[x[0]][x[1]] = 1;
        T x(m); t = std::move(x);
    } else if (how == 1) {
        std::string f = tr::scratch + "/k";
        int_vector<> a(e.size(), 0, 64), b(e.size(), 0, 64);
        for (size_t i = 0; i < e.size(); ++i) { a[i] = e[i][0]; b[i] = e[i][1]; }
        if (r.below(2)) { util::bit_compress(a); util::bit_compress(b); }
        store_to_file(a, f + ".x"); store_to_file(b, f + ".y");
        u64 mx = 0;
        for (auto& x : e) mx = std::max({mx, x[0], x[1]});
        T x(f, mx + 1 == n && r.below(2) ? 0 : n); t = std::move(x);
    } else {
        std::vector<std::tuple<I, I>> v;
        for (auto& x : e) v.push_back(std::make_tuple(x[0], x[1]));
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
        T x(v, n); t = std::move(x);
    }
}
struct GGroups { tr::Group adj, nei, rev, rng, eq; GGroups() : adj("adj"), nei("neigh"), rev("reverse"), rng("range"), eq("equal") {} void done() { adj.done(); nei.done(); rev.done(); rng.done(); eq.done(); } };
template<class T> static void tree(GGroups& gs, const char* name, const Graph& g, tr::Rng& r)
{
    std::unique_ptr<T> t(new T);
    bool none = g.e.empty();
    build(*t, g.e, g.n, none ? 0 : r.below(3), r);
    switch (r.below(7)) {
        case 0: { std::unique_ptr<T> c(new T(*t)); t = std::move(c); break; }
        case 1: { std::unique_ptr<T> c(new T); *c = *t; t = std::move(c); break; }
        case 2: { std::unique_ptr<T> c(new T(std::move(*t))); t = std::move(c); break; }
        case 3: { std::stringstream o; t->serialize(o); std::unique_ptr<T> c(new T); c->load(o); t = std::move(c); break; }
        case 4: { std::unique_ptr<T> c(new T); c->swap(*t); t = std::move(c); break; }
    }
    const T& c = *t;
    std::vector<int> a;
    std::vector<std::vector<long>> b, d;
    std::vector<std::vector<std::vector<long>>> f;
    for (auto& q : g.pairs) a.push_back(c.adj(q[0], q[1]));
    auto tr1 = [&](const std::vector<u64>& v) { std::vector<long> o; for (u64 x : v) o.push_back(g.c(x)); return o; };
    for (u64 x : g.nodes) { b.push_back(tr1(c.neigh(x))); d.push_back(tr1(c.reverse_neigh(x))); }
    for (auto& q : g.rects) { std::vector<std::vector<long>> o; for (auto& x : c.range(q[0], q[2], q[1], q[3])) o.push_back({g.c(x.first), g.c(x.second)}); f.push_back(o); }
    gs.adj.add(name, a); gs.nei.add(name, b); gs.rev.add(name, d); gs.rng.add(name, f);
    if (!g.other.empty() || g.n <= 300) {
        T u;
        build(u, g.other, g.n, g.other.empty() ? 0 : r.below(3), r);
        gs.eq.add(name, c == u);
    }
}
static void graph(Graph& g, u64 seed)
{
    tr::Rng r(seed);
    g.other = g.e;
    switch (r.below(4)) {
        case 0: if (!g.e.empty()) g.other.pop_back(); break;
        case 1: g.other.push_back({r.below(g.n), r.below(g.n)}); break;
        case 2: if (!g.e.empty()) { g.other.back() = {r.below(g.n), r.below(g.n)}; } break;
    }
    if (g.n <= 12) { for (u64 i = 0; i < g.n; ++i) { g.nodes.push_back(i); for (u64 j = 0; j < g.n; ++j) g.pairs.push_back({i, j}); } }
    else {
        for (int i = 0; i < 30; ++i) { g.nodes.push_back(g.e.size() && r.chance(1, 2) ? g.e[r.below(g.e.size())][r.below(2)] : r.below(g.n)); }
        g.nodes.push_back(0); g.nodes.push_back(g.n - 1);
        for (int i = 0; i < 80; ++i) { if (g.e.size() && r.chance(1, 2)) { P2 x = g.e[r.below(g.e.size())]; if (r.chance(1, 3)) x[r.below(2)] ^= 1; if (x[0] < g.n && x[1] < g.n) g.pairs.push_back(x); } else g.pairs.push_back({r.below(g.n), r.below(g.n)}); }
        g.pairs.push_back({g.n - 1, g.n - 1}); g.pairs.push_back({0, g.n - 1});
    }
    auto rect = [&](u64 a, u64 b, u64 c, u64 d) { g.rects.push_back({std::min(a, c), std::min(b, d), std::max(a, c), std::max(b, d)}); };
    bool wide = g.n > 5000;      // the cells inside a rectangle are looked at one by one only below edges
    if (!wide || g.e.size() < 400) rect(0, 0, g.n - 1, g.n - 1);
    rect(0, 0, 0, 0); rect(g.n - 1, g.n - 1, g.n - 1, g.n - 1);
    for (int i = 0; i < 12; ++i) {
        if (g.e.size() && r.chance(1, 2)) { P2 x = g.e[r.below(g.e.size())], y = g.e[r.below(g.e.size())]; if (r.chance(1, 4)) y = x; rect(x[0], x[1], y[0], y[1]); }
        else rect(r.below(g.n), r.below(g.n), r.below(g.n), r.below(g.n));
    }
    g.ranks();
    std::vector<std::vector<long>> v, ot, q, pr;
    std::vector<long> nd;
    for (auto& x : g.e) v.push_back({g.c(x[0]), g.c(x[1])});
    for (auto& x : g.other) ot.push_back({g.c(x[0]), g.c(x[1])});
    for (auto& x : g.rects) q.push_back({g.c(x[0]), g.c(x[1]), g.c(x[2]), g.c(x[3])});
    for (auto& x : g.pairs) pr.push_back({g.c(x[0]), g.c(x[1])});
    for (u64 x : g.nodes) nd.push_back(g.c(x));
    tr::emit(tr::Ev("graph").f("v", v).f("n", tr::hex64(g.n)));
    GGroups gs;
    gs.adj.arg("q", pr); gs.nei.arg("q", nd); gs.rev.arg("q", nd); gs.rng.arg("q", q); gs.eq.arg("other", ot);
#define TT(...) tree<k2_tree<__VA_ARGS__>>(gs, "k2_tree<" #__VA_ARGS__ ">", g, r)
#if PART == 0
    TT(2); TT(3); TT(4, bit_vector, rank_support_v5<>);
#elif PART == 1
    TT(5); TT(8); TT(2, rrr_vector<63>); TT(16);
#else
    TT(2, sd_vector<>); TT(3, bit_vector_il<512>, rank_support_il<1, 512>); TT(7); TT(10, rrr_vector<15>, rank_support_rrr<1, 15>);
#endif
    gs.done();
}
static Graph edges(tr::Rng& r, u64 n, u64 m, int kind)
{
    Graph g; g.n = n;
    for (u64 i = 0; i < m; ++i) {
        u64 x = r.below(n), y = r.below(n);
        if (kind == 1) { x = n - 1 - r.below(std::min<u64>(n, 4)); }
        if (kind == 2) y = x;
        if (kind == 3) { x = r.below(std::min<u64>(n, 3)); y = n - 1 - r.below(std::min<u64>(n, 3)); }
        g.e.push_back({x, y});
        if (r.chance(1, 12)) g.e.push_back({x, y});       // an edge may be listed twice
    }
    return g;
}
template<class T> static void too_big(const char* name, u64 x)
{
    std::string res = "accepted";
    std::vector<std::tuple<u64, u64, u64>> v{std::make_tuple(x, (u64)1, (u64)1), std::make_tuple((u64)1, (u64)2, (u64)3)};
    try { T t(v, tr::scratch + "/b"); } catch (const std::logic_error&) { res = "refused"; }
    tr::emit(tr::Ev("big").f("impl", name).f("x", tr::hex64(x)).f("res", res));
}
static std::string nm(const char* a, u64 i) { return std::string(a) + " part " + std::to_string(PART) + " " + std::to_string(i); }
static void reg()
{
    int R = tr::thorough ? 40 : 7;
    for (int i = 0; i < R; ++i)
        tr::job(nm("treap", i), [=] {
            tr::Rng r(tr::seed * 91 + i * 7 + PART);
            static const u64 W[] = {1, 2, 3, 4, 5, 8, 9, 16, 17, 25, 49, 64, 65, 81, 100, 128, 200, 255, 256, 257, 625, 1000, 4096, 6561, 65536, 65537, 1000000};
            for (int k = 0; k < 6; ++k) {
                u64 w = W[r.below(27)], n = std::min<u64>(r.chance(1, 3) ? 1 + r.below(6) : 1 + r.below(160), w * w);
                Grid g = points(r, n, w, r.chance(1, 5) ? 0 : r.chance(1, 4) ? 3 : r.chance(1, 4) ? ~0ULL >> 1 : r.below(1000), r.below(4));
                grid(g, r.next());
            }
        });
    tr::job(nm("treap border", 0), [=] {
        tr::Rng r(tr::seed + PART);
        for (u64 w : std::vector<u64>{(u64)1, (u64)2, (u64)3, (u64)16, (u64)17, (u64)256, (u64)1ULL << 31, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1, 1ULL << 48, 1ULL << 59, 1ULL << 60, 1ULL << 62, (1ULL << 63), 11398895185373143ULL, 12157665459056928801ULL}) {
            Grid g = points(r, 12, w, w > 5 ? 1000 : 0, 1); grid(g, r.next());
            Grid h = points(r, 1, w, 5, 0); grid(h, r.next());
        }
        Grid z; z.p = {{0, 0, 7}}; grid(z, 1);
        Grid y; y.p = {{0, 0, 0}}; grid(y, 2);
        Grid e; grid(e, 3);
        Grid f; for (u64 i = 0; i < 16; ++i) for (u64 j = 0; j < 16; ++j) f.p.push_back({i, j, (i * 7 + j * 3) % 11}); grid(f, 4);
        for (u64 s = 0; s < 5; ++s) { Grid o; for (u64 i = 0; i < 40; ++i) { u64 x = r.below(256), y = r.below(256); bool d = false; for (auto& p : o.p) d = d || (p[0] == x && p[1] == y); if (!d) o.p.push_back({x, y, r.below(4)}); } bool d = false; for (auto& p : o.p) d = d || (p[0] == 0 && p[1] == 0); if (!d) o.p.push_back({0, 0, 0}); grid(o, s); }
#if PART == 0
        too_big<k2_treap<2>>("k2_treap<2>", 1ULL << 63); too_big<k2_treap<2>>("k2_treap<2>", ~0ULL); too_big<k2_treap<3>>("k2_treap<3>", 12157665459056928801ULL); too_big<k2_treap<16>>("k2_treap<16>", 1ULL << 60); too_big<k2_treap<4>>("k2_treap<4>", 1ULL << 63);
#endif
    });
    for (int i = 0; i < R; ++i)
        tr::job(nm("tree", i), [=] {
            tr::Rng r(tr::seed * 17 + i * 3 + PART);
            static const u64 N[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 25, 26, 27, 28, 49, 50, 64, 65, 81, 82, 100, 101, 125, 126, 243, 256, 257, 343, 729, 1000, 1001, 2401, 6561, 6562, 65536, 65537, 1000000};
            for (int k = 0; k < 6; ++k) { u64 n = N[r.below(39)]; Graph g = edges(r, n, r.chance(1, 4) && n <= 300 ? r.below(2) : 1 + r.below(120), r.below(4)); graph(g, r.next()); }
        });
    tr::job(nm("tree border", 0), [=] {
        tr::Rng r(tr::seed + 5 + PART);
        for (u64 n = 1; n <= 5; ++n) { Graph g = edges(r, n, 0, 0); graph(g, n); Graph h; h.n = n; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) h.e.push_back({i, j}); graph(h, n); }
        if (PART == 0) for (u64 m = 0; m < 512; m += tr::thorough ? 1 : 7) { Graph g; g.n = 3; for (int b = 0; b < 9; ++b) if (m >> b & 1) g.e.push_back({(u64)b / 3, (u64)b % 3}); graph(g, m); }
        for (u64 n : std::vector<u64>{1ULL << 31, (1ULL << 32) + 1, 1ULL << 40, (1ULL << 48) + 1, (1ULL << 50) + 1, (1ULL << 53) + 1, 1ULL << 60}) { Graph g = edges(r, n, 10, 3); graph(g, n); Graph h = edges(r, n, 40, 0); graph(h, n + 1); }
    });
}
TR_REGISTER(reg);
