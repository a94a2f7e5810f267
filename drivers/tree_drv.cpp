// C19: balanced-parentheses supports and the level-order unary degree sequence.
#include "tr.hpp"
#include <sdsl/bp_support.hpp>
#include <sdsl/louds_tree.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sstream>
using namespace sdsl;
typedef uint64_t u64;
typedef std::vector<int> Seq;
// ---------------------------------------------------------------- sequences
static Seq random_seq(tr::Rng& g, size_t half, int up)      // up: chance (of 100) of an opening one
{
    Seq s; size_t o = 0, left = half;
    while (left || o) {
        bool open = left && (o == 0 || (int)g.below(100) < up);
        if (open) { s.push_back(1); ++o; --left; } else { s.push_back(0); --o; }
    }
    return s;
}
static Seq shape(tr::Rng& g, size_t half)
{
    Seq s;
    switch (g.below(9)) {
    case 0: s = random_seq(g, half, 50); break;
    case 1: s = random_seq(g, half, 80); break;
    case 2: s = random_seq(g, half, 20); break;
    case 3: for (size_t i = 0; i < half; ++i) s.push_back(1); for (size_t i = 0; i < half; ++i) s.push_back(0); break;     // deep
    case 4: s.push_back(1); for (size_t i = 1; i < half; ++i) { s.push_back(1); s.push_back(0); } s.push_back(0); break;   // wide
    case 5: for (size_t i = 0; i < half; ++i) { s.push_back(1); s.push_back(0); } break;                                   // forest
    case 6: {       // a spine with leaves: (() (() (() ... )))
        size_t k = half / 2; bool after = g.chance(1, 2);
        for (size_t i = 0; i < k; ++i) { s.push_back(1); if (!after) { s.push_back(1); s.push_back(0); } }
        for (size_t i = 0; i < k; ++i) { if (after) { s.push_back(1); s.push_back(0); } s.push_back(0); }
        break; }
    case 7: {       // mountains: runs of random lengths
        size_t o = 0, left = half;
        while (left || o) {
            size_t a = std::min<size_t>(left, 1 + g.below(g.chance(1, 3) ? 300 : 12)), b;
            for (size_t i = 0; i < a; ++i) s.push_back(1);
            left -= a; o += a;
            b = left ? g.below(std::min<size_t>(o, g.chance(1, 3) ? 300 : 12) + 1) : o;
            for (size_t i = 0; i < b; ++i) s.push_back(0);
            o -= b;
        }
        break; }
    default: {      // a deep pair around everything, mountains inside
        size_t d = g.below(half / 2 + 1);
        Seq r = random_seq(g, half - d, 30 + g.below(40));
        for (size_t i = 0; i < d; ++i) s.push_back(1);
        s.insert(s.end(), r.begin(), r.end());
        for (size_t i = 0; i < d; ++i) s.push_back(0);
    } }
    return s;
}
struct Query {
    std::vector<u64> pos, opens, ranks;                       // positions, opening ones among them
    std::vector<std::pair<u64, u64>> pairs, lr, lro, anc;
    bool level = true;
};
template<class S> struct Name { std::string n; };
typedef std::function<void(std::map<std::string, std::vector<std::string>>&)> None;
struct Answers { tr::Group size{"size"}, excess{"excess"}, rank{"rank"}, select{"select"}, fc{"find_close"}, fo{"find_open"}, en{"enclose"}, pre{"preceding"}, la{"level_anc"}, rmq{"rmq"}, ro{"rmq_open"}, pairs{"pairs"}; };
template<class V, class F> static std::string map(const V& q, F f) { std::string r = "["; bool first = true; for (auto& x : q) { if (!first) r += ","; first = false; r += f(x); } return r + "]"; }
static std::string num(u64 x) { return tr::jv(x); }
static std::string snum(long long x) { return tr::jv(x); }
template<class S> static void level(const S&, const Query&, Answers&, const std::string&, ...) {}
template<class S> static auto level(const S& t, const Query& q, Answers& a, const std::string& nm, int) -> decltype(t.level_anc(0, 0), void())
{
    a.la.addj(nm, map(q.anc, [&](std::pair<u64, u64> x) { return num(t.level_anc(x.first, x.second)); }));
}
template<class S> static void ask(const S& t, const Query& q, Answers& a, const std::string& nm)
{
    typedef std::pair<u64, u64> P;
    a.size.add(nm, t.size());
    if (q.pos.empty()) return;
    a.excess.addj(nm, map(q.pos, [&](u64 i) { return snum((long long)t.excess(i)); }));
    a.rank.addj(nm, map(q.pos, [&](u64 i) { return num(t.rank(i)); }));
    a.select.addj(nm, map(q.ranks, [&](u64 i) { return num(t.select(i)); }));
    a.fc.addj(nm, map(q.pos, [&](u64 i) { return num(t.find_close(i)); }));
    a.fo.addj(nm, map(q.pos, [&](u64 i) { return num(t.find_open(i)); }));
    a.en.addj(nm, map(q.pos, [&](u64 i) { return num(t.enclose(i)); }));
    a.pre.addj(nm, map(q.pos, [&](u64 i) { return num(t.preceding_closing_parentheses(i)); }));
    a.rmq.addj(nm, map(q.lr, [&](P x) { return num(t.rmq(x.first, x.second)); }));
    a.ro.addj(nm, map(q.lro, [&](P x) { return num(t.rmq_open(x.first, x.second)); }));
    a.pairs.addj(nm, map(q.pairs, [&](P x) { return "[" + num(t.rr_enclose(x.first, x.second)) + "," + num(t.double_enclose(x.first, x.second)) + "]"; }));
    a.pairs.addj(nm + "/naive", map(q.pairs, [&](P x) { return "[" + num(t.rr_enclose_naive(x.first, x.second)) + "," + num(t.double_enclose(x.first, x.second)) + "]"; }));
    level(t, q, a, nm, 0);
}
template<class S> static void one(const bit_vector& b, const Query& q, Answers& a, const std::string& nm, int how)
{
    if (how == 0) { S t(&b); ask(t, q, a, nm); }
    else if (how == 1) { S t(&b); std::stringstream o; t.serialize(o); S u; u.load(o, &b); ask(u, q, a, nm + "/loaded"); }
    else { S t(&b), u(t), v(std::move(u)), w; w = v; v = std::move(w); ask(v, q, a, nm + "/copied"); }
}
typedef rank_support_v5<> R5;
typedef select_support_mcl<> SM;
template<uint32_t k> using NN = nearest_neighbour_dictionary<k>;
typedef range_maximum_support_sparse_table<> RM;
#ifndef PART
#define PART 0
#define PARTS 1
#endif
static void all_supports(const bit_vector& b, const Query& q, Answers& a, int how, size_t n)
{
    int k = 0;
#define S_(...) if (k++ % PARTS == PART) one<__VA_ARGS__>(b, q, a, #__VA_ARGS__, how)
    S_(bp_support_sada<>);
    S_(bp_support_g<>);
    S_(bp_support_gg<>);
    S_(bp_support_sada<8, 2>);
    S_(bp_support_gg<NN<2>, R5, SM, 8>);
    S_(bp_support_g<NN<2>, R5, SM, RM, 8>);
    S_(bp_support_sada<16, 4, rank_support_v<>, select_support_scan<>>);
    S_(bp_support_gg<NN<4>, R5, SM, 64>);
    S_(bp_support_g<NN<4>, R5, SM, RM, 64>);
    S_(bp_support_sada<3, 3>);
    S_(bp_support_gg<NN<7>, R5, SM, 13>);
    S_(bp_support_g<NN<7>, R5, SM, RM, 13>);
    S_(bp_support_sada<64, 2>);
    S_(bp_support_gg<NN<30>, rank_support_v<>, SM, 200>);
    S_(bp_support_g<NN<30>, rank_support_v<>, SM, RM, 200>);
    S_(bp_support_sada<128, 1>);
    S_(bp_support_sada<20, 5>);
    S_(bp_support_gg<NN<3>, R5, SM, 4>);
    S_(bp_support_g<NN<3>, R5, SM, RM, 5>);
    (void)n;
}
static void run(tr::Rng& g, const Seq& s, int how, size_t limit)
{
    size_t n = s.size();
    std::vector<int> e(n), m(n), p(n, -1), st;
    int x = 0;
    for (size_t i = 0; i < n; ++i) {
        x += 2 * s[i] - 1; e[i] = x;
        if (s[i]) { p[i] = st.empty() ? -1 : st.back(); st.push_back(i); } else { m[i] = st.back(); m[st.back()] = i; st.pop_back(); }
    }
    tr::emit(tr::Ev("seq").f("s", s).f("e", e).f("m", m).f("p", p));
    bit_vector b(n, 0);
    for (size_t i = 0; i < n; ++i) b[i] = s[i];
    Query q;
    std::vector<size_t> open;
    for (size_t i = 0; i < n; ++i) if (s[i]) open.push_back(i);
    auto pick = [&]() -> u64 {       // often near a block border
        if (g.chance(1, 2)) return g.below(n);
        static const size_t bs[] = {8, 13, 64, 256, 840, 8192, 512, 20};
        size_t z = bs[g.below(8)], k = (n / z) ? z * g.below(n / z + 1) : 0;
        size_t r = k + g.below(5);
        r = r >= 2 ? r - 2 : 0;
        return std::min<size_t>(r, n - 1);
    };
    if (n <= limit) for (size_t i = 0; i < n; ++i) q.pos.push_back(i);
    else { for (size_t i = 0; i < 3 * limit; ++i) q.pos.push_back(pick()); q.pos.push_back(0); q.pos.push_back(n - 1); }
    if (n) for (size_t i = 0; i < std::min<size_t>(open.size(), limit); ++i) q.ranks.push_back(open.size() <= limit ? i + 1 : 1 + g.below(open.size()));
    for (u64 i : q.pos) if (s[i]) {
        size_t deep = e[i];
        for (int k = 0; k < 3; ++k) q.anc.push_back({i, k == 0 ? g.below(3) : k == 1 ? g.below(deep + 2) : deep - 1 + g.below(3)});
    }
    if (n > limit && q.anc.size() > 200) q.anc.resize(200);
    for (auto& a : q.anc) if (a.second > 2000) a.second = 2000;
    if (n <= 60) {
        for (size_t l = 0; l < n; ++l) for (size_t r = l; r < n; ++r) { q.lr.push_back({l, r}); q.lro.push_back({l, r}); }
        for (size_t i : open) for (size_t j : open) if (i < j && m[i] < (int)j) q.pairs.push_back({i, j});
    } else {
        for (size_t k = 0; k < 4 * limit; ++k) {
            u64 l = pick(), r = pick();
            if (g.chance(1, 3)) r = std::min<u64>(n - 1, l + g.below(40));
            if (l > r) std::swap(l, r);
            q.lr.push_back({l, r});
            if (k % 2) q.lro.push_back({l, r});
            if (!s[l]) l = m[l];
            if (!s[r]) r = m[r];
            if (l > r) std::swap(l, r);
            if (m[l] < (int)r) q.pairs.push_back({l, r});
            // the interval of a pair and of siblings
            q.lro.push_back({l, m[l]});
        }
        for (size_t k = 0; k < limit; ++k) {         // siblings and cousins
            u64 i = pick(); if (!s[i]) i = m[i];
            u64 j = m[i] + 1;
            int steps = g.below(20);
            while (j < n && steps--) { if (s[j]) { q.pairs.push_back({i, j}); if (g.chance(1, 2)) ++j; else j = m[j] + 1; } else ++j; }
        }
        if (q.pairs.size() > 5 * limit) q.pairs.resize(5 * limit);
    }
    Answers a;
    for (tr::Group* x : {&a.excess, &a.rank, &a.fc, &a.fo, &a.en, &a.pre}) x->arg("q", q.pos);
    a.select.arg("q", q.ranks); a.la.arg("q", q.anc); a.rmq.arg("q", q.lr); a.ro.arg("q", q.lro); a.pairs.arg("q", q.pairs);
    all_supports(b, q, a, how, n);
    for (tr::Group* x : {&a.size, &a.excess, &a.rank, &a.select, &a.fc, &a.fo, &a.en, &a.pre, &a.la, &a.rmq, &a.ro, &a.pairs}) x->done();
}
// ---------------------------------------------------------------- level-order trees
struct Tree { std::vector<std::vector<int>> kids; };
struct FakeCst { size_t n; size_t size(int) const { return n; } };
struct Bfs {        // the part of a breadth-first iterator that the construction uses
    const Tree* t; std::vector<int> q; size_t h; Bfs(const Tree* t_, std::vector<int> q_) : t(t_), q(q_), h(0) {}
    int operator*() const { return q[h]; }
    size_t size() const { return q.size() - h; }
    Bfs& operator++() { for (int k : t->kids[q[h]]) q.push_back(k); ++h; return *this; }
    bool operator!=(const Bfs& o) const { return size() != o.size(); }
};
template<class L> static void louds(const L& t, const std::vector<int>& par, const std::string& how)
{
    size_t m = par.size();
    std::vector<typename L::node_type> nodes;
    std::vector<std::vector<u64>> kids;
    std::vector<u64> deg, leaf, id, parent, pos, bits;
    bool eq = true;
    nodes.push_back(t.root());
    for (size_t v = 0; v < nodes.size() && v < m; ++v) {
        auto x = nodes[v];
        deg.push_back(t.degree(x)); leaf.push_back(t.is_leaf(x)); id.push_back(t.id(x)); pos.push_back(x.pos);
        auto y = t.parent(x);
        parent.push_back(t.id(y));
        eq = eq && (v == 0 ? y == t.root() : t.id(y) < v && y == nodes[t.id(y)]);
        kids.push_back({});
        for (size_t k = 1; k <= deg.back() && k <= m; ++k) { auto c = t.child(x, k); kids.back().push_back(t.id(c)); nodes.push_back(c); }
    }
    for (size_t i = 0; i < t.bv.size(); ++i) bits.push_back(t.bv[i]);
    if (deg.size() != m) { tr::emit(tr::Ev("louds").f("nodes", -1).f("how", how)); return; }
    tr::emit(tr::Ev("louds").f("how", how).f("nodes", t.nodes()).f("deg", deg).f("leaf", leaf).f("id", id).f("parent", parent).f("kids", kids).f("pos", pos).f("bits", bits).f("eq", eq));
}
template<class L, class C, class I> static void build(const C& c, const I& b, const I& e, const std::vector<int>& par, const std::string& nm)
{
    L t(c, b, e);
    louds(t, par, nm);
    L u(t), v(std::move(u));
    louds(v, par, nm + "/copied");
    std::stringstream o;
    t.serialize(o);
    v.load(o);
    louds(v, par, nm + "/loaded");
}
static void tree_job(u64 seed, size_t m, int kind)
{
    tr::Rng g(seed);
    Tree t; t.kids.resize(m);
    // random recursive trees, paths, stars, complete trees
    for (size_t v = 1; v < m; ++v) { size_t p = kind == 0 ? g.below(v) : kind == 1 ? v - 1 : kind == 2 ? 0 : kind == 3 ? (v - 1) / 2 : kind == 4 ? v - 1 - g.below(std::min<size_t>(v, 3)) : (v - 1) / (1 + g.below(20)) ; t.kids[p].push_back(v); }
    Bfs b(&t, std::vector<int>(1, 0)), e(&t, std::vector<int>());
    std::vector<int> par, q = {0}, num(m, -1), pr = {-1};
    for (size_t h = 0; h < q.size(); ++h) for (int k : t.kids[q[h]]) { q.push_back(k); pr.push_back(h); }
    tr::emit(tr::Ev("tree").f("par", pr));
    FakeCst c{m};
    build<louds_tree<>>(c, b, e, pr, "louds_tree<>");
    build<louds_tree<bit_vector, select_support_scan<1>, select_support_scan<0>>>(c, b, e, pr, "scan");
    build<louds_tree<sd_vector<>>>(c, b, e, pr, "sd_vector");
    build<louds_tree<rrr_vector<15>>>(c, b, e, pr, "rrr_vector");
    build<louds_tree<bit_vector_il<512>>>(c, b, e, pr, "bit_vector_il");
}
template<class Cst> static void cst_tree(tr::Rng& g, const std::string& nm)
{
    std::string s;
    size_t n = 1 + g.below(120), k = 1 + g.below(4);
    for (size_t i = 0; i < n; ++i) s += (char)('a' + g.below(k));
    Cst c;
    construct_im(c, s, 1);
    std::vector<int> pr = {-1};
    size_t h = 0;
    typedef cst_bfs_iterator<Cst> iterator;
    iterator b(&c, c.root()), e(&c, c.root(), true, true);
    for (iterator it = b; it != e; ++it, ++h) for (size_t d = 0; d < c.degree(*it); ++d) pr.push_back(h);
    tr::emit(tr::Ev("tree").f("par", pr));
    build<louds_tree<>>(c, b, e, pr, nm);
}
static void reg()
{
    bool th = tr::thorough;
    for (int i = 0; i < (th ? 200 : 24); ++i)
        tr::job("small/" + std::to_string(i), [=] {
            tr::Rng g(tr::seed * 91 + i);
            for (int k = 0; k < 6; ++k) run(g, shape(g, i == 0 ? k : g.below(30)), k % 3, 60);
        }, 60);
    for (int i = 0; i < (th ? 120 : 28); ++i)
        tr::job("middle/" + std::to_string(i), [=] {
            tr::Rng g(tr::seed * 97 + i);
            for (int k = 0; k < 2; ++k) run(g, shape(g, 40 + g.below(i % 2 ? 300 : 1500)), (i + k) % 3, 150);
        }, 60);
    for (int i = 0; i < (th ? 60 : 12); ++i)
        tr::job("large/" + std::to_string(i), [=] {
            tr::Rng g(tr::seed * 101 + i);
            run(g, shape(g, 9000 + g.below(20000)), i % 3, 250);
        }, 100);
#if PART == 0
    for (int i = 0; i < (th ? 120 : 20); ++i)
        tr::job("tree/" + std::to_string(i), [=] { tr::Rng g(tr::seed * 103 + i); for (int k = 0; k < 6; ++k) tree_job(g.next(), i == 0 ? k + 1 : 1 + g.below(i % 3 ? 40 : 400), k); }, 60);
    for (int i = 0; i < (th ? 30 : 6); ++i)
        tr::job("cst/" + std::to_string(i), [=] { tr::Rng g(tr::seed * 107 + i); cst_tree<cst_sct3<>>(g, "cst_sct3"); cst_tree<cst_sada<>>(g, "cst_sada"); }, 60);
#endif
}
TR_REGISTER(reg);
