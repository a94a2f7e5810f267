// C22: set dictionaries, inverse permutations and sorted stacks.  Histories generated from NnMC and
// StackMC are replayed, longer random ones are recorded; static structures are asked at every position.
#include <sdsl/bit_vectors.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/inv_perm_support.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <sdsl/sorted_int_stack.hpp>
#include <sstream>
#include <fstream>
#include <memory>
#include <set>
#include "tr.hpp"
using namespace sdsl;
typedef uint64_t u64;
typedef std::vector<std::vector<long>> Hist;
static std::vector<Hist> hists()
{
    std::vector<Hist> h;
    std::ifstream in(tr::inputs);
    std::string l;
    while (std::getline(in, l)) {
        Hist x; std::vector<long> cur; int depth = 0;
        for (size_t i = 0; i < l.size(); ++i) {
            if (l.compare(i, 2, "<<") == 0) { ++depth; ++i; cur.clear(); }
            else if (l.compare(i, 2, ">>") == 0) { if (depth == 2) x.push_back(cur); --depth; ++i; }
            else if (isdigit(l[i])) { long v = 0; while (i < l.size() && isdigit(l[i])) v = 10 * v + (l[i++] - '0'); --i; cur.push_back(v); }
        }
        h.push_back(x);
    }
    return h;
}
// ---------------------------------------------------------------- stacks
template<class S> static bool psh(S& s, u64 x, int& r) { s.push(x); r = -1; return true; }
template<> bool psh(sorted_multi_stack_support& s, u64 x, int& r) { r = s.push(x); return true; }
template<class S> static void pp(S& s, int& r) { s.pop(); r = -1; }
template<> void pp(sorted_multi_stack_support& s, int& r) { r = s.pop(); }
template<class S> struct StackRun {
    std::unique_ptr<S> s;
    u64 n;
    StackRun(u64 n_) : s(new S(n_)), n(n_) {}
    tr::Ev& show(tr::Ev& e) { const S& c = *s; e.f("size", c.size()).f("empty", c.empty()); if (!c.empty()) e.f("top", c.top()); else e.f("top", -1); return e; }
    void push(u64 x) { int r; psh(*s, x, r); tr::Ev e("push"); e.f("x", x).f("ret", r); tr::emit(show(e)); }
    void pop() { int r; pp(*s, r); tr::Ev e("pop"); e.f("ret", r); tr::emit(show(e)); }
    void via(int w, u64 k) {
        if (w == 0) { std::unique_ptr<S> t(new S(*s)); s = std::move(t); }
        else if (w == 1) { std::unique_ptr<S> t(new S(k)); *t = *s; s = std::move(t); }
        else if (w == 2) { std::unique_ptr<S> t(new S(std::move(*s))); s = std::move(t); }
        else if (w == 3) { std::unique_ptr<S> t(new S(k)); *t = std::move(*s); s = std::move(t); }
        else { std::stringstream o; s->serialize(o); std::unique_ptr<S> t(new S(k)); t->load(o); s = std::move(t); }
        tr::Ev e("via"); e.f("w", w); tr::emit(show(e));
    }
    void drain() {
        S c(*s);
        std::vector<u64> a, b;
        for (int i = 0; i < 100000 && !c.empty(); ++i) { a.push_back(c.top()); b.push_back(c.size()); c.pop(); }
        tr::emit(tr::Ev("drain").f("tops", a).f("sizes", b));
    }
};
static const char* KN[] = {"", "sorted_stack_support", "sorted_multi_stack_support", "sorted_int_stack", "nn_dict_dynamic"};
template<class S> static void stack_hist(const Hist& h, int kind)
{
    u64 n = h[0][2];
    tr::emit(tr::Ev("stack").f("impl", KN[kind]).f("n", n));
    StackRun<S> r(n);
    for (size_t i = 1; i < h.size(); ++i) {
        if (h[i][0] == 1) r.push(h[i][1]);
        else if (h[i][0] == 2) r.pop();
        else r.via(h[i][1], i % 3 == 0 ? 0 : i * 13);
        if (i % 25 == 24) r.drain();
    }
    r.drain();
}
template<class S> static void stack_random(u64 seed, int kind, u64 n, int ops)
{
    tr::Rng g(seed);
    tr::emit(tr::Ev("stack").f("impl", KN[kind]).f("n", n));
    StackRun<S> r(n);
    std::vector<u64> m;                 // what was pushed, to know which numbers may be pushed
    u64 lim = kind == 3 ? n + n / 4 + 3 : n;
    int up = 1;
    u64 gap = 1;
    for (int i = 0; i < ops; ++i) {
        if (g.chance(1, 40)) up = !up;
        if (g.chance(1, 30)) { static const u64 G[] = {1, 1, 2, 62, 63, 64, 130, 1000}; gap = G[g.below(8)]; }
        bool p = up ? !g.chance(1, 6) : g.chance(1, 6);
        if (p) {
            u64 lo = m.empty() ? 0 : m.back() + (kind != 2);
            if (kind == 2 && (u64)m.size() >= n) p = false;
            if (lo > lim) p = false;
            if (p) {
                u64 x = lo + (g.chance(1, 3) && kind == 2 ? 0 : g.below(gap * 2));
                if (g.chance(1, 8)) x = (x / 63 + g.below(2)) * 63 + g.below(3);       // around the border of a block
                x = std::max(lo, std::min(x, lim));
                if (m.empty() && g.chance(1, 2)) x = std::min<u64>(g.below(130), lim);
                m.push_back(x); r.push(x);
            }
        }
        if (!p) { r.pop(); if (!m.empty()) m.pop_back(); }
        if (g.chance(1, 60)) r.via(g.below(5), g.below(n + 2));
        if (g.chance(1, 150)) r.drain();
    }
    r.drain();
}
// ---------------------------------------------------------------- dynamic dictionary
struct NnRun {
    std::unique_ptr<nn_dict_dynamic> d;
    u64 n;
    tr::Rng g;
    NnRun(u64 n_, u64 seed) : d(new nn_dict_dynamic(n_)), n(n_), g(seed) { tr::emit(tr::Ev("dynamic").f("n", n).f("size", d->size())); }
    void put(u64 x, bool v) { nn_dict_dynamic& r = *d; r[x] = v; tr::emit(tr::Ev(v ? "ins" : "del").f("x", x).f("size", r.size())); }
    void assign(u64 x, u64 y) { nn_dict_dynamic& r = *d; r[x] = r[y]; tr::emit(tr::Ev("assign").f("x", x).f("y", y).f("size", r.size())); }
    void cmp(u64 x, u64 y) { nn_dict_dynamic& r = *d; tr::emit(tr::Ev("cmp").f("x", x).f("y", y).f("eq", r[x] == r[y]).f("lt", r[x] < r[y])); }
    void many(u64 a, u64 k, u64 c, bool v) { nn_dict_dynamic& r = *d; for (u64 i = 0; i < c; ++i) r[a + k * i] = v; tr::emit(tr::Ev(v ? "fill" : "thin").f("a", a).f("d", k).f("c", c).f("size", r.size())); }
    void clear() { util::set_zero_bits(*d); tr::emit(tr::Ev("clear").f("size", d->size())); }
    void ask(std::vector<u64> q) {
        const nn_dict_dynamic& c = *d;
        std::vector<u64> a, b; std::vector<int> x, y;
        for (u64 i : q) { a.push_back(c.next(i)); b.push_back(c.prev(i)); x.push_back(c[i]); y.push_back(bool((*d)[i])); }
        tr::emit(tr::Ev("ask").f("q", q).f("next", a).f("prev", b).f("get", x).f("ref", y).f("size", c.size()));
    }
    std::vector<u64> around(u64 x, int k) {
        std::vector<u64> q;
        for (u64 y : {x, x + 1, x - 1, (u64)0, n - 1, x ^ 64, x ^ 63, (x / 64) * 64, (x / 4096) * 4096, (x / 4096 + 1) * 4096}) if (y < n) q.push_back(y);
        for (int i = 0; i < k; ++i) q.push_back(g.below(n));
        return q;
    }
    void all() {
        const nn_dict_dynamic& c = *d;
        std::vector<u64> a, b; std::vector<int> x;
        for (u64 i = 0; i < n; ++i) { a.push_back(c.next(i)); b.push_back(c.prev(i)); x.push_back(c[i]); }
        tr::emit(tr::Ev("all").f("next", a).f("prev", b).f("get", x).f("size", c.size()));
    }
    void via(int w, u64 k) {
        typedef nn_dict_dynamic S;
        std::unique_ptr<S> t;
        if (w == 0) t.reset(new S(*d));
        else if (w == 1) { t.reset(new S(k)); if (k) (*t)[k / 2] = 1; *t = *d; }
        else if (w == 2) t.reset(new S(std::move(*d)));
        else if (w == 3) { t.reset(new S(k)); if (k) (*t)[k - 1] = 1; *t = std::move(*d); }
        else if (w == 4) { std::stringstream o; d->serialize(o); t.reset(new S(k)); t->load(o); }
        else { t.reset(new S(k ? k : 1)); (*t)[0] = 1; t->swap(*d); }
        d = std::move(t);
        tr::emit(tr::Ev("setvia").f("w", w).f("size", d->size()));
    }
};
static void nn_hist(const Hist& h, u64 seed)
{
    NnRun r(h[0][2], seed);
    for (size_t i = 1; i < h.size(); ++i) {
        u64 x = h[i][1];
        switch (h[i][0]) {
            case 1: r.put(x, true); break;
            case 2: r.put(x, false); break;
            case 3: r.via(x, i % 2 ? 0 : i * 29); break;
            case 4: r.clear(); break;
            default: r.ask(r.around(x, 1)); if (i % 5 == 0) { r.cmp(x, r.g.below(r.n)); r.assign(r.g.below(r.n), x); }
        }
    }
    r.ask(r.around(0, 40));
    if (r.n <= 5000) r.all();
}
static void nn_random(u64 seed, u64 n, int ops)
{
    NnRun r(n, seed);
    tr::Rng& g = r.g;
    for (int i = 0; i < ops; ++i) {
        u64 c = g.below(20), x = g.chance(1, 4) ? std::min(n - 1, g.below(n / 64 + 1) * 64 + g.below(2) * 63) : g.below(n);
        if (c < 8) r.put(x, true);
        else if (c < 11) r.put(x, false);
        else if (c < 12) r.put(g.below(2) ? r.d->next(x) % n : r.d->prev(x) % n, false);
        else if (c < 14) { u64 k = 1 + g.below(70); r.many(x, k, std::min<u64>(1 + (n - 1 - x) / k, 40), g.chance(2, 3)); }
        else if (c < 15) r.assign(x, g.below(n));
        else if (c < 16) r.cmp(x, g.below(n));
        else if (c < 19) r.ask(r.around(x, 3));
        else if (g.chance(1, 4)) r.via(g.below(6), g.below(2 * n));
        else if (g.chance(1, 10)) r.clear();
        else if (g.chance(1, 4) && n > 200) { r.many(0, 1, n <= 700 ? n : 200, true); r.ask(r.around(x, 4)); r.many(0, 1, n <= 700 ? n : 200, false); r.ask(r.around(x, 4)); }
        if (i % 50 == 49 && n <= 1500) r.all();
    }
    if (n <= 5000) r.all();
    // empty it one by one from both ends
    for (int i = 0; i < 200; ++i) { u64 x = i % 2 ? r.d->next(0) : r.d->prev(n - 1); if (x >= n) break; r.put(x, false); if (i % 10 == 0) r.ask({0, n - 1, x}); }
    r.ask({0, n - 1});
}
static void nn_border(u64 n)
{
    NnRun r(n, n);
    for (u64 x : {(u64)0, n - 1, n / 2, n / 2 ^ 1}) if (x < n) {
        r.put(x, true); r.ask(r.around(x, 6));
        r.put(n - 1, true); r.put(0, true); r.ask(r.around(x, 6));
        r.put(x, false); r.ask(r.around(x, 6)); r.put(0, false); r.put(n - 1, false); r.ask(r.around(x, 6));
    }
}
// ---------------------------------------------------------------- static dictionary
template<class D> static void dict(tr::Group& gr, const char* name, const bit_vector& b, const std::vector<u64>& q, const std::vector<u64>& qs, int w)
{
    std::unique_ptr<D> d(new D(b));
    if (w == 1) { std::unique_ptr<D> t(new D(*d)); d = std::move(t); }
    else if (w == 2) { std::unique_ptr<D> t(new D); *t = std::move(*d); d = std::move(t); }
    else if (w == 3) { std::stringstream o; d->serialize(o); std::unique_ptr<D> t(new D); t->load(o); d = std::move(t); }
    else if (w == 4) { std::unique_ptr<D> t(new D(bit_vector(100, 1))); t->swap(*d); d = std::move(t); }
    const D& c = *d;
    std::vector<long> ra, nx, pv, se;
    u64 n = b.size(), ones = c.ones();
    for (u64 i : q) {
        u64 r = c.rank(i);
        ra.push_back(r);
        bool hasn = i < n && r < ones, hasp = i < n && c.rank(i + 1) > 0;
        nx.push_back(hasn ? (long)c.next(i) : -2); pv.push_back(hasp ? (long)c.prev(i) : -2);
    }
    for (u64 k : qs) se.push_back(k <= ones ? (long)c.select(k) : -3);
    std::string s = "\"rank\":" + tr::jv(ra) + ",\"next\":" + tr::jv(nx) + ",\"prev\":" + tr::jv(pv) + ",\"sel\":" + tr::jv(se) + ",\"size\":" + tr::jv(c.size()) + ",\"ones\":" + tr::jv(ones);
    for (auto& x : gr.g) if (x.first == s) { x.second.push_back(name); return; }
    gr.g.push_back({s, {name}});
}
static void dicts(const bit_vector& b, u64 seed)
{
    std::vector<u64> pos, q, qs;
    u64 n = b.size();
    for (u64 i = 0; i < n; ++i) if (b[i]) pos.push_back(i);
    tr::emit(tr::Ev("bits").f("n", n).f("pos", pos));
    tr::Rng g(seed);
    if (n <= 400) for (u64 i = 0; i <= n; ++i) q.push_back(i);
    else { q = {0, 1, n, n - 1}; for (int i = 0; i < 300; ++i) { q.push_back(g.below(n + 1)); if (pos.size()) { u64 p = pos[g.below(pos.size())]; q.push_back(p + g.below(2)); } } }
    if (pos.size() <= 400) for (u64 k = 1; k <= pos.size(); ++k) qs.push_back(k);
    else { qs = {1, (u64)pos.size()}; for (int i = 0; i < 300; ++i) qs.push_back(1 + g.below(pos.size())); }
    tr::Group gr("dict");
    gr.arg("q", q).arg("qs", qs);
    int w = seed % 5;
#define ND(k) dict<nearest_neighbour_dictionary<k>>(gr, "nearest_neighbour_dictionary<" #k ">", b, q, qs, (w + k) % 5)
    ND(1); ND(2); ND(3); ND(4); ND(7); ND(10); ND(30); ND(32); ND(64); ND(128); ND(255);
    for (auto& x : gr.g) { std::string t = "{\"op\":\"dict\"" + gr.args + ",\"impls\":" + tr::jv(x.second) + "," + x.first + "}\n"; fwrite(t.data(), 1, t.size(), tr::out); }
}
static bit_vector some_bits(tr::Rng& g, u64 n, int kind)
{
    bit_vector b(n, 0);
    for (u64 i = 0; i < n; ++i)
        b[i] = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? g.chance(1, 2) : kind == 3 ? g.chance(1, 30) : kind == 4 ? (i % 64 == 63 || i % 64 == 0) : kind == 5 ? (i + 1 == n) : kind == 6 ? (i == 0) : kind == 7 ? (i / 100) % 2 : g.chance(1, 300);
    return b;
}
// ---------------------------------------------------------------- inverse permutation
template<class I> static void inv(tr::Group& gr, const char* name, const std::vector<u64>& p, int w)
{
    std::unique_ptr<int_vector<>> v(new int_vector<>(p.size(), 0, 64));
    for (u64 i = 0; i < p.size(); ++i) (*v)[i] = p[i];
    if (w % 2) util::bit_compress(*v);
    std::unique_ptr<I> d(new I(v.get()));
    if (w == 1) { std::unique_ptr<I> t(new I(*d)); d = std::move(t); }
    else if (w == 2) { std::unique_ptr<I> t(new I); *t = std::move(*d); d = std::move(t); }
    else if (w == 3) { std::stringstream o; d->serialize(o); std::unique_ptr<I> t(new I); t->load(o); d = std::move(t); std::unique_ptr<int_vector<>> c(new int_vector<>(*v)); v = std::move(c); d->set_vector(v.get()); }
    else if (w == 4) { std::unique_ptr<I> t(new I); t->swap(*d); d = std::move(t); d->set_vector(v.get()); }
    const I& c = *d;
    std::vector<u64> a, b;
    for (u64 i = 0; i < c.size(); ++i) a.push_back(c[i]);
    u64 lim = 0;
    for (auto it = c.begin(); it != c.end() && lim < p.size() + 2; ++it, ++lim) b.push_back(*it);
    std::string s = "\"size\":" + tr::jv(c.size()) + ",\"inv\":" + tr::jv(a) + ",\"iter\":" + tr::jv(b);
    for (auto& x : gr.g) if (x.first == s) { x.second.push_back(name); return; }
    gr.g.push_back({s, {name}});
}
static void invs(const std::vector<u64>& p, int w)
{
    tr::emit(tr::Ev("perm").f("v", p));
    tr::Group gr("inverse");
#define IP(...) inv<inv_perm_support<__VA_ARGS__>>(gr, "inv_perm_support<" #__VA_ARGS__ ">", p, w++ % 5)
    IP(1); IP(2); IP(3); IP(4); IP(7); IP(32); IP(33); IP(1000);
    IP(2, sd_vector<>, rank_support_sd<>); IP(5, rrr_vector<63>, rank_support_rrr<1, 63>); IP(3, bit_vector, rank_support_v5<>); IP(8, bit_vector_il<512>, rank_support_il<1, 512>);
    for (auto& x : gr.g) { std::string t = "{\"op\":\"inverse\",\"impls\":" + tr::jv(x.second) + "," + x.first + "}\n"; fwrite(t.data(), 1, t.size(), tr::out); }
}
static std::vector<u64> cycles(tr::Rng& g, const std::vector<u64>& lens, bool shuffle)
{
    std::vector<u64> ids, p;
    for (u64 k : lens) for (u64 i = 0; i < k; ++i) ids.push_back(ids.size());
    if (shuffle) for (u64 i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[g.below(i)]);
    p.resize(ids.size());
    u64 at = 0;
    for (u64 k : lens) { for (u64 i = 0; i < k; ++i) p[ids[at + i]] = ids[at + (i + 1) % k]; at += k; }
    return p;
}
// ---------------------------------------------------------------- jobs
static void reg()
{
    if (!tr::inputs.empty()) {
        auto h = hists();
        for (size_t k = 0; k < h.size(); k += 5)
            tr::job("replay " + std::to_string(k), [h, k] {
                for (size_t i = k; i < h.size() && i < k + 5; ++i) {
                    int kind = h[i][0][1];
                    if (kind == 1) stack_hist<sorted_stack_support>(h[i], 1);
                    else if (kind == 2) stack_hist<sorted_multi_stack_support>(h[i], 2);
                    else if (kind == 3) stack_hist<sorted_int_stack>(h[i], 3);
                    else nn_hist(h[i], k + i);
                }
            });
    }
    int R = tr::thorough ? 6 : 1;
    for (int r = 0; r < R; ++r)
        for (u64 n : {(u64)0, (u64)1, (u64)2, (u64)61, (u64)62, (u64)63, (u64)64, (u64)125, (u64)126, (u64)127, (u64)188, (u64)500, (u64)1000, (u64)4031, (u64)4033, (u64)20000, (u64)1000000}) {
            u64 s = tr::seed * 1000 + r * 37 + n;
            tr::job("stacks n=" + std::to_string(n) + " r=" + std::to_string(r), [=] {
                int ops = n < 100 ? 150 : 300;
                stack_random<sorted_stack_support>(s, 1, n, ops);
                stack_random<sorted_multi_stack_support>(s + 1, 2, n, ops);
                stack_random<sorted_int_stack>(s + 2, 3, n, ops);
            });
        }
    for (int r = 0; r < R; ++r)
        for (u64 n : {(u64)1, (u64)2, (u64)63, (u64)64, (u64)65, (u64)127, (u64)640, (u64)1300, (u64)4095, (u64)4096, (u64)4097, (u64)8191, (u64)66000, (u64)262143, (u64)262144, (u64)262145, (u64)262209, (u64)1000000, (u64)16777215, (u64)16777216, (u64)16777217})
            tr::job("dynamic n=" + std::to_string(n) + " r=" + std::to_string(r), [=] { nn_random(tr::seed * 77 + r * 5 + n, n, n < 10000 ? 250 : 150); nn_border(n); });
    tr::job("dynamic small universes", [] { for (u64 n = 1; n <= 200; ++n) { if (n < 20) nn_random(n + tr::seed, n, 20); else nn_border(n); } });
    for (int r = 0; r < (tr::thorough ? 40 : 8); ++r)
        tr::job("dictionary " + std::to_string(r), [=] {
            tr::Rng g(tr::seed * 31 + r);
            for (int kind = 0; kind < 9; ++kind) { u64 n = r == 0 ? kind : r == 1 ? 60 + kind : r == 2 ? 254 + kind : g.in(1, r % 2 ? 6000 : 700); dicts(some_bits(g, n, kind), g.next()); }
            if (r < 4) for (u64 x = 0; x < 64; ++x) { bit_vector b(r + 3); for (u64 i = 0; i < b.size(); ++i) b[i] = x >> i & 1; dicts(b, x); if (x >> (r + 3)) break; }
        });
    for (int r = 0; r < (tr::thorough ? 60 : 14); ++r)
        tr::job("permutation " + std::to_string(r), [=] {
            tr::Rng g(tr::seed * 131 + r);
            if (r == 0) { for (u64 n = 1; n <= 6; ++n) { std::vector<u64> p(n); for (u64 i = 0; i < n; ++i) p[i] = i; int w = 0; do invs(p, w++); while (w < 130 && std::next_permutation(p.begin(), p.end())); } return; }
            if (r == 1) { for (u64 n = 1; n <= 70; ++n) invs(cycles(g, {n}, n % 2), n); return; }
            if (r == 2) { invs(cycles(g, {1000}, false), 0); invs(cycles(g, {999}, true), 1); invs(cycles(g, {1001}, true), 2); invs(cycles(g, {2002}, true), 3); return; }
            for (int i = 0; i < 4; ++i) {
                std::vector<u64> lens;
                u64 total = 0, cap = g.in(1, 1500);
                static const u64 L[] = {1, 1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 34, 64, 65, 66, 100};
                while (total < cap) { u64 k = g.chance(1, 6) ? g.in(1, 400) : L[g.below(17)]; lens.push_back(k); total += k; }
                invs(cycles(g, lens, g.chance(4, 5)), g.below(5));
            }
        });
}
TR_REGISTER(reg);
