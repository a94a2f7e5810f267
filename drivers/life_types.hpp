// The classes of the library as objects with a life cycle (C10, C11, C24): how to build the v-th
// content (v = 1..4) and how to query it.
#ifndef VERIF_LIFE_TYPES_HPP
#define VERIF_LIFE_TYPES_HPP
#include "tr.hpp"
#include <sdsl/vectors.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/louds_tree.hpp>
#ifdef WITH_K2      // these headers define functions that are not inline: one compilation unit only
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_tree.hpp>
#endif
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/inv_perm_support.hpp>
#include <sstream>
namespace life {
using namespace sdsl;
typedef uint64_t u64;
typedef std::vector<u64> vec;
struct FP {
    u64 h = 1469598103934665603ULL;
    FP& operator()(u64 x) { for (int i = 0; i < 8; ++i) { h ^= (x >> (8 * i)) & 255; h *= 1099511628211ULL; } return *this; }
    FP& operator()(const std::string& s) { for (unsigned char c : s) (*this)((u64)c); return (*this)(s.size()); }
    std::string str() const { char b[24]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
};
inline u64 fnv(const std::string& s) { FP f; f(s); return f.h; }
template<class F> void sample(u64 n, u64 k, F f) { if (n <= k) for (u64 i = 0; i < n; ++i) f(i); else { for (u64 i = 0; i < k; ++i) f(i * (n / k) + (i * 7919) % (n / k)); f(n - 1); } }

// ------------------------------------------------------------------ contents
inline bit_vector bits_of(int v)
{
    tr::Rng g(77 + v);
    u64 n = v == 1 ? 0 : v == 2 ? 70 : v == 3 ? 1300 : 9000;
    bit_vector b(n, 0);
    for (u64 i = 0; i < n; ++i) b[i] = v == 2 ? i % 3 == 0 : v == 3 ? ((i / 37) % 2 ? g.chance(9, 10) : g.chance(1, 12)) : (i < 5200 ? g.chance(49, 50) : g.chance(1, 300));
    return b;
}
inline vec nums_of(int v, u64 mx)      // arbitrary numbers
{
    tr::Rng g(177 + v);
    u64 n = v == 1 ? 0 : v == 2 ? 5 : v == 3 ? 150 : 700;
    vec r;
    for (u64 i = 0; i < n; ++i) { u64 x = g.chance(1, 3) ? g.next() >> g.below(60) : g.below(200); r.push_back(mx == ~0ULL ? x % mx : x % (mx + 1)); }
    return r;
}
inline vec syms_of(int v, u64 sigma)   // symbols 1..sigma
{
    tr::Rng g(277 + v);
    u64 n = v == 1 ? 0 : v == 2 ? 9 : v == 3 ? 260 : 900;
    vec r;
    for (u64 i = 0; i < n; ++i) r.push_back(v == 2 ? 7 : v == 3 ? 1 + g.below(std::min<u64>(20, sigma)) : 1 + std::min<u64>(sigma - 1, g.below(1 + g.below(90))));
    return r;
}
inline vec text_of(int v, bool empty_ok)
{
    tr::Rng g(377 + v);
    vec r;
    if (v == 1) { if (!empty_ok) r.push_back(97); return r; }
    if (v == 2) return vec(6, 98);
    if (v == 5) { for (int i = 0; i < 3500; ++i) r.push_back(97 + g.below(i / 700 % 2 ? 2 : 5)); return r; }     // C26 only
    if (v == 3) for (int i = 0; i < 90; ++i) r.push_back(97 + g.below(4));
    else { for (int i = 0; i < 40; ++i) r.push_back(1 + g.below(60)); while (r.size() < 240) r.push_back(r[r.size() - 40]); for (int i = 0; i < 8; ++i) r[g.below(240)] = 1 + g.below(250); }
    return r;
}
inline bit_vector bp_of(int v)
{
    tr::Rng g(477 + v);
    u64 n = v == 1 ? 0 : v == 2 ? 1 : v == 3 ? 60 : 1500;     // pairs
    bit_vector b(2 * n, 0);
    u64 open = 0, left = n;
    for (u64 i = 0; i < 2 * n; ++i) { bool o = left > 0 && (open == 0 || g.chance((i / 400) % 2 ? 2 : 1, 3)); b[i] = o; if (o) { ++open; --left; } else --open; }
    return b;
}
inline vec perm_of(int v)
{
    tr::Rng g(577 + v);
    u64 n = v == 1 ? 1 : v == 2 ? 7 : v == 3 ? 90 : 400;
    vec p;
    for (u64 i = 0; i < n; ++i) p.push_back(i);
    for (u64 i = n; i > 1; --i) std::swap(p[i - 1], p[v == 2 ? i - 2 : g.below(i)]);
    return p;
}
inline std::string str_of(const vec& t) { std::string s; for (u64 x : t) s += (char)x; return s; }
template<class I> I iv_of(const vec& t, int w = 0) { I r(t.size()); if (w) r = I(t.size(), 0, w); for (size_t i = 0; i < t.size(); ++i) r[i] = t[i]; return r; }

// ------------------------------------------------------------------ plain vectors
template<class T> struct Vec {
    static void make(T& t, int v) {
        u64 mx = T().width() >= 64 ? ~0ULL - 1 : (1ULL << T().width()) - 1;
        vec x = nums_of(v, mx);
        T r(x.size(), 0, v == 3 ? 17 : v == 4 ? 63 : 64);
        for (size_t i = 0; i < x.size(); ++i) r[i] = x[i];
        t = r;
    }
    static void fp(const T& t, FP& f) { f(t.size())(t.width())(t.bit_size())(t.empty()); for (auto x : t) f(x); sample(t.size(), 60, [&](u64 i) { f(t[i]); }); sample(t.size(), 40, [&](u64 i) { f(t.get_int(i * t.width(), t.width())); }); }
};
template<class T> struct Civ {      // enc, vlc, dac
    static void make(T& t, int v) { vec x = nums_of(v, ~0ULL); if (v > 1) std::sort(x.begin() + x.size() / 2, x.end()); t = T(x); }
    static void fp(const T& t, FP& f) { f(t.size())(t.empty()); for (size_t i = 0; i < t.size(); ++i) f(t[i]); u64 k = 0; for (auto x : t) if (k++ < 100) f(x); }
};
// bit vector with rank and select structures
template<class B, class R1, class R0, class S1, class S0> struct Bv {
    typedef u64 size_type;
    B b; R1 r1; R0 r0; S1 s1; S0 s0;
    Bv() { att(); }
    void att() { r1.set_vector(&b); r0.set_vector(&b); s1.set_vector(&b); s0.set_vector(&b); }
    explicit Bv(const bit_vector& x) : b(x), r1(&b), r0(&b), s1(&b), s0(&b) {}
    Bv(const Bv& o) : b(o.b), r1(o.r1), r0(o.r0), s1(o.s1), s0(o.s0) { att(); }
    Bv(Bv&& o) : b(std::move(o.b)), r1(std::move(o.r1)), r0(std::move(o.r0)), s1(std::move(o.s1)), s0(std::move(o.s0)) { att(); }
    Bv& operator=(const Bv& o) { b = o.b; r1 = o.r1; r0 = o.r0; s1 = o.s1; s0 = o.s0; att(); return *this; }
    Bv& operator=(Bv&& o) { b = std::move(o.b); r1 = std::move(o.r1); r0 = std::move(o.r0); s1 = std::move(o.s1); s0 = std::move(o.s0); att(); return *this; }
    void swap(Bv& o) { b.swap(o.b); util::swap_support(r1, o.r1, &b, &o.b); util::swap_support(r0, o.r0, &b, &o.b); util::swap_support(s1, o.s1, &b, &o.b); util::swap_support(s0, o.s0, &b, &o.b); }
    u64 serialize(std::ostream& o, structure_tree_node* v = nullptr, std::string name = "") const {
        structure_tree_node* c = structure_tree::add_child(v, name, "holder");
        u64 w = b.serialize(o, c, "b"); w += r1.serialize(o, c, "r1"); w += r0.serialize(o, c, "r0"); w += s1.serialize(o, c, "s1"); w += s0.serialize(o, c, "s0");
        structure_tree::add_size(c, w);
        return w;
    }
    void load(std::istream& in) { b.load(in); r1.load(in, &b); r0.load(in, nullptr); r0.set_vector(&b); s1.load(in, &b); s0.load(in, nullptr); s0.set_vector(&b); }
    static void make(Bv& t, int v) {
        bit_vector x = bits_of(v);
        t.b = B(x);
        util::init_support(t.r1, &t.b); util::init_support(t.r0, &t.b);
        S1 a(&t.b); t.s1 = std::move(a); t.s1.set_vector(&t.b);
        S0 c(&t.b); t.s0 = c; t.s0.set_vector(&t.b);
    }
    static void fp(const Bv& t, FP& f) {
        u64 n = t.b.size(), ones = 0;
        f(n);
        sample(n, 300, [&](u64 i) { f(t.b[i]); f(t.r1(i)); f(t.r0.rank(i)); });
        for (auto x : t.b) ones += x;
        f(ones);
        sample(ones, 120, [&](u64 i) { f(t.s1(i + 1)); });
        sample(n - ones, 120, [&](u64 i) { f(t.s0.select(i + 1)); });
        for (u64 i = 0; i + 40 < n; i += 401) f(t.b.get_int(i, 1 + i % 40));
    }
};
struct NoSel { template<class B> explicit NoSel(const B*) {} NoSel() {} template<class B> void set_vector(const B*) {} u64 operator()(u64) const { return 0; } u64 select(u64) const { return 0; } u64 rank(u64) const { return 0; } void swap(NoSel&) {}
    u64 serialize(std::ostream&, structure_tree_node* = nullptr, std::string = "") const { return 0; } template<class B> void load(std::istream&, const B*) {} void load(std::istream&, std::nullptr_t) {} };
template<class B> using BvS = Bv<B, typename B::rank_1_type, typename B::rank_0_type, typename B::select_1_type, typename B::select_0_type>;
// pattern supports: the content must offer enough occurrences, so answers are asked up to the count
template<class R, class S, unsigned pat> struct Pat {
    typedef u64 size_type;
    bit_vector b; R r; S s;
    Pat() { att(); }
    void att() { r.set_vector(&b); s.set_vector(&b); }
    Pat(const Pat& o) : b(o.b), r(o.r), s(o.s) { att(); }
    Pat(Pat&& o) : b(std::move(o.b)), r(std::move(o.r)), s(std::move(o.s)) { att(); }
    Pat& operator=(const Pat& o) { b = o.b; r = o.r; s = o.s; att(); return *this; }
    Pat& operator=(Pat&& o) { b = std::move(o.b); r = std::move(o.r); s = std::move(o.s); att(); return *this; }
    void swap(Pat& o) { b.swap(o.b); util::swap_support(r, o.r, &b, &o.b); util::swap_support(s, o.s, &b, &o.b); }
    u64 serialize(std::ostream& o, structure_tree_node* v = nullptr, std::string name = "") const { structure_tree_node* c = structure_tree::add_child(v, name, "holder"); u64 w = b.serialize(o, c, "b"); w += r.serialize(o, c, "r"); w += s.serialize(o, c, "s"); structure_tree::add_size(c, w); return w; }
    void load(std::istream& in) { b.load(in); r.load(in, &b); s.load(in, &b); }
    static void make(Pat& t, int v) { t.b = bits_of(v); R x(&t.b); t.r = x; t.r.set_vector(&t.b); util::init_support(t.s, &t.b); }
    static void fp(const Pat& t, FP& f) {
        u64 n = t.b.size(), c = 0;
        f(n);
        for (u64 i = 1; i < n; ++i) c += (2u * t.b[i - 1] + t.b[i]) == pat;
        sample(n, 200, [&](u64 i) { f(t.b[i]); f(t.r(i)); });
        sample(c, 120, [&](u64 i) { f(t.s(i + 1)); });
    }
};
// ------------------------------------------------------------------ wavelet trees
template<class W> struct Wt {
    static constexpr bool byte = std::is_same<typename W::alphabet_category, byte_alphabet_tag>::value;
    static void make(W& t, int v) {
        vec s = syms_of(v, byte ? 200 : 3000);
        if (byte) construct_im(t, str_of(s), 1); else construct_im(t, iv_of<int_vector<>>(s));
    }
    static void fp(const W& t, FP& f) {
        u64 n = t.size();
        f(n)(t.sigma)(t.empty());
        sample(n, 60, [&](u64 i) {
            auto c = t[i];
            f(c);
            u64 r = t.rank(n, c);
            f(r)(t.rank(i, c))(t.select(1 + i % r, c));
            auto p = t.inverse_select(i);
            f(p.first)(p.second);
        });
    }
};
// ------------------------------------------------------------------ suffix arrays and trees
template<class C> struct Csa {
    static constexpr bool byte = std::is_same<typename C::alphabet_category, byte_alphabet_tag>::value;
    static void make(C& t, int v) { vec s = text_of(v, true); if (byte) construct_im(t, str_of(s), 1); else construct_im(t, iv_of<int_vector<>>(s), 0); }
    static void fp(const C& t, FP& f) {
        u64 n = t.size();
        f(n)(t.empty())(t.sigma);
        sample(n, 40, [&](u64 i) { f(t[i])(t.isa[i])(t.psi[i])(t.lf[i])(t.bwt[i])(t.text[i])(t.F[i])(t.bwt.rank(i, t.bwt[i])); });
        for (u64 c = 0; c <= t.sigma; ++c) f(t.C[c]);
        for (u64 c = 0; c < t.sigma; ++c) { u64 s = t.comp2char[c]; f(s)(t.char2comp[s]); }
        f((u64)0 + t.bwt.size());
    }
};
template<class C> struct Lcp {
    static void make(C& t, int v) {
        vec s = text_of(v, false);
        construct_im(t, str_of(s), 1);
    }
    static void fp(const C& t, FP& f) { f(t.size())(t.empty()); for (size_t i = 0; i < t.size(); ++i) f(t[i]); }
};
template<class C> struct Cst {
    static constexpr bool byte = std::is_same<typename C::alphabet_category, byte_alphabet_tag>::value;
    static void make(C& t, int v) { vec s = text_of(v, false); if (byte) construct_im(t, str_of(s), 1); else construct_im(t, iv_of<int_vector<>>(s), 0); }
    static void fp(const C& t, FP& f) {
        u64 n = t.size();
        f(n)(t.nodes());
        auto root = t.root();
        sample(n, 14, [&](u64 i) {
            auto l = t.select_leaf(i + 1);
            f(t.sn(l));
            auto p = t.parent(l);
            f(t.lb(p))(t.rb(p))(t.depth(p))(t.degree(p));
            if (p != root) { auto s = t.sl(p); f(t.lb(s))(t.rb(s)); }
            auto q = t.lca(l, t.select_leaf(n));
            f(t.lb(q))(t.rb(q));
            f(t.csa[i]);
        });
        u64 k = 0;
        for (auto c : t.children(root)) { f(t.lb(c))(t.rb(c)); if (++k < 4) for (auto d : t.children(c)) f(t.lb(d))(t.rb(d)); }
        auto w = t.child(root, t.csa.F[n / 2]);
        f(t.lb(w))(t.rb(w));
    }
};
template<class C> struct CstL : Cst<C> {       // those that show their LCP array
    static void fp(const C& t, FP& f) { Cst<C>::fp(t, f); sample(t.size(), 20, [&](u64 i) { f(t.lcp[i]); }); auto x = t.node(0, t.size() - 1); f(t.id(x)); }
};
// ------------------------------------------------------------------ structures on a separate vector
template<class V, class S> struct On {
    typedef u64 size_type;
    V b; S s;
    On() { s.set_vector(&b); }
    On(const On& o) : b(o.b), s(o.s) { s.set_vector(&b); }
    On(On&& o) : b(std::move(o.b)), s(std::move(o.s)) { s.set_vector(&b); }
    On& operator=(const On& o) { b = o.b; s = o.s; s.set_vector(&b); return *this; }
    On& operator=(On&& o) { b = std::move(o.b); s = std::move(o.s); s.set_vector(&b); return *this; }
    void swap(On& o) { b.swap(o.b); util::swap_support(s, o.s, &b, &o.b); }
    u64 serialize(std::ostream& o, structure_tree_node* v = nullptr, std::string name = "") const { structure_tree_node* c = structure_tree::add_child(v, name, "holder"); u64 w = b.serialize(o, c, "b"); w += s.serialize(o, c, "s"); structure_tree::add_size(c, w); return w; }
    template<class T> auto ld(T& t, std::istream& in, int) -> decltype(t.load(in, &b)) { t.load(in, &b); }
    template<class T> void ld(T& t, std::istream& in, long) { t.load(in); t.set_vector(&b); }
    void load(std::istream& in) { b.load(in); ld(s, in, 0); }
};
template<class S> struct Bp {
    typedef On<bit_vector, S> T;
    static void make(T& t, int v) { t.b = bp_of(v); S x(&t.b); if (v % 2) t.s = x; else t.s = std::move(x); t.s.set_vector(&t.b); }
    static void fp(const T& t, FP& f) {
        u64 n = t.b.size();
        f(n)(t.s.size());
        sample(n, 90, [&](u64 i) {
            f(t.s.excess(i))(t.s.rank(i));
            if (t.b[i]) { u64 c = t.s.find_close(i); f(c)(t.s.enclose(i)); f(t.s.rank(c)); if (c + 1 < n) f(t.s.rmq(i, c)); }
            else f(t.s.find_open(i));
            u64 j = (i * 31 + 17) % n;
            if (i < j && t.b[i] && t.b[j] && t.s.find_close(i) < j) { f(t.s.double_enclose(i, j)); f(t.s.rr_enclose(i, j)); }
        });
        sample(n / 2, 40, [&](u64 i) { f(t.s.select(i + 1)); });
    }
};
template<class R> struct Rmq {
    static int_vector<> base(int v) { return iv_of<int_vector<>>(v == 1 ? vec(1, 5) : nums_of(v, 30)); }
    static void make(R& t, int v) { int_vector<> x = base(v); R r(&x); if (v % 2) t = r; else t = std::move(r); }
    static void fp(const R& t, FP& f) { u64 n = t.size(); f(n); sample(n, 40, [&](u64 i) { f(t(0, i))(t(i, n - 1))(t(i / 2, i)); }); }
};
template<class S> struct Sparse {
    typedef On<int_vector<>, S> T;
    static void make(T& t, int v) { t.b = iv_of<int_vector<>>(v == 1 ? vec(1, 5) : v == 2 ? vec{4, 2, 2, 9, 1} : nums_of(v, 30)); S x(&t.b); if (v % 2) t.s = x; else t.s = std::move(x); t.s.set_vector(&t.b); }
    static void fp(const T& t, FP& f) { u64 n = t.b.size(); f(n); sample(n, 40, [&](u64 i) { f(t.s(0, i))(t.s(i, n - 1))(t.s(i / 2, i)); }); for (auto x : t.b) f(x); }
};
template<class S> struct Inv {
    typedef On<int_vector<>, S> T;
    static void make(T& t, int v) { t.b = iv_of<int_vector<>>(perm_of(v)); S x(&t.b); if (v % 2) t.s = x; else t.s = std::move(x); t.s.set_vector(&t.b); }
    static void fp(const T& t, FP& f) { f(t.b.size()); sample(t.b.size(), 100, [&](u64 i) { f(t.s[i]); }); }
};
template<class D> struct Nnd {
    static void make(D& t, int v) { t = D(bits_of(v)); }
    static void fp(const D& t, FP& f) { u64 n = t.size(), k = t.ones(); f(n)(k); sample(n + (n > 0), 120, [&](u64 i) { u64 r = t.rank(i); f(r); if (i < n && t.rank(i + 1) > 0) f(t.prev(i)); if (i < n && r < k) f(t.next(i)); }); sample(k, 100, [&](u64 i) { f(t.select(i + 1)); }); }
};
struct Nnx {
    typedef nn_dict_dynamic T;
    static void make(T& t, int v) { bit_vector b = bits_of(v); if (v == 1) b = bit_vector(1, 1); T d(b.size()); for (size_t i = 0; i < b.size(); ++i) if (b[i]) d[i] = 1; if (v % 2) t = d; else t = std::move(d); }
    static void fp(const T& t, FP& f) { f(t.size()); sample(t.size(), 150, [&](u64 i) { f(t[i])(t.next(i))(t.prev(i)); }); }
};
template<class S, bool multi> struct Stack {
    static void make(S& t, int v) {
        u64 n = v == 1 ? 0 : v == 2 ? 70 : v == 3 ? 500 : 4000;
        S s(n);
        tr::Rng g(677 + v);
        u64 x = 0;
        bool any = false;
        for (int i = 0; i < 200 && n; ++i) { u64 d = multi ? g.below(3) * g.below(n / 30) : 1 + g.below(n / 20); if (x + d >= n || s.size() + 2 >= n) break; if (!any || d || multi) { s.push(x += d); any = true; } if (i % 7 == 6) s.pop(), x = s.top(); }
        if (v % 2) t = s; else t = std::move(s);
    }
    static void fp(const S& t, FP& f) { S s(t); f(s.size()); while (!s.empty()) { f(s.top())(s.size()); s.pop(); } }
};
template<class L> struct Louds {
    static void make(L& t, int v) {
        cst_sct3<> c;
        construct_im(c, str_of(text_of(v, false)), 1);
        typedef cst_bfs_iterator<cst_sct3<>> it;
        std::ostringstream o;
        L l(c, it(&c, c.root()), it(&c, c.root(), true, true));
        if (v % 2) t = l; else t = std::move(l);
    }
    static void walk(const L& t, const louds_node& v, FP& f, int& k) {
        f(v.nr)(v.pos)(t.degree(v))(t.is_leaf(v))(t.id(v));
        if (++k > 120) return;
        for (u64 i = 1; i <= t.degree(v); ++i) { auto c = t.child(v, i); auto p = t.parent(c); f(p.nr)(p.pos); walk(t, c, f, k); }
    }
    static void fp(const L& t, FP& f) { int k = 0; f(t.nodes())(t.bv.size()); walk(t, t.root(), f, k); }
};
#ifdef WITH_K2
template<class T> struct Treap {
    static void make(T& t, int v) {
        tr::Rng g(777 + v);
        std::vector<std::tuple<u64, u64, u64>> p;
        std::map<std::pair<u64, u64>, u64> m;
        u64 n = v == 1 ? 1 : v == 2 ? 3 : v == 3 ? 40 : 300, w = v == 2 ? 8 : v == 3 ? 50 : 700;
        for (u64 i = 0; i < n; ++i) m[{g.below(w), g.below(w)}] = g.below(100);
        for (auto& x : m) p.push_back(std::make_tuple(x.first.first, x.first.second, x.second));
        T x(p, tr::scratch + "/kt");
        if (v % 2) t = x; else t = std::move(x);
    }
    static void fp(const T& t, FP& f) {
        f(t.size())(t.t);
        for (u64 i = 0; i < 4; ++i) {
            int k = 0;
            auto it = sdsl::top_k(t, {i * 5, i * 3}, {400 - i * 40, 500 - i});
            while (it && k++ < 12) { auto x = *it; f(std::real(x.first))(std::imag(x.first))(x.second); ++it; }
            f(sdsl::count(t, {i * 5, i * 3}, {400 - i * 40, 500 - i}));
        }
    }
};
template<class K> struct Tree2 {      // an adjacency grid and its number of nodes
    typedef u64 size_type;
    struct T {
        typedef u64 size_type;
        K t; u64 w;
        T() : w(0) {}
        u64 serialize(std::ostream& o, structure_tree_node* v = nullptr, std::string name = "") const { structure_tree_node* c = structure_tree::add_child(v, name, "holder"); u64 r = t.serialize(o, c, "t"); r += write_member(w, o, c, "w"); structure_tree::add_size(c, r); return r; }
        void load(std::istream& in) { t.load(in); read_member(w, in); }
        void swap(T& o) { t.swap(o.t); std::swap(w, o.w); }
    };
    static void make(T& t, int v) {
        tr::Rng g(877 + v);
        typedef typename K::idx_type I;
        std::vector<std::tuple<I, I>> e;
        u64 w = v == 1 ? 1 : v == 2 ? 5 : v == 3 ? 20 : 90, n = v == 1 ? 1 : v == 2 ? 4 : v == 3 ? 40 : 300;
        for (u64 i = 0; i < n; ++i) e.push_back(std::make_tuple((I)g.below(w), (I)g.below(w)));
        if (v > 1) e.push_back(std::make_tuple((I)(w - 1), (I)(w - 1)));
        K x(e, w);
        if (v % 2) t.t = x; else t.t = std::move(x);
        t.w = w;
    }
    static void fp(const T& t, FP& f) {
        f(t.w);
        sample(t.w, 20, [&](u64 i) { for (u64 j = 0; j < t.w; ++j) f(t.t.adj(i, j)); for (auto x : t.t.neigh(i)) f((u64)x); f(7777); for (auto x : t.t.reverse_neigh(i)) f((u64)x); });
    }
};
#endif
// nested standard containers, plain members and strings (free functions serialize and load)
template<class X> struct Std { typedef u64 size_type; std::vector<X> x; u64 a; std::string s;
    Std() : a(0) {}
    Std(const Std&) = default;
    Std(Std&&) = default;
    Std& operator=(const Std&) = default;
    Std& operator=(Std&& o) { if (this != &o) { x = std::move(o.x); a = o.a; s = std::move(o.s); } return *this; }
    u64 serialize(std::ostream& o, structure_tree_node* v = nullptr, std::string name = "") const { structure_tree_node* c = structure_tree::add_child(v, name, "holder"); u64 w = sdsl::serialize(x, o, c, "x"); w += sdsl::serialize(a, o, c, "a"); w += write_member(s, o, c, "s"); structure_tree::add_size(c, w); return w; }
    void load(std::istream& in) { sdsl::load(x, in); sdsl::load(a, in); read_member(s, in); }
    void swap(Std& o) { x.swap(o.x); std::swap(a, o.a); s.swap(o.s); } };
inline void put(int_vector<>& x, const vec& t) { x = iv_of<int_vector<>>(t); }
inline void put(u64& x, const vec& t) { x = t.size() + 3; }
inline void put(wt_int<>& x, const vec& t) { construct_im(x, iv_of<int_vector<>>(t)); }
inline void get(const int_vector<>& x, FP& f) { f(x.size()); for (auto y : x) f(y); }
inline void get(const u64& x, FP& f) { f(x); }
inline void get(const wt_int<>& x, FP& f) { Wt<wt_int<>>::fp(x, f); }
template<class X> struct StdV {
    typedef Std<X> T;
    static void make(T& t, int v) { T r; r.x.resize(v == 1 ? 0 : 2 * v - 1); for (size_t i = 0; i < r.x.size(); ++i) put(r.x[i], syms_of(1 + (i + v) % 4, 60)); r.a = v * 1000003ULL; r.s = v == 1 ? "" : std::string(v * 11, 'a' + v); t = r; }
    static void fp(const T& t, FP& f) { f(t.x.size()); for (auto& x : t.x) get(x, f); f(t.a)(t.s); }
};
// a default object; stacks and LOUDS trees have no default constructor
template<class T> T* fresh(tr::Rng&) { return new T(); }
template<> inline sorted_stack_support* fresh<sorted_stack_support>(tr::Rng&) { return new sorted_stack_support(0); }
template<> inline sorted_multi_stack_support* fresh<sorted_multi_stack_support>(tr::Rng&) { return new sorted_multi_stack_support(0); }
template<> inline sorted_int_stack* fresh<sorted_int_stack>(tr::Rng&) { return new sorted_int_stack(0); }
#ifdef WITH_K2
template<class L> L* tiny() { cst_sct3<> c; construct_im(c, "a", 1); typedef cst_bfs_iterator<cst_sct3<>> it; return new L(c, it(&c, c.root()), it(&c, c.root(), true, true)); }
template<> inline louds_tree<>* fresh<louds_tree<>>(tr::Rng&) { return tiny<louds_tree<>>(); }
template<> inline louds_tree<rrr_vector<15>>* fresh<louds_tree<rrr_vector<15>>>(tr::Rng&) { return tiny<louds_tree<rrr_vector<15>>>(); }
#endif
} // namespace life
#endif
