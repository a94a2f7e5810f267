// C26: constant queries of one object from several threads at once, while other threads build, copy,
// store and load objects of their own.  The histories are judged by QueryTrace.tla.
#if PART == 7
#define WITH_K2
#endif
#include "life_types.hpp"
#include <thread>
#include <atomic>
#include <mutex>
using namespace life;
// ---- further queries, by family
template<class K> struct More { enum { V1 = 3, V2 = 4 }; template<class T> static void q(const T&, FP&) {} };     // contents V1..V2
#define Q_HAS(NAME, EXPR) \
    template<class T> auto NAME##_f(int) -> decltype(EXPR, std::true_type()); \
    template<class T> std::false_type NAME##_f(long); \
    template<class T> struct NAME : decltype(NAME##_f<T>(0)) {};
Q_HAS(h_lex, std::declval<const T&>().lex_count(0, 0, std::declval<typename T::value_type>()))
Q_HAS(h_2d, std::declval<const T&>().range_search_2d(0, 0, 0, 0))
template<class W> struct More<Wt<W>> {
    enum { V1 = 3, V2 = 4 };
    typedef std::true_type Y; typedef std::false_type N;
    static void lex(const W& t, FP& f, Y) { u64 n = t.size(); sample(n, 12, [&](u64 i) { auto r = t.lex_count(i / 2, i + 1, t[i]); f(std::get<0>(r))(std::get<1>(r))(std::get<2>(r)); }); }
    static void lex(const W&, FP&, N) {}
    static void d2(const W& t, FP& f, Y) { u64 n = t.size(); if (!n) return; sample(n, 8, [&](u64 i) { auto r = t.range_search_2d(i / 2, i, 3, 40 + i, true); f(r.first); for (auto& p : r.second) f(p.first)(p.second); }); }
    static void d2(const W&, FP&, N) {}
    template<class Z> static void walk(const W& t, FP& f, Z) { walk_f(t, f, 0); }
    template<class V> static auto walk_f(const V& t, FP& f, int) -> decltype(t.expand(t.root()), void()) { if (t.size()) visit(t, t.root(), f, 0); }
    template<class V> static void walk_f(const V&, FP&, long) {}
    template<class V> static void visit(const W& t, const V& v, FP& f, int d) {
        f(t.size(v))(t.is_leaf(v));
        if (t.is_leaf(v)) { if (t.size(v)) f(t.sym(v)); return; }
        if (d > 6) return;
        auto c = t.expand(v);
        u64 m = t.size(v);
        if (m) { range_vec_type r; range_type z; z[0] = 0; z[1] = m - 1; r.push_back(z); z[0] = m / 3; z[1] = m / 2; r.push_back(z); auto e = t.expand(v, r); for (auto& x : std::get<0>(e)) f(x[0])(x[1]); for (auto& x : std::get<1>(e)) f(x[0])(x[1]); }
        visit(t, std::get<0>(c), f, d + 1); visit(t, std::get<1>(c), f, d + 1);
    }
    static void q(const W& t, FP& f) {
        u64 n = t.size();
        lex(t, f, std::integral_constant<bool, h_lex<W>::value>());
        d2(t, f, std::integral_constant<bool, h_2d<W>::value>());
        walk(t, f, 0);
        sample(n, 4, [&](u64 i) { syms(t, i / 2, i + 1, f); });
        iter(t, f, 0);
    }
    template<class V> static auto iter(const V& t, FP& f, int) -> decltype(t.begin(), void()) { u64 k = 0; for (auto it = t.begin(); it != t.end() && k < 100; ++it, ++k) f(*it); }
    template<class V> static void iter(const V&, FP&, long) {}
    template<class V> static auto syms_f(const V& t, u64 i, u64 j, FP& f, int) -> decltype(t.root(), void()) {
        std::vector<typename V::value_type> cs(t.sigma + 1); std::vector<u64> a(t.sigma + 1), b(t.sigma + 1); typename V::size_type k = 0;
        interval_symbols(t, i, j, k, cs, a, b);
        f(k); for (u64 x = 0; x < k; ++x) f(cs[x])(a[x])(b[x]);
    }
    template<class V> static void syms_f(const V&, u64, u64, FP&, long) {}
    static void syms(const W& t, u64 i, u64 j, FP& f) { syms_f(t, i, j, f, 0); }
};
template<class C> struct More<Csa<C>> {
    enum { V1 = 4, V2 = 5 };
    static void q(const C& t, FP& f) {
        u64 n = t.size();
        if (n < 3) return;
        sample(n - 2, 16, [&](u64 i) {
            u64 e = std::min<u64>(n - 2, i + i % 5);
            auto s = extract(t, i, e);
            for (auto c : s) f((u64)c);
            f(count(t, s.begin(), s.end()));
            auto l = locate(t, s.begin(), s.end());
            std::vector<u64> y(l.begin(), l.end());
            std::sort(y.begin(), y.end());
            for (u64 x : y) f(x);
            typename C::size_type a = 0, b = 0;
            f(backward_search(t, 0, n - 1, s[0], a, b))(a)(b);
            f(t.bwt.rank(n, s[0]))(t.bwt.rank(i, s[0]))(t.bwt.select(1, s[0]));
        });
    }
};
template<class C> struct More<Cst<C>> {
    enum { V1 = 3, V2 = 4 };
    static void q(const C& t, FP& f) {
        u64 k = 0;
        for (auto it = t.begin(); it != t.end() && k < 160; ++it, ++k) {
            auto v = *it;
            f(it.visit())(t.lb(v))(t.rb(v))(t.depth(v));
            if (k % 3 == 0) { auto c = t.select_child(v, 1); f(t.lb(c))(t.rb(c)); auto p = t.parent(v); f(t.lb(p)); }
            if (v != t.root() && t.depth(v) < t.size()) { f((u64)t.edge(v, 1)); auto w = t.wl(v, t.csa.F[t.size() / 2]); f(t.lb(w))(t.rb(w)); }
            auto s = t.sibling(v);
            f(t.lb(s))(t.size(v))(t.leftmost_leaf(v) == t.rightmost_leaf(v))(t.node_depth(v));
        }
        More<Csa<typename C::csa_type>>::q(t.csa, f);
    }
};
template<class C> struct More<CstL<C>> {
    enum { V1 = 3, V2 = 4 };
    static void q(const C& t, FP& f) {
        More<Cst<C>>::q(t, f);
        u64 k = 0;
        for (auto it = t.begin_bottom_up(); it != t.end_bottom_up() && k < 60; ++it, ++k) f(t.lb(*it))(t.rb(*it));
    }
};

// ---- the histories
static std::atomic<u64> clk(0);       // orders the events; relaxed, so that it orders nothing else
enum { FPQ = 1, MORE = 2, COPY = 3, STORE = 4, SIZE = 5, NQ = 5 };
struct Evt { u64 when; std::string s; };
static u64 tick() { return clk.fetch_add(1, std::memory_order_relaxed); }
template<class T, class K> struct Query {
    static std::string ask(const T& t, int q) {
        FP f;
        switch (q) {
            case FPQ: K::fp(t, f); break;
            case MORE: More<K>::q(t, f); break;
            case COPY: { T c(t); K::fp(c, f); break; }
            case STORE: { std::ostringstream o; f((u64)t.serialize(o)); f(fnv(o.str())); break; }
            case SIZE: f(size_in_bytes(t)); { std::ostringstream o; write_structure<JSON_FORMAT>(t, o); f(o.str().size() > 0); } break;
        }
        return f.str();
    }
    // an object of the thread's own: built, stored and loaded again
    static std::string own(int v) {
        tr::Rng g(1);
        std::unique_ptr<T> pt(fresh<T>(g)), pu(fresh<T>(g));
        T& t = *pt; T& u = *pu;
        K::make(t, v);
        std::ostringstream o; t.serialize(o);
        std::istringstream in(o.str());
        u.load(in);
        FP f; K::fp(t, f); K::fp(u, f);
        return f.str();
    }
    static void all(int v, int round, int nt) {
        tr::Rng g(tr::seed * 131 + v * 17 + round);
        std::unique_ptr<T> pt(fresh<T>(g)), pw(fresh<T>(g));
        T& t = *pt; T& w = *pw;
        K::make(t, v);
        // alone: answers of another object with the same content, so that this one is untouched when the threads meet
        {
            K::make(w, v);
            for (int q = 1; q <= NQ; ++q) tr::emit(tr::Ev("alone").f("v", v).f("q", q).f("a", ask(w, q)));
            for (int x = 2; x <= 3; ++x) tr::emit(tr::Ev("alone").f("v", x).f("q", NQ + 1).f("a", own(x)));
        }
        std::vector<std::vector<Evt>> log(nt);
        std::atomic<int> ready(0);
        std::vector<std::thread> th;
        for (int i = 0; i < nt; ++i) {
            u64 s = g.next();
            const T* p = &t;
            th.emplace_back([&, i, s, p] {
                tr::Rng h(s);
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
                auto call = [&](int q, int v2) {
                    log[i].push_back(Evt{tick(), tr::Ev("call").f("t", i + 1).f("v", v2).f("q", q).str()});
                    std::string a = q <= NQ ? ask(*p, q) : own(v2);
                    log[i].push_back(Evt{tick(), tr::Ev("ret").f("t", i + 1).f("a", a).str()});
                };
                if (i == nt - 1 && round % 2) { for (int k = 0; k < 3; ++k) call(NQ + 1, 2 + (int)h.below(2)); }
                else {      // every question, the two large ones first and by all threads
                    int o[7] = {MORE, FPQ, MORE, COPY, STORE, SIZE, FPQ};
                    if (round % 2) std::swap(o[0], o[1]);
                    for (int k = 6; k > 2; --k) std::swap(o[k], o[2 + h.below(k - 1)]);
                    for (int q : o) call(q, v);
                }
            });
        }
        for (auto& x : th) x.join();
        std::vector<Evt> e;
        for (auto& l : log) e.insert(e.end(), l.begin(), l.end());
        std::sort(e.begin(), e.end(), [](const Evt& a, const Evt& b) { return a.when < b.when; });
        for (auto& x : e) { std::string l = x.s + "\n"; fwrite(l.data(), 1, l.size(), tr::out); }
    }
    static void run(const std::string& name) {
        tr::emit(tr::Ev("kind").f("name", name));
        for (int r = 0; r < (tr::thorough ? 12 : 2); ++r) for (int v = More<K>::V1; v <= More<K>::V2; ++v) if (tr::thorough || (r == 0) == (v == More<K>::V2)) { tr::emit(tr::Ev("share").f("v", v)); all(v, r, 3 + r % 2); }
    }
};
template<class T, class K> void kind(const std::string& name) { tr::job(name, [=] { Query<T, K>::run(name); }, 240); }
#define K_(KIND, ...) kind<__VA_ARGS__, KIND<__VA_ARGS__>>(#__VA_ARGS__)
#define H_(KIND, ...) kind<KIND<__VA_ARGS__>::T, KIND<__VA_ARGS__>>(#KIND " " #__VA_ARGS__)
#define S_(...) kind<__VA_ARGS__, __VA_ARGS__>(#__VA_ARGS__)
#if PART == 0
// A decoder may read a word past the end of a vector (and ignore it); so that this is not taken for a
// race with whoever owns the memory there, every vector of the library gets some room behind it.
extern "C" { void* __real_realloc(void*, size_t); void* __wrap_realloc(void* p, size_t n) { return __real_realloc(p, n ? n + 64 : 0); }
             void* __real_malloc(size_t); void* __wrap_malloc(size_t n) { return __real_malloc(n + 64); }
             void* __real_calloc(size_t, size_t); void* __wrap_calloc(size_t n, size_t m) { return __real_calloc(1, n * m + 64); } }
#endif
#include "life_list.inc"
TR_REGISTER(reg);
