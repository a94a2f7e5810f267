// Type-erased access to every wavelet tree / rank-select sequence structure.
#ifndef VERIF_WT_IMPL_HPP
#define VERIF_WT_IMPL_HPP
#include "tr.hpp"
#include <sdsl/wavelet_trees.hpp>
#include <memory>
#include <sstream>
#include <tuple>

namespace wti {
typedef uint64_t u64;
typedef std::vector<u64> vec;
typedef std::pair<u64, u64> pr;
struct NodeDump {
    vec seq; std::vector<int> bits; long left = -1, right = -1; bool leaf = false; u64 sym = 0, size = 0; bool empty = false;
    std::vector<pr> rq;               // ranges given (inclusive)
    std::vector<std::pair<pr, pr>> rl, rv, rm; // children ranges by the three expand overloads
};
struct IS { u64 k; vec cs, ri, rj; };
struct Obj {
    virtual ~Obj() {}
    virtual u64 size() const = 0;
    virtual bool empty() const = 0;
    virtual u64 sigma() const = 0;
    virtual bool has_sigma() const = 0;
    virtual u64 at(u64 i) const = 0;
    virtual u64 rank(u64 i, u64 c) const = 0;
    virtual u64 select(u64 i, u64 c) const = 0;
    virtual pr invsel(u64 i) const = 0;
    virtual bool has_iter() const = 0;
    virtual vec iter() const = 0;
    virtual bool lex() const = 0;
    virtual bool has_lc() const = 0;
    virtual std::array<u64, 3> lex_count(u64, u64, u64) const = 0;
    virtual std::array<u64, 2> lex_smaller(u64, u64) const = 0;
    virtual bool has_is() const = 0;
    virtual IS isym(u64 i, u64 j, bool freefn) const = 0;
    virtual bool has_r2d() const = 0;
    virtual std::pair<u64, std::vector<pr>> r2d(u64, u64, u64, u64, bool) const = 0;
    virtual bool has_nodes() const = 0;
    virtual std::vector<pr> intersect(const std::vector<pr>&, u64 t) const = 0;
    virtual pr quantile(u64 lb, u64 rb, u64 q) const = 0;
    virtual std::pair<bool, u64> lte(u64) const = 0;
    virtual std::pair<bool, u64> gte(u64) const = 0;
    virtual vec ruv(u64, u64, u64, u64) const = 0;
    virtual pr path(u64 c) const = 0;
    virtual std::vector<NodeDump> nodes(tr::Rng&) const = 0;
};
// 0 built, 1 copied, 2 moved, 3 copy-assigned, 4 move-assigned, 5 swapped, 6 stored+loaded, 7 built from a prefix of a longer file
enum { MODES = 8 };
static const char* const modename[] = {"", " copied", " moved", " copy-assigned", " move-assigned", " swapped", " stored+loaded", " built from a prefix"};
typedef std::function<std::unique_ptr<Obj>(const vec&, int mode)> Maker;
struct Impl { std::string name; Maker make; u64 maxsym; u64 maxn; };
std::vector<Impl>& impls();

#define WT_HAS(NAME, EXPR) \
    template<class T> auto NAME##_f(int) -> decltype(EXPR, std::true_type()); \
    template<class T> std::false_type NAME##_f(long); \
    template<class T> struct NAME : decltype(NAME##_f<T>(0)) {};
WT_HAS(h_idx, std::declval<const T&>()[0])
WT_HAS(h_iter, std::declval<const T&>().begin())
WT_HAS(h_lc, std::declval<const T&>().lex_count(0, 0, 0))
WT_HAS(h_own_is, (sdsl::has_interval_symbols<T>::value ? 0 : 0, typename std::enable_if<sdsl::has_interval_symbols<T>::value, int>::type()))
WT_HAS(h_r2d, std::declval<const T&>().range_search_2d(0, 0, 0, 0, true))
WT_HAS(h_node, std::declval<typename T::node_type>())
WT_HAS(h_sigma, std::declval<const T&>().sigma)
template<class T> struct h_lexnode : std::integral_constant<bool, h_node<T>::value && T::lex_ordered> {};

WT_HAS(h_citer, std::declval<typename T::const_iterator>())
template<class T, bool HAS> struct NodeF {
    typedef typename T::value_type V;
    static IS isym(const T&, u64, u64, bool) { return IS(); }
    static std::vector<pr> inter(const T&, const std::vector<pr>&, u64) { return {}; }
    static std::vector<NodeDump> nodes(const T&, tr::Rng&) { return {}; }
    static pr path(const T&, u64) { return pr(); }
};
template<class T> struct NodeF<T, true> {
    typedef typename T::value_type V;
    typedef typename T::size_type S;
    static void own(const T& w, S i, S j, S& k, std::vector<V>& cs, std::vector<S>& ri, std::vector<S>& rj, std::true_type) { w.interval_symbols(i, j, k, cs, ri, rj); }
    static void own(const T& w, S i, S j, S& k, std::vector<V>& cs, std::vector<S>& ri, std::vector<S>& rj, std::false_type) { sdsl::interval_symbols(w, i, j, k, cs, ri, rj); }
    static IS isym(const T& w, u64 i, u64 j, bool freefn)
    {
        std::vector<V> cs(w.sigma); std::vector<S> ri(w.sigma), rj(w.sigma);
        S k = 7777777;
        if (freefn) sdsl::interval_symbols(w, (S)i, (S)j, k, cs, ri, rj);
        else own(w, i, j, k, cs, ri, rj, h_own_is<T>());
        IS r; r.k = k;
        for (u64 x = 0; x < k && x < cs.size(); ++x) { r.cs.push_back(cs[x]); r.ri.push_back(ri[x]); r.rj.push_back(rj[x]); }
        return r;
    }
    static std::vector<pr> inter(const T& w, const std::vector<pr>& q, u64 t)
    {
        std::vector<sdsl::range_type> rs;
        for (auto& x : q) rs.push_back(sdsl::range_type{{x.first, x.second}});
        std::vector<pr> r;
        for (auto& x : (t == 0 ? sdsl::intersect(w, rs) : sdsl::intersect(w, rs, t))) r.push_back(pr((u64)x.first, (u64)x.second));
        return r;
    }
    static pr path(const T& w, u64 c) { auto p = w.path((V)c); return pr(p.first, p.second); }
    template<class N> static void bits(const T& w, const N& v, NodeDump& d, std::true_type)
    {
        auto b = w.bit_vec(v);
        if (b.size() != d.size) d.bits.push_back(7);
        else for (u64 i = 0; i < d.size; ++i) d.bits.push_back((int)b[i]);
    }
    // bit_vec() is not offered for this bitvector type: the bit is the child a single position maps to
    template<class N> static void bits(const T& w, const N& v, NodeDump& d, std::false_type)
    {
        for (u64 i = 0; i < d.size; ++i) d.bits.push_back((int)sdsl::size(w.expand(v, sdsl::range_type{{i, i}})[1]));
    }
    static std::vector<NodeDump> nodes(const T& w, tr::Rng& g)
    {
        typedef typename T::node_type N;
        std::vector<NodeDump> r;
        if (w.size() == 0) return r;
        std::vector<N> q;
        q.push_back(w.root());
        for (size_t h = 0; h < q.size() && h < 4000; ++h) {
            N v = q[h];
            NodeDump d;
            d.size = w.size(v); d.empty = w.empty(v); d.leaf = w.is_leaf(v);
            if (d.leaf) { d.sym = w.sym(v); r.push_back(d); continue; }
            if (d.size == 0 || d.size > 100000000) { r.push_back(d); continue; }
            auto s = w.seq(v);
            for (u64 i = 0; i < d.size; ++i) d.seq.push_back((u64)s[i]);
            bits(w, v, d, h_citer<typename T::bit_vector_type>());
            auto ch = w.expand(v);
            sdsl::range_vec_type rv;
            for (int k = 0; k < 4; ++k) {
                u64 s0 = g.below(d.size + 1), e0 = g.below(d.size + 1);
                if (k == 0) { s0 = 0; e0 = d.size; }
                if (s0 > e0) std::swap(s0, e0);
                if (e0 == 0) e0 = 1;           // inclusive end e0-1 >= s0-1, representable
                if (s0 == e0) --s0;
                d.rq.push_back(pr(s0, e0 - 1));
                rv.push_back(sdsl::range_type{{s0, e0 - 1}});
                auto x = w.expand(v, sdsl::range_type{{s0, e0 - 1}});
                d.rl.push_back({pr(x[0][0], x[0][1] + 1), pr(x[1][0], x[1][1] + 1)});
            }
            auto y = w.expand(v, rv);
            for (size_t k = 0; k < rv.size(); ++k) d.rv.push_back({pr(y[0][k][0], y[0][k][1] + 1), pr(y[1][k][0], y[1][k][1] + 1)});
            auto z = w.expand(v, sdsl::range_vec_type(rv));
            for (size_t k = 0; k < rv.size(); ++k) d.rm.push_back({pr(z[0][k][0], z[0][k][1] + 1), pr(z[1][k][0], z[1][k][1] + 1)});
            d.left = q.size(); q.push_back(ch[0]);
            d.right = q.size(); q.push_back(ch[1]);
            r.push_back(d);
        }
        return r;
    }
};
template<class T, bool HAS> struct LexF {
    static pr quant(const T&, u64, u64, u64) { return pr(); }
    static std::pair<bool, u64> lte(const T&, u64) { return {}; }
    static std::pair<bool, u64> gte(const T&, u64) { return {}; }
    static vec ruv(const T&, u64, u64, u64, u64) { return {}; }
};
template<class T> struct LexF<T, true> {
    static pr quant(const T& w, u64 a, u64 b, u64 q) { auto r = sdsl::quantile_freq(w, a, b, q); return pr((u64)r.first, (u64)r.second); }
    static std::pair<bool, u64> lte(const T& w, u64 c) { auto r = sdsl::symbol_lte(w, c); return {r.first, (u64)r.second}; }
    static std::pair<bool, u64> gte(const T& w, u64 c) { auto r = sdsl::symbol_gte(w, c); return {r.first, (u64)r.second}; }
    static vec ruv(const T& w, u64 a, u64 b, u64 c, u64 d) { auto r = sdsl::restricted_unique_range_values(w, a, b, c, d); return vec(r.begin(), r.end()); }
};
template<class T> u64 idx(const T& w, u64 i, std::true_type) { return (u64)w[i]; }
template<class T> u64 idx(const T& w, u64 i, std::false_type) { return (u64)w.inverse_select(i).second; }
template<class T> vec iterf(const T& w, std::true_type)
{
    vec r;
    for (auto it = w.begin(); it != w.end(); ++it) r.push_back((u64)*it);
    return r;
}
template<class T> vec iterf(const T&, std::false_type) { return {}; }
template<class T> std::array<u64, 3> lcf(const T& w, u64 i, u64 j, u64 c, std::true_type) { auto t = w.lex_count(i, j, c); return {{std::get<0>(t), std::get<1>(t), std::get<2>(t)}}; }
template<class T> std::array<u64, 3> lcf(const T&, u64, u64, u64, std::false_type) { return {{0, 0, 0}}; }
template<class T> std::array<u64, 2> lsf(const T& w, u64 i, u64 c, std::true_type) { auto t = w.lex_smaller_count(i, c); return {{std::get<0>(t), std::get<1>(t)}}; }
template<class T> std::array<u64, 2> lsf(const T&, u64, u64, std::false_type) { return {{0, 0}}; }
template<class T> std::pair<u64, std::vector<pr>> r2f(const T& w, u64 a, u64 b, u64 c, u64 d, bool rep, std::true_type)
{
    auto x = w.range_search_2d(a, b, c, d, rep);
    std::vector<pr> p;
    for (auto& y : x.second) p.push_back(pr((u64)y.first, (u64)y.second));
    return {x.first, p};
}
template<class T> std::pair<u64, std::vector<pr>> r2f(const T&, u64, u64, u64, u64, bool, std::false_type) { return {}; }
template<class T> u64 sigf(const T& w, std::true_type) { return w.sigma; }
template<class T> u64 sigf(const T&, std::false_type) { return 0; }

template<class T> struct WObj : Obj {
    std::unique_ptr<T> p;
    explicit WObj(std::unique_ptr<T> q) : p(std::move(q)) {}
    u64 size() const override { return p->size(); }
    bool empty() const override { return p->empty(); }
    bool has_sigma() const override { return h_sigma<T>::value; }
    u64 sigma() const override { return sigf(*p, h_sigma<T>()); }
    u64 at(u64 i) const override { return idx(*p, i, h_idx<T>()); }
    u64 rank(u64 i, u64 c) const override { return p->rank(i, c); }
    u64 select(u64 i, u64 c) const override { return p->select(i, c); }
    pr invsel(u64 i) const override { auto r = p->inverse_select(i); return pr((u64)r.first, (u64)r.second); }
    bool has_iter() const override { return h_iter<T>::value; }
    vec iter() const override { return iterf(*p, h_iter<T>()); }
    bool lex() const override { return T::lex_ordered; }
    bool has_lc() const override { return h_lc<T>::value; }
    std::array<u64, 3> lex_count(u64 i, u64 j, u64 c) const override { return lcf(*p, i, j, c, h_lc<T>()); }
    std::array<u64, 2> lex_smaller(u64 i, u64 c) const override { return lsf(*p, i, c, h_lc<T>()); }
    bool has_is() const override { return h_node<T>::value; }
    IS isym(u64 i, u64 j, bool f) const override { return NodeF<T, h_node<T>::value>::isym(*p, i, j, f); }
    bool has_r2d() const override { return h_r2d<T>::value; }
    std::pair<u64, std::vector<pr>> r2d(u64 a, u64 b, u64 c, u64 d, bool rep) const override { return r2f(*p, a, b, c, d, rep, h_r2d<T>()); }
    bool has_nodes() const override { return h_node<T>::value; }
    std::vector<pr> intersect(const std::vector<pr>& q, u64 t) const override { return NodeF<T, h_node<T>::value>::inter(*p, q, t); }
    pr path(u64 c) const override { return NodeF<T, h_node<T>::value>::path(*p, c); }
    std::vector<NodeDump> nodes(tr::Rng& g) const override { return NodeF<T, h_node<T>::value>::nodes(*p, g); }
    pr quantile(u64 a, u64 b, u64 q) const override { return LexF<T, h_lexnode<T>::value>::quant(*p, a, b, q); }
    std::pair<bool, u64> lte(u64 c) const override { return LexF<T, h_lexnode<T>::value>::lte(*p, c); }
    std::pair<bool, u64> gte(u64 c) const override { return LexF<T, h_lexnode<T>::value>::gte(*p, c); }
    vec ruv(u64 a, u64 b, u64 c, u64 d) const override { return LexF<T, h_lexnode<T>::value>::ruv(*p, a, b, c, d); }
};
template<class T> std::unique_ptr<T> build(const vec& s, size_t prefix, bool im)
{
    enum { W = T::alphabet_category::WIDTH };
    std::unique_ptr<T> w(new T());
    sdsl::int_vector<W> iv(s.size(), 0, W ? W : 64);
    u64 mx = 0;
    for (size_t i = 0; i < s.size(); ++i) { iv[i] = s[i]; mx = std::max(mx, s[i]); }
    if (!W) sdsl::util::bit_compress((sdsl::int_vector<W>&)iv);
    if (im) sdsl::construct_im(*w, iv);
    else {
        std::string f = "@wtbuf" + std::to_string(sdsl::util::id());
        sdsl::store_to_file(iv, f);
        {
            sdsl::int_vector_buffer<W> buf(f, std::ios::in, 8192);
            T tmp(buf, prefix);
            w->swap(tmp);
        }
        sdsl::ram_fs::remove(f);
    }
    return w;
}
template<class T> const T& other()   // what the target of an assignment, swap or load held before
{
    static std::unique_ptr<T> o;
    if (!o) {
        vec v;
        for (int i = 0; i < 97; ++i) v.push_back((i * i + i / 3) % 5 + (i % 7 == 0) * 9);
        o = build<T>(v, v.size(), false);
    }
    return *o;
}
template<class T> std::unique_ptr<Obj> make(const vec& s, int mode)
{
    std::unique_ptr<T> r;
    if (mode == 7) {
        vec t(s);
        u64 mx = 0;
        for (u64 x : s) mx = std::max(mx, x);
        for (int i = 0; i < 5; ++i) t.push_back(i % 2 ? mx : 0);
        r = build<T>(t, s.size(), false);
    } else r = build<T>(s, s.size(), mode == 0);
    if (mode >= 1 && mode <= 6) {
        std::unique_ptr<T> d;
        switch (mode) {
            case 1: d.reset(new T(*r)); break;
            case 2: d.reset(new T(std::move(*r))); break;
            case 3: d.reset(new T(other<T>())); *d = *r; break;
            case 4: d.reset(new T(other<T>())); *d = std::move(*r); break;
            case 5: d.reset(new T(other<T>())); d->swap(*r); break;
            case 6: { std::stringstream ss; r->serialize(ss); d.reset(new T(other<T>())); d->load(ss); break; }
        }
        r = std::move(d);
    }
    return std::unique_ptr<Obj>(new WObj<T>(std::move(r)));
}
template<class T> void add(const std::string& name, u64 maxsym, u64 maxn = ~0ULL)
{
    impls().push_back(Impl{name, [](const vec& s, int mode) { return make<T>(s, mode); }, maxsym, maxn});
}
} // namespace wti
#endif
