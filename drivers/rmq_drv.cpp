// C20: range-minimum and range-maximum structures.
#include "tr.hpp"
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
#include <sstream>
#include <memory>
using namespace sdsl;
typedef uint64_t u64;
typedef std::pair<u64, u64> P;
typedef rank_support_v5<> R5;
typedef select_support_mcl<> SM;
template<uint32_t k> using NN = nearest_neighbour_dictionary<k>;
typedef std::vector<P> Q;
template<class R> static std::string ask(const R& r, const Q& q)
{
    std::string s = "[";
    for (size_t i = 0; i < q.size(); ++i) { if (i) s += ","; s += tr::jv(r(q[i].first, q[i].second)); }
    return s + "]";
}
struct Out { tr::Group size{"size"}, mn{"rmq"}, mx{"rmq"}; };
// structures that do without the sequence: it is gone when the queries are asked
template<class R, class V> static void succinct(const V& v, const Q& q, Out& o, bool max, const std::string& nm, int how)
{
    std::unique_ptr<V> w(new V(v));
    R r(w.get());
    for (size_t i = 0; i < w->size(); ++i) (*w)[i] = i % 3;
    w.reset();
    R x;
    if (how == 1) { std::stringstream s; r.serialize(s); x.load(s); }
    else if (how == 2) { R y(r); x = std::move(y); }
    else if (how == 3) { x = r; R y; y.swap(x); x.swap(y); }
    const R& t = how ? x : r;
    static const char* H[] = {"", "/loaded", "/moved", "/swapped"};
    o.size.add(nm + H[how], t.size());
    (max ? o.mx : o.mn).addj(nm + H[how], ask(t, q));
}
template<bool mn, class V> static void table(const V& v, const Q& q, Out& o, const std::string& nm, int how)
{
    typedef rmq_support_sparse_table<V, mn> R;
    R r(&v), x;
    if (how == 1) { std::stringstream s; r.serialize(s); x.load(s, &v); }
    else if (how == 2) { R y(r); x = std::move(y); x.set_vector(&v); }
    else if (how == 3) { x = r; R y; y.swap(x); y.set_vector(&v); x = y; }
    const R& t = how ? x : r;
    static const char* H[] = {"", "/loaded", "/moved", "/swapped"};
    o.size.add(nm + H[how], t.size());
    (mn ? o.mn : o.mx).addj(nm + H[how], ask(t, q));
}
static Q queries(tr::Rng& g, size_t n, size_t limit)
{
    Q q;
    if (n <= 40) { for (size_t l = 0; l < n; ++l) for (size_t r = l; r < n; ++r) q.push_back({l, r}); return q; }
    for (size_t i = 0; i < limit; ++i) {
        u64 l = g.below(n), r = g.below(n);
        switch (g.below(6)) {
        case 0: r = l; break;
        case 1: r = std::min<u64>(n - 1, l + g.below(10)); break;
        case 2: { size_t k = 1ULL << g.below(14); l = std::min<u64>(n - 1, k * g.below(n / k + 1) + g.below(3)); r = std::min<u64>(n - 1, l + k - 1 + g.below(3)); break; }
        case 3: l = 0; break;
        case 4: r = n - 1; break;
        default: ;
        }
        if (l > r) std::swap(l, r);
        q.push_back({l, r});
    }
    q.push_back({0, n - 1});
    return q;
}
#ifndef PART
#define PART 0
#define PARTS 1
#endif
// ranks with a strictly increasing table of values: elements of any width
static void run(tr::Rng& g, const std::vector<int>& rk, int how, size_t limit)
{
    size_t n = rk.size();
    int top = 0;
    for (int x : rk) top = std::max(top, x);
    int kind = g.below(5);
    std::vector<u64> val(top + 1);
    for (int i = 0; i <= top; ++i)
        switch (kind) {
        case 0: val[i] = i; break;
        case 1: val[i] = ~0ULL - (top - i); break;
        case 2: val[i] = 0x7ffffffffffffffeULL + i - top / 2; break;
        case 3: val[i] = (u64)i << (60 - bits::hi(top + 1)); break;
        default: val[i] = i ? val[i - 1] + 1 + g.below(1ULL << g.below(40)) : 0;
        }
    tr::emit(tr::Ev("array").f("v", rk).f("kind", kind));
    int_vector<> iv(n, 0, 64);
    for (size_t i = 0; i < n; ++i) iv[i] = val[rk[i]];
    if (g.chance(1, 2)) util::bit_compress(iv);
    std::vector<u64> sv(iv.begin(), iv.end());
    int_vector<64> i64(n);
    for (size_t i = 0; i < n; ++i) i64[i] = sv[i];
    Q q = queries(g, n, limit);
    Out o;
    o.mn.arg("max", 0).arg("q", q);
    o.mx.arg("max", 1).arg("q", q);
    int k = 0;
#define S_(...) if (k++ % PARTS == PART) __VA_ARGS__
    S_(succinct<rmq_succinct_sct<>>(iv, q, o, false, "sct<int_vector>", how));
    S_(succinct<rmq_succinct_sada<>>(iv, q, o, false, "sada<int_vector>", how));
    S_(succinct<rmq_succinct_sct<false>>(sv, q, o, true, "sct max<vector>", how));
    S_(succinct<rmq_succinct_sada<false>>(sv, q, o, true, "sada max<vector>", how));
    S_(table<true>(iv, q, o, "table<int_vector>", how));
    S_(table<false>(iv, q, o, "table max<int_vector>", how));
    S_(succinct<range_maximum_sct<>::type>(i64, q, o, true, "range_maximum_sct", how));
    S_(table<true>(i64, q, o, "table<int_vector<64>>", how));
    S_(succinct<rmq_succinct_sct<true, bp_support_gg<>>>(iv, q, o, false, "sct gg", how));
    S_(succinct<rmq_succinct_sct<true, bp_support_g<>>>(iv, q, o, false, "sct g", how));
    S_(succinct<rmq_succinct_sct<false, bp_support_gg<NN<4>, R5, SM, 16>>>(iv, q, o, true, "sct gg16 max", how));
    S_(succinct<rmq_succinct_sct<false, bp_support_g<NN<4>, R5, SM, range_maximum_support_sparse_table<>, 16>>>(iv, q, o, true, "sct g16 max", how));
    S_(succinct<rmq_succinct_sct<true, bp_support_sada<16, 2>>>(i64, q, o, false, "sct sada16", how));
    S_(succinct<rmq_succinct_sada<true, bp_support_sada<16, 2>>>(i64, q, o, false, "sada sada16", how));
    S_(succinct<rmq_succinct_sada<false, bp_support_sada<32, 4, rank_support_v<>, select_support_scan<>>>>(i64, q, o, true, "sada sada32 max", how));
    S_(table<false>(i64, q, o, "table max<int_vector<64>>", how));
    S_(table<true>(sv, q, o, "table<vector>", how));
    o.size.done(); o.mn.done(); o.mx.done();
}
static std::vector<int> array(tr::Rng& g, size_t n)
{
    std::vector<int> v(n);
    int c = g.below(10), k = 1 + g.below(c == 9 ? 2 : 40);
    int period = 1 + g.below(60);
    for (size_t i = 0; i < n; ++i)
        switch (c) {
        case 0: v[i] = 7; break;
        case 1: v[i] = i; break;
        case 2: v[i] = n - i; break;
        case 3: v[i] = i / period; break;
        case 4: v[i] = (n - i) / period; break;
        case 5: v[i] = i % period; break;
        case 6: v[i] = period - i % period; break;
        case 7: v[i] = i < n / 2 ? n / 2 - i : i - n / 2; break;
        case 8: v[i] = g.below(n + 1); break;
        default: v[i] = g.below(k);
        }
    if (c < 8) for (size_t i = 0, m = g.below(4); n && i < m; ++i) v[g.below(n)] = g.below(n + 1);
    return v;
}
static void reg()
{
    bool th = tr::thorough;
    for (int i = 0; i < (th ? 200 : 30); ++i)
        tr::job("small/" + std::to_string(i), [=] { tr::Rng g(tr::seed * 61 + i); for (int k = 0; k < 12; ++k) run(g, array(g, i == 0 ? k : g.below(45)), k % 4, 300); }, 60);
    for (int i = 0; i < (th ? 100 : 20); ++i)
        tr::job("middle/" + std::to_string(i), [=] { tr::Rng g(tr::seed * 67 + i); for (int k = 0; k < 2; ++k) run(g, array(g, 40 + g.below(i % 2 ? 200 : 2000)), (i + k) % 4, 500); }, 60);
    for (int i = 0; i < (th ? 40 : 8); ++i)
        tr::job("large/" + std::to_string(i), [=] { tr::Rng g(tr::seed * 71 + i); run(g, array(g, 6000 + g.below(20000)), i % 4, 1200); }, 100);
}
TR_REGISTER(reg);
