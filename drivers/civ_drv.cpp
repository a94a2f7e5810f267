// C06 (vectors): enc_vector, vlc_vector, dac_vector, dac_vector_dp.
#include "tr.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/enc_vector.hpp>
#include <sdsl/vlc_vector.hpp>
#include <sdsl/dac_vector.hpp>
#include <sdsl/rank_support.hpp>
#include <sdsl/rrr_vector.hpp>
#include <sdsl/sd_vector.hpp>
#include <sstream>
using namespace sdsl;
typedef uint64_t u64;
typedef std::vector<u64> vec;

struct Out { tr::Group meta{"meta"}, all{"all"}, iter{"iter"}, samp{"samples"}; };

template<class V> auto samples(const V& v, std::string& o, u64 dens, int) -> decltype(v.get_inter_sampled_values(0, (u64*)0), void())
{
    o = "[";
    for (u64 s = 0; s * dens < v.size(); ++s) {
        if (s) o += ',';
        u64 m = std::min<u64>(dens, v.size() - s * dens);
        std::vector<u64> t(dens + 2, 0xabcdef);
        v.get_inter_sampled_values(s, t.data());
        for (u64 i = 0; i < m; ++i) t[i] += v.sample(s);
        t.resize(m);
        o += tr::limbvec(t).s;
    }
    o += "]";
}
template<class V> void samples(const V&, std::string&, u64, long) {}

template<class V>
std::unique_ptr<V> arrive(std::unique_ptr<V> a, int mode)
{
    std::vector<u64> ov = {9, 3, 70000, 1, 1, 1, 8};
    switch (mode) {
        case 1: { std::unique_ptr<V> b(new V(*(const V*)a.get())); a.reset(); return b; }
        case 2: { std::unique_ptr<V> b(new V(std::move(*a))); a.reset(); return b; }
        case 3: { std::unique_ptr<V> b(new V(ov)); *b = *(const V*)a.get(); a.reset(); return b; }
        case 4: { std::unique_ptr<V> b(new V(ov)); *b = std::move(*a); a.reset(); return b; }
        case 5: { std::unique_ptr<V> b(new V(ov)); b->swap(*a); a.reset(); return b; }
        case 6: { std::stringstream ss; a->serialize(ss); std::unique_ptr<V> b(new V()); b->load(ss); a.reset(); return b; }
        case 7: { std::stringstream ss; a->serialize(ss); std::unique_ptr<V> b(new V(ov)); b->load(ss); a.reset(); return b; }
        default: return a;
    }
}
template<class V>
void look(const std::string& name, const V& v, u64 dens, Out& o)
{
    o.meta.add(name, vec{v.size(), (u64)v.empty()});
    vec r;
    for (u64 i = 0; i < v.size() && i < 100000; ++i) r.push_back(v[i]);
    o.all.addj(name, tr::limbvec(r).s);
    vec t(v.begin(), v.end());
    for (u64 k = 1; k < t.size(); k += 7) { auto it = v.begin() + k; t[k - 1] = *(it - 1); t[k] = it[0]; }
    if ((u64)(v.end() - v.begin()) != v.size()) t.push_back(0);
    o.iter.addj(name, tr::limbvec(t).s);
    if (dens) { std::string s; samples(v, s, dens, 0); if (!s.empty()) o.samp.addj(name, s); }
}
static vec cur;
static u64 curmax;
static int cnt;
template<class V, class F>
void build(const std::string& name, u64 dens, Out& o, const char* form, F f)
{
    int mode = cnt++ % 8;
    std::unique_ptr<V> v = arrive<V>(f(), mode);
    look(name + "/" + form + "/m" + std::to_string(mode), *v, dens, o);
}
template<class V>
void forms(const std::string& name, u64 dens, Out& o, bool buf, tr::Rng& g)
{
    build<V>(name, dens, o, "vec64", [&] { return std::unique_ptr<V>(new V(cur)); });
    if (g.chance(1, 2)) {
        int_vector<> iv(cur.size(), 0, g.in(bits::hi(curmax | 1) + 1, 64));
        for (u64 i = 0; i < cur.size(); ++i) iv[i] = cur[i];
        build<V>(name, dens, o, "int_vector", [&] { return std::unique_ptr<V>(new V(iv)); });
    }
    if (curmax <= 0xffffffffULL - 1 && g.chance(1, 3)) {
        std::vector<uint32_t> w(cur.begin(), cur.end());
        build<V>(name, dens, o, "vec32", [&] { return std::unique_ptr<V>(new V(w)); });
    }
    if (curmax <= 0xff && g.chance(1, 2)) {
        std::vector<uint8_t> w(cur.begin(), cur.end());
        build<V>(name, dens, o, "vec8", [&] { return std::unique_ptr<V>(new V(w)); });
    }
    (void)buf;
}
template<class V>
void buffered(const std::string& name, u64 dens, Out& o, tr::Rng& g)
{
    int_vector<> iv(cur.size(), 0, g.in(bits::hi(curmax | 1) + 1, 64));
    for (u64 i = 0; i < cur.size(); ++i) iv[i] = cur[i];
    std::string f = (g.chance(1, 2) ? "@buf" : tr::scratch + "/buf");
    store_to_file(iv, f);
    {
        int_vector_buffer<> b(f, std::ios::in, 64 + 8 * g.below(40));
        build<V>(name, dens, o, "buffer", [&] { return std::unique_ptr<V>(new V(b)); });
    }
    sdsl::remove(f);
}
template<class V>
void both(const std::string& name, u64 dens, Out& o, tr::Rng& g) { forms<V>(name, dens, o, true, g); if (g.chance(1, 3)) buffered<V>(name, dens, o, g); }

enum { SMALL, DESC, ASC, MIX, BIG, CONST, PERM, SPIKE, BYTE, ZERO, NK };
static vec values(int kind, u64 n, tr::Rng& g)
{
    vec v(n);
    u64 a = 0;
    for (u64 i = 0; i < n; ++i) switch (kind) {
        case SMALL: v[i] = g.below(10); break;
        case DESC: v[i] = (n - i) * 3 + g.below(3); break;
        case ASC: a += g.chance(1, 9) ? g.below(1000) : 1; v[i] = a; break;
        case MIX: v[i] = g.next() >> g.below(64); break;
        case BIG: v[i] = ~0ULL - 1 - g.below(1000); break;
        case CONST: v[i] = 5; break;
        case PERM: v[i] = (i * 7919 + 13) % (n + 1); break;
        case SPIKE: v[i] = g.chance(1, 12) ? g.next() >> g.below(60) : g.below(3); break;
        case BYTE: v[i] = g.below(256); break;
        default: v[i] = g.chance(1, 20) ? 1 : 0; break;
    }
    for (u64& x : v) if (x == ~0ULL) --x;      // 2^64-1 is documented as not encodable by vlc_vector
    return v;
}
static void one(int kind, u64 n, u64 seed)
{
    tr::Rng g(seed);
    for (unsigned rep = 0; rep < (tr::thorough ? 10 : 2); ++rep) {
        cur = values(kind, n, g);
        curmax = 0;
        for (u64 x : cur) curmax = std::max(curmax, x);
        cnt = g.below(8);
        tr::emit(tr::Ev("case").f("kind", "vec").f("n", n).f("v", tr::limbvec(cur)).f("ps", tr::J{"[]"}));
        Out o;
        typedef coder::elias_delta D; typedef coder::elias_gamma G; typedef coder::fibonacci F;
#if PART == 0
        {   // sampling densities differ, so that the samples event is per density
#define ENC(C, d, w) { both<enc_vector<C, d, w>>("enc_vector<" #C "," #d "," #w ">", d, o, g); o.samp.arg("dens", d); o.samp.done(); o.samp = tr::Group("samples"); }
            ENC(D, 128, 0) ENC(D, 2, 0) ENC(D, 3, 64) ENC(D, 17, 0) ENC(F, 2, 0) ENC(F, 32, 0) ENC(F, 128, 0) ENC(G, 5, 0) ENC(G, 128, 0)
            ENC(coder::comma<2>, 16, 0) ENC(coder::comma<8>, 7, 64)
            if (curmax < 0xffff0000ULL) { ENC(D, 64, 32) ENC(F, 9, 32) }
        }
#endif
#if PART == 1
#define VLC(C, d, w) both<vlc_vector<C, d, w>>("vlc_vector<" #C "," #d "," #w ">", 0, o, g);
        VLC(D, 128, 0) VLC(D, 2, 0) VLC(F, 16, 0) VLC(F, 2, 0) VLC(G, 7, 0) VLC(G, 64, 0) VLC(coder::comma<>, 5, 0) VLC(coder::comma<16>, 33, 0) VLC(D, 3, 0)
#endif
#if PART == 2
#define DAC(b, r) both<dac_vector<b, r>>("dac_vector<" #b "," #r ">", 0, o, g);
        DAC(4, rank_support_v5<>) DAC(1, rank_support_v5<>) DAC(2, rank_support_v<>) DAC(3, rank_support_v5<>) DAC(7, rank_support_v<>) DAC(8, rank_support_v5<>) DAC(16, rank_support_v5<>) DAC(32, rank_support_v5<>) DAC(63, rank_support_v5<>)
        forms<dac_vector_dp<>>("dac_vector_dp<bit_vector>", 0, o, false, g);
        forms<dac_vector_dp<rrr_vector<>>>("dac_vector_dp<rrr>", 0, o, false, g);
        forms<dac_vector_dp<sd_vector<>>>("dac_vector_dp<sd>", 0, o, false, g);
        for (int lv = 1; lv <= 5; ++lv) build<dac_vector_dp<>>("dac_vector_dp<bit_vector>", 0, o, ("levels" + std::to_string(lv)).c_str(), [&] { return std::unique_ptr<dac_vector_dp<>>(new dac_vector_dp<>(cur, lv)); });
#endif
        o.meta.done(); o.all.done(); o.iter.done();
    }
}
static void reg()
{
    u64 s = tr::seed * 7577;
    for (int k = 0; k < NK; ++k) for (u64 n : {0, 1, 2, 3, 16, 17, 33, 128, 129, 300})
        tr::job("vec" + std::to_string(PART) + "/" + std::to_string(k) + "/" + std::to_string(n), [=] { one(k, n, s + k * 100 + n); });
    for (int k : {SMALL, MIX, SPIKE, BYTE, DESC}) tr::job("vec" + std::to_string(PART) + "/" + std::to_string(k) + "/3000", [=] { one(k, 3000, s + k); });
}
TR_REGISTER(reg);
