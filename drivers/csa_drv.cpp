// C16: every view of the compressed suffix arrays
#include "text_inputs.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <memory>
using namespace sdsl;
using namespace txt;
static int uid = 0;
struct G {
    DGroup sa{"sa"}, isa{"isa"}, psi{"psi"}, lf{"lf"}, bwt{"bwt"}, first{"first"}, text{"text_cached"}, meta{"csameta"}, counts{"counts"}, maps{"maps"};
    std::vector<DGroup> rk, sl;
    std::vector<u64> syms;      // symbols asked for in rank and select
    std::vector<u64> ask;       // symbols asked for in char2comp
    void setup(const Text& x, tr::Rng& g, bool bytes) {
        std::set<u64> s;
        size_t k = digest() ? 2 : x.n() > 200 ? 3 : 6;
        s.insert(0); s.insert(x.tab.back());
        while (s.size() < std::min(k, x.tab.size())) s.insert(x.tab[g.below(x.tab.size())]);
        std::vector<u64> absent;
        for (u64 c : x.tab) for (u64 d : {c - 1, c + 1}) if (d && (bytes ? d < 256 : d < (1ULL << 62)) && x.code(d) < 0) absent.push_back(d);
        if (bytes) { for (u64 d : {1, 128, 255}) if (x.code(d) < 0) absent.push_back(d); }
        else for (u64 d : vec{1, 2 * x.tab.back() + 1, x.tab.back() + 1000000, 1ULL << 40, ~0ULL}) if (x.code(d) < 0) absent.push_back(d);
        for (int z = 0; z < (digest() ? 1 : 2) && !absent.empty(); ++z) s.insert(absent[g.below(absent.size())]);
        syms.assign(s.begin(), s.end());
        for (u64 c : x.tab) if (ask.size() < 300) ask.push_back(c);
        for (u64 c : absent) if (ask.size() < 340) ask.push_back(c);
        std::vector<long> codes;
        for (u64 c : ask) codes.push_back(x.code(c));
        maps.arg("ask", codes);
        for (u64 c : syms) {
            rk.push_back(DGroup("bwtrank")); rk.back().arg("c", x.code(c));
            sl.push_back(DGroup("bwtselect")); sl.back().arg("c", x.code(c));
            if (digest()) {     // large texts: the answers of scanning the BWT
                vec b = bwt_of(x), r(1, 0), q;
                for (size_t i = 0; i < b.size(); ++i) { bool is = (long)b[i] == x.code(c); r.push_back(r.back() + is); if (is) q.push_back(i); }
                q.push_back(b.size());
                rk.back().arg("ref", dig(r));
                if (q.size() > 1000) sl.back().arg("ref", dig(q)); else sl.back().arg("ref", q);
            }
        }
    }
    void done() {
        for (DGroup* g : {&sa, &isa, &psi, &lf, &bwt, &first, &text, &meta, &counts, &maps}) g->done();
        for (auto& g : rk) g.done();
        for (auto& g : sl) g.done();
    }
};
template<class V> static vec tov(const V& v) { vec r; for (size_t i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; }
template<class V> static vec iterv(const V& v) { vec r; for (auto it = v.begin(); it != v.end(); ++it) r.push_back(*it); return r; }
template<class V> static vec backv(const V& v) { vec r; auto it = v.end(); while (it != v.begin()) { --it; r.push_back(*it); } std::reverse(r.begin(), r.end()); return r; }
static std::vector<long> codes(const Text& x, const vec& v) { std::vector<long> r; for (u64 c : v) r.push_back(x.code(c)); return r; }
template<class C> static void show(const Text& x, const std::string& nm, const C& c, G& g, bool full = true)
{
    g.sa.add(nm, tov(c));
    g.meta.add(nm, vec{c.size(), c.empty(), (u64)c.sigma, c.psi.size(), c.lf.size(), c.bwt.size(), c.F.size(), c.L.size(), c.text.size(), c.isa.size()});
    g.isa.add(nm, tov(c.isa));
    g.psi.add(nm, tov(c.psi));
    g.lf.add(nm, tov(c.lf));
    g.bwt.add(nm, codes(x, tov(c.bwt)));
    g.first.add(nm, codes(x, tov(c.F)));
    g.text.add(nm, codes(x, tov(c.text)));
    vec cnt; for (u64 k = 0; k <= x.tab.size() && k <= (u64)c.sigma; ++k) cnt.push_back(c.C[k]);
    g.counts.add(nm, cnt);
    vec cc; for (u64 s : g.ask) cc.push_back(c.char2comp[(typename C::char_type)s]);
    vec cs; for (u64 k = 0; k < (u64)c.sigma && k < x.tab.size(); ++k) cs.push_back(c.comp2char[k]);
    g.maps.addj(nm, "{\"comp\":" + tr::jv(cc) + ",\"chr\":" + tr::jv(codes(x, cs)) + "}");
    for (size_t k = 0; k < g.syms.size(); ++k) {
        typename C::char_type s = g.syms[k];
        vec r; for (size_t i = 0; i <= c.size(); ++i) r.push_back(c.bwt.rank(i, s));
        g.rk[k].add(nm, r);
        vec q; for (size_t i = 1; i <= r.back() + 1 && i <= c.size() + 1; ++i) q.push_back(c.bwt.select(i, s));
        g.sl[k].add(nm, q);
    }
    if (!full) return;
    g.sa.add(nm + " it", iterv(c)); g.sa.add(nm + " back", backv(c));
    g.isa.add(nm + " it", iterv(c.isa));
    g.psi.add(nm + " it", iterv(c.psi)); g.psi.add(nm + " back", backv(c.psi));
    g.lf.add(nm + " it", iterv(c.lf));
    g.bwt.add(nm + " it", codes(x, iterv(c.bwt))); g.bwt.add(nm + " L", codes(x, iterv(c.L)));
    g.first.add(nm + " it", codes(x, iterv(c.F)));
    g.text.add(nm + " it", codes(x, iterv(c.text)));
}
template<class C> static void build(const Text& x, C& c, tr::Rng& g)
{
    const uint8_t W = C::alphabet_type::int_width;
    int m = g.below(4);
    if (m == 0) { if (W == 8) construct_im(c, x.str(), 1); else { auto v = as_iv<W>(x); v.resize(x.n() - 1); construct_im(c, v, 0); } return; }
    if (m == 1) { auto v = as_iv<W>(x); v.resize(x.n() - 1); construct_im(c, v, 0); return; }
    // through a cache directory, on disk or in memory
    std::string id = "c" + std::to_string(uid++), dir = m == 2 ? std::string("@") : tr::scratch, f = (m == 2 ? std::string("@") : tr::scratch + "/") + "in" + id;
    cache_config cc(true, dir, id);
    { auto v = as_iv<W>(x); v.resize(x.n() - 1); store_to_file(v, f); }
    int_vector<> sc(1 + g.below(3));      // symbols for BWT sampling
    for (size_t i = 0; i < sc.size(); ++i) sc[i] = x.tab[g.below(x.tab.size())];
    if (g.chance(2, 3)) store_to_cache(sc, conf::KEY_SAMPLE_CHAR, cc);
    construct(c, f, cc, 0);
    sdsl::remove(f);
    if (cache_file_exists(conf::KEY_SAMPLE_CHAR, cc)) sdsl::remove(cache_file_name(conf::KEY_SAMPLE_CHAR, cc));
}
template<class C> static void one(const Text& x, const std::string& nm, G& g, tr::Rng& rg)
{
    std::unique_ptr<C> c(new C);
    build(x, *c, rg);
    show(x, nm, *c, g, !digest() || tr::thorough);
    if (digest() && !tr::thorough) return;
    C used;
    if (rg.chance(1, 2)) { u64 m = std::max<u64>(2, x.tab.back()); Text y = make(vec{m, m, 1}, ""); build(y, used, rg); }
    switch (rg.below(6)) {
        case 0: { C m(*c); c.reset(); show(x, nm + " copy", m, g, false); break; }
        case 1: { C m(std::move(*c)); c.reset(); show(x, nm + " move", m, g, false); break; }
        case 2: { used.swap(*c); c.reset(); show(x, nm + " swap", used, g, false); break; }
        case 3: { std::string f = ram_file_name("csaf" + std::to_string(uid++)); store_to_file(*c, f); c.reset(); load_from_file(used, f); sdsl::remove(f); show(x, nm + " load", used, g, false); break; }
        case 4: { used = *c; c.reset(); show(x, nm + " assign", used, g, false); break; }
        case 5: { used = std::move(*c); c.reset(); show(x, nm + " moveassign", used, g, false); break; }
    }
}
typedef int_alphabet<> IA;
typedef succinct_byte_alphabet<> SA_;
typedef succinct_byte_alphabet<bit_vector, rank_support_v<>, select_support_mcl<>, int_vector<64>> SB;
typedef sa_order_sa_sampling<> SO; typedef text_order_sa_sampling<> TO; typedef text_order_sa_sampling<bit_vector> TOB; typedef fuzzy_sa_sampling<> FZ; typedef sa_bwt_sampling<> BW;
typedef isa_sampling<> IS; typedef text_order_isa_sampling_support<> TI; typedef fuzzy_isa_sampling_support<> FI;
#define ONE(...) one<__VA_ARGS__>(x, #__VA_ARGS__, o, g)
static void bytes(const Text& x, tr::Rng& g, bool small)
{
    G o;
    o.setup(x, g, true);
#if PART == 0
    ONE(csa_wt<>);
    ONE(csa_wt<wt_hutu<>, 8, 16, TO>);
    ONE(csa_wt<wt_blcd<rrr_vector<63>>, 4, 4, TO, TI>);
    ONE(csa_wt<wt_huff<>, 1, 1>);
    ONE(csa_wt<wt_huff<>, 3, 5, BW>);
    ONE(csa_wt<wt_ap<>, 16, 7, SO, IS, byte_alphabet>);
#elif PART == 1
    ONE(csa_wt<wt_huff<rrr_vector<15>>, 4, 4, FZ, FI>);
    ONE(csa_wt<wt_huff<>, 3, 5, FZ>);
    ONE(csa_wt<wt_huff<>, 7, 7, fuzzy_sa_sampling<bit_vector, bit_vector>, FI, SA_>);
    ONE(csa_wt<wt_rlmn<>, 5, 5, TOB, TI, SB>);
    ONE(csa_wt<wt_huff<>, 64, 64, sa_bwt_sampling<sd_vector<>>, IS, SA_>);
    ONE(csa_wt<wt_int<>, 9, 33, SO, IS, byte_alphabet>);
#elif PART == 2
    ONE(csa_sada<>);
    ONE(csa_sada<enc_vector<coder::fibonacci, 16>, 5, 7>);
    ONE(csa_sada<enc_vector<coder::elias_gamma, 4>, 4, 4, TO, TI>);
    ONE(csa_sada<enc_vector<coder::elias_delta, 2>, 4, 4, FZ, FI, SA_>);
    ONE(csa_sada<enc_vector<coder::elias_delta, 3>, 3, 5, TOB>);
#elif PART == 3
    if (!digest()) ONE(csa_sada<enc_vector<coder::elias_delta, 100000>, 6, 8, BW, IS, SB>);
    ONE(csa_sada<enc_vector<coder::comma<2>, 8>, 1, 1, FZ>);
    ONE(csa_bitcompressed<>);
    ONE(csa_bitcompressed<SA_>);
    ONE(csa_sada<enc_vector<coder::elias_delta, 64>, 64, 64, TO, TI, SB>);
#endif
    o.done();
}
static void ints(const Text& x, tr::Rng& g, bool small)
{
    G o;
    o.setup(x, g, false);
#if PART == 0
    ONE(csa_wt<wt_int<>, 32, 32, SO, IS, IA>);
    ONE(csa_wt<wt_int<rrr_vector<63>>, 4, 4, TO, TI, IA>);
    ONE(csa_wt<wt_gmr<>, 5, 3, TOB, IS, IA>);
#elif PART == 1
    ONE(csa_wt<wt_huff_int<>, 4, 4, FZ, FI, IA>);
    ONE(csa_wt<wt_ap<>, 7, 9, SO, IS, IA>);
    ONE(csa_wt<wt_int<>, 3, 6, BW, IS, IA>);
#elif PART == 2
    ONE(csa_sada<enc_vector<>, 32, 32, SO, IS, IA>);
    ONE(csa_sada<enc_vector<coder::fibonacci, 8>, 4, 4, TO, TI, IA>);
#elif PART == 3
    ONE(csa_bitcompressed<IA>);
    ONE(csa_sada<enc_vector<coder::elias_gamma, 3>, 4, 4, FZ, FI, IA>);
    ONE(csa_wt<wt_int<>, 2, 2, FZ, FI, int_alphabet<sd_vector<>>>);
#endif
    o.done();
}
static void reg()
{
    register_jobs(true, 60 + PART, tr::thorough ? 2 : 1, tr::thorough ? 6 : 5, 5, tr::thorough ? 2 : 4, bytes, 300);
    register_jobs(false, 70 + PART, tr::thorough ? 2 : 1, tr::thorough ? 5 : 4, 5, tr::thorough ? 2 : 4, ints, 300);
    if (tr::thorough) big_jobs("bytes ", 80 + PART, {{"rnd4", [](tr::Rng& g) { return ren(rnd(70000, 4, g), byte_sets()[tr::seed % 5]); }}}, bytes);
    big_jobs("bytes ", 84 + PART, {{"spread", [](tr::Rng& g) { return ren(spread(66000, 3000, 250, 200, g), range(2, 250)); }}}, bytes);
    big_jobs("ints ", 90 + PART, {{"spread", [](tr::Rng& g) { return ren(spread(67000, 3000, 250, 300, g), range(1, 900, 3)); }}}, ints);
    tr::job("default constructed", [] {
        csa_wt<> a; csa_sada<> b; csa_bitcompressed<> c; csa_wt<wt_int<>, 4, 4, TO, TI, IA> d;
        DGroup m("nothing");
        m.add("csa_wt", vec{a.size(), a.empty()}); m.add("csa_sada", vec{b.size(), b.empty()}); m.add("csa_bitcompressed", vec{c.size(), c.empty()}); m.add("csa_wt int", vec{d.size(), d.empty()});
        csa_wt<> e(a), f; f = std::move(a); f.swap(e);
        m.add("csa_wt copy", vec{e.size(), e.empty(), }); m.add("csa_wt move", vec{f.size(), f.empty()});
        m.done();
    });
}
TR_REGISTER(reg);
