// C15: LCP array constructions and LCP representations
#include "text_inputs.hpp"
#include <sdsl/construct.hpp>
#include <sdsl/construct_lcp.hpp>
#include <sdsl/construct_config.hpp>
#include <sdsl/lcp.hpp>
#include <sdsl/cst_sct3.hpp>
#include <sdsl/cst_sada.hpp>
#include <sdsl/csa_sada.hpp>
#include <sdsl/csa_wt.hpp>
#include <sdsl/csa_bitcompressed.hpp>
using namespace sdsl;
using namespace txt;
static int uid = 0;
template<class V> static vec tov(const V& v) { vec r; for (size_t i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; }
template<class V> static vec iterv(const V& v) { vec r; for (auto it = v.begin(); it != v.end(); ++it) r.push_back(*it); return r; }
struct G { DGroup lcp{"lcp"}, meta{"lcpmeta"}; void done() { lcp.done(); meta.done(); } };
template<uint8_t W> static void fill_cache(const Text& x, cache_config& cc)
{
    auto v = as_iv<W>(x);
    store_to_cache(v, key_text_trait<W>::KEY_TEXT, cc);
    int_vector<> sa(x.n(), 0, bits::hi(x.n()) + 1);
    for (size_t i = 0; i < x.n(); ++i) sa[i] = x.sa[i];
    store_to_cache(sa, conf::KEY_SA, cc);
    int_vector<W> b(x.n(), 0, v.width());
    for (size_t i = 0; i < x.n(); ++i) b[i] = v[(x.sa[i] + x.n() - 1) % x.n()];
    store_to_cache(b, key_bwt_trait<W>::KEY_BWT, cc);
}
template<uint8_t W> static void algo(const Text& x, const std::string& name, void (*f)(cache_config&), bool ram, G& g)
{
    cache_config cc(true, ram ? "@" : tr::scratch, "l" + std::to_string(uid++));
    fill_cache<W>(x, cc);
    f(cc);
    int_vector<> r;
    load_from_cache(r, conf::KEY_LCP, cc);
    g.lcp.add(name + (ram ? " ram" : " disk"), tov(r));
    util::delete_all_files(cc.file_map);
}
template<class L> static void show(const std::string& name, const L& l, G& g)
{
    g.lcp.add(name, tov(l));
    g.lcp.add(name + " iter", iterv(l));
    g.meta.add(name, vec{l.size(), l.empty() ? 1u : 0u});
}
template<class L> static void modes(const std::string& name, L& l, G& g, tr::Rng& rg)
{
    show(name, l, g);
    switch (rg.below(4)) {
        case 0: { L m(l); { L d; d.swap(l); } show(name + " copy", m, g); break; }
        case 1: { L m(std::move(l)); show(name + " move", m, g); break; }
        case 2: { L m; m.swap(l); show(name + " swap", m, g); break; }
        case 3: { std::string f = ram_file_name("lcpf" + std::to_string(uid++)); store_to_file(l, f); L m; load_from_file(m, f); sdsl::remove(f); show(name + " load", m, g); break; }
    }
}
// a plain representation, built from a cached LCP array and through construct()
template<class L> static void rep(const Text& x, const std::string& name, G& g, tr::Rng& rg)
{
    cache_config cc(true, "@", "r" + std::to_string(uid++));
    int_vector<> a(x.n(), 0, 64);
    for (size_t i = 0; i < x.n(); ++i) a[i] = x.lcp[i];
    if (rg.chance(1, 2)) util::bit_compress(a);
    store_to_cache(a, conf::KEY_LCP, cc);
    L l(cc);
    modes(name, l, g, rg);
    util::delete_all_files(cc.file_map);
}
template<class L, uint8_t W> static void viac(const Text& x, const std::string& name, G& g, tr::Rng& rg)
{
    L l;
    if (W == 8) construct_im(l, x.str(), 1);
    else { auto v = as_iv<0>(x); v.resize(x.n() - 1); construct_im(l, v, 0); }
    modes(name + " construct", l, g, rg);
}
template<class CST> static void viacst(const Text& x, const std::string& name, G& g, tr::Rng& rg)
{
    const uint8_t W = CST::alphabet_category::WIDTH;
    CST c;
    if (W == 8 && rg.chance(1, 2)) construct_im(c, x.str(), 1);
    else { auto v = as_iv<W>(x); v.resize(x.n() - 1); construct_im(c, v, 0); }
    show(name, c.lcp, g);
    switch (rg.below(4)) {
        case 0: { CST m(c); { CST d; d.swap(c); } show(name + " copy", m.lcp, g); break; }
        case 1: { CST m(std::move(c)); show(name + " move", m.lcp, g); break; }
        case 2: { CST m; m.swap(c); show(name + " swap", m.lcp, g); break; }
        case 3: { std::string f = ram_file_name("cstf" + std::to_string(uid++)); store_to_file(c, f); CST m; load_from_file(m, f); sdsl::remove(f); show(name + " load", m.lcp, g); break; }
    }
}
#if PART == 0
static void bytes(const Text& x, tr::Rng& g, bool small)
{
    G o;
    bool r = g.chance(1, 2);
    typedef std::pair<const char*, void(*)(cache_config&)> A;
    std::vector<A> as = {A("kasai", construct_lcp_kasai<8>), A("PHI", construct_lcp_PHI<8>), A("semi_extern_PHI", construct_lcp_semi_extern_PHI), A("go", construct_lcp_go),
                         A("goPHI", construct_lcp_goPHI), A("bwt_based", construct_lcp_bwt_based), A("bwt_based2", construct_lcp_bwt_based2)};
    for (auto& a : as) { algo<8>(x, a.first, a.second, r, o); if (!small) algo<8>(x, a.first, a.second, !r, o); }
    algo<0>(x, "kasai<0>", construct_lcp_kasai<0>, r, o);
    algo<0>(x, "PHI<0>", construct_lcp_PHI<0>, !r, o);
    o.done();
}
static void ints(const Text& x, tr::Rng& g, bool small)
{
    G o;
    bool r = g.chance(1, 2);
    algo<0>(x, "kasai<0>", construct_lcp_kasai<0>, r, o); algo<0>(x, "PHI<0>", construct_lcp_PHI<0>, r, o);
    if (!small) { algo<0>(x, "kasai<0>", construct_lcp_kasai<0>, !r, o); algo<0>(x, "PHI<0>", construct_lcp_PHI<0>, !r, o); }
    o.done();
}
static void reg()
{
    register_jobs(true, 21, tr::thorough ? 2 : 1, tr::thorough ? 7 : 6, 6, tr::thorough ? 1 : 4, bytes);
    register_jobs(false, 22, tr::thorough ? 2 : 1, tr::thorough ? 6 : 5, 6, 3, ints);
    // larger texts: interval queue and dictionary of the BWT based algorithms, several phases, big buffers
    for (int k = 0; k < (tr::thorough ? 12 : 6); ++k)
        tr::job("bytes large " + std::to_string(k), [=] {
            tr::Rng g(tr::seed * 17 + k);
            size_t n = tr::thorough ? 9000 + g.below(4000) : 4500 + g.below(1000);
            vec s = byte_sets()[g.below(5)], c;
            switch (k % 6) {
                case 0: c = ren(rnd(n, 4, g), s); break;
                case 1: c = vec(n, s[1]); break;
                case 2: c = ren(mutcopy(n, n / 3, 4, 4, g), s); break;
                case 3: c = ren(runs(n, 4, g), s); break;
                case 4: c = ren(rnd(n, 255, g), range(1, 255)); break;
                case 5: c = ren(fib(n), s); break;
            }
            Text x = make(c, "large");
            emit(x);
            bytes(x, g, true);
        }, 300);
    big_jobs("bytes ", 73, {{"rnd4", [](tr::Rng& g) { return ren(rnd(140000, 4, g), byte_sets()[tr::seed % 5]); }},
                            {"spread", [](tr::Rng& g) { return ren(spread(70000, 3000, 250, 4, g), byte_sets()[(tr::seed + 1) % 5]); }},
                            {"long", [](tr::Rng& g) { return ren(mutcopy(12500, 2500, 4, 2, g), byte_sets()[(tr::seed + 2) % 5]); }}}, bytes);
    big_jobs("ints ", 74, {{"spread", [](tr::Rng& g) { return ren(spread(70000, 3000, 250, 300, g), range(1, 900, 3)); }}}, ints);
}
#elif PART == 1
static void bytes(const Text& x, tr::Rng& g, bool small)
{
    G o;
    rep<lcp_bitcompressed<>>(x, "lcp_bitcompressed", o, g);
    rep<lcp_byte<>>(x, "lcp_byte", o, g);
    rep<lcp_wt<>>(x, "lcp_wt", o, g);
    rep<lcp_vlc<>>(x, "lcp_vlc", o, g);
    rep<lcp_dac<>>(x, "lcp_dac", o, g);
    rep<lcp_dac<8>>(x, "lcp_dac<8>", o, g);
    rep<lcp_dac_dp<>>(x, "lcp_dac_dp", o, g);
    if (!small || g.chance(1, 4)) {
        viac<lcp_bitcompressed<>, 8>(x, "lcp_bitcompressed", o, g);
        viac<lcp_byte<>, 8>(x, "lcp_byte", o, g);
        viac<lcp_wt<>, 8>(x, "lcp_wt", o, g);
        viac<lcp_vlc<>, 8>(x, "lcp_vlc", o, g);
        viac<lcp_dac<>, 8>(x, "lcp_dac", o, g);
    }
    o.done();
}
static void ints(const Text& x, tr::Rng& g, bool small)
{
    G o;
    viac<lcp_bitcompressed<>, 0>(x, "lcp_bitcompressed", o, g);
    viac<lcp_byte<>, 0>(x, "lcp_byte", o, g);
    viac<lcp_wt<>, 0>(x, "lcp_wt", o, g);
    viac<lcp_vlc<>, 0>(x, "lcp_vlc", o, g);
    viac<lcp_dac<>, 0>(x, "lcp_dac", o, g);
    o.done();
}
static void reg()
{
    big_jobs("bytes ", 75, {{"spread", [](tr::Rng& g) { return ren(spread(70000, 3000, 400, 4, g), byte_sets()[(tr::seed + 1) % 5]); }}}, bytes);
    register_jobs(true, 31, tr::thorough ? 2 : 1, 5, 6, 3, bytes);
    register_jobs(false, 32, tr::thorough ? 2 : 1, 4, 6, 3, ints);
}
#else
static void bytes(const Text& x, tr::Rng& g, bool small)
{
    G o;
#if PART == 2
    viacst<cst_sct3<csa_wt<>, lcp_support_sada<>>>(x, "sct3/support_sada", o, g);
    viacst<cst_sct3<csa_sada<>, lcp_support_tree<>>>(x, "sct3/support_tree", o, g);
    viacst<cst_sct3<csa_wt<>, lcp_support_tree2<>>>(x, "sct3/support_tree2", o, g);
    viacst<cst_sct3<csa_sada<>, lcp_support_tree2<4>>>(x, "sct3/support_tree2<4>", o, g);
    viacst<cst_sct3<csa_wt<>, lcp_support_tree<lcp_dac<>>>>(x, "sct3/support_tree<dac>", o, g);
#else
    viacst<cst_sada<csa_sada<>, lcp_support_sada<>>>(x, "sada/support_sada", o, g);
    viacst<cst_sada<csa_wt<>, lcp_dac<>>>(x, "sada/dac", o, g);
    viacst<cst_sada<csa_wt<>, lcp_support_tree<>>>(x, "sada/support_tree", o, g);
    viacst<cst_sada<csa_wt<>, lcp_support_tree2<>>>(x, "sada/support_tree2", o, g);
    viacst<cst_sct3<csa_bitcompressed<>, lcp_support_sada<sd_vector<>>>>(x, "sct3/support_sada<sd>", o, g);
#endif
    o.done();
}
static void ints(const Text& x, tr::Rng& g, bool small)
{
    G o;
#if PART == 2
    viacst<cst_sct3<csa_wt<wt_int<>, 32, 64, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>, lcp_support_tree2<>>>(x, "int sct3/support_tree2", o, g);
    viacst<cst_sct3<csa_sada<enc_vector<>, 32, 64, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>, lcp_support_sada<>>>(x, "int sct3/support_sada", o, g);
#else
    viacst<cst_sada<csa_bitcompressed<int_alphabet<>>, lcp_support_tree<lcp_vlc<>>>>(x, "int sada/support_tree<vlc>", o, g);
#endif
    o.done();
}
static void reg()
{
    big_jobs("bytes ", 76, {{"spread", [](tr::Rng& g) { return ren(spread(70000, 3000, 400, 4, g), byte_sets()[(tr::seed + 1) % 5]); }}}, bytes);
    register_jobs(true, 40 + PART, tr::thorough ? 2 : 1, 5, 4, 4, bytes);
    register_jobs(false, 50 + PART, tr::thorough ? 2 : 1, 3, 4, 3, ints);
}
#endif
TR_REGISTER(reg);
