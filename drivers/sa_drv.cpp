// C14: suffix array, inverse suffix array and BWT constructions
#include "text_inputs.hpp"
#include <sdsl/construct_sa.hpp>
#include <sdsl/construct_bwt.hpp>
#include <sdsl/construct_isa.hpp>
#include <sdsl/construct_config.hpp>
#include <sdsl/qsufsort.hpp>
using namespace sdsl;
using namespace txt;
template<class V> static vec tov(const V& v) { vec r; for (size_t i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; }
template<class V> static std::vector<long> codes(const Text& x, const V& v) { std::vector<long> r; for (size_t i = 0; i < v.size(); ++i) r.push_back(x.code(v[i])); return r; }
struct G { DGroup sa{"sa"}, isa{"isa"}, bwt{"bwt"}, txt{"text_cached"}; void done() { sa.done(); isa.done(); bwt.done(); txt.done(); } };
static int uid = 0;
// the cached pipeline: text -> SA -> ISA, BWT
template<uint8_t W> static void pipeline(const Text& x, const std::string& name, bool ram, byte_sa_algo_type algo, uint8_t width, G& g)
{
    cache_config cc(true, ram ? "@" : tr::scratch, "c" + std::to_string(uid++));
    if (W == 8) construct_config::byte_algo_sa = algo;
    { auto v = as_iv<W>(x, width); store_to_cache(v, key_text_trait<W>::KEY_TEXT, cc); }
    construct_sa<W>(cc);
    int_vector<> sa; load_from_cache(sa, conf::KEY_SA, cc);
    g.sa.add(name, tov(sa));
    construct_bwt<W>(cc);
    int_vector<W> b; load_from_cache(b, key_bwt_trait<W>::KEY_BWT, cc);
    g.bwt.add(name, codes(x, b));
    construct_isa(cc);
    int_vector<> isa; load_from_cache(isa, conf::KEY_ISA, cc);
    g.isa.add(name, tov(isa));
    int_vector<W> t; load_from_cache(t, key_text_trait<W>::KEY_TEXT, cc);
    g.txt.add(name, codes(x, t));
    util::delete_all_files(cc.file_map);
}
template<uint8_t W> static void calc(const Text& x, uint8_t width, G& g)
{
    auto v = as_iv<8>(x);
    int_vector<W> sa(x.n(), 0, width);
    algorithm::calculate_sa((const unsigned char*)v.data(), x.n(), sa);
    g.sa.add("calculate_sa<" + std::to_string(W) + "> w" + std::to_string(width), tov(sa));
}
static void bytes(const Text& x, tr::Rng& g, bool small)
{
    G o;
    pipeline<8>(x, "divsufsort disk", false, LIBDIVSUFSORT, 0, o);
    pipeline<8>(x, "se_sais ram", true, SE_SAIS, 0, o);
    if (!small || g.chance(1, 4)) {
        pipeline<8>(x, "divsufsort ram", true, LIBDIVSUFSORT, 0, o);
        pipeline<8>(x, "se_sais disk", false, SE_SAIS, 0, o);
    }
    uint8_t w = bits::hi(x.n()) + 1;
    calc<0>(x, w, o);
    calc<0>(x, 64, o); calc<0>(x, 32, o); calc<0>(x, std::max<int>(w, 31), o); calc<0>(x, 33, o); calc<0>(x, g.in(w, 64), o);
    calc<64>(x, 64, o); calc<32>(x, 32, o);
    if (w <= 16) calc<16>(x, 16, o);
    pipeline<0>(x, "qsufsort ram", true, LIBDIVSUFSORT, 0, o);
    o.done();
}
static void ints(const Text& x, tr::Rng& g, bool small)
{
    G o;
    uint8_t w = bits::hi(x.tab.back()) + 1;
    pipeline<0>(x, "qsufsort disk", false, LIBDIVSUFSORT, 0, o);
    pipeline<0>(x, "qsufsort ram", true, LIBDIVSUFSORT, g.in(w, 63), o);
    pipeline<0>(x, "qsufsort w32", true, LIBDIVSUFSORT, std::max<int>(w, 32), o);
    { int_vector<> sa; auto t = as_iv<0>(x, w); qsufsort::construct_sa(sa, t); o.sa.add("qsufsort mem", tov(sa)); }
    for (int nb : {1, 2, 4, 8}) {      // plain files of nb-byte symbols
        if (nb < 8 && (x.tab.back() >> (8 * nb))) continue;
        if (small && !g.chance(1, 4)) continue;
        std::string f = ram_file_name("plain" + std::to_string(uid++));
        std::string s;
        for (size_t i = 0; i < x.n(); ++i) { u64 c = x.sym(i); s.append((const char*)&c, nb); }
        { osfstream out(f, std::ios::binary | std::ios::trunc | std::ios::out); out.write(s.data(), s.size()); }
        int_vector<> sa;
        qsufsort::construct_sa(sa, f.c_str(), nb);
        o.sa.add("qsufsort plain" + std::to_string(nb), tov(sa));
        sdsl::remove(f);
    }
    o.done();
}
static void reg()
{
    register_jobs(true, 14, tr::thorough ? 2 : 1, tr::thorough ? 7 : 6, 6, tr::thorough ? 1 : 3, bytes);
    register_jobs(false, 15, tr::thorough ? 2 : 1, tr::thorough ? 7 : 6, 6, tr::thorough ? 1 : 3, ints);
    // more than 2^16 names after the first step of the induced sorting; arrays of more than 16 bits per entry
    big_jobs("bytes ", 71, {{"rnd100", [](tr::Rng& g) { return ren(rnd(tr::thorough ? 900000 : 420000, 100, g), range(3, 250, 2)); }},
                            {"rnd4", [](tr::Rng& g) { return ren(rnd(70000, 4, g), byte_sets()[tr::seed % 5]); }},
                            {"spread", [](tr::Rng& g) { return ren(spread(140000, 3000, 250, 4, g), byte_sets()[(tr::seed + 1) % 5]); }}}, bytes);
    big_jobs("ints ", 72, {{"wide", [](tr::Rng& g) { return ren(rnd(200000, 90000, g), range(1, 3000000, 33)); }},
                           {"rnd4", [](tr::Rng& g) { return ren(rnd(70000, 4, g), int_sets()[tr::seed % 5]); }},
                           {"spread", [](tr::Rng& g) { return ren(spread(90000, 3000, 250, 300, g), range(1, 900, 3)); }}}, ints);
}
TR_REGISTER(reg);
