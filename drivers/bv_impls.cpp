// The bitvector representations under test (split into PARTS for parallel compilation).
// -DBV_NEED: 1 = access only, 2 = rank, 4 = select
#include "bv_impl.hpp"
#ifndef BV_NEED
#define BV_NEED 7
#endif
using namespace sdsl;
using namespace bvi;
#define R ((BV_NEED & 2) != 0)
#define S ((BV_NEED & 4) != 0)
#define A ((BV_NEED & 1) != 0)

#if PART == 0
namespace bvi { std::vector<Impl>& impls() { static std::vector<Impl> v; return v; } }
static void reg()
{
#if BV_NEED & 1
    add_bv<bit_vector, false, false>("bit_vector");
#endif
    add_bv<bit_vector_il<64>, R, S>("bit_vector_il<64>");
    add_bv<bit_vector_il<128>, R, S>("bit_vector_il<128>");
    add_bv<bit_vector_il<256>, R, S>("bit_vector_il<256>");
    add_bv<bit_vector_il<512>, R, S>("bit_vector_il<512>");
    add_bv<bit_vector_il<1024>, R, S>("bit_vector_il<1024>");
    add_bv<bit_vector_il<2048>, R, S>("bit_vector_il<2048>");
#if BV_NEED & 2
    add_sup<rank_support_v<1, 1>, true>("rank_support_v<1>", P1);
    add_sup<rank_support_v<0, 1>, true>("rank_support_v<0>", P0);
    add_sup<rank_support_v<10, 2>, true>("rank_support_v<10>", P10);
    add_sup<rank_support_v<01, 2>, true>("rank_support_v<01>", P01);
    add_sup<rank_support_v<00, 2>, true>("rank_support_v<00>", P00);
    add_sup<rank_support_v<11, 2>, true>("rank_support_v<11>", P11);
    add_sup<rank_support_v5<1, 1>, true>("rank_support_v5<1>", P1);
    add_sup<rank_support_v5<0, 1>, true>("rank_support_v5<0>", P0);
    add_sup<rank_support_v5<10, 2>, true>("rank_support_v5<10>", P10);
    add_sup<rank_support_v5<01, 2>, true>("rank_support_v5<01>", P01);
    add_sup<rank_support_v5<00, 2>, true>("rank_support_v5<00>", P00);
    add_sup<rank_support_v5<11, 2>, true>("rank_support_v5<11>", P11);
    add_sup<rank_support_scan<1, 1>, true>("rank_support_scan<1>", P1, 20000);
    add_sup<rank_support_scan<0, 1>, true>("rank_support_scan<0>", P0, 20000);
    add_sup<rank_support_scan<10, 2>, true>("rank_support_scan<10>", P10, 20000);
    add_sup<rank_support_scan<01, 2>, true>("rank_support_scan<01>", P01, 20000);
    add_sup<rank_support_scan<00, 2>, true>("rank_support_scan<00>", P00, 20000);
    add_sup<rank_support_scan<11, 2>, true>("rank_support_scan<11>", P11, 20000);
#endif
#if BV_NEED & 4
    add_sup<select_support_mcl<1, 1>, false>("select_support_mcl<1>", P1);
    add_sup<select_support_mcl<0, 1>, false>("select_support_mcl<0>", P0);
    add_sup<select_support_mcl<10, 2>, false>("select_support_mcl<10>", P10);
    add_sup<select_support_mcl<01, 2>, false>("select_support_mcl<01>", P01);
    add_sup<select_support_mcl<00, 2>, false>("select_support_mcl<00>", P00);
    add_sup<select_support_mcl<11, 2>, false>("select_support_mcl<11>", P11);
    add_sup<select_support_scan<1, 1>, false>("select_support_scan<1>", P1, 20000);
    add_sup<select_support_scan<0, 1>, false>("select_support_scan<0>", P0, 20000);
    add_sup<select_support_scan<10, 2>, false>("select_support_scan<10>", P10, 20000);
    add_sup<select_support_scan<01, 2>, false>("select_support_scan<01>", P01, 20000);
#endif
}
#elif PART == 1
static void reg()
{
    add_bv<rrr_vector<15>, R, S>("rrr_vector<15>");
    add_bv<rrr_vector<15, int_vector<>, 8>, R, S>("rrr_vector<15,int_vector<>,8>");
    add_bv<rrr_vector<15, int_vector<>, 3>, R, S>("rrr_vector<15,int_vector<>,3>");
    add_bv<rrr_vector<15, int_vector<>, 48>, R, S>("rrr_vector<15,int_vector<>,48>", 1500000);    // a block's class numbers spread over several words
    add_bv<rrr_vector<3>, R, S>("rrr_vector<3>", 500000);
    add_bv<rrr_vector<7, int_vector<>, 5>, R, S>("rrr_vector<7,int_vector<>,5>", 500000);
    add_bv<rrr_vector<16>, R, S>("rrr_vector<16>", 500000);
    add_bv<rrr_vector<31>, R, S>("rrr_vector<31>", 1500000);
    add_bv<rrr_vector<32, int_vector<>, 7>, R, S>("rrr_vector<32,int_vector<>,7>", 500000);
}
#elif PART == 2
static void reg()
{
    add_bv<rrr_vector<62, int_vector<>, 3>, R, S>("rrr_vector<62,int_vector<>,3>", 500000);
    add_bv<rrr_vector<63>, R, S>("rrr_vector<63>");
    add_bv<rrr_vector<63, int_vector<>, 2>, R, S>("rrr_vector<63,int_vector<>,2>");
    add_bv<rrr_vector<64>, R, S>("rrr_vector<64>", 1500000);
    add_bv<rrr_vector<65>, R, S>("rrr_vector<65>", 500000);
    add_bv<rrr_vector<83>, R, S>("rrr_vector<83>", 500000);
    add_bv<rrr_vector<127>, R, S>("rrr_vector<127>", 1500000);
    add_bv<rrr_vector<128, int_vector<>, 9>, R, S>("rrr_vector<128,int_vector<>,9>", 500000);
}
#elif PART == 3
static void reg()
{
    add_bv<rrr_vector<129>, R, S>("rrr_vector<129>", 300000);
    add_bv<rrr_vector<192, int_vector<>, 4>, R, S>("rrr_vector<192,int_vector<>,4>", 300000);
    add_bv<rrr_vector<255>, R, S>("rrr_vector<255>", 500000);
    add_bv<rrr_vector<256>, R, S>("rrr_vector<256>", 300000);
    add_bv<hyb_vector<>, R, false>("hyb_vector<16>");
    add_bv<hyb_vector<8>, R, false>("hyb_vector<8>");
    add_bv<hyb_vector<1>, R, false>("hyb_vector<1>");
    add_bv<hyb_vector<5>, R, false>("hyb_vector<5>");
    add_bv<hyb_vector<64>, R, false>("hyb_vector<64>");
}
#elif PART == 4
template<class SD> static SD from_itr(const bit_vector& bv, bool& ok)
{
    std::vector<uint64_t> pos;
    for (uint64_t i = 0; i < bv.size(); ++i) if (bv[i]) pos.push_back(i);
    // the list form has no length: it ends at the last position
    ok = !bv.empty() && bv[bv.size() - 1];
    return ok ? SD(pos.begin(), pos.end()) : SD(bv);
}
template<class SD> static SD from_builder(const bit_vector& bv)
{
    uint64_t m = 0;
    for (uint64_t i = 0; i < bv.size(); ++i) m += bv[i];
    sd_vector_builder b(bv.size(), m);
    for (uint64_t i = 0; i < bv.size(); ++i) if (bv[i]) b.set(i);
    return SD(b);
}
struct sel0 : sd_vector<>   // sd_vector with its alternative select_0 structure
{
    typedef select_0_support_sd<sd_vector<>> select_0_type;
    sel0() {}
    sel0(const bit_vector& b) : sd_vector<>(b) {}
};
static void reg()
{
    add_bv<sd_vector<>, R, S>("sd_vector<>");
    typedef sd_vector<rrr_vector<63>> sd_rrr;
    add_bv<sd_rrr, R, S>("sd_vector<rrr_vector<63>>", 400000);
    typedef sd_vector<bit_vector, select_support_mcl<1>, select_support_scan<0>> sd_scan;
    add_bv<sd_scan, R, S>("sd_vector<bit_vector,mcl,scan>", 50000);
    add("sd_vector<>(list)", [](const bit_vector& bv, int mode) { bool ok; std::unique_ptr<sd_vector<>> p(new sd_vector<>(from_itr<sd_vector<>>(bv, ok)));
        return std::unique_ptr<Obj>(new cobj_t<sd_vector<>, R, S>(std::move(p), mode)); });
    add("sd_vector<>(builder)", [](const bit_vector& bv, int mode) { std::unique_ptr<sd_vector<>> p(new sd_vector<>(from_builder<sd_vector<>>(bv)));
        return std::unique_ptr<Obj>(new cobj_t<sd_vector<>, R, S>(std::move(p), mode)); });
    add("sd_vector<rrr>(builder)", [](const bit_vector& bv, int mode) { std::unique_ptr<sd_rrr> p(new sd_rrr(from_builder<sd_rrr>(bv)));
        return std::unique_ptr<Obj>(new cobj_t<sd_rrr, R, S>(std::move(p), mode)); }, 400000);
    add("sd_vector<rrr>(list)", [](const bit_vector& bv, int mode) { bool ok; std::unique_ptr<sd_rrr> p(new sd_rrr(from_itr<sd_rrr>(bv, ok)));
        return std::unique_ptr<Obj>(new cobj_t<sd_rrr, R, S>(std::move(p), mode)); }, 400000);
#if BV_NEED & 4
    // the pointer-based select_0 of sd_vector (attached to an sd_vector)
    add("select_0_support_sd<>", [](const bit_vector& bv, int mode) {
        struct O : Obj {
            std::unique_ptr<sd_vector<>> v; select_0_support_sd<> s;
            u64 size() const override { return s.size(); }
            u64 at(u64 i) const override { return (*v)[i]; }
            bool has_select(int p) const override { return p == P0; }
            u64 select(int, u64 i) const override { return s.select(i); }
        };
        std::unique_ptr<O> o(new O);
        std::unique_ptr<sd_vector<>> src(new sd_vector<>(bv));
        sd_vector<> oth(other_bv());
        o->v = mode ? arrive(src, oth, mode) : std::move(src);
        const sd_vector<>* sv = mode ? src.get() : o->v.get();
        attach(o->s, sv, (const sd_vector<>*)o->v.get(), (const sd_vector<>*)&oth, mode);
        return std::unique_ptr<Obj>(std::move(o));
    });
#endif
}
#endif
TR_REGISTER(reg);
