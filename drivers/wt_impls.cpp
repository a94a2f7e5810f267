// The wavelet trees under test (split into PARTs for parallel compilation).
#include "wt_impl.hpp"
using namespace sdsl;
using namespace wti;
typedef bit_vector BV;
#define IT(bv) bv, bv::rank_1_type, bv::select_1_type, bv::select_0_type
#if PART == 0
namespace wti { std::vector<Impl>& impls() { static std::vector<Impl> v; return v; } }
static void reg()
{
    add<wt_blcd<>>("wt_blcd<>", 255);
    add<wt_blcd<rrr_vector<63>>>("wt_blcd<rrr_vector<63>>", 255);
    add<wt_pc<balanced_shape, bit_vector_il<>>>("wt_pc<balanced_shape,bit_vector_il<>>", 255);
    add<wt_blcd<BV, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, byte_tree<true>>>("wt_blcd<dfs byte_tree>", 255);
}
#elif PART == 1
static void reg()
{
    add<wt_huff<>>("wt_huff<>", 255);
    add<wt_huff<BV, rank_support_v5<>>>("wt_huff<rank_support_v5>", 255);
    add<wt_huff<rrr_vector<15>>>("wt_huff<rrr_vector<15>>", 255);
    add<wt_huff<bit_vector_il<256>>>("wt_huff<bit_vector_il<256>>", 255);
}
#elif PART == 2
static void reg()
{
    add<wt_hutu<>>("wt_hutu<>", 255);
    add<wt_hutu<bit_vector_il<>>>("wt_hutu<bit_vector_il<>>", 255);
    add<wt_huff<sd_vector<>>>("wt_huff<sd_vector<>>", 255);
    add<wt_hutu<BV, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, byte_tree<true>>>("wt_hutu<dfs byte_tree>", 255);
}
#elif PART == 3
static void reg()
{
    add<wt_rlmn<>>("wt_rlmn<>", 255);
    add<wt_rlmn<BV>>("wt_rlmn<bit_vector>", 255);
    add<wt_rlmn<BV, rank_support_v5<>, select_support_mcl<1>, wt_int<>>>("wt_rlmn<bit_vector,..,wt_int<>>", 5000);
    add<wt_rlmn<sd_vector<>, sd_vector<>::rank_1_type, sd_vector<>::select_1_type, wt_blcd<rrr_vector<31>>>>("wt_rlmn<sd,..,wt_blcd<rrr<31>>>", 255);
}
#elif PART == 4
static void reg()
{
    add<wt_gmr_rs<>>("wt_gmr_rs<>", 5000);
    add<wt_gmr<>>("wt_gmr<>", 5000);
    add<wt_gmr<enc_vector<>>>("wt_gmr<enc_vector<>>", 5000, 4000);
    add<wt_gmr<int_vector<>, inv_multi_perm_support<2, int_vector<>>>>("wt_gmr<..,inv_multi_perm_support<2>>", 5000);
    add<wt_gmr_rs<vlc_vector<>, bit_vector_il<>>>("wt_gmr_rs<vlc_vector<>,bit_vector_il<>>", 5000, 4000);
}
#elif PART == 5
static void reg()
{
    add<wt_ap<>>("wt_ap<>", 5000);
    add<wt_ap<wt_blcd<>, wt_int<>>>("wt_ap<wt_blcd<>,wt_int<>>", 5000);
    add<wm_int<>>("wm_int<>", ~0ULL);
    add<wm_int<rrr_vector<15>>>("wm_int<rrr_vector<15>>", ~0ULL);
}
#elif PART == 6
static void reg()
{
    add<wt_int<>>("wt_int<>", ~0ULL);
    add<wt_int<rrr_vector<63>>>("wt_int<rrr_vector<63>>", ~0ULL);
    add<wt_int<bit_vector_il<>>>("wt_int<bit_vector_il<>>", ~0ULL);
    add<wt_int<sd_vector<>>>("wt_int<sd_vector<>>", ~0ULL);
}
#elif PART == 7
static void reg()
{
    add<wt_blcd<IT(BV), int_tree<>>>("wt_blcd<int_tree>", 5000);
    add<wt_huff<IT(BV), int_tree<>>>("wt_huff<int_tree>", 5000);
    add<wt_huff<IT(rrr_vector<63>), int_tree<>>>("wt_huff<rrr_vector<63>,int_tree>", 5000);
    add<wt_hutu<IT(BV), int_tree<>>>("wt_hutu<int_tree>", 5000);
    add<wt_hutu<IT(BV), int_tree<true>>>("wt_hutu<dfs int_tree>", 5000);
}
#endif
TR_REGISTER(reg);
