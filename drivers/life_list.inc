// the classes; split in PARTS compilation units
typedef sa_order_sa_sampling<> SO; typedef text_order_sa_sampling<> TO; typedef text_order_sa_sampling<bit_vector> TOB; typedef fuzzy_sa_sampling<> FZ; typedef sa_bwt_sampling<> BW;
typedef isa_sampling<> IS; typedef text_order_isa_sampling_support<> TI; typedef fuzzy_isa_sampling_support<> FI;
typedef succinct_byte_alphabet<> SA_; typedef succinct_byte_alphabet<bit_vector, rank_support_v<>, select_support_mcl<>, int_vector<64>> SB; typedef int_alphabet<> IA;
typedef csa_wt<wt_huff<>, 4, 4> CW; typedef csa_sada<enc_vector<>, 4, 4> CS; typedef csa_wt<wt_int<>, 4, 4, SO, IS, IA> CI;
static void reg()
{
#if PART == 0
    K_(Vec, int_vector<>); K_(Vec, int_vector<1>); K_(Vec, int_vector<8>); K_(Vec, int_vector<64>); K_(Vec, int_vector<13>);
    S_(Bv<bit_vector, rank_support_v<>, rank_support_v<0>, select_support_mcl<>, select_support_mcl<0>>);
    S_(Bv<bit_vector, rank_support_v5<>, rank_support_v5<0>, select_support_scan<>, select_support_scan<0>>);
    S_(Bv<bit_vector, rank_support_scan<>, rank_support_scan<0>, select_support_mcl<>, select_support_scan<0>>);
    S_(Pat<rank_support_v<10, 2>, select_support_mcl<10, 2>, 2>); S_(Pat<rank_support_v5<01, 2>, select_support_mcl<01, 2>, 1>);
    S_(Pat<rank_support_v5<11, 2>, select_support_mcl<11, 2>, 3>); S_(Pat<rank_support_scan<00, 2>, select_support_scan<00, 2>, 0>);
    S_(BvS<bit_vector_il<>>); S_(BvS<bit_vector_il<64>>);
    S_(BvS<rrr_vector<>>); S_(BvS<rrr_vector<15>>); S_(BvS<rrr_vector<15, int_vector<>, 5>>);
    S_(BvS<rrr_vector<127, int_vector<>, 8>>); S_(BvS<rrr_vector<200>>); S_(BvS<sd_vector<>>);
    S_(BvS<sd_vector<rrr_vector<>>>); 
    S_(Bv<hyb_vector<>, hyb_vector<>::rank_1_type, hyb_vector<>::rank_0_type, NoSel, NoSel>);
    S_(Bv<sd_vector<>, rank_support_sd<1>, rank_support_sd<0>, select_support_sd<1>, select_0_support_sd<sd_vector<>>>);
#elif PART == 1
    K_(Civ, enc_vector<>); K_(Civ, enc_vector<coder::fibonacci, 7>); K_(Civ, enc_vector<coder::elias_gamma, 3, 64>); K_(Civ, enc_vector<coder::comma<2>, 16>);
    K_(Civ, vlc_vector<>); K_(Civ, vlc_vector<coder::fibonacci, 5>); K_(Civ, dac_vector<>); K_(Civ, dac_vector<3>); K_(Civ, dac_vector<7, rank_support_v5<>>); K_(Civ, dac_vector_dp<>); K_(Civ, dac_vector_dp<rrr_vector<>>);
    K_(Wt, wt_blcd<>); K_(Wt, wt_huff<>); K_(Wt, wt_hutu<rrr_vector<63>>); K_(Wt, wt_huff<bit_vector_il<>>); K_(Wt, wt_huff<sd_vector<>>);
    K_(Wt, wt_blcd<bit_vector, rank_support_v5<>, select_support_mcl<1>, select_support_mcl<0>, byte_tree<true>>);
    K_(Wt, wt_rlmn<>); K_(Wt, wt_rlmn<bit_vector, rank_support_v5<>, select_support_mcl<1>, wt_int<>>);
    H_(StdV, int_vector<>); H_(StdV, u64); H_(StdV, wt_int<>);
#elif PART == 2
    K_(Wt, wt_int<>); K_(Wt, wt_int<rrr_vector<15>>); K_(Wt, wt_int<bit_vector_il<>>); K_(Wt, wm_int<>); K_(Wt, wm_int<rrr_vector<63>>);
    K_(Wt, wt_gmr_rs<>); K_(Wt, wt_gmr<>); K_(Wt, wt_gmr<enc_vector<>>); K_(Wt, wt_ap<>); K_(Wt, wt_ap<wt_blcd<>, wt_int<>>);
    K_(Wt, wt_huff_int<>); K_(Wt, wt_hutu_int<>); K_(Wt, wt_blcd_int<>); K_(Wt, wt_gmr_rs<vlc_vector<>, bit_vector_il<>>);
#elif PART == 3
    K_(Csa, csa_wt<>); K_(Csa, csa_wt<wt_blcd<rrr_vector<63>>, 4, 4, TO, TI>); K_(Csa, csa_wt<wt_huff<>, 3, 5, BW, IS, SA_>); K_(Csa, csa_wt<wt_huff<>, 5, 5, FZ, FI>);
    K_(Csa, csa_wt<wt_int<>, 4, 4, SO, IS, IA>); K_(Csa, csa_wt<wt_gmr<>, 5, 3, TOB, IS, IA>);
    K_(Csa, csa_wt<wt_huff<>, 7, 7, fuzzy_sa_sampling<bit_vector, bit_vector>, FI, SB>);
#elif PART == 4
    K_(Csa, csa_sada<>); K_(Csa, csa_sada<enc_vector<coder::fibonacci, 8>, 4, 4, TO, TI, SB>); K_(Csa, csa_sada<enc_vector<coder::elias_delta, 2>, 4, 4, FZ, FI, SA_>);
    K_(Csa, csa_bitcompressed<>); K_(Csa, csa_bitcompressed<IA>); K_(Csa, csa_sada<enc_vector<>, 4, 4, SO, IS, IA>);
    K_(Lcp, lcp_bitcompressed<>); K_(Lcp, lcp_byte<>); K_(Lcp, lcp_wt<>); K_(Lcp, lcp_vlc<>); K_(Lcp, lcp_dac<>); K_(Lcp, lcp_dac_dp<>);
#elif PART == 5
    K_(CstL, cst_sct3<>); K_(CstL, cst_sct3<csa_bitcompressed<>, lcp_bitcompressed<>, bp_support_g<>, bit_vector, rank_support_v<>, select_support_mcl<>>);
    K_(CstL, cst_sct3<CW, lcp_support_sada<>, bp_support_sada<64, 4>>); K_(CstL, cst_sct3<CS, lcp_support_tree2<3>, bp_support_gg<>>);
    K_(CstL, cst_sct3<CI>);
#elif PART == 6
    K_(CstL, cst_sada<>); K_(CstL, cst_sada<CW, lcp_support_tree2<>, bp_support_gg<>>); K_(CstL, cst_sada<csa_bitcompressed<>, lcp_support_tree<>, bp_support_g<>>);
    K_(Cst, cst_fully<>); K_(Cst, cst_fully<CW, 3, bp_support_sada<>, sd_vector<>, dac_vector<>, true>); K_(Cst, cst_fully<CS, 4, bp_support_gg<>, rrr_vector<63>, vlc_vector<>>);
    K_(CstL, cst_sct3<csa_wt<>, lcp_support_tree<>>);
#elif PART == 7
    H_(Bp, bp_support_sada<>); H_(Bp, bp_support_sada<32, 3>); H_(Bp, bp_support_g<>); H_(Bp, bp_support_gg<>); H_(Bp, bp_support_gg<nearest_neighbour_dictionary<10>, rank_support_v<>, select_support_mcl<>, 32>);
    K_(Rmq, rmq_succinct_sct<>); K_(Rmq, rmq_succinct_sct<false, bp_support_g<>>); K_(Rmq, rmq_succinct_sada<>); K_(Rmq, rmq_succinct_sada<false, bp_support_gg<>>);
    H_(Sparse, rmq_support_sparse_table<>); H_(Sparse, rmq_support_sparse_table<int_vector<>, false>);
    H_(Inv, inv_perm_support<>); H_(Inv, inv_perm_support<4, sd_vector<>, rank_support_sd<>>);
    K_(Nnd, nearest_neighbour_dictionary<30>); K_(Nnd, nearest_neighbour_dictionary<4>);
    kind<nn_dict_dynamic, Nnx>("nn_dict_dynamic");
    kind<sorted_stack_support, Stack<sorted_stack_support, false>>("sorted_stack_support"); kind<sorted_multi_stack_support, Stack<sorted_multi_stack_support, true>>("sorted_multi_stack_support"); kind<sorted_int_stack, Stack<sorted_int_stack, false>>("sorted_int_stack");
    K_(Louds, louds_tree<>); K_(Louds, louds_tree<rrr_vector<15>>);
    K_(Treap, k2_treap<2, bit_vector>); K_(Treap, k2_treap<4, rrr_vector<63>>);
    H_(Tree2, k2_tree<2>); H_(Tree2, k2_tree<3, rrr_vector<63>>);
#endif
}
