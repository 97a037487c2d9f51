#include "ops_group.hpp"
using namespace sim;
namespace cd_ = nil::crypto3::algebra::curves::detail;

template<typename F>
HARNESS static void forms() {
    Formulas<F, SwAny, cd_::short_weierstrass_element_g1_jacobian_add_2007_bl,
             cd_::short_weierstrass_element_g1_jacobian_dbl_2007_bl,
             cd_::short_weierstrass_element_g1_jacobian_madd_2007_bl>::reg("jacobian");
    Formulas<F, SwA0, cd_::short_weierstrass_element_g1_jacobian_with_a4_0_add_2007_bl,
             cd_::short_weierstrass_element_g1_jacobian_with_a4_0_dbl_2009_l,
             cd_::short_weierstrass_element_g1_jacobian_with_a4_0_madd_2007_bl>::reg("jacobian_with_a4_0");
    Formulas<F, SwA3, cd_::short_weierstrass_element_g1_jacobian_with_a4_minus_3_add_2007_bl,
             cd_::short_weierstrass_element_g1_jacobian_with_a4_minus_3_dbl_2007_bl,
             cd_::short_weierstrass_element_g1_jacobian_with_a4_minus_3_madd_2007_bl>::reg("jacobian_with_a4_minus_3");
    Formulas<F, PrAny, cd_::short_weierstrass_element_g1_projective_add_1998_cmo_2,
             cd_::short_weierstrass_element_g1_projective_dbl_2007_bl, void>::reg("projective");
    Formulas<F, PrA3, cd_::short_weierstrass_element_g1_projective_with_a4_minus_3_add_1998_cmo_2,
             cd_::short_weierstrass_element_g1_projective_with_a4_minus_3_dbl_2007_bl,
             void>::reg("projective_with_a4_minus_3");
    Formulas<F, EdInv, cd_::edwards_element_g1_inverted_add_2007_bl, cd_::edwards_element_g1_inverted_dbl_2007_bl,
             cd_::edwards_element_g1_inverted_madd_2007_bl>::reg("edwards inverted");
    Formulas<F, TeInv, cd_::twisted_edwards_element_g1_inverted_add_2008_bbjlp,
             cd_::twisted_edwards_element_g1_inverted_dbl_2008_bbjlp,
             cd_::twisted_edwards_element_g1_inverted_madd_2008_bbjlp>::reg("twisted edwards inverted");
    Formulas<F, TeExt, cd_::twisted_edwards_element_g1_extended_with_a_minus_1_add_2008_hwcd_3,
             cd_::twisted_edwards_element_g1_extended_with_a_minus_1_dbl_2008_hwcd,
             cd_::twisted_edwards_element_g1_extended_with_a_minus_1_madd_2008_hwcd_2>::reg("twisted edwards extended");
    pairing_drivers<F>();
}
HARNESS static void reg() {
#if TU == 0
    forms<ZF>();
#else
    forms<HF>();
#endif
}
static RegisterOps r(reg);
