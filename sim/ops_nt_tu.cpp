#include "ops_nt.hpp"
#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/edwards.hpp>
#include <nil/crypto3/algebra/curves/jubjub.hpp>
#include <nil/crypto3/algebra/curves/babyjubjub.hpp>
#include <nil/crypto3/algebra/curves/mnt4.hpp>
#include <nil/crypto3/algebra/curves/mnt6.hpp>
#include <nil/crypto3/algebra/curves/secp_k1.hpp>
#include <nil/crypto3/algebra/curves/secp_r1.hpp>
#include <nil/crypto3/algebra/curves/ed25519.hpp>
#include <nil/crypto3/algebra/curves/vesta.hpp>
#include <nil/crypto3/algebra/curves/pallas.hpp>
#if TU == 14
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/fields/sm2p_v1/base_field.hpp>
#include <nil/crypto3/algebra/fields/sm2p_v1/scalar_field.hpp>
#include <nil/crypto3/algebra/fields/maxprime.hpp>
#endif
#if TU == 15
#include "ops_print.hpp"
#include <nil/crypto3/algebra/pairing/bls12.hpp>
#include <nil/crypto3/algebra/pairing/mnt4.hpp>
#include <nil/crypto3/algebra/pairing/mnt6.hpp>
#elif TU == 13
#include "ops_marshal.hpp"
#elif TU >= 11
#include "ops_multiexp.hpp"
#include <nil/crypto3/algebra/curves/params/multiexp/mnt4.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/mnt4.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/mnt6.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/mnt6.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/alt_bn128.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/edwards.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/edwards.hpp>
#elif TU >= 8
#include "ops_pair.hpp"
#include "ops_random.hpp"
#include <nil/crypto3/algebra/pairing/bls12.hpp>
#include <nil/crypto3/algebra/pairing/mnt4.hpp>
#include <nil/crypto3/algebra/pairing/mnt6.hpp>
#endif
using namespace sim;
template<typename G, int CID>
HARNESS static void group(const char *name) {
    GroupOps<typename G::value_type, CID, typename G::curve_type::scalar_field_type>::reg(name);
}
template<typename C, int TC, int MC>
HARNESS static void forms(const char *name) {
    namespace c = nil::crypto3::algebra::curves;
    using E = typename C::template g1_type<c::coordinates::affine, c::forms::twisted_edwards>::value_type;
    using M = typename C::template g1_type<c::coordinates::affine, c::forms::montgomery>::value_type;
    FormsOps<E, TC, M, MC>::reg(name);
}
HARNESS static void reg() {
    using namespace ntm;
    namespace c = nil::crypto3::algebra::curves;
    namespace co = c::coordinates;
#define FIELD(t, id) FieldOps<t, id>::reg(#id)
#if TU == 0
    using C = c::bls12<381>;
    FIELD(C::base_field_type, BLS381_P);
    FIELD(C::scalar_field_type, BLS381_R);
    FIELD(C::g2_type<>::field_type, BLS381_2);
    FIELD(C::gt_type, BLS381_12);
    group<C::g1_type<>, BLS381_G1>("bls381 g1");
    group<C::g2_type<>, BLS381_G2>("bls381 g2");
    group<C::g1_type<co::affine>, BLS381_G1>("bls381 g1 affine");
#elif TU == 1
    using C = c::bls12<377>;
    FIELD(C::base_field_type, BLS377_P);
    FIELD(C::scalar_field_type, BLS377_R);
    FIELD(C::g2_type<>::field_type, BLS377_2);
    FIELD(C::gt_type, BLS377_12);
    group<C::g1_type<>, BLS377_G1>("bls377 g1");
    group<C::g2_type<>, BLS377_G2>("bls377 g2");
#elif TU == 2
    using C = c::alt_bn128_254;
    FIELD(C::base_field_type, BN_P);
    FIELD(C::scalar_field_type, BN_R);
    FIELD(C::g2_type<>::field_type, BN_2);
    FIELD(C::gt_type, BN_12);
    group<C::g1_type<>, BN_G1>("bn254 g1");
    group<C::g2_type<>, BN_G2>("bn254 g2");
#elif TU == 3
    using C = c::mnt4_298;
    FIELD(C::base_field_type, MNT_P);
    FIELD(C::g2_type<>::field_type, MNT4_2);
    FIELD(C::gt_type, MNT4_4);
    group<C::g1_type<>, MNT4_G1>("mnt4 g1");
    group<C::g2_type<>, MNT4_G2>("mnt4 g2");
#elif TU == 4
    using C = c::mnt6_298;
    FIELD(C::base_field_type, MNT_R);
    FIELD(C::g2_type<>::field_type, MNT6_3);
    FIELD(C::gt_type, MNT6_6);
    group<C::g1_type<>, MNT6_G1>("mnt6 g1");
    group<C::g2_type<>, MNT6_G2>("mnt6 g2");
#elif TU == 5
    using C = c::edwards<183>;
    FIELD(C::base_field_type, EDW_P);
    FIELD(C::scalar_field_type, EDW_R);
    FIELD(C::gt_type, EDW_6);
    group<C::g1_type<>, EDW>("edwards183 g1");
    using K = c::secp256k1;
    FIELD(K::base_field_type, K1_P);
    FIELD(K::scalar_field_type, K1_R);
    group<K::g1_type<>, K1>("secp256k1");
    group<c::pallas::g1_type<>, PALLAS>("pallas");
    group<c::pallas::g1_type<co::affine>, PALLAS>("pallas affine");
    FIELD(c::pallas::base_field_type, PALLAS_P);
    group<c::vesta::g1_type<>, VESTA>("vesta");
    group<c::vesta::g1_type<co::affine>, VESTA>("vesta affine");
    FIELD(c::vesta::base_field_type, VESTA_P);
#elif TU == 6
    using C = c::secp256r1;
    FIELD(C::base_field_type, R1_P);
    FIELD(C::scalar_field_type, R1_R);
    group<C::g1_type<>, R1>("secp256r1");
    group<C::g1_type<co::jacobian>, R1>("secp256r1 jacobian");
    group<C::g1_type<co::jacobian_with_a4_minus_3>, R1>("secp256r1 jacobian a4=-3");
    group<C::g1_type<co::projective>, R1>("secp256r1 projective");
    group<C::g1_type<co::projective_with_a4_minus_3>, R1>("secp256r1 projective a4=-3");
#elif TU == 7
    using C = c::ed25519;
    FIELD(C::base_field_type, ED_P);
    FIELD(C::scalar_field_type, ED_R);
    group<C::g1_type<>, ED>("ed25519");
    using J = c::jubjub;
    FIELD(J::scalar_field_type, JUB_R);
    group<J::g1_type<>, JUB>("jubjub");
    forms<J, JUB, JUBM>("jubjub");
    group<J::g1_type<co::affine, c::forms::twisted_edwards>, JUB>("jubjub affine");
    group<J::g1_type<co::affine, c::forms::montgomery>, JUBM>("jubjub montgomery");
    using B = c::babyjubjub;
    FIELD(B::scalar_field_type, BABY_R);
    group<B::g1_type<>, BABY>("babyjubjub");
    forms<B, BABY, BABYM>("babyjubjub");
    group<B::g1_type<co::affine, c::forms::montgomery>, BABYM>("babyjubjub montgomery");
#elif TU == 8
    PairOps<c::bls12<381>, BLS381_G1, BLS381_G2, BLS381_12>::reg("bls381");
#elif TU == 9
    PairOps<c::mnt4_298, MNT4_G1, MNT4_G2, MNT4_4>::reg("mnt4");
    PairOps<c::mnt6_298, MNT6_G1, MNT6_G2, MNT6_6>::reg("mnt6");
#elif TU == 10
    using C = c::bls12<381>;
#define RANDOM(t, id) RandomOps<t, id>::reg(#id)
    RANDOM(C::base_field_type, BLS381_P);
    RANDOM(C::scalar_field_type, BLS381_R);
    RANDOM(C::g2_type<>::field_type, BLS381_2);
    RANDOM(C::gt_type, BLS381_12);
    RANDOM(c::mnt4_298::base_field_type, MNT_P);
    RANDOM(c::mnt4_298::gt_type, MNT4_4);
    RANDOM(c::mnt6_298::g2_type<>::field_type, MNT6_3);
    RANDOM(c::mnt6_298::gt_type, MNT6_6);
    RANDOM(c::secp256k1::scalar_field_type, K1_R);
    RANDOM(c::ed25519::base_field_type, ED_P);
    RANDOM(c::jubjub::scalar_field_type, JUB_R);
    RANDOM(c::edwards<183>::scalar_field_type, EDW_R);
    random_toy<3>();
    random_toy<5>();
    random_toy<7>();
    RandomPoint<C::g1_type<>, BLS381_G1>::reg("bls381 g1");
    RandomPoint<c::mnt4_298::g1_type<>, MNT4_G1>::reg("mnt4 g1");
    RandomPoint<c::secp256k1::g1_type<>, K1>::reg("secp256k1");
    RandomPoint<c::jubjub::g1_type<>, JUB>::reg("jubjub");
    RandomPoint<c::alt_bn128_254::g2_type<>, BN_G2>::reg("bn254 g2");
#elif TU == 11
    using C = c::bls12<381>;
    MultiOps<ToySumGroup, C::scalar_field_type, 0, BLS381_R>::reg("toy sums");
#define MULTI(g, f, id, fid, name) MultiOps<g, f, id, fid>::reg(name)
    MULTI(C::g1_type<>, C::scalar_field_type, BLS381_G1, BLS381_R, "bls381 g1");
    MULTI(C::g2_type<>, C::scalar_field_type, BLS381_G2, BLS381_R, "bls381 g2");
    MULTI(c::mnt4_298::g1_type<>, c::mnt4_298::scalar_field_type, MNT4_G1, MNT_R, "mnt4 g1");
    MULTI(c::mnt6_298::g2_type<>, c::mnt6_298::scalar_field_type, MNT6_G2, MNT_P, "mnt6 g2");
#elif TU == 12
#define MULTI(g, f, id, fid, name) MultiOps<g, f, id, fid>::reg(name)
    MULTI(c::alt_bn128_254::g1_type<>, c::alt_bn128_254::scalar_field_type, BN_G1, BN_R, "bn254 g1");
    MULTI(c::edwards<183>::g1_type<>, c::edwards<183>::scalar_field_type, EDW, EDW_R, "edwards183 g1");
#elif TU == 13
    using C = c::bls12<381>;
#define WIRE(t, id) FieldBytes<t, id>::reg(#id)
    WIRE(C::base_field_type, BLS381_P);
    WIRE(C::scalar_field_type, BLS381_R);
    WIRE(C::g2_type<>::field_type, BLS381_2);
    WIRE(C::gt_type, BLS381_12);
    WIRE(c::mnt6_298::g2_type<>::field_type, MNT6_3);
    WIRE(c::edwards<183>::base_field_type, EDW_P);
    WIRE(c::secp256k1::scalar_field_type, K1_R);
    WIRE(c::ed25519::base_field_type, ED_P);
    PointBytes<C::g1_type<>, BLS381_G1>::reg("bls381 g1");
    PointBytes<C::g2_type<>, BLS381_G2>::reg("bls381 g2");
#elif TU == 14
    namespace f = nil::crypto3::algebra::fields;
#define BRIEF(t, id) FieldOps<t, id>::brief(#id)
    FIELD(c::bls12<381>::gt_type::underlying_field_type, BLS381_6);
    FIELD(c::bls12<377>::gt_type::underlying_field_type, BLS377_6);
    FIELD(c::alt_bn128_254::gt_type::underlying_field_type, BN_6);
    FIELD(c::edwards<183>::gt_type::underlying_field_type, EDW_3);
    BRIEF(f::goldilocks64_base_field, GOLD);
    BRIEF(f::maxprime<64>, MAX64);
    BRIEF(f::sm2p_v1_base_field<256>, SM2_P);
    BRIEF(f::sm2p_v1_scalar_field<256>, SM2_R);
    BRIEF(f::secp_k1_base_field<160>, K160_P);
    BRIEF(f::secp_k1_scalar_field<160>, K160_R);
    BRIEF(f::secp_k1_base_field<192>, K192_P);
    BRIEF(f::secp_k1_scalar_field<192>, K192_R);
    BRIEF(f::secp_k1_base_field<224>, K224_P);
    BRIEF(f::secp_k1_scalar_field<224>, K224_R);
    BRIEF(f::secp_r1_base_field<160>, R160_P);
    BRIEF(f::secp_r1_scalar_field<160>, R160_R);
    BRIEF(f::secp_r1_base_field<192>, R192_P);
    BRIEF(f::secp_r1_scalar_field<192>, R192_R);
    BRIEF(f::secp_r1_base_field<224>, R224_P);
    BRIEF(f::secp_r1_scalar_field<224>, R224_R);
    BRIEF(f::secp_r1_base_field<384>, R384_P);
    BRIEF(f::secp_r1_scalar_field<384>, R384_R);
#elif TU == 15
    using C = c::bls12<381>;
#define SHOW(t, id) PrintField<t, id>::reg(#id)
#define SHOWP(g, id, name) PrintPoint<g::value_type, id>::reg(name)
    PrintField<C::base_field_type, BLS381_P, true>::reg("BLS381_P");
    PrintField<c::secp256k1::scalar_field_type, K1_R, true>::reg("K1_R");
    SHOW(c::mnt4_298::base_field_type, MNT_P);
    SHOW(c::ed25519::base_field_type, ED_P);
    PrintField<C::g2_type<>::field_type, BLS381_2, true>::reg("BLS381_2");
    SHOW(C::gt_type::underlying_field_type, BLS381_6);
    SHOW(C::gt_type, BLS381_12);
    SHOW(c::mnt4_298::gt_type, MNT4_4);
    SHOW(c::mnt6_298::g2_type<>::field_type, MNT6_3);
    SHOW(c::mnt6_298::gt_type, MNT6_6);
    SHOWP(C::g1_type<>, BLS381_G1, "bls381 g1");
    SHOWP(C::g1_type<co::affine>, BLS381_G1, "bls381 g1 affine");
    SHOWP(C::g2_type<>, BLS381_G2, "bls381 g2");
    SHOWP(c::mnt4_298::g1_type<>, MNT4_G1, "mnt4 g1");
    SHOWP(c::mnt6_298::g2_type<>, MNT6_G2, "mnt6 g2");
    SHOWP(c::edwards<183>::g1_type<>, EDW, "edwards183 g1");
    SHOWP(c::pallas::g1_type<>, PALLAS, "pallas");
    SHOWP(c::secp256r1::g1_type<co::jacobian>, R1, "secp256r1 jacobian");
    SHOWP(c::secp256r1::g1_type<co::jacobian_with_a4_minus_3>, R1, "secp256r1 jacobian a4=-3");
    SHOWP(c::secp256r1::g1_type<co::projective>, R1, "secp256r1 projective");
    SHOWP(c::secp256r1::g1_type<co::projective_with_a4_minus_3>, R1, "secp256r1 projective a4=-3");
    SHOWP(c::ed25519::g1_type<>, ED, "ed25519");
    SHOWP(c::jubjub::g1_type<>, JUB, "jubjub");
    using JA = c::jubjub::g1_type<co::affine, c::forms::twisted_edwards>;
    using JM = c::jubjub::g1_type<co::affine, c::forms::montgomery>;
    SHOWP(JA, JUB, "jubjub affine");
    SHOWP(JM, JUBM, "jubjub montgomery");
    PrintPre<C, BLS381_P, BLS381_2>::reg("bls381");
    PrintPre<c::mnt4_298, MNT_P, MNT4_2>::reg("mnt4");
    PrintPre<c::mnt6_298, MNT_R, MNT6_3>::reg("mnt6");
#endif
}
static RegisterOps r(reg);
