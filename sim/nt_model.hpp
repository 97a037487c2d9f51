// Independent model of the fields and curves: towers over Z/p with schoolbook arithmetic and textbook affine
// formulas, constants written down here.  Everything is passed as 64-bit words; nt_model.cpp is never instrumented.
#pragma once
#include "runtime.hpp"
namespace ntm {
    using W = std::vector<uint64_t>;
    using sim::Rng;
    constexpr std::size_t L = 6;    // words per coefficient
    enum Fid : int {
        BLS381_P, BLS381_R, BLS377_P, BLS377_R, BN_P, BN_R, MNT_P, MNT_R, EDW_P, EDW_R, JUB_R, BABY_R, K1_P, K1_R, R1_P,
        R1_R, ED_P, ED_R, PALLAS_P, VESTA_P, GOLD, SM2_P, SM2_R, MAX64, K160_P, K160_R, K192_P, K192_R, K224_P,
        K224_R, R160_P, R160_R, R192_P, R192_R, R224_P, R224_R, R384_P, R384_R, BLS381_2, BLS381_6, BLS381_12, BLS377_2, BLS377_6, BLS377_12, BN_2, BN_6, BN_12,
        MNT4_2, MNT4_4, MNT6_3, MNT6_6, EDW_3, EDW_6, FIELDS
    };
    enum Cid : int {
        BLS381_G1, BLS381_G2, BLS377_G1, BLS377_G2, BN_G1, BN_G2, MNT4_G1, MNT4_G2, MNT6_G1, MNT6_G2, K1, R1, PALLAS,
        VESTA, JUB, BABY, ED, EDW, JUBM, BABYM, CURVES
    };
    std::size_t dim(int f);
    W zero(int f);
    W one(int f);
    W small(int f, uint64_t v);
    W rnd(int f, Rng &r);              // edge values are frequent
    W add(int f, const W &a, const W &b);
    W sub(int f, const W &a, const W &b);
    W neg(int f, const W &a);
    W mul(int f, const W &a, const W &b);
    W inv(int f, const W &a);
    W pow(int f, const W &a, const W &e);    // e: any number of words
    W pow(int f, const W &a, uint64_t e);
    W frob(int f, const W &a, unsigned k);
    W cyclo(int f, const W &a);        // an element of the cyclotomic subgroup made from a
    bool is_zero(const W &a);
    bool is_square(int f, const W &a);
    bool less(const W &a, const W &b);    // as integers
    W order(int f);                    // the modulus, L words
    W reduce(int f, const W &a);       // any number of words, prime fields only
    W mulmod(int f, const W &a, const W &b);
    std::string digits(const uint64_t *w, bool hex);           // L words as a number
    W coef(int f, const W &a, std::size_t i, std::size_t n);    // n base coefficients from i on

    // points: x coordinates, y coordinates, then one word that is 1 for the identity
    int cfield(int c);                 // coordinate field
    int cscalar(int c);                // scalar field
    bool edwards(int c);
    W generator(int c);
    W identity(int c);
    bool inf(const W &p);
    W px(int c, const W &p);
    W py(int c, const W &p);
    W point(int c, const W &x, const W &y);
    W cadd(int c, const W &p, const W &q);
    W cneg(int c, const W &p);
    W cmul(int c, const W &p, const W &k);
    W crnd(int c, Rng &r, W *k = nullptr);    // k times the generator; identity is possible
    W srnd(int c, Rng &r);             // a scalar, edge values frequent
    std::vector<W> special_points(int c);    // of low order or with a zero or tiny coordinate; may lie outside the subgroup
    W related(int c, const W &p);      // another point with one coordinate the same, where there is one
    bool on_curve(int c, const W &x, const W &y);
    W fexp(int f, const W &a);         // the final exponentiation of the pairing into that field
    W pairing(int f);                  // the reduced pairing of the two generators
    W param(int c, int which);         // 0: a, 1: b or d
}    // namespace ntm
