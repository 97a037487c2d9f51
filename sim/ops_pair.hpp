// Pairings of the library's own curves: with a = x G1 and b = y G2, the reduced pairing is the generators' one to the
// power x y.  Miller values are compared after the model's own final exponentiation.
#pragma once
#include "ops_nt.hpp"
#include <nil/crypto3/algebra/algorithms/pair.hpp>

namespace sim {
    template<typename P, int CID>
    struct Times {    // a point and its scalar
        P p;
        W k;
    };
    template<typename P, int CID>
    struct Codec<Times<P, CID>> {    // the coordinates as they are, then the scalar
        HARNESS static FW flat(const Times<P, CID> &a) {
            FW f = Codec<Raw<P, CID>>::flat(Raw<P, CID> {a.p});
            f.d.insert(f.d.end(), a.k.begin(), a.k.end());
            f.r = f.d.size();
            return f;
        }
    };
    template<typename V>
    struct Prep {    // a precomputation, a copy of it, and the scalar of its point
        V v, was;
        W k;
    };
    template<typename V>
    struct Codec<Prep<V>> {
        HARNESS static FW flat(const Prep<V> &a) {
            W w = a.k;
            w.push_back(a.v == a.was);
            return fw(w);
        }
    };
    template<typename GT, int FID>
    struct Miller {
        typename GT::value_type v;
    };
    template<typename GT, int FID>
    struct Codec<Miller<GT, FID>> {
        HARNESS static FW flat(const Miller<GT, FID> &m) {
            W w;
            put_words(m.v, w);
            return fw(ntm::fexp(FID, w));
        }
    };
    template<typename C, int C1, int C2, int FID>
    struct PairOps {
        using G1 = typename C::template g1_type<>::value_type;
        using G2 = typename C::template g2_type<>::value_type;
        using GT = typename C::gt_type;
        using T1 = Times<G1, C1>;
        using T2 = Times<G2, C2>;
        using Policy = nil::crypto3::algebra::pairing::pairing_policy<C>;
        using V1 = typename Policy::g1_precomputed_type;
        using V2 = typename Policy::g2_precomputed_type;
        using P1 = Prep<V1>;
        using P2 = Prep<V2>;
        using M = Miller<GT, FID>;
        using X = El<GT>;
        template<typename P, int CID>
        HARNESS static Times<P, CID> point(Rng &r, bool finite) {
            for (;;) {
                W k;
                W p = ntm::crnd(CID, r, &k);
                if (!finite && r.below(12) == 0) {
                    p = ntm::identity(CID);
                    k.assign(LW, 0);
                }
                if (finite && ntm::inf(p))
                    continue;
                return {Stored<P, CID>::put(p, r, r.below(2)), k};
            }
        }
        HARNESS static W scalar(const FW &f) {
            return W(f.d.end() - long(LW), f.d.end());
        }
        HARNESS static W prep_scalar(const FW &f) {
            return W(f.d.begin(), f.d.begin() + long(LW));
        }
        HARNESS static FW power(const W &e) {
            static const W base = ntm::pairing(FID);
            return fw(ntm::pow(FID, base, e));
        }
        HARNESS static W dot(const W &a, const W &b) {
            return ntm::mulmod(ntm::cscalar(C1), a, b);
        }
        HARNESS static W plus(const W &a, const W &b) {
            return ntm::add(ntm::cscalar(C1), a, b);
        }
        HARNESS static std::tuple<T1, T2> two(Rng &r) {
            return {point<G1, C1>(r, false), point<G2, C2>(r, false)};
        }
        HARNESS static P1 prep1(Rng &r) {
            auto t = point<G1, C1>(r, false);
            P1 p;
            p.v = alg::precompute_g1<C>(t.p);
            p.was = p.v;
            p.k = t.k;
            return p;
        }
        HARNESS static P2 prep2(Rng &r) {
            auto t = point<G2, C2>(r, true);
            P2 p;
            p.v = alg::precompute_g2<C>(t.p);
            p.was = p.v;
            p.k = t.k;
            return p;
        }
        template<typename V>
        HARNESS static auto touch(V &v, uint64_t at) -> decltype((void)v.dbl_coeffs) {
            auto &d = v.dbl_coeffs[(at >> 3) % v.dbl_coeffs.size()];
            auto &a = v.add_coeffs[(at >> 3) % v.add_coeffs.size()];
            decltype(&d.c_H) x[] = {&d.c_H, &d.c_4C, &d.c_J, &d.c_L, &a.c_L1, &a.c_RZ, &v.QX, &v.QY};
            *x[at % 8] += std::remove_reference_t<decltype(d.c_H)>::one();
        }
        template<typename V>
        HARNESS static auto touch(V &v, uint64_t at) -> decltype((void)v.coeffs) {
            auto &d = v.coeffs[(at >> 3) % v.coeffs.size()];
            decltype(&d.ell_0) x[] = {&d.ell_0, &d.ell_VW, &d.ell_VV, &v.QX, &v.QY};
            *x[at % 5] += std::remove_reference_t<decltype(d.ell_0)>::one();
        }
        HARNESS static void reg(const std::string &name) {
            const std::string sfx = " " + name;
            const unsigned tg = T_PAIRING;
            add("pairing reduced" + sfx, tg | T_SLOW, two,
                +[](const T1 &a, const T2 &b) { return X {alg::pair_reduced<C>(a.p, b.p)}; },
                +[](const Shape &, const FW &a, const FW &b) { return power(dot(scalar(a), scalar(b))); }, Shape(), 3);
            add("pairing then final exponentiation" + sfx, tg | T_SLOW, two,
                +[](const T1 &a, const T2 &b) {
                    return X {alg::final_exponentiation<C>(alg::pair<C>(a.p, b.p))};
                },
                +[](const Shape &, const FW &a, const FW &b) { return power(dot(scalar(a), scalar(b))); });
            add("pairing unreduced" + sfx, tg | T_SLOW, two,
                +[](const T1 &a, const T2 &b) { return M {alg::pair<C>(a.p, b.p)}; },
                +[](const Shape &, const FW &a, const FW &b) { return power(dot(scalar(a), scalar(b))); });
            add("pairing of a sum" + sfx, tg | T_SLOW, +[](Rng &r) {
                    auto a = two(r), b = two(r);
                    return std::tuple<T1, T2, T1, T2>(std::get<0>(a), std::get<1>(a), std::get<0>(b), std::get<1>(b));
                }, +[](const T1 &a, const T2 &b, const T1 &c, const T2 &d) {
                    return X {alg::pair_reduced<C>(a.p + c.p, b.p - d.p)};
                }, +[](const Shape &, const FW &a, const FW &b, const FW &c, const FW &d) {
                    return power(dot(plus(scalar(a), scalar(c)),
                                     plus(scalar(b), ntm::neg(ntm::cscalar(C1), scalar(d)))));
                });
            add("pairing from fresh precomputations" + sfx, tg | T_SLOW, +[](Rng &r) {
                    return std::tuple<T1, T2, T2>(point<G1, C1>(r, true), point<G2, C2>(r, true), point<G2, C2>(r, true));
                }, +[](const T1 &a, const T2 &b, const T2 &c) {
                    const V1 p = alg::precompute_g1<C>(a.p);
                    const V2 q = alg::precompute_g2<C>(b.p), s = alg::precompute_g2<C>(c.p);
                    return M {alg::miller_loop<C>(p, q) * alg::miller_loop<C>(p, s)};
                }, +[](const Shape &, const FW &a, const FW &b, const FW &c) {
                    return power(dot(scalar(a), plus(scalar(b), scalar(c))));
                });
            add("pairing miller loop" + sfx, tg | T_SLOW,
                +[](Rng &r) { return std::tuple<P1, P2>(prep1(r), prep2(r)); },
                +[](const P1 &p, const P2 &q) { return M {alg::miller_loop<C>(p.v, q.v)}; },
                +[](const Shape &, const FW &p, const FW &q) { return power(dot(prep_scalar(p), prep_scalar(q))); },
                Shape(), 2);
            add("pairing double miller loop" + sfx, tg | T_SLOW, +[](Rng &r) {
                    P1 a = prep1(r);
                    P2 b = prep2(r);
                    return std::tuple<P1, P2, P1, P2>(a, b, r.below(4) ? prep1(r) : a, r.below(4) ? prep2(r) : b);
                }, +[](const P1 &p, const P2 &q, const P1 &s, const P2 &t) {
                    return M {alg::double_miller_loop<C>(p.v, q.v, s.v, t.v)};
                }, +[](const Shape &, const FW &p, const FW &q, const FW &s, const FW &t) {
                    return power(plus(dot(prep_scalar(p), prep_scalar(q)), dot(prep_scalar(s), prep_scalar(t))));
                }, Shape(), 2);
            add("pairing double miller loop of one point" + sfx, tg | T_SLOW, +[](Rng &r) {
                    return std::tuple<P1, P2, P2>(prep1(r), prep2(r), prep2(r));
                }, +[](const P1 &p, const P2 &q, const P2 &t) {
                    return M {alg::double_miller_loop<C>(p.v, q.v, p.v, t.v)};
                }, +[](const Shape &, const FW &p, const FW &q, const FW &t) {
                    return power(dot(prep_scalar(p), plus(prep_scalar(q), prep_scalar(t))));
                });
            add("pairing double miller loop over one point" + sfx, tg | T_SLOW, +[](Rng &r) {
                    return std::tuple<P1, P1, P2>(prep1(r), prep1(r), prep2(r));
                }, +[](const P1 &p, const P1 &s, const P2 &q) {
                    return M {alg::double_miller_loop<C>(p.v, q.v, s.v, q.v)};
                }, +[](const Shape &, const FW &p, const FW &s, const FW &q) {
                    return power(dot(plus(prep_scalar(p), prep_scalar(s)), prep_scalar(q)));
                });
            // Two precomputations are equal when their points are, and differ when a single coefficient does.
            add("pairing precomputations compared" + sfx, tg | T_SLOW, +[](Rng &r) {
                    W k;
                    W a = ntm::crnd(C1, r), b = ntm::crnd(C2, r);
                    while (ntm::inf(a))
                        a = ntm::crnd(C1, r);
                    while (ntm::inf(b))
                        b = ntm::crnd(C2, r);
                    return std::tuple<Raw<G1, C1>, Raw<G1, C1>, Raw<G2, C2>, Raw<G2, C2>, uint64_t>(
                        Raw<G1, C1> {Stored<G1, C1>::put(a, r, true)}, Raw<G1, C1> {Stored<G1, C1>::put(a, r, false)},
                        Raw<G2, C2> {Stored<G2, C2>::put(b, r, true)}, Raw<G2, C2> {Stored<G2, C2>::put(b, r, false)},
                        r.next());
                }, +[](const Raw<G1, C1> &a, const Raw<G1, C1> &b, const Raw<G2, C2> &c, const Raw<G2, C2> &d,
                       const uint64_t &at) {
                    const V1 p = alg::precompute_g1<C>(a.p), q = alg::precompute_g1<C>(b.p);
                    const V1 m = alg::precompute_g1<C>(-a.p);
                    const V2 s = alg::precompute_g2<C>(c.p), t = alg::precompute_g2<C>(d.p);
                    const V2 n = alg::precompute_g2<C>(-c.p);
                    V2 u = s;
                    touch(u, at);
                    return int(p == q) + int(s == t) * 2 + int(p == m) * 4 + int(s == n) * 8 + int(s == u) * 16 +
                           int(u == u) * 32;
                }, +[](const Shape &, const FW &, const FW &, const FW &, const FW &, const FW &) {
                    Flat<int> f(1, 1);
                    f.d[0] = 35;
                    return f;
                });
            add("pairing of opposite points" + sfx, tg | T_SLOW, two,
                +[](const T1 &a, const T2 &b) {
                    auto x = alg::pair_reduced<C>(a.p, b.p);
                    auto y = alg::pair_reduced<C>(-a.p, b.p);
                    auto z = alg::pair_reduced<C>(-a.p, -b.p);
                    return X {x * x * y * z * z};
                }, +[](const Shape &, const FW &a, const FW &b) {
                    W k = dot(scalar(a), scalar(b));
                    return power(plus(k, plus(k, k)));
                });
            add("pairing final exponentiation of related elements" + sfx, tg | T_SLOW, +[](Rng &r) {
                    for (;;) {
                        W w = ntm::rnd(FID, r);
                        if (!ntm::is_zero(w))
                            return std::tuple<X>(X {make_elem<typename GT::value_type>(w)});
                    }
                }, +[](const X &f) {
                    auto a = alg::final_exponentiation<C>(f.v);
                    auto b = alg::final_exponentiation<C>(f.v.unitary_inversed());
                    auto c = alg::final_exponentiation<C>(f.v.squared());
                    return X {a * b * c * a};
                },
                +[](const Shape &, const FW &f) {    // the conjugate's is the inverse
                    W a = ntm::fexp(FID, f.d);
                    return fw(ntm::mul(FID, a, ntm::mul(FID, a, a)));
                });
            add("pairing final exponentiation" + sfx, tg | T_SLOW, +[](Rng &r) {
                    for (;;) {
                        W w = r.below(4) ? ntm::rnd(FID, r) : ntm::cyclo(FID, ntm::rnd(FID, r));
                        if (!ntm::is_zero(w))
                            return std::tuple<X>(X {make_elem<typename GT::value_type>(w)});
                    }
                }, +[](const X &f) { return X {alg::final_exponentiation<C>(f.v)}; },
                +[](const Shape &, const FW &f) { return fw(ntm::fexp(FID, f.d)); }, Shape(), 2);
        }
    };
}    // namespace sim
