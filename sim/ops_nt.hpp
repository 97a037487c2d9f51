// The library's own fields, curve groups and pairings, against the model of nt_model.hpp.
#pragma once
#include "opkit.hpp"
#include "nt_model.hpp"
#include <cassert>
#include <boost/multiprecision/cpp_int.hpp>
#include <nil/crypto3/algebra/curves/forms.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/coordinates.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/montgomery/coordinates.hpp>

namespace sim {
    namespace crv = nil::crypto3::algebra::curves;
    using ntm::W;
    using FW = Flat<uint64_t>;
    constexpr std::size_t LW = ntm::L;
    HARNESS inline FW fw(const W &w) {
        FW f(w.size(), 1);
        f.d = w;
        return f;
    }
#define SIM_HAS(name, expr)                                                                 \
    template<typename E, typename = void>                                                   \
    struct has_##name : std::false_type { };                                                \
    template<typename E>                                                                    \
    struct has_##name<E, decltype((void)(expr))> : std::true_type { };
    SIM_HAS(sqrt, std::declval<const E &>().sqrt())
    SIM_HAS(issq, std::declval<const E &>().is_square())
    SIM_HAS(subeq, std::declval<E &>() -= std::declval<const E &>())
    SIM_HAS(doubled, std::declval<const E &>().doubled())
    SIM_HAS(frob, std::declval<const E &>().Frobenius_map(1))
    SIM_HAS(unitary, std::declval<const E &>().unitary_inversed())
    SIM_HAS(cyc_sq, std::declval<const E &>().cyclotomic_squared())
    SIM_HAS(less, std::declval<const E &>() < std::declval<const E &>())
    SIM_HAS(incr, ++std::declval<E &>())
    SIM_HAS(tower, std::declval<typename E::underlying_type::underlying_type>())
    SIM_HAS(under, std::declval<typename E::underlying_type>())
    SIM_HAS(mulx, std::declval<E &>().mul_x())
    SIM_HAS(mulc, std::declval<E &>().mul_Fp_c(std::declval<typename E::underlying_type::underlying_type>()))
    SIM_HAS(withint, std::declval<const E &>() + 5u)
    SIM_HAS(m045, std::declval<const E &>().mul_by_045(std::declval<typename E::underlying_type::underlying_type>(),
                                                       std::declval<typename E::underlying_type::underlying_type>(),
                                                       std::declval<typename E::underlying_type::underlying_type>()))
    SIM_HAS(m023, std::declval<const E &>().mul_by_023(std::declval<const E &>()))
    SIM_HAS(m2345, std::declval<const E &>().mul_by_2345(std::declval<const E &>()))
    SIM_HAS(toproj, std::declval<const E &>().to_projective())
    SIM_HAS(toext, std::declval<const E &>().to_extended_with_a_minus_1())
    SIM_HAS(tomont, std::declval<const E &>().to_montgomery())
    SIM_HAS(coefmul, std::declval<typename E::underlying_type>() * std::declval<const E &>())
    SIM_HAS(wellf, std::declval<const E &>().is_well_formed())
    SIM_HAS(toaff, std::declval<const E &>().to_affine())
    SIM_HAS(madd, std::declval<E &>().mixed_add(std::declval<const E &>()))
    SIM_HAS(Z, std::declval<const E &>().Z)
    SIM_HAS(T, std::declval<const E &>().T)
    SIM_HAS(isinf, std::declval<const E &>().to_twisted_edwards())
#undef SIM_HAS

    template<typename I>
    HARNESS I int_from(const uint64_t *w, std::size_t n) {
        while (n && !w[n - 1])
            --n;
        I r(0u);
        for (std::size_t i = n; i-- > 0;) {
            if (i + 1 != n)
                r <<= 64;
            r |= I(w[i]);
        }
        return r;
    }
    template<typename I>
    HARNESS void int_to(const I &v, uint64_t *w, std::size_t n) {
        boost::multiprecision::cpp_int t(v);
        for (std::size_t i = 0; i < n; ++i) {
            w[i] = uint64_t(t & 0xffffffffffffffffull);
            t >>= 64;
        }
    }
    template<typename E>
    HARNESS void put_words(const E &e, W &w) {
        if constexpr (has_under<E>::value) {
            for (auto &x : e.data)
                put_words(x, w);
        } else {
            w.resize(w.size() + LW);
            int_to(typename E::integral_type(e.data), &w[w.size() - LW], LW);
        }
    }
    template<typename E>
    HARNESS E take_words(const uint64_t *&p) {
        if constexpr (has_under<E>::value) {
            typename E::data_type d;
            for (auto &x : d)
                x = take_words<typename E::underlying_type>(p);
            return E(d);
        } else {
            p += LW;
            return E(int_from<typename E::integral_type>(p - LW, LW));
        }
    }
    template<typename E>
    HARNESS E make_elem(const W &w) {
        const uint64_t *p = w.data();
        return take_words<E>(p);
    }

    // ------------------------------------------------------------ fields
    template<typename F>
    struct El {
        typename F::value_type v;
    };
    template<typename F>
    struct Codec<El<F>> {
        HARNESS static FW flat(const El<F> &e) {
            W w;
            put_words(e.v, w);
            return fw(w);
        }
    };
    template<typename F, int FID>
    struct Root {    // a square root, seen through its square
        typename F::value_type v;
    };
    template<typename F, int FID>
    struct Codec<Root<F, FID>> {
        HARNESS static FW flat(const Root<F, FID> &e) {
            W w;
            put_words(e.v, w);
            return fw(ntm::mul(FID, w, w));
        }
    };
    template<typename I>
    struct Int {
        I v;
    };
    template<typename I>
    struct Codec<Int<I>> {
        HARNESS static FW flat(const Int<I> &e) {
            W w(LW);
            int_to(e.v, w.data(), LW);
            return fw(w);
        }
    };
    template<typename E>
    struct base_of {
        using type = E;
    };
    template<typename E, bool = has_under<E>::value>
    struct Base {
        using type = E;
    };
    template<typename E>
    struct Base<E, true> {
        using type = typename Base<typename E::underlying_type>::type;
    };

    // A straight-line program over four variables, including aliased forms.
    struct Step {
        int op, i, j, k;
    };
    HARNESS inline Step field_step(Rng &r) {
        Step s;
        s.op = int(r.below(13));
        s.i = int(r.below(4));
        s.j = int(r.below(4));
        s.k = int(r.below(4));
        return s;
    }
    template<typename F, int FID>
    struct FieldOps {
        using E = typename F::value_type;
        using X = El<F>;
        using BE = typename Base<E>::type;
        using I = typename BE::integral_type;
        using Hold = Root<F, FID>;
        HARNESS static X mk(const W &w) {
            return X {make_elem<E>(w)};
        }
        HARNESS static std::tuple<X> g1(Rng &r) {
            return {mk(ntm::rnd(FID, r))};
        }
        HARNESS static std::tuple<X> gnz(Rng &r) {
            for (;;) {
                W w = ntm::rnd(FID, r);
                if (!ntm::is_zero(w))
                    return {mk(w)};
            }
        }
        HARNESS static std::tuple<X> gsq(Rng &r) {
            W w = ntm::rnd(FID, r);
            return {mk(ntm::mul(FID, w, w))};
        }
        HARNESS static std::tuple<X> gcyc(Rng &r) {
            return {mk(ntm::cyclo(FID, ntm::rnd(FID, r)))};
        }
        HARNESS static std::tuple<X, X> g2(Rng &r) {
            W a = ntm::rnd(FID, r), b = ntm::rnd(FID, r);
            switch (r.below(8)) {
                case 0:
                    b = a;
                    break;
                case 1:
                    b = ntm::neg(FID, a);
                    break;
                case 2:
                    if (!ntm::is_zero(a))
                        b = ntm::inv(FID, a);
                    break;
                case 3: {    // same but for one coefficient
                    std::size_t n = ntm::dim(FID), at = std::size_t(r.below(n)) * LW;
                    W c = a;
                    std::copy(b.begin() + long(at), b.begin() + long(at + LW), c.begin() + long(at));
                    b = c;
                    break;
                }
            }
            return {mk(a), mk(b)};
        }
        HARNESS static std::tuple<X, Int<I>> gpow(Rng &r) {
            W e(LW, 0);
            std::size_t bits = ntm::dim(FID) >= 6 ? 40 : 64 * 6;
            W m = ntm::order(FID);
            while (bits && !(m[(bits - 1) / 64] >> ((bits - 1) % 64) & 1))
                --bits;    // the exponent fits the field's own integers
            switch (r.below(6)) {
                case 0:
                    e[0] = r.below(3);
                    break;
                case 1:
                    e[(bits - 1) / 64] |= 1ull << ((bits - 1) % 64);
                    break;
                case 2:
                    if (ntm::dim(FID) < 6) {
                        e = m;
                        e[0] -= r.below(3);
                        break;
                    }
                    [[fallthrough]];
                case 3:
                    for (std::size_t i = 0; i < bits - 1; ++i)
                        e[i / 64] |= 1ull << (i % 64);
                    break;
                default:
                    for (std::size_t i = 0; i < bits - 1; ++i)
                        e[i / 64] |= (r.next() & 1) << (i % 64);
            }
            return {mk(ntm::rnd(FID, r)), Int<I> {int_from<I>(e.data(), LW)}};
        }
        HARNESS static std::tuple<X, uint64_t> gpow64(Rng &r) {
            uint64_t e = r.below(4) ? r.below(200) : r.below(2) ? r.next() >> r.below(64) : ~0ull >> r.below(64);
            if (ntm::dim(FID) >= 6)
                e &= 0xffffffff;
            return {mk(ntm::rnd(FID, r)), e};
        }
        using Four = std::tuple<X, X, X, X, uint64_t, int>;
        HARNESS static Four gprog(Rng &r) {
            X a = std::get<0>(g1(r)), b = std::get<0>(g1(r)), c = std::get<0>(g1(r)), d = std::get<0>(g1(r));
            int big = ntm::dim(FID) >= 12 ? 8 : 30;
            uint64_t s = r.next();
            int n = int(2 + r.below(uint64_t(big)));
            return Four(a, b, c, d, s, n);
        }
        static X prog(const X &a, const X &b, const X &c, const X &d, const uint64_t &seed, const int &len) {
            Rng r(seed);
            E x[4] = {a.v, b.v, c.v, d.v};
            for (int n = 0; n < len; ++n) {
                Step s = field_step(r);
                switch (s.op) {
                    case 0:
                        x[s.i] = x[s.j] + x[s.k];
                        break;
                    case 1:
                        x[s.i] = x[s.j] - x[s.k];
                        break;
                    case 2:
                        x[s.i] = x[s.j] * x[s.k];
                        break;
                    case 3:
                        x[s.i] += x[s.j];
                        break;
                    case 4:
                        x[s.i] -= x[s.j];
                        break;
                    case 5:
                        x[s.i] *= x[s.j];
                        break;
                    case 6:
                        x[s.i] = x[s.j].squared();
                        break;
                    case 7:
                        x[s.i] = -x[s.j];
                        break;
                    case 8:
                        if (!x[s.j].is_zero())
                            x[s.i] = x[s.j].inversed();
                        break;
                    case 9:
                        x[s.i] = x[s.i] + E::one();
                        break;
                    case 10:
                        x[s.i] = x[s.j];
                        break;
                    case 11:
                        if (x[s.j] == x[s.k])
                            x[s.i] = E::zero();
                        break;
                    case 12:
                        x[s.i] = x[s.j].pow(unsigned(s.k) + 2u);
                        break;
                }
            }
            return X {x[0] * x[1] + x[2] - x[3]};
        }
        HARNESS static FW prog_ref(const Shape &, const FW &a, const FW &b, const FW &c, const FW &d, const FW &seed,
                                   const Flat<int> &len) {
            Rng r(seed.d[0]);
            W x[4] = {a.d, b.d, c.d, d.d};
            for (int n = 0; n < len.d[0]; ++n) {
                Step s = field_step(r);
                switch (s.op) {
                    case 0:
                        x[s.i] = ntm::add(FID, x[s.j], x[s.k]);
                        break;
                    case 1:
                        x[s.i] = ntm::sub(FID, x[s.j], x[s.k]);
                        break;
                    case 2:
                        x[s.i] = ntm::mul(FID, x[s.j], x[s.k]);
                        break;
                    case 3:
                        x[s.i] = ntm::add(FID, x[s.i], x[s.j]);
                        break;
                    case 4:
                        x[s.i] = ntm::sub(FID, x[s.i], x[s.j]);
                        break;
                    case 5:
                        x[s.i] = ntm::mul(FID, x[s.i], x[s.j]);
                        break;
                    case 6:
                        x[s.i] = ntm::mul(FID, x[s.j], x[s.j]);
                        break;
                    case 7:
                        x[s.i] = ntm::neg(FID, x[s.j]);
                        break;
                    case 8:
                        if (!ntm::is_zero(x[s.j]))
                            x[s.i] = ntm::inv(FID, x[s.j]);
                        break;
                    case 9:
                        x[s.i] = ntm::add(FID, x[s.i], ntm::one(FID));
                        break;
                    case 10:
                        x[s.i] = x[s.j];
                        break;
                    case 11:
                        if (x[s.j] == x[s.k])
                            x[s.i] = ntm::zero(FID);
                        break;
                    case 12:
                        x[s.i] = ntm::pow(FID, x[s.j], uint64_t(s.k) + 2);
                        break;
                }
            }
            return fw(ntm::sub(FID, ntm::add(FID, ntm::mul(FID, x[0], x[1]), x[2]), x[3]));
        }
        // the prime fields share one arithmetic; for most of them the parts that depend on the parameters are enough
        HARNESS static void brief(const std::string &name) {
            const std::string sfx = " " + name;
            const unsigned tg = T_FIELD;
            add("field multiply" + sfx, tg, g2, +[](const X &a, const X &b) { return X {a.v * b.v}; },
                +[](const Shape &, const FW &a, const FW &b) { return fw(ntm::mul(FID, a.d, b.d)); });
            add("field subtract" + sfx, tg, g2, +[](const X &a, const X &b) { return X {a.v - b.v}; },
                +[](const Shape &, const FW &a, const FW &b) { return fw(ntm::sub(FID, a.d, b.d)); });
            add("field inversed" + sfx, tg, gnz, +[](const X &a) { return X {a.v.inversed()}; },
                +[](const Shape &, const FW &a) { return fw(ntm::inv(FID, a.d)); });
            add("field power" + sfx, tg, gpow, +[](const X &a, const Int<I> &e) { return X {a.v.pow(e.v)}; },
                +[](const Shape &, const FW &a, const FW &e) { return fw(ntm::pow(FID, a.d, e.d)); });
            add("field modulus" + sfx, tg, g1, +[](const X &a) { return Int<I> {I(F::modulus)}; },
                +[](const Shape &, const FW &a) { return fw(ntm::order(FID)); });
        }
        HARNESS static void reg(const std::string &name) {
            const std::string sfx = " " + name;
            const unsigned tg = T_FIELD;
            add("field add" + sfx, tg, g2, +[](const X &a, const X &b) { return X {a.v + b.v}; },
                +[](const Shape &, const FW &a, const FW &b) { return fw(ntm::add(FID, a.d, b.d)); });
            add("field subtract" + sfx, tg, g2, +[](const X &a, const X &b) { return X {a.v - b.v}; },
                +[](const Shape &, const FW &a, const FW &b) { return fw(ntm::sub(FID, a.d, b.d)); });
            add("field multiply" + sfx, tg, g2, +[](const X &a, const X &b) { return X {a.v * b.v}; },
                +[](const Shape &, const FW &a, const FW &b) { return fw(ntm::mul(FID, a.d, b.d)); }, Shape(), 2);
            add("field assigning operators" + sfx, tg, g2, +[](const X &a, const X &b) {
                    E x = a.v;
                    x += b.v;
                    x *= a.v;
                    x -= b.v;
                    return X {x};
                }, +[](const Shape &, const FW &a, const FW &b) {
                    return fw(ntm::sub(FID, ntm::mul(FID, ntm::add(FID, a.d, b.d), a.d), b.d));
                });
            add("field operators on one variable" + sfx, tg, g1, +[](const X &a) {
                    E x = a.v, y = a.v, z = a.v;
                    x += x;
                    y *= y;
                    z -= z;
                    x = x;
                    return X {x * y + z};
                }, +[](const Shape &, const FW &a) {
                    return fw(ntm::mul(FID, ntm::add(FID, a.d, a.d), ntm::mul(FID, a.d, a.d)));
                });
            add("field negate" + sfx, tg, g1, +[](const X &a) { return X {-a.v}; },
                +[](const Shape &, const FW &a) { return fw(ntm::neg(FID, a.d)); });
            add("field squared" + sfx, tg, g1, +[](const X &a) { return X {a.v.squared()}; },
                +[](const Shape &, const FW &a) { return fw(ntm::mul(FID, a.d, a.d)); });
            if constexpr (has_doubled<E>::value)
                add("field doubled" + sfx, tg, g1, +[](const X &a) { return X {a.v.doubled()}; },
                    +[](const Shape &, const FW &a) { return fw(ntm::add(FID, a.d, a.d)); });
            add("field inversed" + sfx, tg, gnz, +[](const X &a) { return X {a.v.inversed()}; },
                +[](const Shape &, const FW &a) { return fw(ntm::inv(FID, a.d)); });
            add("field power" + sfx, tg, gpow, +[](const X &a, const Int<I> &e) { return X {a.v.pow(e.v)}; },
                +[](const Shape &, const FW &a, const FW &e) { return fw(ntm::pow(FID, a.d, e.d)); });
            add("field small power" + sfx, tg, gpow64, +[](const X &a, const uint64_t &e) { return X {a.v.pow(e)}; },
                +[](const Shape &, const FW &a, const FW &e) { return fw(ntm::pow(FID, a.d, e.d[0])); });
            add("field comparison" + sfx, tg, g2, +[](const X &a, const X &b) {
                    return int(a.v == b.v) + 2 * int(a.v != b.v) + 4 * int(a.v.is_zero()) + 8 * int(b.v.is_one());
                }, +[](const Shape &, const FW &a, const FW &b) {
                    return one(int(a.d == b.d) + 2 * int(a.d != b.d) + 4 * int(ntm::is_zero(a.d)) +
                               8 * int(b.d == ntm::one(FID)));
                });
            add("field constants" + sfx, tg, g1, +[](const X &a) { return X {E::zero() + a.v * E::one() + E::one()}; },
                +[](const Shape &, const FW &a) { return fw(ntm::add(FID, a.d, ntm::one(FID))); });
            if constexpr (has_sqrt<E>::value && !has_tower<E>::value) {    // an empty body in the towers
                add("field square root" + sfx, tg, gsq, +[](const X &a) { return Hold {a.v.sqrt()}; },
                    +[](const Shape &, const FW &a) { return a; });
                if constexpr (has_squaretest())
                    add("field is_square" + sfx, tg, g1, +[](const X &a) { return a.v.is_square(); },
                        +[](const Shape &, const FW &a) { return one(ntm::is_square(FID, a.d)); });
            }
            if constexpr (has_frob<E>::value)
                add("field Frobenius" + sfx, tg, +[](Rng &r) {
                        uint64_t k = r.below(2 * ntm::dim(FID) + 1);
                        return std::tuple<X, uint64_t>(mk(ntm::rnd(FID, r)), k);
                    }, +[](const X &a, const uint64_t &k) { return X {a.v.Frobenius_map(k)}; },
                    +[](const Shape &, const FW &a, const FW &k) { return fw(ntm::frob(FID, a.d, unsigned(k.d[0]))); });
            if constexpr (has_less<E>::value)
                add("field order" + sfx, tg, g2, +[](const X &a, const X &b) {
                        return int(a.v < b.v) + 2 * int(a.v > b.v) + 4 * int(a.v <= b.v) + 8 * int(a.v >= b.v);
                    }, +[](const Shape &, const FW &a, const FW &b) {
                        bool l = ntm::less(a.d, b.d), g = ntm::less(b.d, a.d);
                        return one(int(l) + 2 * int(g) + 4 * int(!g) + 8 * int(!l));
                    });
            if constexpr (has_incr<E>::value)
                add("field increment" + sfx, tg, g1, +[](const X &a) {
                        E x = a.v, y = a.v;
                        E p = x++, q = y--;
                        ++x;
                        --y;
                        --y;
                        return X {x * p + y * q};    // (a + 2) a + (a - 3) a
                    }, +[](const Shape &, const FW &a) {
                        W t = ntm::sub(FID, ntm::add(FID, a.d, a.d), ntm::one(FID));
                        return fw(ntm::mul(FID, t, a.d));
                    });
            if constexpr (has_coefmul<E>::value) {
                using U = typename E::underlying_type;
                struct UF {
                    using value_type = U;
                };
                using Y = El<UF>;
                add("field times coefficient" + sfx, tg, +[](Rng &r) {
                        W a = ntm::rnd(FID, r), b = ntm::rnd(FID, r);
                        X x = mk(a);
                        U u = mk(b).v.data[0];
                        return std::tuple<X, Y>(x, Y {u});
                    }, +[](const X &a, const Y &b) { return X {a.v * b.v + b.v * a.v}; },
                    +[](const Shape &, const FW &a, const FW &b) {
                        W w = b.d;
                        w.resize(a.d.size(), 0);
                        W t = ntm::mul(FID, a.d, w);
                        return fw(ntm::add(FID, t, t));
                    });
            }
            if constexpr (has_unitary<E>::value)
                add("field unitary inverse" + sfx, tg, gcyc, +[](const X &a) { return X {a.v.unitary_inversed()}; },
                    +[](const Shape &, const FW &a) { return fw(ntm::inv(FID, a.d)); });
            if constexpr (has_cyc_sq<E>::value) {
                add("field cyclotomic square" + sfx, tg, gcyc, +[](const X &a) { return X {a.v.cyclotomic_squared()}; },
                    +[](const Shape &, const FW &a) { return fw(ntm::mul(FID, a.d, a.d)); });
                add("field cyclotomic power" + sfx, tg, +[](Rng &r) {
                        auto p = gpow(r);
                        return std::tuple<X, Int<I>>(std::get<0>(gcyc(r)), std::get<1>(p));
                    }, +[](const X &a, const Int<I> &e) { return X {a.v.cyclotomic_exp(e.v)}; },
                    +[](const Shape &, const FW &a, const FW &e) { return fw(ntm::pow(FID, a.d, e.d)); });
            }
            if constexpr (has_mulx<E>::value) {
                using U = typename E::underlying_type;
                struct UF {
                    using value_type = U;
                };
                using Y = El<UF>;
                add("field times base element" + sfx, tg, +[](Rng &r) {
                        X x = mk(ntm::rnd(FID, r));
                        return std::tuple<X, Y>(x, Y {mk(ntm::rnd(FID, r)).v.data[0]});
                    }, +[](const X &a, const Y &b) {
                        E x = a.v;
                        return X {x.mul_Fp_0(b.v)};
                    }, +[](const Shape &, const FW &a, const FW &b) {
                        W w = b.d;
                        w.resize(a.d.size(), 0);
                        return fw(ntm::mul(FID, a.d, w));
                    });
                if constexpr (FID == ntm::BLS381_2 || FID == ntm::BN_2)    // written for u^2 = -1
                    add("field times u" + sfx, tg, +[](Rng &r) {
                            X x = mk(ntm::rnd(FID, r));
                            return std::tuple<X, Y>(x, Y {mk(ntm::rnd(FID, r)).v.data[0]});
                        }, +[](const X &a, const Y &b) {
                            E x = a.v, y = a.v;
                            return X {x.mul_x() + y.mul_Fp_1(b.v)};
                        }, +[](const Shape &, const FW &a, const FW &b) {
                            W w(LW, 0), u(LW, 0);
                            w.insert(w.end(), b.d.begin(), b.d.end());
                            u.push_back(1);
                            u.resize(2 * LW, 0);
                            return fw(ntm::mul(FID, a.d, ntm::add(FID, w, u)));
                        });
            }
            if constexpr (FID == ntm::BN_2)    // written for 9 + u
                add("field times xi" + sfx, tg, g1, +[](const X &a) {
                        E x = a.v;
                        return X {x.mul_xi()};
                    }, +[](const Shape &, const FW &a) {
                        W w(2 * LW, 0);
                        w[0] = 9;
                        w[LW] = 1;
                        return fw(ntm::mul(FID, a.d, w));
                    });
            if constexpr (has_withint<E>::value && !has_under<E>::value)
                add("field with an integer" + sfx, tg, +[](Rng &r) {
                        return std::tuple<X, unsigned>(mk(ntm::rnd(FID, r)), unsigned(r.next() >> r.below(32) >> 33));
                    }, +[](const X &a, const unsigned &k) { return X {(a.v + k) * (k * a.v) - (k - a.v)}; },
                    +[](const Shape &, const FW &a, const Flat<unsigned> &k) {
                        W w(LW, 0);
                        w[0] = k.d[0];
                        return fw(ntm::sub(FID, ntm::mul(FID, ntm::add(FID, a.d, w), ntm::mul(FID, w, a.d)),
                                           ntm::sub(FID, w, a.d)));
                    });
            if constexpr (has_mulc<E>::value) {
                struct UF {
                    using value_type = typename E::underlying_type::underlying_type;
                };
                using Y = El<UF>;
                add("field times parts" + sfx, tg, +[](Rng &r) {
                        W a = ntm::rnd(FID, r), b = ntm::rnd(FID, r);
                        return std::tuple<X, Y, Y>(mk(a), Y {mk(b).v.data[0].data[0]}, Y {mk(b).v.data[1].data[1]});
                    }, +[](const X &a, const Y &b, const Y &c) {
                        E x = a.v, y = x.mul_Fp_b(b.v);
                        return X {y.mul_Fp_c(c.v)};
                    }, +[](const Shape &, const FW &a, const FW &b, const FW &c) {
                        W w = a.d;
                        for (std::size_t i = 2; i < 6; ++i) {
                            W t = w;
                            t.assign(w.begin() + long(i * LW), w.begin() + long((i + 1) * LW));
                            t.resize(w.size(), 0);
                            W m = i < 4 ? b.d : c.d;
                            m.resize(w.size(), 0);
                            t = ntm::mul(FID, t, m);
                            std::copy(t.begin(), t.begin() + long(LW), w.begin() + long(i * LW));
                        }
                        return fw(w);
                    });
            }
            if constexpr (has_m045<E>::value) {
                using U = typename E::underlying_type::underlying_type;
                struct UF {
                    using value_type = U;
                };
                using Y = El<UF>;
                auto gen = +[](Rng &r) {
                    X x = mk(ntm::rnd(FID, r)), y = mk(ntm::rnd(FID, r));
                    return std::tuple<X, Y, Y, Y>(x, Y {y.v.data[0].data[0]}, Y {y.v.data[1].data[1]},
                                                  Y {y.v.data[1].data[2]});
                };
                add("field times sparse 045" + sfx, tg, gen, +[](const X &a, const Y &l, const Y &vw, const Y &vv) {
                        return X {a.v.mul_by_045(l.v, vw.v, vv.v)};
                    }, +[](const Shape &, const FW &a, const FW &l, const FW &vw, const FW &vv) {
                        W w(a.d.size(), 0);
                        std::copy(vw.d.begin(), vw.d.end(), w.begin());
                        std::copy(l.d.begin(), l.d.end(), w.begin() + long(4 * l.d.size()));
                        std::copy(vv.d.begin(), vv.d.end(), w.begin() + long(5 * l.d.size()));
                        return fw(ntm::mul(FID, a.d, w));
                    });
                add("field times sparse 024" + sfx, tg, gen, +[](const X &a, const Y &l, const Y &vw, const Y &vv) {
                        return X {a.v.mul_by_024(l.v, vw.v, vv.v)};
                    }, +[](const Shape &, const FW &a, const FW &l, const FW &vw, const FW &vv) {
                        W w(a.d.size(), 0);
                        std::copy(l.d.begin(), l.d.end(), w.begin());
                        std::copy(vw.d.begin(), vw.d.end(), w.begin() + long(4 * l.d.size()));
                        std::copy(vv.d.begin(), vv.d.end(), w.begin() + long(2 * l.d.size()));
                        return fw(ntm::mul(FID, a.d, w));
                    });
            }
            if constexpr (has_m023<E>::value || has_m2345<E>::value) {
                constexpr bool quartic = has_m023<E>::value;
                add("field times sparse" + sfx, tg, +[](Rng &r) {
                        W a = ntm::rnd(FID, r), b = ntm::rnd(FID, r);
                        std::fill(b.begin() + long(quartic ? LW : 0), b.begin() + long(2 * LW), 0);
                        return std::tuple<X, X>(mk(a), mk(b));
                    }, +[](const X &a, const X &b) {
                        if constexpr (quartic)
                            return X {a.v.mul_by_023(b.v)};
                        else
                            return X {a.v.mul_by_2345(b.v)};
                    }, +[](const Shape &, const FW &a, const FW &b) { return fw(ntm::mul(FID, a.d, b.d)); });
            }
            add("field program" + sfx, tg | T_HISTORY, gprog, &prog, &prog_ref, Shape(), 4);
        }
        static constexpr bool has_squaretest() {    // some parameter sets lack the constant it needs
            return has_issq<E>::value && FID != ntm::EDW_3 && FID != ntm::K1_P && FID != ntm::K1_R && FID != ntm::PALLAS_P &&
                   FID != ntm::VESTA_P && FID != ntm::EDW_R && FID != ntm::R1_P && FID != ntm::R1_R && FID != ntm::ED_R && FID != ntm::JUB_R && FID != ntm::BABY_R;
        }
    };

    // ------------------------------------------------------------ groups
    template<typename P>
    struct FormOf {
        using C = typename P::coordinates;
        static constexpr bool te = std::is_same<typename P::form, crv::forms::twisted_edwards>::value;
        static constexpr bool mo = std::is_same<typename P::form, crv::forms::montgomery>::value;
        static constexpr bool affine = std::is_same<C, crv::coordinates::affine>::value;
        static constexpr bool inverted = std::is_same<C, crv::coordinates::inverted>::value;
        static constexpr bool extended = has_T<P>::value;
        static constexpr bool projective = std::is_same<C, crv::coordinates::projective>::value ||
                                           std::is_same<C, crv::coordinates::projective_with_a4_minus_3>::value;
    };
    template<typename P, int CID>
    struct Raw {    // an operand: every stored coordinate counts
        P p;
    };
    template<typename P, int CID>
    struct Codec<Raw<P, CID>> {
        HARNESS static FW flat(const Raw<P, CID> &r) {
            W w;
            bool gone = false;
            if constexpr (FormOf<P>::mo)
                gone = r.p.is_zero();
            if (gone)
                w.resize(2 * LW * ntm::dim(ntm::cfield(CID)));
            else {
                put_words(r.p.X, w);
                put_words(r.p.Y, w);
            }
            if constexpr (has_Z<P>::value)
                put_words(r.p.Z, w);
            if constexpr (has_T<P>::value)
                put_words(r.p.T, w);
            if constexpr (FormOf<P>::mo)
                w.push_back(gone);
            return fw(w);
        }
    };
    template<typename P, int CID>
    struct At {    // a result: the point it stands for
        P p;
    };
    template<typename P, int CID>
    HARNESS W affine_point(const FW &raw) {
        using Fm = FormOf<P>;
        const int f = ntm::cfield(CID);
        const std::size_t n = LW * ntm::dim(f);
        auto part = [&](std::size_t i) { return W(raw.d.begin() + long(i * n), raw.d.begin() + long((i + 1) * n)); };
        W x = part(0), y = part(1);
        if (Fm::mo)
            return raw.d.back() ? ntm::identity(CID) : ntm::point(CID, x, y);
        if (Fm::affine) {    // the stored identity is the pair the curve's parameters name
            W zx, zy;
            put_words(P::zero().X, zx);
            put_words(P::zero().Y, zy);
            return x == zx && y == zy ? ntm::identity(CID) : ntm::point(CID, x, y);
        }
        W z = part(2);
        if (Fm::inverted) {
            if (ntm::is_zero(z))
                return ntm::identity(CID);
            return ntm::point(CID, ntm::mul(f, z, ntm::inv(f, x)), ntm::mul(f, z, ntm::inv(f, y)));
        }
        if (ntm::is_zero(z))
            return ntm::identity(CID);
        W zi = ntm::inv(f, z), a = ntm::mul(f, x, zi), b = ntm::mul(f, y, zi);
        if (Fm::extended) {
            W p = ntm::point(CID, a, b);
            if (ntm::mul(f, part(3), zi) != ntm::mul(f, a, b))
                p.back() = 2;    // the redundant coordinate is wrong
            return p;
        }
        if (!Fm::projective) {
            a = ntm::mul(f, a, zi);
            b = ntm::mul(f, b, ntm::mul(f, zi, zi));
        }
        return ntm::point(CID, a, b);
    }
    template<typename P, int CID>
    struct Codec<At<P, CID>> {
        HARNESS static FW flat(const At<P, CID> &a) {
            return fw(affine_point<P, CID>(Codec<Raw<P, CID>>::flat(Raw<P, CID> {a.p})));
        }
    };
    template<typename P, int CID>
    struct Stored {
        using E = typename P::field_type::value_type;
        using Fm = FormOf<P>;
        HARNESS static P put(const W &p, Rng &r, bool normal) {
            const int f = ntm::cfield(CID);
            auto e = [](const W &w) { return make_elem<E>(w); };
            W z = ntm::one(f);
            if (!normal) {
                do
                    z = ntm::rnd(f, r);
                while (ntm::is_zero(z));
            }
            if (ntm::inf(p)) {
                if constexpr (Fm::affine || Fm::inverted)
                    return P::zero();
                else if constexpr (Fm::extended)
                    return P(e(ntm::zero(f)), e(z), e(ntm::zero(f)), e(z));
                else if constexpr (Fm::projective)
                    return P(e(ntm::zero(f)), e(z), e(ntm::zero(f)));
                else {
                    W zz = ntm::mul(f, z, z);
                    return P(e(zz), e(ntm::mul(f, zz, z)), e(ntm::zero(f)));
                }
            }
            W x = ntm::px(CID, p), y = ntm::py(CID, p);
            if constexpr (Fm::affine)
                return P(e(x), e(y));
            else if constexpr (Fm::inverted) {
                if (normal)
                    return P(e(ntm::inv(f, x)), e(ntm::inv(f, y)), e(z));
                return P(e(ntm::mul(f, z, y)), e(ntm::mul(f, z, x)), e(ntm::mul(f, z, ntm::mul(f, x, y))));
            } else if constexpr (Fm::extended)
                return P(e(ntm::mul(f, x, z)), e(ntm::mul(f, y, z)), e(ntm::mul(f, z, ntm::mul(f, x, y))), e(z));
            else if constexpr (Fm::projective)
                return P(e(ntm::mul(f, x, z)), e(ntm::mul(f, y, z)), e(z));
            else {
                W zz = ntm::mul(f, z, z);
                return P(e(ntm::mul(f, x, zz)), e(ntm::mul(f, y, ntm::mul(f, zz, z))), e(z));
            }
        }
    };
    HARNESS inline Step point_step(Rng &r) {
        Step s;
        s.op = int(r.below(11));
        s.i = int(r.below(3));
        s.j = int(r.below(3));
        s.k = int(r.below(3));
        return s;
    }
    // CID names the model's curve; P is any of the library's representations of its points.
    template<typename P, int CID, typename S>
    struct GroupOps {
        using Fm = FormOf<P>;
        using R = Raw<P, CID>;
        using A = At<P, CID>;
        using St = Stored<P, CID>;
        using SE = typename S::value_type;
        using SX = El<S>;
        using I = typename Base<typename P::field_type::value_type>::type::integral_type;
        static void less(P &x, const P &y) {    // one representation has no assigning form
            if constexpr (has_subeq<P>::value)
                x -= y;
            else
                x = x - y;
        }
        HARNESS static W point(Rng &r) {
            W p = ntm::crnd(CID, r);
            if (!Fm::inverted && r.below(8) == 0) {    // points of low order and with tiny coordinates
                static const std::vector<W> all = ntm::special_points(CID);
                if (!all.empty()) {
                    W t = all[r.below(all.size())];
                    if (r.below(2))
                        t = ntm::cneg(CID, t);
                    p = r.below(2) ? t : ntm::cadd(CID, p, t);
                }
            }
            return p;
        }
        HARNESS static std::tuple<R> g1(Rng &r) {
            W p = r.below(8) ? point(r) : ntm::identity(CID);
            return {R {St::put(p, r, r.below(3) == 0)}};
        }
        HARNESS static std::tuple<R, R> pair(Rng &r, bool mixed, bool alike = false) {
            W p = point(r), q = point(r);
            if (mixed)
                p = ntm::crnd(CID, r), q = ntm::crnd(CID, r);
            switch (r.below(8)) {
                case 0:
                case 1:
                    q = p;
                    break;
                case 2:
                    q = ntm::cneg(CID, p);
                    break;
                case 3:
                    (r.below(2) ? p : q) = ntm::identity(CID);
                    break;
                case 4:
                    if (alike || !Fm::inverted)
                        q = ntm::related(CID, p);
                    if (alike && r.below(2))
                        q = ntm::cneg(CID, q);
                    break;
            }
            P a = St::put(p, r, r.below(3) == 0);
            return {R {a}, R {St::put(q, r, mixed || r.below(3) == 0)}};
        }
        HARNESS static std::tuple<R, R> g2(Rng &r) {
            return pair(r, false);
        }
        HARNESS static std::tuple<R, R> gm(Rng &r) {
            return pair(r, true);
        }
        HARNESS static std::tuple<R, SX> gs(Rng &r) {
            W p = ntm::crnd(CID, r);
            P a = St::put(p, r, r.below(2));
            return {R {a}, SX {make_elem<SE>(ntm::srnd(CID, r))}};
        }
        HARNESS static std::tuple<R, Int<I>> gi(Rng &r) {
            W k = ntm::srnd(CID, r), m = ntm::order(ntm::cscalar(CID));
            W top = ntm::order(ntm::cfield(CID));
            unsigned __int128 c = 0;
            if (r.below(2)) {    // around the order of the group, where that fits
                W s(LW, 0);
                uint64_t d = r.below(5);
                for (std::size_t i = 0; i < LW; ++i) {
                    c += (unsigned __int128)m[i] + (i ? 0 : d);
                    s[i] = uint64_t(c);
                    c >>= 64;
                }
                if (ntm::less(s, top))
                    k = s;
            }
            if (!ntm::less(k, top))
                k = ntm::small(ntm::cscalar(CID), r.below(1000));
            W p = ntm::crnd(CID, r);
            return {R {St::put(p, r, r.below(2))}, Int<I> {int_from<I>(k.data(), LW)}};
        }
        HARNESS static W pt(const FW &f) {
            return affine_point<P, CID>(f);
        }
        using Prog = std::tuple<R, R, R, uint64_t, int>;
        HARNESS static Prog gprog(Rng &r) {
            R a = std::get<0>(g1(r)), b = std::get<0>(g1(r));
            W q = ntm::crnd(CID, r);
            R c = R {St::put(q, r, true)};
            uint64_t s = r.next();
            int n = int(2 + r.below(14));
            return Prog(a, b, c, s, n);
        }
        static A prog(const R &a, const R &b, const R &c, const uint64_t &seed, const int &len) {
            Rng r(seed);
            P x[3] = {a.p, b.p, c.p};
            for (int n = 0; n < len; ++n) {
                Step s = point_step(r);
                switch (s.op) {
                    case 0:
                        x[s.i] = x[s.j] + x[s.k];
                        break;
                    case 1:
                        x[s.i] = x[s.j] - x[s.k];
                        break;
                    case 2:
                        x[s.i] += x[s.j];
                        break;
                    case 3:
                        less(x[s.i], x[s.j]);
                        break;
                    case 4:
                        x[s.i].double_inplace();
                        break;
                    case 5:
                        x[s.i] = -x[s.j];
                        break;
                    case 6:
                        x[s.i] = x[s.j];
                        break;
                    case 7:
                        if (x[s.j] == x[s.k])
                            x[s.i].double_inplace();
                        break;
                    case 8:
                        x[s.i] = SE(unsigned(s.k) + 2u) * x[s.j];
                        break;
                    case 9:
                        if (x[s.j].is_zero())
                            x[s.i] = P::one();
                        break;
                    case 10:
                        x[s.i] += x[s.i];
                        break;
                }
            }
            return A {x[0] + x[1] - x[2]};
        }
        HARNESS static FW prog_ref(const Shape &, const FW &a, const FW &b, const FW &c, const FW &seed,
                                   const Flat<int> &len) {
            Rng r(seed.d[0]);
            W x[3] = {pt(a), pt(b), pt(c)};
            for (int n = 0; n < len.d[0]; ++n) {
                Step s = point_step(r);
                switch (s.op) {
                    case 0:
                        x[s.i] = ntm::cadd(CID, x[s.j], x[s.k]);
                        break;
                    case 1:
                        x[s.i] = ntm::cadd(CID, x[s.j], ntm::cneg(CID, x[s.k]));
                        break;
                    case 2:
                        x[s.i] = ntm::cadd(CID, x[s.i], x[s.j]);
                        break;
                    case 3:
                        x[s.i] = ntm::cadd(CID, x[s.i], ntm::cneg(CID, x[s.j]));
                        break;
                    case 4:
                    case 10:
                        x[s.i] = ntm::cadd(CID, x[s.i], x[s.i]);
                        break;
                    case 5:
                        x[s.i] = ntm::cneg(CID, x[s.j]);
                        break;
                    case 6:
                        x[s.i] = x[s.j];
                        break;
                    case 7:
                        if (x[s.j] == x[s.k])
                            x[s.i] = ntm::cadd(CID, x[s.i], x[s.i]);
                        break;
                    case 8:
                        x[s.i] = ntm::cmul(CID, x[s.j], W {uint64_t(s.k) + 2});
                        break;
                    case 9:
                        if (ntm::inf(x[s.j]))
                            x[s.i] = ntm::generator(CID);
                        break;
                }
            }
            return fw(ntm::cadd(CID, ntm::cadd(CID, x[0], x[1]), ntm::cneg(CID, x[2])));
        }
        HARNESS static void reg(const std::string &name) {
            const std::string sfx = " " + name;
            const unsigned tg = T_POINT;
            add("group add" + sfx, tg, g2, +[](const R &a, const R &b) { return A {a.p + b.p}; },
                +[](const Shape &, const FW &a, const FW &b) { return fw(ntm::cadd(CID, pt(a), pt(b))); }, Shape(), 2);
            add("group subtract" + sfx, tg, g2, +[](const R &a, const R &b) { return A {a.p - b.p}; },
                +[](const Shape &, const FW &a, const FW &b) {
                    return fw(ntm::cadd(CID, pt(a), ntm::cneg(CID, pt(b))));
                });
            add("group assigning add" + sfx, tg, g2, +[](const R &a, const R &b) {
                    P x = a.p;
                    x += b.p;
                    return A {x};
                }, +[](const Shape &, const FW &a, const FW &b) { return fw(ntm::cadd(CID, pt(a), pt(b))); });
            add("group assigning subtract" + sfx, tg, g2, +[](const R &a, const R &b) {
                    P x = a.p;
                    less(x, b.p);
                    return A {x};
                }, +[](const Shape &, const FW &a, const FW &b) {
                    return fw(ntm::cadd(CID, pt(a), ntm::cneg(CID, pt(b))));
                });
            add("group negate" + sfx, tg, g1, +[](const R &a) { return A {-a.p}; },
                +[](const Shape &, const FW &a) { return fw(ntm::cneg(CID, pt(a))); });
            add("group double" + sfx, tg, g1, +[](const R &a) {
                    P x = a.p;
                    x.double_inplace();
                    return A {x};
                }, +[](const Shape &, const FW &a) { return fw(ntm::cadd(CID, pt(a), pt(a))); });
            add("group operators on one variable" + sfx, tg, g1, +[](const R &a) {
                    P x = a.p, y = a.p;
                    x += x;
                    less(y, y);
                    x = x;
                    return A {x + y};
                }, +[](const Shape &, const FW &a) { return fw(ntm::cadd(CID, pt(a), pt(a))); });
            add("group comparison" + sfx, tg, +[](Rng &r) { return pair(r, false, true); }, +[](const R &a, const R &b) {
                    return int(a.p == b.p) + 2 * int(a.p != b.p) + 4 * int(a.p.is_zero()) + 8 * int(b.p.is_zero());
                }, +[](const Shape &, const FW &a, const FW &b) {
                    bool e = pt(a) == pt(b);
                    return one(int(e) + 2 * int(!e) + 4 * int(ntm::inf(pt(a))) + 8 * int(ntm::inf(pt(b))));
                });
            add("group constants" + sfx, tg, g1, +[](const R &a) { return A {P::zero() + a.p + P::one()}; },
                +[](const Shape &, const FW &a) { return fw(ntm::cadd(CID, pt(a), ntm::generator(CID))); });
            if constexpr (has_madd<P>::value)
                add("group mixed add" + sfx, tg, gm, +[](const R &a, const R &b) {
                        P x = a.p;
                        x.mixed_add(b.p);
                        return A {x};
                    }, +[](const Shape &, const FW &a, const FW &b) { return fw(ntm::cadd(CID, pt(a), pt(b))); });
            if constexpr (has_wellf<P>::value) {
                add("group well formed" + sfx, tg, +[](Rng &r) {
                        R a = std::get<0>(g1(r));
                        if (r.below(2) && !ntm::inf(affine_point<P, CID>(Codec<R>::flat(a))))    // off the curve, mostly
                            a.p.Y = a.p.Y + std::decay_t<decltype(a.p.Y)>::one();
                        return std::tuple<R>(a);
                    }, +[](const R &a) { return a.p.is_well_formed(); }, +[](const Shape &, const FW &a) {
                        W p = pt(a);
                        bool gone = ntm::inf(p) && !Fm::extended;
                        return one(p.back() != 2 && (gone || ntm::on_curve(CID, ntm::px(CID, p), ntm::py(CID, p))));
                    });
            }
            if constexpr (has_toaff<P>::value && has_Z<P>::value) {
                using PA = decltype(std::declval<const P &>().to_affine());
                using AA = At<PA, CID>;
                add("group to affine" + sfx, tg, g1, +[](const R &a) { return AA {a.p.to_affine()}; },
                    +[](const Shape &, const FW &a) { return fw(pt(a)); });
            }
            if constexpr (has_toproj<P>::value) {
                using PP = decltype(std::declval<const P &>().to_projective());
                using AP = At<PP, CID>;
                add("group to projective" + sfx, tg, g1, +[](const R &a) { return AP {a.p.to_projective()}; },
                    +[](const Shape &, const FW &a) { return fw(pt(a)); });
            }
            add("group times scalar" + sfx, tg | T_SLOW, gs, +[](const R &a, const SX &k) { return A {k.v * a.p}; },
                +[](const Shape &, const FW &a, const FW &k) { return fw(ntm::cmul(CID, pt(a), k.d)); });
            add("group assigning scalar" + sfx, tg | T_SLOW, gs, +[](const R &a, const SX &k) {
                    P x = a.p;
                    x *= k.v;
                    return A {x};
                }, +[](const Shape &, const FW &a, const FW &k) { return fw(ntm::cmul(CID, pt(a), k.d)); });
            add("group times integer" + sfx, tg | T_SLOW, gi, +[](const R &a, const Int<I> &k) { return A {a.p * k.v}; },
                +[](const Shape &, const FW &a, const FW &k) { return fw(ntm::cmul(CID, pt(a), k.d)); });
            add("group program" + sfx, tg | T_HISTORY, gprog, &prog, &prog_ref, Shape(), 4);
        }
    };
    // A result that is a point or its opposite: the maps below go through a square root, and either will do.
    HARNESS inline W either(const W &p, int c) {
        W n = ntm::cneg(c, p);
        return std::lexicographical_compare(n.begin(), n.end(), p.begin(), p.end()) ? n : p;
    }
    template<typename P, int CID>
    struct UpToSign {
        P p;
    };
    template<typename P, int CID>
    struct Codec<UpToSign<P, CID>> {
        HARNESS static FW flat(const UpToSign<P, CID> &a) {
            return fw(either(affine_point<P, CID>(Codec<Raw<P, CID>>::flat(Raw<P, CID> {a.p})), CID));
        }
    };
    // A curve with both a twisted Edwards and a Montgomery form: u = (1 + y)/(1 - y), v = s u/x.
    template<typename E, int TC, typename M, int MC>
    struct FormsOps {
        using RE = Raw<E, TC>;
        using RM = Raw<M, MC>;
        using AE = At<E, TC>;
        using UE = UpToSign<E, TC>;
        using UM = UpToSign<M, MC>;
        HARNESS static std::tuple<RE> ge(Rng &r) {
            W p = r.below(8) ? ntm::crnd(TC, r) : ntm::identity(TC);
            return {RE {Stored<E, TC>::put(p, r, true)}};
        }
        HARNESS static std::tuple<RM> gm(Rng &r) {
            W p = r.below(8) ? ntm::crnd(MC, r) : ntm::identity(MC);
            return {RM {Stored<M, MC>::put(p, r, true)}};
        }
        HARNESS static W scale(int f) {    // the square root that joins the two generators
            W g = ntm::generator(TC), h = ntm::generator(MC);
            W x = ntm::px(TC, g), y = ntm::py(TC, g), o = ntm::one(f);
            W u = ntm::mul(f, ntm::add(f, o, y), ntm::inv(f, ntm::sub(f, o, y)));
            return ntm::mul(f, ntm::mul(f, ntm::py(MC, h), x), ntm::inv(f, u));
        }
        HARNESS static W to_m(const W &p) {
            const int f = ntm::cfield(TC);
            if (ntm::inf(p))
                return ntm::identity(MC);
            W x = ntm::px(TC, p), y = ntm::py(TC, p), o = ntm::one(f);
            W u = ntm::mul(f, ntm::add(f, o, y), ntm::inv(f, ntm::sub(f, o, y)));
            return ntm::point(MC, u, ntm::mul(f, scale(f), ntm::mul(f, u, ntm::inv(f, x))));
        }
        HARNESS static W to_e(const W &p) {
            const int f = ntm::cfield(TC);
            if (ntm::inf(p))
                return ntm::identity(TC);
            W u = ntm::px(MC, p), v = ntm::py(MC, p), o = ntm::one(f);
            return ntm::point(TC, ntm::mul(f, scale(f), ntm::mul(f, u, ntm::inv(f, v))),
                              ntm::mul(f, ntm::sub(f, u, o), ntm::inv(f, ntm::add(f, u, o))));
        }
        HARNESS static void reg(const std::string &name) {
            const std::string sfx = " " + name;
            const unsigned tg = T_POINT;
            add("group to Montgomery" + sfx, tg, ge, +[](const RE &a) { return UM {a.p.to_montgomery()}; },
                +[](const Shape &, const FW &a) { return fw(either(to_m(affine_point<E, TC>(a)), MC)); });
            add("group to twisted Edwards" + sfx, tg, gm, +[](const RM &a) { return UE {a.p.to_twisted_edwards()}; },
                +[](const Shape &, const FW &a) { return fw(either(to_e(affine_point<M, MC>(a)), TC)); });
            add("group to Montgomery and back" + sfx, tg, ge, +[](const RE &a) {
                    return AE {a.p.to_montgomery().to_twisted_edwards()};
                }, +[](const Shape &, const FW &a) { return fw(affine_point<E, TC>(a)); });
            add("group sum in the other form" + sfx, tg, +[](Rng &r) {
                    RE a = std::get<0>(ge(r)), b = std::get<0>(ge(r));
                    return std::tuple<RE, RE>(a, b);
                }, +[](const RE &a, const RE &b) {
                    return AE {(a.p.to_montgomery() + b.p.to_montgomery()).to_twisted_edwards()};
                }, +[](const Shape &, const FW &a, const FW &b) {
                    return fw(ntm::cadd(TC, affine_point<E, TC>(a), affine_point<E, TC>(b)));
                });
        }
    };
}    // namespace sim
