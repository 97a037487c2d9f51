// Point formulas, subgroup check and pairing drivers over toy groups whose field can fail.
#pragma once
#include "opkit.hpp"
#include <cassert>
#include <nil/crypto3/algebra/algorithms/pair.hpp>
#include <nil/crypto3/algebra/curves/detail/subgroup_check.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/add_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/edwards/inverted/madd_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/add_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/madd_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/add_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/dbl_2009_l.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/madd_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/add_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/madd_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/add_1998_cmo_2.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/add_1998_cmo_2.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/dbl_2007_bl.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/add_2008_hwcd_3.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/dbl_2008_hwcd.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/madd_2008_hwcd_2.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/add_2008_bbjlp.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/dbl_2008_bbjlp.hpp>
#include <nil/crypto3/algebra/curves/detail/forms/twisted_edwards/inverted/madd_2008_bbjlp.hpp>

#include "toy_field.inc"
namespace sim {
    // Elements of the toy field: ZF owns its value, HF owns a cell and every operation on it can fail.
    struct ZF {
        Zp data;
        static void fp() {
        }
        constexpr ZF() = default;
        constexpr ZF(Zp z) : data(z) {
        }
        template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>>
        constexpr ZF(I i) : data(i) {
        }
        constexpr Zp get() const {
            return data;
        }
        void set(Zp z) {
            data = z;
        }
        SIM_TOY_FIELD(ZF)
    };
    struct HF {
        void *p;
        static void fp() {
            fault_point(F_ELEM);
        }
        HF() : p(nullptr) {
            fp();
            p = cell_new(0);
        }
        HF(Zp z) : p(nullptr) {
            fp();
            p = cell_new(double(z.v));
        }
        template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>>
        HF(I i) : p(nullptr) {
            fp();
            p = cell_new(double(Zp(i).v));
        }
        HF(const HF &o) : p(nullptr) {
            fp();
            p = cell_new(cell_get(o.p));
        }
        HF(HF &&o) noexcept : p(o.p) {
            o.p = nullptr;
        }
        HF &operator=(const HF &o) {
            fp();
            double d = cell_get(o.p);
            if (!p)
                p = cell_new(d);
            else
                cell_set(p, d);
            return *this;
        }
        HF &operator=(HF &&o) noexcept {
            if (this != &o) {
                cell_free(p);
                p = o.p;
                o.p = nullptr;
            }
            return *this;
        }
        ~HF() {
            cell_free(p);
            p = nullptr;
        }
        Zp get() const {
            return Zp::raw(uint32_t(cell_get(p)));
        }
        void set(Zp z) {
            cell_set(p, double(z.v));
        }
        SIM_TOY_FIELD(HF)
    };
    template<>
    struct plain<ZF> {
        using type = Zp;
    };
    template<>
    struct plain<HF> {
        using type = Zp;
    };
    inline Zp plain_of(const ZF &f) {
        return f.get();
    }
    inline Zp plain_of(const HF &f) {
        return f.get();
    }
    template<>
    inline const char *tname<ZF>() {
        return "Zp";
    }
    template<>
    inline const char *tname<HF>() {
        return "HeapZp";
    }
    template<>
    constexpr unsigned ttag<HF>() {
        return T_THROWING;
    }

    // ---- curves and how a point is stored
    enum Form { JAC, PROJ, INV, EXT };
    struct SwAny {
        static constexpr Form form = JAC;
        static constexpr Zp a = Zp(1234577), b = Zp(98765) * Zp(98765), c = Zp(1), d = Zp(0);
        static constexpr bool edwards = false;
    };
    struct SwA0 : SwAny {
        static constexpr Zp a = Zp(0), b = Zp(9);
    };
    struct SwA3 : SwAny {
        static constexpr Zp a = Zp(-3), b = Zp(424242) * Zp(424242);
    };
    struct PrAny : SwAny {
        static constexpr Form form = PROJ;
    };
    struct PrA3 : SwA3 {
        static constexpr Form form = PROJ;
    };
    struct EdInv {    // x^2 + y^2 = c^2 (1 + d x^2 y^2)
        static constexpr Form form = INV;
        static constexpr Zp a = Zp(1), b = Zp(0), c = Zp(31), d = Zp(1213);
        static constexpr bool edwards = true;
    };
    struct TeInv {    // a x^2 + y^2 = 1 + d x^2 y^2
        static constexpr Form form = INV;
        static constexpr Zp a = Zp(17), b = Zp(0), c = Zp(1), d = Zp(5077);
        static constexpr bool edwards = true;
    };
    struct TeExt : TeInv {
        static constexpr Form form = EXT;
        static constexpr Zp a = Zp(-1), d = Zp(37095);
    };
    template<typename F>
    struct FieldOf {
        using value_type = F;
    };
    template<typename F, typename C>
    struct Point {
        using field_type = FieldOf<F>;
        using params_type = C;
        F X, Y, Z, T;
        Point() : X(0u), Y(1u), Z(C::form == EXT ? 1u : 0u), T(0u) {
        }
        Point(const F &x, const F &y, const F &z) : X(x), Y(y), Z(z), T(0u) {
        }
        Point(const F &x, const F &y, const F &z, const F &t) : X(x), Y(y), Z(z), T(t) {
        }
        static Point zero() {
            return Point();
        }
        bool is_zero() const {
            if (C::form == EXT)
                return X.is_zero() && Y == Z;
            return Z.is_zero();
        }
        bool operator==(const Point &o) const {
            return X == o.X && Y == o.Y && Z == o.Z && T == o.T;
        }
        bool operator!=(const Point &o) const {
            return !(*this == o);
        }
    };
    template<typename F, typename C>
    struct Codec<Point<F, C>> {
        static auto flat(const Point<F, C> &p) {
            Flat<Zp> f(4, 1);
            f.d[0] = p.X.get();
            f.d[1] = p.Y.get();
            f.d[2] = p.Z.get();
            f.d[3] = p.T.get();
            return f;
        }
    };
    struct Aff {
        Zp x, y;
        bool inf = false;
        bool bad = false;    // an exceptional case of the formulas
    };
    template<typename C>
    HARNESS Aff affine(const Flat<Zp> &p) {
        Aff r;
        Zp X = p.d[0], Y = p.d[1], Z = p.d[2];
        const Zp zero(0);
        if (C::form == INV) {
            if (Z == zero) {
                r.inf = true;
                return r;
            }
            r.bad = X == zero || Y == zero;
            r.x = Z / X;
            r.y = Z / Y;
            return r;
        }
        if (Z == zero) {
            r.inf = C::form != EXT;
            r.bad = !r.inf;
            return r;
        }
        r.x = C::form == JAC ? X / (Z * Z) : X / Z;
        r.y = C::form == JAC ? Y / (Z * Z * Z) : Y / Z;
        if (C::form == EXT && !(p.d[3] / Z == r.x * r.y))
            r.bad = true;
        return r;
    }
    inline Flat<Zp> as_flat(const Aff &a) {
        Flat<Zp> f(4, 1);
        f.d[0] = a.inf || a.bad ? Zp(0) : a.x;
        f.d[1] = a.inf || a.bad ? Zp(0) : a.y;
        f.d[2] = Zp(int(a.inf));
        f.d[3] = Zp(int(a.bad));
        return f;
    }
    // What a caller can observe of a point: its affine value, not the scaling of its coordinates.
    template<typename F, typename C>
    struct Seen {
        Point<F, C> p;
    };
    template<typename F, typename C>
    struct Codec<Seen<F, C>> {
        static auto flat(const Seen<F, C> &s) {
            return as_flat(affine<C>(Codec<Point<F, C>>::flat(s.p)));
        }
    };
    // Textbook affine addition.
    template<typename C>
    HARNESS Aff plus(const Aff &p, const Aff &q) {
        const Zp zero(0), unit(1);
        Aff r;
        if (p.bad || q.bad) {
            r.bad = true;
            return r;
        }
        if (C::edwards) {
            if (p.inf)
                return q;
            if (q.inf)
                return p;
            Zp t = C::d * p.x * q.x * p.y * q.y;
            Zp dx = C::c * (unit + t), dy = C::c * (unit - t);
            if (dx == zero || dy == zero) {
                r.bad = true;
                return r;
            }
            r.x = (p.x * q.y + p.y * q.x) / dx;
            r.y = (p.y * q.y - C::a * p.x * q.x) / dy;
            return r;
        }
        if (p.inf)
            return q;
        if (q.inf)
            return p;
        Zp l;
        if (p.x == q.x) {
            if (!(p.y == q.y) || p.y == zero) {
                r.inf = true;
                return r;
            }
            l = (Zp(3) * p.x * p.x + C::a) / (p.y + p.y);
        } else
            l = (q.y - p.y) / (q.x - p.x);
        r.x = l * l - p.x - q.x;
        r.y = l * (p.x - r.x) - p.y;
        return r;
    }
    inline int chain_step(Rng &r, bool mixed) {
        return int(r.below(mixed ? 5 : 4));
    }
    template<typename F, typename C>
    struct PG {
        using Pt = Point<F, C>;
        HARNESS static Aff random_point(Rng &r) {
            const Zp zero(0), unit(1);
            for (;;) {
                Aff p;
                p.x = r.below(6) ? Zp(1 + r.below(Zp::P - 1)) : Zp(C::edwards ? r.range(1, 30) : r.range(-30, 30));
                if (!C::edwards && r.below(20) == 0)
                    p.x = zero;
                Zp w;
                if (C::edwards) {
                    Zp den = unit - C::c * C::c * C::d * p.x * p.x;
                    if (den == zero)
                        continue;
                    w = (C::c * C::c - C::a * p.x * p.x) / den;
                } else
                    w = p.x * p.x * p.x + C::a * p.x + C::b;
                p.y = Zp::raw(Zp::pw(w.v, (Zp::P + 1) / 4));
                if (!(p.y * p.y == w) || p.y == zero)
                    continue;
                if (r.below(2))
                    p.y = -p.y;
                return p;
            }
        }
        HARNESS static Zp scale(Rng &r) {
            switch (r.below(8)) {
                case 0:
                    return Zp(2 + r.below(3));
                case 1:
                    return Zp(-1);
                case 2:
                    return Zp(1);
                default:
                    return Zp(1 + r.below(Zp::P - 1));
            }
        }
        HARNESS static Pt store(Rng &r, const Aff &p, bool normal) {
            return store(p, normal ? Zp(1) : scale(r), normal);
        }
        HARNESS static Pt store(const Aff &p, Zp z, bool normal) {
            switch (C::form) {
                case JAC:
                    return Pt(F(p.x * z * z), F(p.y * z * z * z), F(z));
                case PROJ:
                    return Pt(F(p.x * z), F(p.y * z), F(z));
                case INV:
                    if (normal)    // X = 1/x, Y = 1/y, Z = 1
                        return Pt(F(Zp(1) / p.x), F(Zp(1) / p.y), F(Zp(1)));
                    return Pt(F(z * p.y), F(z * p.x), F(z * p.x * p.y));
                default:
                    return Pt(F(p.x * z), F(p.y * z), F(z), F(p.x * p.y * z));
            }
        }
        HARNESS static std::tuple<Pt> one(Rng &r) {
            if (C::form == EXT && r.below(8) == 0) {    // (0, 1) and (0, -1) with any scaling
                Aff z;
                z.x = Zp(0);
                z.y = Zp(r.below(3) ? 1 : -1);
                return {store(r, z, r.below(3) == 0)};
            }
            if (r.below(8) == 0)
                return {C::form == INV ? Pt(F(C::c), F(0u), F(0u)) : Pt()};    // the identity
            Aff p = random_point(r);
            return {store(r, p, r.below(3) == 0)};
        }
        // Two points for which the formula is defined.
        HARNESS static std::tuple<Pt, Pt> pair(Rng &r, bool normal) {
            for (;;) {
                Aff p = random_point(r), q = random_point(r);
                if (C::edwards && !(normal && C::form == EXT) && r.below(3) == 0)
                    q = p;    // complete formulas may double
                else if (!C::edwards && p.x == q.x)
                    continue;
                if (C::form == EXT && !normal)
                    switch (r.below(10)) {
                        case 0:
                            q = p;
                            q.x = -q.x;    // the sum is the identity
                            break;
                        case 1:
                        case 2: {
                            Aff &o = r.below(2) ? p : q;
                            o.x = Zp(0);
                            o.y = Zp(r.below(3) ? 1 : -1);
                        }
                    }
                if (C::form == EXT && normal && !dedicated(p, q))
                    continue;
                Aff s = plus<C>(p, q);
                if (s.bad || s.inf || (C::form == INV && (s.x == Zp(0) || s.y == Zp(0))))
                    continue;
                Zp z = scale(r);
                bool na = r.below(4) == 0, nb = normal || r.below(4) == 0;
                Pt a = store(p, na ? Zp(1) : z, na);
                if (!nb && r.below(3))
                    z = scale(r);    // otherwise both points have the same scaling
                return {a, store(q, nb ? Zp(1) : z, nb)};
            }
        }
        HARNESS static std::tuple<Pt, Pt> add(Rng &r) {
            return pair(r, false);
        }
        HARNESS static std::tuple<Pt, Pt> madd(Rng &r) {
            return pair(r, true);
        }
        // The mixed addition for extended coordinates is not complete.
        HARNESS static bool dedicated(const Aff &p, const Aff &q) {
            return !(p.y * q.y + C::a * p.x * q.x == Zp(0)) && !(p.x * q.y - p.y * q.x == Zp(0));
        }
        // The chain on the textbook side; false when it meets a case the formulas do not cover.
        HARNESS static bool walk(Aff &x, const Aff &b, const Aff &c, uint64_t seed, int len, bool mixed) {
            Rng r(seed);
            bool fine = true;
            auto sum = [&](const Aff &p, const Aff &q) {
                if (!C::edwards && (p.inf || q.inf || p.x == q.x))
                    fine = false;
                return plus<C>(p, q);
            };
            for (int i = 0; i < len; ++i) {
                switch (chain_step(r, mixed)) {
                    case 0:
                    case 1:
                        x = plus<C>(x, x);
                        break;
                    case 4:
                        fine = fine && (C::form != EXT || dedicated(x, c));
                        x = sum(x, c);
                        break;
                    case 2:
                        x = sum(x, b);
                        break;
                    case 3:
                        x = sum(x, plus<C>(x, x));
                        break;
                }
                if (x.inf || x.bad || (C::form == INV && (x.x == Zp(0) || x.y == Zp(0))))
                    fine = false;
            }
            return fine;
        }
        template<bool mixed>
        HARNESS static std::tuple<Pt, Pt, Pt, uint64_t, int> chain(Rng &r) {
            for (;;) {
                Aff p = random_point(r), q = random_point(r), n = random_point(r);
                Pt a = store(r, p, false), b = store(r, q, false), c = store(r, n, true);
                uint64_t s = r.next();
                int len = int(r.below(5) ? 2 + r.below(14) : 10 + r.below(90));
                if (walk(p, q, n, s, len, mixed))
                    return std::tuple<Pt, Pt, Pt, uint64_t, int>(a, b, c, s, len);
            }
        }
    };
    template<typename F, typename C, typename Add, typename Dbl, typename Madd>
    struct Formulas {
        using Pt = Point<F, C>;
        using G = PG<F, C>;
        using See = Seen<F, C>;
        static constexpr bool mixed = !std::is_same<Madd, void>::value;
        // One generic step, so that the running point has every shape the formulas themselves produce.
        static See chain(const Pt &p, const Pt &q, const Pt &n, const uint64_t &seed, const int &len) {
            Rng r(seed);
            Pt x = p;
            for (int i = 0; i < len; ++i)
                switch (chain_step(r, mixed)) {
                    case 0:
                    case 1:
                        Dbl::process(x);
                        break;
                    case 4:
                        if constexpr (mixed) {
                            Madd::process(x, n);
                            break;
                        }
                        [[fallthrough]];
                    case 2:
                        Add::process(x, q);
                        break;
                    case 3: {
                        Pt y = x;
                        Dbl::process(y);
                        Add::process(x, y);    // three times x
                        break;
                    }
                }
            return See {x};
        }
        static Flat<Zp> chain_ref(const Shape &, const Flat<Zp> &p, const Flat<Zp> &q, const Flat<Zp> &n,
                                  const Flat<uint64_t> &seed, const Flat<int> &len) {
            Aff x = affine<C>(p);
            G::walk(x, affine<C>(q), affine<C>(n), seed.d[0], len.d[0], mixed);
            return as_flat(x);
        }
        static Flat<Zp> add_ref(const Shape &, const Flat<Zp> &p, const Flat<Zp> &q) {
            return as_flat(plus<C>(affine<C>(p), affine<C>(q)));
        }
        static Flat<Zp> dbl_ref(const Shape &, const Flat<Zp> &p) {
            Aff a = affine<C>(p);
            return as_flat(plus<C>(a, a));
        }
        static Flat<Zp> self_ref(const Shape &, const Flat<Zp> &p, const Flat<Zp> &) {
            Aff a = affine<C>(p);
            return as_flat(plus<C>(a, a));
        }
        HARNESS static void reg(const std::string &form) {
            const std::string sfx = " " + form + "<" + tname<F>() + ">";
            const unsigned tg = T_GROUP | ttag<F>();
            sim::add("point add" + sfx, tg, G::add, +[](const Pt &a, const Pt &b) {
                    Pt x = a;
                    Add::process(x, b);
                    return See {x};
                }, add_ref);
            sim::add("point double" + sfx, tg, G::one, +[](const Pt &a) {
                    Pt x = a;
                    Dbl::process(x);
                    return See {x};
                }, dbl_ref);
            if constexpr (mixed)
                sim::add("point mixed add" + sfx, tg, G::madd, +[](const Pt &a, const Pt &b) {
                        Pt x = a;
                        Madd::process(x, b);
                        return See {x};
                    }, add_ref);
            if constexpr (C::edwards)
                sim::add("point added to itself" + sfx, tg, G::add, +[](const Pt &a, const Pt &) {
                        Pt x = a;
                        Add::process(x, x);
                        return See {x};
                    }, self_ref);
            sim::add("point chain" + sfx, tg | T_HISTORY, G::template chain<mixed>, &chain, &chain_ref, Shape(), 4);
        }
    };

    // ---- toy group of order n for the subgroup check, and a toy pairing e(a, b) = g^(ab)
    struct ToyCurve {
        static constexpr uint64_t q = 10007;
        template<typename F>
        struct Group;
    };
    template<typename F>
    struct ToyElem {
        struct group_type {
            using value_type = ToyElem;
            using field_type = FieldOf<F>;
            using curve_type = ToyCurve;
            static constexpr const std::size_t value_bits = 31;
        };
        F v;
        // the group Z / (6 q): multiplication by q kills exactly the elements that are multiples of 6
        ToyElem operator*(uint64_t k) const {
            return ToyElem {F(Zp((uint64_t(v.get().v) * k) % (6 * ToyCurve::q)))};
        }
        bool is_zero() const {
            return v.is_zero();
        }
    };
    template<typename F>
    struct Codec<ToyElem<F>> {
        static auto flat(const ToyElem<F> &e) {
            return one(e.v.get());
        }
    };
    template<typename F>
    struct ToyPairingCurve {
        template<typename = void>
        struct g1_type {
            using value_type = F;
        };
        template<typename = void>
        struct g2_type {
            using value_type = F;
        };
        struct gt_type {
            using value_type = F;
        };
    };
    template<typename F>
    struct Pre1 {
        F v;
    };
    template<typename F>
    struct Pre2 {
        F v, w;
    };
    template<typename F>
    struct Codec<Pre1<F>> {
        static auto flat(const Pre1<F> &p) {
            return one(p.v.get());
        }
    };
    template<typename F>
    struct Codec<Pre2<F>> {
        static auto flat(const Pre2<F> &p) {
            Flat<Zp> f(2, 1);
            f.d[0] = p.v.get();
            f.d[1] = p.w.get();
            return f;
        }
    };
    template<typename F>
    struct ToyPolicy {    // f(P, Q) = (3P + 1)(5Q + 2 Q^2), reduced value = f^3 + 1
        using g1_precomputed_type = Pre1<F>;
        using g2_precomputed_type = Pre2<F>;
        struct precompute_g1 {
            static Pre1<F> process(const F &p) {
                yield_here();
                return {p * F(3u) + F(1u)};
            }
        };
        struct precompute_g2 {
            static Pre2<F> process(const F &q) {
                yield_here();
                return {q * F(5u), q * q};
            }
        };
        struct miller_loop {
            static F process(const Pre1<F> &p, const Pre2<F> &q) {
                yield_here();
                return p.v * (q.v + q.w + q.w);
            }
        };
        struct double_miller_loop {
            static F process(const Pre1<F> &p, const Pre2<F> &q, const Pre1<F> &p2, const Pre2<F> &q2) {
                yield_here();
                return miller_loop::process(p, q) * miller_loop::process(p2, q2);
            }
        };
        struct final_exponentiation {
            static F process(const F &f) {
                yield_here();
                return f * f * f + F(1u);
            }
        };
    };
    template<typename F>
    HARNESS void pairing_drivers() {
        using E = ToyElem<F>;
        using C = ToyPairingCurve<F>;
        using P = ToyPolicy<F>;
        using FZ = Flat<Zp>;
        const std::string sfx = std::string("<") + tname<F>() + ">";
        const unsigned tg = T_GROUP | ttag<F>();
        add("subgroup_check" + sfx, tg, +[](Rng &r) {
                uint64_t v = r.below(6 * ToyCurve::q);
                return std::tuple<E>(E {F(Zp(r.below(2) ? v / 6 * 6 : v))});
            }, +[](const E &e) { return alg::curves::detail::subgroup_check(e); },
            +[](const Shape &, const FZ &f) { return one(f.d[0].v % 6 == 0); });
        static const auto f1 = [](Zp p) { return Zp(3) * p + Zp(1); };
        static const auto ml = [](Zp a, Zp b, Zp w) { return a * (b + w + w); };
        static const auto full = [](Zp p, Zp q) { return p == Zp(0) || q == Zp(0) ? Zp(1) : (Zp(3) * p + Zp(1)) * (Zp(5) * q + q * q + q * q); };
        using Two = std::tuple<F, F>;
        Two (*two)(Rng &) = +[](Rng &r) {
            Zp a = rnd<Zp>(r), b = rnd<Zp>(r);
            return Two(F(a), F(b));
        };
        add("pair" + sfx, tg, two, +[](const F &p, const F &q) { return alg::pair<C, P>(p, q); },
            +[](const Shape &, const FZ &p, const FZ &q) { return one(full(p.d[0], q.d[0])); });
        add("pair_reduced" + sfx, tg, two, +[](const F &p, const F &q) { return alg::pair_reduced<C, P>(p, q); },
            +[](const Shape &, const FZ &p, const FZ &q) {
                Zp f = full(p.d[0], q.d[0]);
                if (p.d[0] == Zp(0) || q.d[0] == Zp(0))
                    return one(f);
                return one(Zp(f * f * f + Zp(1)));
            });
        add("precompute_g1" + sfx, tg, +[](Rng &r) { return std::tuple<F>(F(rnd<Zp>(r))); },
            +[](const F &p) { return alg::precompute_g1<C, P>(p); },
            +[](const Shape &, const FZ &p) { return one(f1(p.d[0])); });
        add("precompute_g2" + sfx, tg, +[](Rng &r) { return std::tuple<F>(F(rnd<Zp>(r))); },
            +[](const F &p) { return alg::precompute_g2<C, P>(p); },
            +[](const Shape &, const FZ &p) {
                FZ f(2, 1);
                f.d[0] = Zp(5) * p.d[0];
                f.d[1] = p.d[0] * p.d[0];
                return f;
            });
        add("final_exponentiation" + sfx, tg, +[](Rng &r) { return std::tuple<F>(F(rnd<Zp>(r))); },
            +[](const F &p) { return alg::final_exponentiation<C, P>(p); },
            +[](const Shape &, const FZ &p) { return one(Zp(p.d[0] * p.d[0] * p.d[0] + Zp(1))); });
        using Pre = std::tuple<Pre1<F>, Pre2<F>>;
        add("miller_loop" + sfx, tg, +[](Rng &r) {
                Zp a = rnd<Zp>(r), b = rnd<Zp>(r), c = rnd<Zp>(r);
                return Pre(Pre1<F> {F(a)}, Pre2<F> {F(b), F(c)});
            }, +[](const Pre1<F> &p, const Pre2<F> &q) { return alg::miller_loop<C, P>(p, q); },
            +[](const Shape &, const FZ &p, const FZ &q) { return one(ml(p.d[0], q.d[0], q.d[1])); });
        using Dbl = std::tuple<Pre1<F>, Pre2<F>, Pre1<F>, Pre2<F>>;
        add("double_miller_loop" + sfx, tg, +[](Rng &r) {
                Zp a = rnd<Zp>(r), b = rnd<Zp>(r), c = rnd<Zp>(r), d = rnd<Zp>(r), e = rnd<Zp>(r), f = rnd<Zp>(r);
                return Dbl(Pre1<F> {F(a)}, Pre2<F> {F(b), F(c)}, Pre1<F> {F(d)}, Pre2<F> {F(e), F(f)});
            }, +[](const Pre1<F> &p, const Pre2<F> &q, const Pre1<F> &p2, const Pre2<F> &q2) {
                return alg::double_miller_loop<C, P>(p, q, p2, q2);
            },
            +[](const Shape &, const FZ &p, const FZ &q, const FZ &p2, const FZ &q2) {
                return one(Zp(ml(p.d[0], q.d[0], q.d[1]) * ml(p2.d[0], q2.d[0], q2.d[1])));
            });
    }
}    // namespace sim
