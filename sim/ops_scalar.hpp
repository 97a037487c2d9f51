// Scalar functions.
#pragma once
#include "ops_vec.hpp"

namespace sim {
    HARNESS inline double wild(Rng &r) {
        switch (r.below(13)) {
            case 12:
                return r.below(2) ? -std::numeric_limits<double>::infinity() : -0.0;
            case 0:
                return 0.0;
            case 1:
                return std::numeric_limits<double>::infinity();
            case 2:
                return std::numeric_limits<double>::quiet_NaN();
            case 3:
                return std::numeric_limits<double>::max();
            case 4:
                return std::numeric_limits<double>::denorm_min() * double(1 + r.below(9));
            case 5: {
                double b = double(r.below(100000));
                return b * b;
            }
            case 6:
                return -std::ldexp(1.0 + double(r.below(1000)), r.range(-1070, 900));
            case 7:
                return 1.0 + double(r.range(-3, 3)) * 2.220446049250313e-16;
            default:
                return std::ldexp(1.0 + double(r.below(1u << 20)) / 1048576.0, r.range(-1060, 1000));
        }
    }
    HARNESS inline std::tuple<double> g_sqrt(Rng &r) {
        return {wild(r)};
    }
    HARNESS inline std::tuple<float> g_sqrtf(Rng &r) {
        double d = wild(r);
        if (d > 3e38 && !std::isinf(d))
            d = 3e38;
        if (d < -3e38)
            d = -3e38;
        return {float(d)};
    }
    HARNESS inline std::tuple<double, int> g_root(Rng &r) {
        double d = wild(r);
        int n = 1 + int(r.below(9));
        if (r.below(4) == 0) {
            double b = double(1 + r.below(40));
            d = std::pow(b, n);
        }
        return {d, n};
    }
    HARNESS inline std::tuple<double, int> g_anyroot(Rng &r) {
        double d = wild(r);
        int n = r.below(2) ? r.range(1, 200) : r.below(3) ? int(unsigned(r.next()) >> (1 + r.below(31))) | 1 : INT_MAX;
        if (r.below(3) == 0)
            d = double(r.range(1, 5000)) / 16;
        if (d > 0 && d < 1e-290)    // denormals have no digits to compare
            d = 1e-290;
        if (d > 1e307 && d <= std::numeric_limits<double>::max())    // powers of the estimate must not overflow
            d = 1e307;
        return {d, n};
    }
    HARNESS inline std::tuple<double, int> g_exp(Rng &r) {
        double b = r.below(5) == 0 ? double(r.range(-1, 1)) : double(r.range(-200, 200)) / 16;
        int n = b == 0 ? int(r.below(50)) : r.below(8) == 0 ? r.range(-400, 400) : r.range(-12, 40);
        if (b == 1 || b == -1)
            n = r.below(4) ? r.range(-2000000000, 2000000000) : std::numeric_limits<int>::min() + int(r.below(2));
        else if (b != 0 && r.below(16) == 0)
            n = r.below(2) ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min();
        return {b, n};
    }
    template<typename T>
    HARNESS std::tuple<T> g_val(Rng &r) {
        if constexpr (std::is_same<T, int>::value)
            if (r.below(3) == 0)
                return {int(r.next() >> 33) * (r.below(2) ? 1 : -1)};
        return {rnd<T>(r)};
    }
    constexpr int MANY = 40;
    struct Many {
        double x[MANY];
        int n[MANY];
    };
    template<>
    struct Codec<Many> {
        HARNESS static Flat<double> flat(const Many &m) {
            Flat<double> f(1, MANY);
            for (int i = 0; i < MANY; ++i)
                f.d[std::size_t(i)] = m.x[i];
            return f;
        }
    };
    HARNESS inline std::tuple<uint64_t> g_many(Rng &r) {
        return {r.next()};
    }
    HARNESS inline Many many_args(uint64_t seed, int which) {
        Quiet q;
        Rng r(seed);
        Many m = {};
        for (int i = 0; i < MANY; ++i) {
            auto a = which == 2 ? g_exp(r) : which == 1 && r.below(2) ? g_anyroot(r) :
                     which == 1 ? g_root(r) : std::tuple<double, int>(wild(r), 1);
            if (which == 0 && r.below(3) == 0)    // any bits of a small number
                std::get<0>(a) = std::ldexp(double(r.next() >> (12 + r.below(50))), -1074);
            m.x[i] = std::get<0>(a);
            m.n[i] = std::get<1>(a);
            if (which < 2 && m.x[i] < 0)    // refused; see the single calls
                m.x[i] = which ? double(i) : -m.x[i];
        }
        return m;
    }
    using SF = Flat<double>;
    HARNESS inline SF r_sqrt(const Shape &, const SF &x) {
        return x.d[0] < 0 ? refuse<double>() : one(std::sqrt(x.d[0]));
    }
    HARNESS inline Flat<float> r_sqrtf(const Shape &, const Flat<float> &x) {
        return x.d[0] < 0 ? refuse<float>() : one(float(std::sqrt(double(x.d[0]))));
    }
    HARNESS inline SF r_root(const Shape &, const SF &x, const Flat<int> &n) {
        return x.d[0] < 0 ? refuse<double>() : one(std::pow(x.d[0], 1.0 / n.d[0]));
    }
    HARNESS inline SF r_exp(const Shape &, const SF &x, const Flat<int> &n) {
        return one(std::pow(x.d[0], n.d[0]));
    }
    HARNESS inline void scalar_ops() {
        add("sqrt(double)", T_ITER | T_REJECT, g_sqrt, +[](const double &x) { return alg::sqrt(x); }, r_sqrt,
            Shape {0, 0, -1e-12}, 6);
        add("sqrt(float)", T_ITER | T_REJECT, g_sqrtf, +[](const float &x) { return alg::sqrt(x); }, r_sqrtf,
            Shape {0, 0, -1e-6}, 6);
        add("nthroot", T_ITER | T_REJECT, g_root, +[](const double &x, const int &n) { return alg::nthroot(x, n); },
            r_root, Shape {0, 0, -1e-9}, 6);
        add("nthroot of any degree", T_ITER | T_REJECT, g_anyroot,
            +[](const double &x, const int &n) { return alg::nthroot(x, n); }, r_root, Shape {0, 0, -1e-9}, 4);
        add("exponentiate", T_ITER, g_exp, +[](const double &x, const int &n) { return alg::exponentiate(x, n); },
            r_exp, Shape {0, 0, -1e-9}, 6);
        // The same functions over many arguments at once: some arguments are rare.
        add("sqrt of many", T_ITER, g_many, +[](const uint64_t &seed) {
                Many m = many_args(seed, 0);
                for (int i = 0; i < MANY; ++i)
                    m.x[i] = alg::sqrt(m.x[i]);
                return m;
            }, +[](const Shape &, const Flat<uint64_t> &seed) {
                Many m = many_args(seed.d[0], 0);
                for (int i = 0; i < MANY; ++i)
                    m.x[i] = std::sqrt(m.x[i]);
                return Codec<Many>::flat(m);
            }, Shape {0, 0, -1e-12}, 8);
        add("nthroot of many", T_ITER, g_many, +[](const uint64_t &seed) {
                Many m = many_args(seed, 1);
                for (int i = 0; i < MANY; ++i)
                    m.x[i] = alg::nthroot(m.x[i], m.n[i]);
                return m;
            }, +[](const Shape &, const Flat<uint64_t> &seed) {
                Many m = many_args(seed.d[0], 1);
                for (int i = 0; i < MANY; ++i)
                    m.x[i] = std::pow(m.x[i], 1.0 / m.n[i]);
                return Codec<Many>::flat(m);
            }, Shape {0, 0, -1e-9}, 8);
        add("exponentiate of many", T_ITER, g_many, +[](const uint64_t &seed) {
                Many m = many_args(seed, 2);
                for (int i = 0; i < MANY; ++i)
                    m.x[i] = alg::exponentiate(m.x[i], m.n[i]);
                return m;
            }, +[](const Shape &, const Flat<uint64_t> &seed) {
                Many m = many_args(seed.d[0], 2);
                for (int i = 0; i < MANY; ++i)
                    m.x[i] = std::pow(m.x[i], m.n[i]);
                return Codec<Many>::flat(m);
            }, Shape {0, 0, -1e-9}, 4);
        add("abs<int>", 0, g_val<int>, +[](const int &x) { return alg::abs(x); }, M<int>::abs, Shape(), 2);
        add("abs<double>", 0, g_val<double>, +[](const double &x) { return alg::abs(x); }, M<double>::abs, Shape(), 2);
        add("abs<float>", 0, g_val<float>, +[](const float &x) { return alg::abs(x); }, M<float>::abs, Shape(), 2);
        add("abs<cplx>", T_ITER, g_val<std::complex<double>>, +[](const std::complex<double> &x) { return alg::abs(x); },
            M<std::complex<double>>::abs, Shape(), 2);
        add("conj<cplx>", 0, g_val<std::complex<double>>, +[](const std::complex<double> &x) { return alg::conj(x); },
            M<std::complex<double>>::conj, Shape(), 2);
        add("conj<double>", 0, g_val<double>, +[](const double &x) { return alg::conj(x); }, M<double>::conj, Shape(), 2);
        add("conj<Heap>", T_THROWING, g_val<Heap>, +[](const Heap &x) { return alg::conj(x); }, M<double>::conj,
            Shape(), 2);
    }
}    // namespace sim
