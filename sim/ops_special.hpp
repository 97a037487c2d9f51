// Elementwise functions over values at the edges of floating point: signed zeros, infinities, NaN, denormals, the
// largest and smallest numbers and anything between.  What each element comes to is settled by IEEE 754.
#pragma once
#include "ops_mat.hpp"
#include <climits>

namespace sim {
    template<typename T, std::size_t R, std::size_t C>
    struct SG {
        using V = alg::vector<T, R>;
        using Mt = alg::matrix<T, R, C>;
        using L = std::numeric_limits<T>;
        HARNESS static T val(Rng &r, bool nan) {
            switch (r.below(nan ? 16 : 15)) {
                case 0:
                    return T(0);
                case 1:
                    return -T(0);
                case 2:
                    return L::infinity();
                case 3:
                    return -L::infinity();
                case 4:
                    return L::max();
                case 5:
                    return L::lowest();
                case 6:
                    return r.below(2) ? L::denorm_min() : -L::denorm_min();
                case 7:
                    return r.below(2) ? L::min() : -L::min();
                case 8:
                    return T(1);
                case 9:
                    return T(-1) - T(r.below(3));
                case 15:
                    return L::quiet_NaN();
                default:
                    return std::ldexp(T(r.range(-(1 << 23), 1 << 23)), r.range(L::min_exponent - 48, L::max_exponent - 23));
            }
        }
        // One value may fill most of an operand.
        HARNESS static V rv(Rng &r, bool nan) {
            V v = {};
            T common = val(r, nan);
            auto mode = r.below(3);
            for (std::size_t i = 0; i < R; ++i)
                v[i] = mode == 0 || (mode == 1 && r.below(4) == 0) ? val(r, nan) : common;
            return v;
        }
        HARNESS static Mt rm(Rng &r, bool nan) {
            Mt m = {};
            T common = val(r, nan);
            auto mode = r.below(3);
            for (std::size_t i = 0; i < R; ++i)
                for (std::size_t j = 0; j < C; ++j)
                    m[i][j] = mode == 0 || (mode == 1 && r.below(4) == 0) ? val(r, nan) : common;
            return m;
        }
        HARNESS static std::tuple<V> v(Rng &r) {
            return {rv(r, false)};
        }
        HARNESS static std::tuple<V> vn(Rng &r) {
            return {rv(r, true)};
        }
        HARNESS static std::tuple<V> vpos(Rng &r) {
            V v = rv(r, false);
            for (std::size_t i = 0; i < R; ++i)
                v[i] = v[i] < 0 ? -v[i] : v[i];
            return {v};
        }
        HARNESS static std::tuple<V, V> vv(Rng &r) {
            V a = rv(r, true);
            V b = r.below(2) ? rv(r, true) : a;
            if (r.below(2))
                b[r.below(R)] = val(r, true);
            for (std::size_t i = 0; i < R; ++i)
                if (a[i] == T(0) && r.below(2))    // zeros of either sign are equal
                    b[i] = -a[i];
            return {a, b};
        }
        HARNESS static std::tuple<V, T> vs(Rng &r) {
            auto a = rv(r, true);
            return {a, val(r, true)};
        }
        HARNESS static std::tuple<V, int> vi(Rng &r) {
            auto a = rv(r, true);
            return {a, r.range(-20, 20)};
        }
        HARNESS static std::tuple<Mt> m(Rng &r) {
            return {rm(r, false)};
        }
        HARNESS static std::tuple<Mt> mn(Rng &r) {
            return {rm(r, true)};
        }
        HARNESS static std::tuple<Mt, Mt> mm(Rng &r) {
            Mt a = rm(r, true);
            Mt b = r.below(2) ? rm(r, true) : a;
            if (r.below(2))
                b[r.below(R)][r.below(C)] = val(r, true);
            for (std::size_t i = 0; i < R; ++i)
                for (std::size_t j = 0; j < C; ++j)
                    if (a[i][j] == T(0) && r.below(2))
                        b[i][j] = -a[i][j];
            return {a, b};
        }
        HARNESS static std::tuple<Mt, T> ms(Rng &r) {
            auto a = rm(r, true);
            return {a, val(r, true)};
        }
    };
    template<typename T, std::size_t R, std::size_t C>
    HARNESS void special_ops() {
        using V = alg::vector<T, R>;
        using Mt = alg::matrix<T, R, C>;
        using G = SG<T, R, C>;
        using R_ = M<T>;
        const Shape rel {0, 0, std::is_same<T, float>::value ? -1e-5 : -1e-10};
        const std::string sv = std::string("<") + tname<T>() + "," + dims(R) + ">";
        const std::string sm = std::string("<") + tname<T>() + "," + dims(R, C) + ">";
        add("special vector ==" + sv, 0, G::vv, +[](const V &a, const V &b) { return a == b; }, R_::eq);
        add("special vector !=" + sv, 0, G::vv, +[](const V &a, const V &b) { return a != b; }, R_::ne);
        add("special vector == with itself" + sv, 0, G::vn, +[](const V &a) { return a == a; }, R_::eqself);
        add("special vector+vector" + sv, 0, G::vv, +[](const V &a, const V &b) { return a + b; }, R_::add, rel);
        add("special vector*vector" + sv, 0, G::vv, +[](const V &a, const V &b) { return a * b; }, R_::mul, rel);
        add("special vector/vector" + sv, 0, G::vv, +[](const V &a, const V &b) { return a / b; }, R_::div, rel);
        add("special vector+scalar" + sv, 0, G::vs, +[](const V &a, const T &s) { return a + s; }, R_::adds, rel);
        add("special scalar+vector" + sv, 0, G::vs, +[](const V &a, const T &s) { return s + a; }, R_::adds, rel);
        add("special vector*scalar" + sv, 0, G::vs, +[](const V &a, const T &s) { return a * s; }, R_::muls, rel);
        add("special scalar*vector" + sv, 0, G::vs, +[](const V &a, const T &s) { return s * a; }, R_::muls, rel);
        add("special scalar/vector" + sv, 0, G::vs, +[](const V &a, const T &s) { return s / a; }, R_::sdiv, rel);
        add("special vector conj" + sv, 0, G::vn, +[](const V &a) { return alg::conj(a); }, R_::conj, rel);
        add("special vector abs" + sv, 0, G::vn, +[](const V &a) { return alg::abs(a); }, R_::abs, rel);
        add("special vector min" + sv, 0, G::v, +[](const V &a) { return alg::min(a); }, R_::min, rel);
        add("special vector max" + sv, 0, G::v, +[](const V &a) { return alg::max(a); }, R_::max, rel);
        add("special vector min_index" + sv, 0, G::v, +[](const V &a) { return a[alg::min_index(a) % R]; }, R_::min, rel);
        add("special vector max_index" + sv, 0, G::v, +[](const V &a) { return a[alg::max_index(a) % R]; }, R_::max, rel);
        add("special vector rotate" + sv, 0, G::vi, +[](const V &a, const int &n) { return alg::rotate(a, n); },
            R_::rotate, rel);
        add("special vector concat with itself" + sv, 0, G::vn, +[](const V &a) { return alg::concat(a, a); }, R_::twice,
            rel);
        add("special vector sqrt" + sv, T_ITER, G::vpos, +[](const V &a) { return alg::sqrt(a); }, R_::sqrt, rel);
        add("special matrix ==" + sm, 0, G::mm, +[](const Mt &a, const Mt &b) { return a == b; }, R_::eq);
        add("special matrix !=" + sm, 0, G::mm, +[](const Mt &a, const Mt &b) { return a != b; }, R_::ne);
        add("special matrix+matrix" + sm, 0, G::mm, +[](const Mt &a, const Mt &b) { return a + b; }, R_::add, rel);
        add("special matrix*matrix" + sm, 0, G::mm, +[](const Mt &a, const Mt &b) { return a * b; }, R_::mul, rel);
        add("special matrix/matrix" + sm, 0, G::mm, +[](const Mt &a, const Mt &b) { return a / b; }, R_::div, rel);
        add("special matrix+scalar" + sm, 0, G::ms, +[](const Mt &a, const T &s) { return a + s; }, R_::adds, rel);
        add("special matrix*scalar" + sm, 0, G::ms, +[](const Mt &a, const T &s) { return a * s; }, R_::muls, rel);
        add("special scalar*matrix" + sm, 0, G::ms, +[](const Mt &a, const T &s) { return s * a; }, R_::muls, rel);
        add("special scalar+matrix" + sm, 0, G::ms, +[](const Mt &a, const T &s) { return s + a; }, R_::adds, rel);
        add("special scalar/matrix" + sm, 0, G::ms, +[](const Mt &a, const T &s) { return s / a; }, R_::sdiv, rel);
        add("special matrix conj" + sm, 0, G::mn, +[](const Mt &a) { return alg::conj(a); }, R_::conj, rel);
        add("special matrix macs" + sm, 0, G::m, +[](const Mt &a) { return alg::macs(a); }, R_::macs, rel);
        add("special matrix mars" + sm, 0, G::m, +[](const Mt &a) { return alg::mars(a); }, R_::mars, rel);
        add("special matrix transpose" + sm, 0, G::mn, +[](const Mt &a) { return alg::transpose(a); }, R_::transpose, rel);
        add("special matrix hermitian" + sm, 0, G::mn, +[](const Mt &a) { return alg::hermitian(a); }, R_::transpose, rel);
    }
}    // namespace sim
