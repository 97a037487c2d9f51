// Vector operations for one element type and size.
#pragma once
#include "model.hpp"
#include <climits>

namespace sim {
    template<typename T, std::size_t N>
    struct VG {    // operand generators
        using V = alg::vector<T, N>;
        HARNESS static std::tuple<V, V> vv(Rng &r) {
            auto a = rvec<T, N>(r);
            auto b = r.below(3) ? rvec<T, N>(r) : a;
            if (r.below(3) == 0)
                b[r.below(N)] = rnd<T>(r);
            return {a, b};
        }
        HARNESS static std::tuple<V, V> vvnz(Rng &r) {
            auto a = rvec<T, N>(r);
            return {a, rvec<T, N>(r, true)};
        }
        HARNESS static std::tuple<V, T> vs(Rng &r) {
            auto a = rvec<T, N>(r);
            return {a, rnd<T>(r)};
        }
        HARNESS static std::tuple<V, T> vnzs(Rng &r) {
            auto a = rvec<T, N>(r, true);
            return {a, rnd<T>(r)};
        }
        HARNESS static std::tuple<V> v(Rng &r) {
            return {rvec<T, N>(r)};
        }
        HARNESS static std::tuple<V> nan(Rng &r) {
            auto a = rvec<T, N>(r);
            if (r.below(2))
                a[r.below(N)] = std::numeric_limits<T>::quiet_NaN();
            return {a};
        }
        HARNESS static std::tuple<V> tie(Rng &r) {
            auto a = rvec<T, N>(r);
            for (std::size_t i = 0; i < N; ++i)
                if (r.below(2))
                    a[i] = a[r.below(N)];
            return {a};
        }
        HARNESS static std::tuple<T> s(Rng &r) {
            return {rnd<T>(r)};
        }
        HARNESS static std::tuple<T, T> ss(Rng &r) {
            auto a = rnd<T>(r);
            return {a, rnd<T>(r)};
        }
        HARNESS static std::tuple<V, int> vn(Rng &r) {
            int n = r.below(4) ? r.range(-3 * int(N), 3 * int(N)) : r.range(-1000, 1000);
            if (r.below(6) == 0)
                n = r.below(3) ? int(unsigned(r.next())) : r.below(2) ? INT_MAX - int(r.below(3)) : INT_MIN + int(r.below(3));
            return {rvec<T, N>(r), n};
        }
        HARNESS static std::tuple<V, std::size_t> sl(Rng &r) {
            std::size_t i = r.below(N - N / 2 + 1);
            return {rvec<T, N>(r), i};
        }
        HARNESS static std::tuple<V, std::size_t> sl1(Rng &r) {
            std::size_t i = r.below(2);
            return {rvec<T, N>(r), i};
        }
        HARNESS static std::tuple<V, std::size_t> sln(Rng &r) {
            std::size_t i = r.below(N);
            return {rvec<T, N>(r), i};
        }
        template<std::size_t K>
        HARNESS static std::tuple<V, alg::vector<T, K>> cc(Rng &r) {
            auto a = rvec<T, N>(r);
            return {a, rvec<T, K>(r)};
        }
        HARNESS static std::tuple<V> sq(Rng &r) {
            V v = {};
            bool neg = r.below(8) == 0;
            for (std::size_t i = 0; i < N; ++i)
                v[i] = r.below(6) == 0 ? T(0) :
                       r.below(4)      ? T(r.below(2000)) / T(16) :
                                         T(r.range(0, 30) * r.range(0, 30));
            if (neg)
                v[r.below(N)] = T(-1 - int(r.below(5)));
            return {v};
        }
    };

    template<typename T, std::size_t N>
    HARNESS void vec_elementary() {
        using V = alg::vector<T, N>;
        using P = plain_t<T>;
        using G = VG<T, N>;
        using R = M<P>;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(N) + ">";
        const unsigned tg = ttag<T>();
        if constexpr (std::is_floating_point<T>::value)
            add("vector == with itself" + sfx, tg, G::nan, +[](const V &a) { return a == a; }, R::eqself);
        add("vector ==" + sfx, tg, G::vv, +[](const V &a, const V &b) { return a == b; }, R::eq);
        add("vector !=" + sfx, tg, G::vv, +[](const V &a, const V &b) { return a != b; }, R::ne);
        add("vector+scalar" + sfx, tg, G::vs, +[](const V &a, const T &s) { return a + s; }, R::adds);
        add("scalar+vector" + sfx, tg, G::vs, +[](const V &a, const T &s) { return s + a; }, R::adds);
        add("vector+vector" + sfx, tg, G::vv, +[](const V &a, const V &b) { return a + b; }, R::add);
        add("vector*scalar" + sfx, tg, G::vs, +[](const V &a, const T &s) { return a * s; }, R::muls);
        add("scalar*vector" + sfx, tg, G::vs, +[](const V &a, const T &s) { return s * a; }, R::muls);
        add("vector*vector" + sfx, tg, G::vv, +[](const V &a, const V &b) { return a * b; }, R::mul);
        add("scalar/vector" + sfx, tg, G::vnzs, +[](const V &a, const T &s) { return s / a; }, R::sdiv);
        add("vector/vector" + sfx, tg, G::vvnz, +[](const V &a, const V &b) { return a / b; }, R::div);
        add("vector a*a+a" + sfx, tg, G::v, +[](const V &a) { return a * a + a; }, R::alias);
        add("vector conj" + sfx, tg, G::v, +[](const V &a) { return alg::conj(a); }, R::conj);
        add("vector dot" + sfx, tg, G::vv, +[](const V &a, const V &b) { return alg::dot(a, b); }, R::dot);
        add("vector sum" + sfx, tg, G::v, +[](const V &a) { return alg::sum(a); }, R::sum);
        if constexpr (!std::is_unsigned<T>::value)
            add("vector abs" + sfx, tg | (alg::is_complex_v<T> ? T_ITER : 0u), G::v,
                +[](const V &a) { return alg::abs(a); }, R::abs);
        if constexpr (ordered<T>) {
            add("vector min" + sfx, tg, G::v, +[](const V &a) { return alg::min(a); }, R::min);
            add("vector max" + sfx, tg, G::v, +[](const V &a) { return alg::max(a); }, R::max);
            // The documentation promises an index of a minimal element: the value found there is
            // compared, so ties may be broken either way.
            add("vector min_index" + sfx, tg, G::tie, +[](const V &a) { return a[alg::min_index(a) % N]; }, R::min);
            add("vector max_index" + sfx, tg, G::tie, +[](const V &a) { return a[alg::max_index(a) % N]; }, R::max);
        }
    }

    template<typename T, std::size_t N>
    HARNESS void vec_shape() {
        using V = alg::vector<T, N>;
        using P = plain_t<T>;
        using G = VG<T, N>;
        using R = M<P>;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(N) + ">";
        const unsigned tg = ttag<T>();
        const Shape sn {N, 1};
        add("vector fill" + sfx, tg, G::s, +[](const T &s) { return alg::fill<N>(s); }, R::fill, sn);
        add("vector iota" + sfx, tg, G::s, +[](const T &s) { return alg::iota<N>(s); }, R::iota, sn);
        add("vector rotate" + sfx, tg, G::vn, +[](const V &a, const int &n) { return alg::rotate(a, n); }, R::rotate);
        add("vector access" + sfx, tg, G::v, +[](const V &a) {
                V c = a;
                std::size_t i = 0;
                T s = a[0];
                for (const T *p = c.cbegin(); p != c.cend(); ++p, ++i)
                    s = s + *p * T(int(i % 7 + 1));
                V d = a;
                for (T *p = d.begin(); p != d.end(); ++p)
                    *p = s;
                return d + c;
            }, R::access);
        if constexpr (N >= 2) {
            constexpr std::size_t K = N / 2;
            add("vector slice" + sfx, tg, G::sl,
                +[](const V &a, const std::size_t &s) { return alg::slice<K>(a, s); }, R::slice, Shape {K, 1});
            add("vector slice whole" + sfx, tg, G::v, +[](const V &a) { return alg::slice<N>(a, 0); }, R::slice0,
                Shape {N, 1});
            add("vector slice all but one" + sfx, tg, G::sl1,
                +[](const V &a, const std::size_t &s) { return alg::slice<N - 1>(a, s); }, R::slice, Shape {N - 1, 1});
            add("vector slice one" + sfx, tg, G::sln,
                +[](const V &a, const std::size_t &s) { return alg::slice<1>(a, s); }, R::slice, Shape {1, 1});
            add("vector slice from start" + sfx, tg, G::v, +[](const V &a) { return alg::slice<K>(a); }, R::slice0,
                Shape {K, 1});
        }
        add("vector concat with itself" + sfx, tg, G::v, +[](const V &a) { return alg::concat(a, a); }, R::twice);
        constexpr std::size_t K = N > 3 ? N - 3 : N + 2;
        add("vector concat" + sfx, tg, G::template cc<K>,
            +[](const V &a, const alg::vector<T, K> &b) { return alg::concat(a, b); }, R::concat);
        if constexpr (std::is_same<T, double>::value) {
            add("vector cast to int" + sfx, tg, G::v, +[](const V &a) { return alg::cast<int>(a); }, R::template cast<int>);
            add("vector cast to float" + sfx, tg, G::v, +[](const V &a) { return alg::cast<float>(a); },
                R::template cast<float>);
        }
        if constexpr (std::is_same<T, int>::value) {
            add("vector cast to double" + sfx, tg, G::v, +[](const V &a) { return alg::cast<double>(a); },
                R::template cast<double>);
            add("vector cast to u8" + sfx, tg, G::v, +[](const V &a) { return alg::cast<unsigned char>(a); },
                R::template cast<unsigned char>);
        }
        if constexpr (std::is_floating_point<T>::value) {
            if constexpr (N >= 2)
                add("vector linspace" + sfx, tg, G::ss,
                    +[](const T &a, const T &b) { return alg::linspace<N>(a, b); }, R::linspace, sn);
            add("vector sqrt" + sfx, tg | T_ITER | T_REJECT, G::sq, +[](const V &a) { return alg::sqrt(a); }, R::sqrt);
        }
        if constexpr (alg::is_complex_v<T> || std::is_same<T, double>::value) {
            add("vector real" + sfx, tg, G::v, +[](const V &a) { return alg::real(a); }, R::real);
            add("vector imag" + sfx, tg, G::v, +[](const V &a) { return alg::imag(a); }, R::imag);
        }
        if constexpr (N <= 4)
            add("make_vector" + sfx, tg, G::v, +[](const V &a) {
                    if constexpr (N == 1)
                        return alg::make_vector(a[0]);
                    else if constexpr (N == 2)
                        return alg::make_vector(a[0], a[1]);
                    else if constexpr (N == 3)
                        return alg::make_vector(a[0], a[1], a[2]);
                    else
                        return alg::make_vector(a[0], a[1], a[2], a[3]);
                }, R::ident);
    }
    template<typename T, std::size_t... N>
    HARNESS void vec_all() {
        (vec_elementary<T, N>(), ...);
        (vec_shape<T, N>(), ...);
    }
}    // namespace sim
