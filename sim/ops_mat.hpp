// Matrix operations for one element type and shape.
#pragma once
#include "ops_vec.hpp"

namespace sim {
    // A matrix whose rank is unambiguous in floating point: under three pivoting rules every value
    // used as a pivot is clearly non-zero and every value dropped is clearly rounding noise.
    template<typename P>
    struct Robust {
        static bool ok(const Flat<P> &m0, double drop, double keep) {
            for (int rule = 0; rule < 3; ++rule) {
                Flat<P> m = m0;
                std::size_t i = 0;
                for (std::size_t j = 0; j < m.c && i < m.r; ++j) {
                    std::size_t b = i;
                    double big = 0;
                    for (std::size_t k = i; k < m.r; ++k)
                        big = std::fmax(big, std::fabs(double(m(k, j))));
                    if (big <= drop)
                        continue;
                    if (big < keep)
                        return false;
                    if (rule == 0) {    // the first larger element that counts
                        for (std::size_t k = i + 1; k < m.r; ++k)
                            if (std::fabs(double(m(k, j))) > std::fabs(double(m(i, j))) &&
                                std::fabs(double(m(k, j))) > drop) {
                                b = k;
                                break;
                            }
                    } else if (rule == 1) {    // the largest element
                        for (std::size_t k = i; k < m.r; ++k)
                            if (std::fabs(double(m(k, j))) > std::fabs(double(m(b, j))))
                                b = k;
                    } else {    // running exchange
                        for (std::size_t k = i + 1; k < m.r; ++k)
                            if (std::fabs(double(m(k, j))) > std::fabs(double(m(i, j))))
                                for (std::size_t c = 0; c < m.c; ++c)
                                    std::swap(m(i, c), m(k, c));
                    }
                    for (std::size_t c = 0; c < m.c && b != i; ++c)
                        std::swap(m(i, c), m(b, c));
                    double piv = std::fabs(double(m(i, j)));
                    if (piv < keep)
                        return false;
                    P s = m(i, j);
                    for (std::size_t c = 0; c < m.c; ++c)
                        m(i, c) = P(m(i, c) / s);
                    for (std::size_t k = 0; k < m.r; ++k)
                        if (k != i) {
                            P t = m(k, j);
                            double at = std::fabs(double(t));
                            if (at <= drop)
                                continue;
                            if (at < keep)
                                return false;
                            for (std::size_t c = 0; c < m.c; ++c)
                                m(k, c) = P(m(k, c) - t * m(i, c));
                        }
                    ++i;
                }
            }
            return true;
        }
        static double norm(const Flat<P> &m) {
            double best = 0;
            for (std::size_t i = 0; i < m.r; ++i) {
                double s = 0;
                for (std::size_t j = 0; j < m.c; ++j)
                    s += std::fabs(double(m(i, j)));
                best = std::fmax(best, s);
            }
            return best;
        }
    };
    template<>
    struct Robust<Zp> {
        static bool ok(const Flat<Zp> &, double, double) {
            return true;
        }
        static double norm(const Flat<Zp> &) {
            return 1;
        }
    };
    // Row-major values of a robust r x c matrix; kind: 0 any, 1 often singular.
    template<typename P>
    Flat<P> robust_values(Rng &r, std::size_t rows, std::size_t cols, double noise = 0) {
        for (int attempt = 0;; ++attempt) {
            Flat<P> m(rows, cols);
            int kind = attempt > 60 ? 9 : int(r.below(8));
            bool sparse = r.below(3) == 0;
            for (std::size_t i = 0; i < rows; ++i)
                for (std::size_t j = 0; j < cols; ++j)
                    m(i, j) = sparse && r.below(2) ? P(0) : P(r.range(-9, 9));
            if (kind == 0) {    // duplicated / scaled rows
                std::size_t a = r.below(rows), b = r.below(rows);
                int k = int(r.below(3)) + 1;
                for (std::size_t j = 0; j < cols; ++j)
                    m(a, j) = a == b ? m(a, j) : P(m(b, j) * P(k));
            } else if (kind == 1) {    // a zero row
                std::size_t a = r.below(rows);
                for (std::size_t j = 0; j < cols; ++j)
                    m(a, j) = P(0);
            } else if (kind == 2) {    // a zero column
                std::size_t a = r.below(cols);
                for (std::size_t i = 0; i < rows; ++i)
                    m(i, a) = P(0);
            } else if (kind == 3 && r.below(4) == 0) {    // nothing at all
                for (auto &x : m.d)
                    x = P(0);
            } else if (kind == 4) {    // a row made from the others
                std::size_t a = r.below(rows);
                for (std::size_t j = 0; j < cols && rows > 1; ++j)
                    m(a, j) = P(0);
                for (std::size_t i = 0; i < rows; ++i) {
                    int k = r.range(-3, 3);
                    for (std::size_t j = 0; j < cols && i != a; ++j)
                        m(a, j) = P(m(a, j) + P(m(i, j) * P(k)));
                }
            } else if (kind == 5) {    // permuted triangular: forces exchanges
                for (std::size_t i = 0; i < rows; ++i)
                    for (std::size_t j = 0; j < cols; ++j)
                        if (j < i)
                            m(i, j) = P(0);
                        else if (i == j)
                            m(i, j) = P(1 + int(r.below(6)));
                for (std::size_t i = 0; i + 1 < rows; ++i) {
                    std::size_t k = i + r.below(rows - i);
                    for (std::size_t j = 0; j < cols; ++j)
                        std::swap(m(i, j), m(k, j));
                }
            } else if (kind == 9) {
                for (std::size_t i = 0; i < rows; ++i)
                    for (std::size_t j = 0; j < cols; ++j)
                        m(i, j) = P(i == j ? 2 : i + 1 == j ? 1 : 0);
            }
            if constexpr (!std::is_same<P, Zp>::value)
{
                if (noise > 0) {    // a row of values below the caller's tolerance, anywhere
                    std::size_t k = r.below(rows);
                    for (std::size_t j = 0; j < cols; ++j)
                        m(k, j) = P(noise * r.range(-3, 3));
                } else if (r.below(4) == 0)    // rounding dust in empty places
                    for (auto &x : m.d)
                        if (x == P(0) && r.below(2))
                            x = P(r.range(-3, 3) * (std::is_same<P, float>::value ? 1e-12 : 1e-18));
            }
            double eps = std::is_same<P, float>::value ? 1.1920929e-7 : 2.220446e-16;
            double tol = double(std::max(rows, cols)) * eps * Robust<P>::norm(m) / 4;
            double keep = std::is_same<P, float>::value ? 0.2 : 0.02;
            if (noise > 0)
                tol = 1e-5;
            if (Robust<P>::ok(m, tol, keep))
                return m;
        }
    }

    template<typename T, std::size_t R, std::size_t C>
    struct MG {
        using Mt = alg::matrix<T, R, C>;
        HARNESS static Mt from(const Flat<plain_t<T>> &f) {
            Mt m = {};
            for (std::size_t i = 0; i < R; ++i)
                for (std::size_t j = 0; j < C; ++j)
                    m[i][j] = T(f(i, j));
            return m;
        }
        HARNESS static std::tuple<Mt> m(Rng &r) {
            return {rmat<T, R, C>(r)};
        }
        HARNESS static std::tuple<Mt, Mt> mm(Rng &r) {
            auto a = rmat<T, R, C>(r);
            auto b = r.below(3) ? rmat<T, R, C>(r) : a;
            if (r.below(3) == 0)
                b[r.below(R)][r.below(C)] = rnd<T>(r);
            return {a, b};
        }
        HARNESS static std::tuple<Mt, Mt> mmnz(Rng &r) {
            auto a = rmat<T, R, C>(r);
            return {a, rmat<T, R, C>(r, true)};
        }
        HARNESS static std::tuple<Mt, T> ms(Rng &r) {
            auto a = rmat<T, R, C>(r);
            return {a, rnd<T>(r)};
        }
        HARNESS static std::tuple<Mt, T> mnzs(Rng &r) {
            auto a = rmat<T, R, C>(r, true);
            return {a, rnd<T>(r)};
        }
        HARNESS static std::tuple<T> s(Rng &r) {
            return {rnd<T>(r)};
        }
        HARNESS static std::size_t index(Rng &r, std::size_t n) {
            switch (r.below(11)) {
                case 0:
                    return n;
                case 1:
                    return n + 1 + r.below(40);
                case 2:
                    return ~std::size_t(0) - r.below(20);
                case 3:    // a valid index in its low bits only
                    return (std::size_t(1) << (r.below(2) ? 8 * (1 + r.below(7)) : r.below(64))) * (1 + r.below(3)) +
                           r.below(n);
                default:
                    return r.below(n);
            }
        }
        HARNESS static std::tuple<Mt, std::size_t> ri(Rng &r) {
            auto i = index(r, R);
            return {rmat<T, R, C>(r), i};
        }
        HARNESS static std::tuple<Mt, std::size_t> ci(Rng &r) {
            auto i = index(r, C);
            return {rmat<T, R, C>(r), i};
        }
        HARNESS static std::tuple<Mt, std::size_t, std::size_t> rr(Rng &r) {
            auto i = r.below(R), j = r.below(R);
            return {rmat<T, R, C>(r), i, j};
        }
        HARNESS static std::tuple<Mt, std::size_t, std::size_t> cc(Rng &r) {
            auto i = r.below(C), j = r.below(C);
            return {rmat<T, R, C>(r), i, j};
        }
        template<std::size_t P, std::size_t Q>
        HARNESS static std::tuple<Mt, std::size_t, std::size_t> sub(Rng &r) {
            auto i = index(r, R - P + 1), j = index(r, C - Q + 1);
            return {rmat<T, R, C>(r), i, j};
        }
        template<std::size_t P, std::size_t Q>
        HARNESS static std::tuple<Mt, alg::matrix<T, P, Q>> with(Rng &r) {
            auto a = rmat<T, R, C>(r);
            return {a, rmat<T, P, Q>(r)};
        }
        HARNESS static std::tuple<alg::vector<T, R>, Mt> vm(Rng &r) {
            auto a = rvec<T, R>(r);
            return {a, rmat<T, R, C>(r)};
        }
        HARNESS static std::tuple<Mt, alg::vector<T, C>> mv(Rng &r) {
            auto a = rmat<T, R, C>(r);
            return {a, rvec<T, C>(r)};
        }
        // In a wild plan some entries become infinite, not-a-number, denormal or huge.
        HARNESS static Flat<plain_t<T>> disturbed(Rng &r, Flat<plain_t<T>> f) {
            if constexpr (!std::is_same<plain_t<T>, Zp>::value)
                if (wild_values)
                    for (auto &x : f.d)
                        if (r.below(5) == 0)
                            x = plain_t<T>(wild_double(r));
            return f;
        }
        HARNESS static std::tuple<Mt> robust(Rng &r) {
            return {from(disturbed(r, robust_values<plain_t<T>>(r, R, C)))};
        }
        // The whole matrix in other units: 2^k times a robust one.
        template<bool DET = false>
        HARNESS static std::tuple<Mt, int> scaled(Rng &r) {
            auto f = robust_values<plain_t<T>>(r, R, C);
            int lim = std::is_same<plain_t<T>, float>::value ? 24 : 80;
            if (!DET && r.chance(0.5))    // the determinant itself need not be representable
                lim = std::is_same<plain_t<T>, float>::value ? 50 : 300;
            int k = r.range(-lim, lim);
            for (auto &x : f.d)
                x = plain_t<T>(std::ldexp(x, k));
            return {from(f), k};
        }
        HARNESS static std::tuple<Mt, T> robust_tol(Rng &r) {
            auto f = disturbed(r, robust_values<plain_t<T>>(r, R, C, 1e-7));
            if constexpr (std::is_same<plain_t<T>, Zp>::value)
                return {from(f), T(0)};
            else
                return {from(f), T(1e-3)};
        }
    };

    template<typename T, std::size_t R, std::size_t C>
    HARNESS void mat_elementary() {
        using Mt = alg::matrix<T, R, C>;
        using P = plain_t<T>;
        using G = MG<T, R, C>;
        using R_ = M<P>;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(R, C) + ">";
        const unsigned tg = ttag<T>();
        add("matrix ==" + sfx, tg, G::mm, +[](const Mt &a, const Mt &b) { return a == b; }, R_::eq);
        add("matrix !=" + sfx, tg, G::mm, +[](const Mt &a, const Mt &b) { return a != b; }, R_::ne);
        add("matrix+scalar" + sfx, tg, G::ms, +[](const Mt &a, const T &s) { return a + s; }, R_::adds);
        add("scalar+matrix" + sfx, tg, G::ms, +[](const Mt &a, const T &s) { return s + a; }, R_::adds);
        add("matrix+matrix" + sfx, tg, G::mm, +[](const Mt &a, const Mt &b) { return a + b; }, R_::add);
        add("matrix*scalar" + sfx, tg, G::ms, +[](const Mt &a, const T &s) { return a * s; }, R_::muls);
        add("scalar*matrix" + sfx, tg, G::ms, +[](const Mt &a, const T &s) { return s * a; }, R_::muls);
        add("matrix*matrix" + sfx, tg, G::mm, +[](const Mt &a, const Mt &b) { return a * b; }, R_::mul);
        add("scalar/matrix" + sfx, tg, G::mnzs, +[](const Mt &a, const T &s) { return s / a; }, R_::sdiv);
        add("matrix/matrix" + sfx, tg, G::mmnz, +[](const Mt &a, const Mt &b) { return a / b; }, R_::div);
        add("matrix conj" + sfx, tg, G::m, +[](const Mt &a) { return alg::conj(a); }, R_::conj);
        if constexpr (alg::is_complex_v<T> || std::is_same<T, double>::value) {
            add("matrix real" + sfx, tg, G::m, +[](const Mt &a) { return alg::real(a); }, R_::real);
            add("matrix imag" + sfx, tg, G::m, +[](const Mt &a) { return alg::imag(a); }, R_::imag);
        }
        if constexpr (std::is_same<T, double>::value)
            add("matrix cast to int" + sfx, tg, G::m, +[](const Mt &a) { return alg::cast<int>(a); },
                R_::template cast<int>);
        if constexpr (std::is_same<T, int>::value)
            add("matrix cast to double" + sfx, tg, G::m, +[](const Mt &a) { return alg::cast<double>(a); },
                R_::template cast<double>);
    }
    template<typename T, std::size_t R, std::size_t C>
    HARNESS void mat_shape() {
        using Mt = alg::matrix<T, R, C>;
        using P = plain_t<T>;
        using G = MG<T, R, C>;
        using R_ = M<P>;
        using Sz = std::size_t;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(R, C) + ">";
        const unsigned tg = ttag<T>();
        add("matrix row" + sfx, tg | T_REJECT, G::ri, +[](const Mt &a, const Sz &i) { return a.row(i); }, R_::row);
        add("matrix column" + sfx, tg | T_REJECT, G::ci, +[](const Mt &a, const Sz &i) { return a.column(i); },
            R_::column);
        add("matrix transpose" + sfx, tg, G::m, +[](const Mt &a) { return alg::transpose(a); }, R_::transpose);
        add("matrix hermitian" + sfx, tg, G::m, +[](const Mt &a) { return alg::hermitian(a); }, R_::hermitian);
        add("vectmatmul" + sfx, tg, G::vm,
            +[](const alg::vector<T, R> &v, const Mt &a) { return alg::vectmatmul(v, a); }, R_::vectmatmul);
        add("matvectmul" + sfx, tg, G::mv,
            +[](const Mt &a, const alg::vector<T, C> &v) { return alg::matvectmul(a, v); }, R_::matvectmul);
        add("matrix fill" + sfx, tg, G::s, +[](const T &s) { return alg::fill<R, C>(s); }, R_::fill, Shape {R, C});
        add("matrix repmat" + sfx, tg, G::m, +[](const Mt &a) { return alg::repmat<2, 3>(a); }, R_::repmat, Shape {2, 3});
        add("matrix swaprow" + sfx, tg, G::rr,
            +[](const Mt &a, const Sz &i, const Sz &j) { return alg::swaprow(a, i, j); }, R_::swaprow);
        add("matrix swapcol" + sfx, tg, G::cc,
            +[](const Mt &a, const Sz &i, const Sz &j) { return alg::swapcol(a, i, j); }, R_::swapcol);
        add("matrix horzcat" + sfx, tg, G::template with<R, C + 1>,
            +[](const Mt &a, const alg::matrix<T, R, C + 1> &b) { return alg::horzcat(a, b); }, R_::horzcat);
        add("matrix vertcat" + sfx, tg, G::template with<R + 2, C>,
            +[](const Mt &a, const alg::matrix<T, R + 2, C> &b) { return alg::vertcat(a, b); }, R_::vertcat);
        constexpr Sz P1 = R > 1 ? R - 1 : 1, Q1 = C > 2 ? C - 2 : 1;
        add("matrix submat" + sfx, tg | T_REJECT, G::template sub<P1, Q1>,
            +[](const Mt &a, const Sz &i, const Sz &j) { return alg::submat<P1, Q1>(a, i, j); }, R_::submat,
            Shape {P1, Q1});
        add("matrix reshape transposed shape" + sfx, tg, G::m, +[](const Mt &a) { return alg::reshape<C, R>(a); },
            R_::reshape, Shape {C, R});
        add("matrix reshape to column" + sfx, tg, G::m, +[](const Mt &a) { return alg::reshape<R * C, 1>(a); },
            R_::reshape, Shape {R * C, 1});
        add("matrix submat whole" + sfx, tg | T_REJECT, G::template sub<R, C>,
            +[](const Mt &a, const Sz &i, const Sz &j) { return alg::submat<R, C>(a, i, j); }, R_::submat, Shape {R, C});
        add("matrix submat element" + sfx, tg | T_REJECT, G::template sub<1, 1>,
            +[](const Mt &a, const Sz &i, const Sz &j) { return alg::submat<1, 1>(a, i, j); }, R_::submat, Shape {1, 1});
        add("matrix submat row" + sfx, tg | T_REJECT, G::template sub<1, C>,
            +[](const Mt &a, const Sz &i, const Sz &j) { return alg::submat<1, C>(a, i, j); }, R_::submat, Shape {1, C});
        add("matrix reshape to row" + sfx, tg, G::m, +[](const Mt &a) { return alg::reshape<1, R * C>(a); }, R_::reshape,
            Shape {1, R * C});
        if constexpr (R * C % 2 == 0)
            add("matrix reshape to halves" + sfx, tg, G::m, +[](const Mt &a) { return alg::reshape<2, R * C / 2>(a); },
                R_::reshape, Shape {2, R * C / 2});
        add("matrix repmat down" + sfx, tg, G::m, +[](const Mt &a) { return alg::repmat<3, 1>(a); }, R_::repmat,
            Shape {3, 1});
        add("matrix access" + sfx, tg, G::m, +[](const Mt &a) {
                Mt b = a;
                for (Sz i = 0; i < R; ++i)
                    for (Sz j = 0; j < C; ++j)
                        b[i][j] = a[i][j] + a[R - 1 - i][C - 1 - j] * T(int((i + 2 * j) % 5 + 1));
                return b;
            }, R_::maccess);
        if constexpr (!std::is_unsigned<T>::value) {
            const unsigned it = alg::is_complex_v<T> ? T_ITER : 0u;
            add("matrix macs" + sfx, tg | it, G::m, +[](const Mt &a) { return alg::macs(a); }, R_::macs);
            add("matrix mars" + sfx, tg | it, G::m, +[](const Mt &a) { return alg::mars(a); }, R_::mars);
        }
        if constexpr (R == C) {
            add("matrix trace" + sfx, tg, G::m, +[](const Mt &a) { return alg::trace(a); }, R_::trace);
            add("matrix a.a" + sfx, tg, G::m, +[](const Mt &a) { return alg::matmul(a, a); }, R_::square);
            add("get_identity" + sfx, tg, G::s, +[](const T &) { return alg::get_identity<T, R>(); }, R_::identity,
                Shape {R, R});
            if constexpr (!std::is_same<T, Heap>::value)
                add("identity" + sfx, tg, G::s, +[](const T &) { auto m = alg::identity<T, R>; return m; },
                    R_::identity, Shape {R, R});
        }
    }
    template<typename P>
    struct Sc {
        using F = Flat<P>;
        static F un(const F &m, const Flat<int> &k) {
            return M<P>::map(m, [&](P x) { return P(std::ldexp(x, -k.d[0])); });
        }
        static F rref(const Shape &s, const F &m, const Flat<int> &k) {
            return M<P>::rref(s, un(m, k));
        }
        static Flat<uint64_t> rank(const Shape &s, const F &m, const Flat<int> &k) {
            return M<P>::rank(s, un(m, k));
        }
        static F det(const Shape &s, const F &m, const Flat<int> &k) {
            return M<P>::det(s, un(m, k));
        }
        static F inverse(const Shape &s, const F &m, const Flat<int> &k) {
            return M<P>::inverse(s, un(m, k));
        }
    };
    template<typename T, std::size_t R, std::size_t C>
    HARNESS void mat_scaled() {    // elimination must not depend on the units of the matrix
        using Mt = alg::matrix<T, R, C>;
        using P = plain_t<T>;
        using G = MG<T, R, C>;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(R, C) + ">";
        const unsigned tg = ttag<T>() | T_ITER;
        add("scaled rref" + sfx, tg, G::template scaled<>, +[](const Mt &a, const int &k) {
                Mt m = alg::rref(a);
                Quiet q;    // the rows after the pivots may hold what is negligible in the units of the matrix
                for (std::size_t i = alg::rank(a); i < R; ++i) {
                    bool small = true;
                    for (std::size_t j = 0; j < C; ++j)
                        small &= std::fabs(double(plain_of(m[i][j]))) <=
                                 std::ldexp(std::is_same<P, float>::value ? 1e-3 : 1e-9, k);
                    for (std::size_t j = 0; j < C && small; ++j)
                        m[i][j] = T(0);
                }
                return m;
            }, Sc<P>::rref);
        add("scaled rank" + sfx, tg, G::template scaled<>, +[](const Mt &a, const int &) { return alg::rank(a); }, Sc<P>::rank);
        if constexpr (R == C) {
            add("scaled det" + sfx, tg, G::template scaled<true>,
                +[](const Mt &a, const int &k) { return alg::det(a) * T(std::ldexp(1., -k * int(R))); }, Sc<P>::det);
            add("scaled inverse" + sfx, tg | T_REJECT, G::template scaled<>, +[](const Mt &a, const int &k) {
                    Mt m = alg::inverse(a);
                    for (std::size_t i = 0; i < R; ++i)
                        for (std::size_t j = 0; j < R; ++j)
                            m[i][j] = m[i][j] * T(std::ldexp(1., k));
                    return m;
                }, Sc<P>::inverse);
        }
    }
    template<typename T, std::size_t R, std::size_t C>
    HARNESS void mat_gauss() {
        using Mt = alg::matrix<T, R, C>;
        using P = plain_t<T>;
        using G = MG<T, R, C>;
        using R_ = M<P>;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(R, C) + ">";
        const unsigned tg = ttag<T>() | T_ITER;
        add("rref" + sfx, tg, G::robust, +[](const Mt &a) { return alg::rref(a); }, R_::rref);
        add("rank" + sfx, tg, G::robust, +[](const Mt &a) { return alg::rank(a); }, R_::rank);
        if constexpr (!std::is_same<T, float>::value)
            add("rref tolerance" + sfx, tg, G::robust_tol,
                +[](const Mt &a, const T &t) { return alg::rref(a, t); }, R_::rreft, Shape {0, 0, 1e-4});
        if constexpr (R == C) {
            add("det" + sfx, tg, G::robust, +[](const Mt &a) { return alg::det(a); }, R_::det, Shape(), 2);
            add("inverse" + sfx, tg | T_REJECT, G::robust, +[](const Mt &a) { return alg::inverse(a); }, R_::inverse,
                Shape(), 2);
        }
    }
    template<typename T, std::size_t A, std::size_t B, std::size_t C>
    HARNESS void mat_mul() {
        using R_ = M<plain_t<T>>;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(A, B) + "*" + dims(B, C) + ">";
        add("matmul" + sfx, ttag<T>(), MG<T, A, B>::template with<B, C>,
            +[](const alg::matrix<T, A, B> &a, const alg::matrix<T, B, C> &b) { return alg::matmul(a, b); }, R_::matmul);
    }
    template<typename T, std::size_t A, std::size_t B, std::size_t C, std::size_t D>
    HARNESS void mat_kron() {
        using R_ = M<plain_t<T>>;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(A, B) + "," + dims(C, D) + ">";
        add("kron" + sfx, ttag<T>(), MG<T, A, B>::template with<C, D>,
            +[](const alg::matrix<T, A, B> &a, const alg::matrix<T, C, D> &b) { return alg::kron(a, b); }, R_::kron);
    }
    template<typename T, std::size_t N>
    HARNESS void mat_fromvec() {
        using V = alg::vector<T, N>;
        using R_ = M<plain_t<T>>;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(N) + ">";
        add("as_column" + sfx, ttag<T>(), VG<T, N>::v, +[](const V &v) { return alg::as_column(v); }, R_::ident);
        add("as_row" + sfx, ttag<T>(), VG<T, N>::v, +[](const V &v) { return alg::as_row(v); }, R_::as_row);
    }
}    // namespace sim
