// The reference model: naive, dynamic-size, written from the documentation; one instantiation per
// element type.  It never calls the library.
#pragma once
#include "opkit.hpp"
#include <functional>

namespace sim {
    template<typename T>
    T m_conj(const T &x) {
        return x;
    }
    template<typename R>
    std::complex<R> m_conj(const std::complex<R> &x) {
        return {x.real(), -x.imag()};
    }
    template<typename T>
    T m_abs(const T &x) {
        if constexpr (std::is_same<T, Zp>::value || std::is_unsigned<T>::value)
            return x;
        else
            return x < T(0) ? T(-x) : x;
    }
    template<typename R>
    R m_abs(const std::complex<R> &x) {
        return R(std::hypot(x.real(), x.imag()));
    }
    template<typename T>
    constexpr bool ordered = !alg::is_complex_v<T>;

    template<typename P>
    struct M {
        using F = Flat<P>;
        using S = Shape;
        using B = Flat<unsigned char>;
        using A = alg::remove_complex_t<P>;
        using FA = Flat<A>;
        template<typename Fn>
        static F map(const F &a, Fn f) {
            F r(a.r, a.c);
            for (std::size_t i = 0; i < a.n(); ++i)
                r.d[i] = f(a.d[i]);
            return r;
        }
        template<typename Fn>
        static F map2(const F &a, const F &b, Fn f) {
            F r(a.r, a.c);
            for (std::size_t i = 0; i < a.n(); ++i)
                r.d[i] = f(a.d[i], b.d[i]);
            return r;
        }
        static bool equal(const F &a, const F &b) {
            for (std::size_t i = 0; i < a.n(); ++i)
                if (!(a.d[i] == b.d[i]))
                    return false;
            return true;
        }
        static B eq(const S &, const F &a, const F &b) {
            return one(equal(a, b));
        }
        static B ne(const S &, const F &a, const F &b) {
            return one(!equal(a, b));
        }
        static F adds(const S &, const F &a, const F &s) {
            return map(a, [&](P x) { return P(x + s.d[0]); });
        }
        static F add(const S &, const F &a, const F &b) {
            return map2(a, b, [](P x, P y) { return P(x + y); });
        }
        static F muls(const S &, const F &a, const F &s) {
            return map(a, [&](P x) { return P(x * s.d[0]); });
        }
        static F mul(const S &, const F &a, const F &b) {
            return map2(a, b, [](P x, P y) { return P(x * y); });
        }
        static F sdiv(const S &, const F &a, const F &s) {
            return map(a, [&](P x) { return P(s.d[0] / x); });
        }
        static F div(const S &, const F &a, const F &b) {
            return map2(a, b, [](P x, P y) { return P(x / y); });
        }
        static F alias(const S &, const F &a) {
            return map(a, [](P x) { return P(x * x + x); });
        }
        static F conj(const S &, const F &a) {
            return map(a, [](P x) { return m_conj(x); });
        }
        static F dot(const S &, const F &a, const F &b) {
            P s = P(0);
            for (std::size_t i = 0; i < a.n(); ++i)
                s = P(s + a.d[i] * m_conj(b.d[i]));
            return one(s);
        }
        static F sum(const S &, const F &a) {
            P s = P(0);
            for (std::size_t i = 0; i < a.n(); ++i)
                s = P(s + a.d[i]);
            return one(s);
        }
        static FA abs(const S &, const F &a) {
            FA r(a.r, a.c);
            for (std::size_t i = 0; i < a.n(); ++i)
                r.d[i] = m_abs(a.d[i]);
            return r;
        }
        static FA real(const S &, const F &a) {
            FA r(a.r, a.c);
            for (std::size_t i = 0; i < a.n(); ++i)
                r.d[i] = std::real(a.d[i]);
            return r;
        }
        static FA imag(const S &, const F &a) {
            FA r(a.r, a.c);
            for (std::size_t i = 0; i < a.n(); ++i)
                r.d[i] = std::imag(a.d[i]);
            return r;
        }
        static F min(const S &, const F &a) {
            P s = a.d[0];
            for (P x : a.d)
                s = x < s ? x : s;
            return one(s);
        }
        static F max(const S &, const F &a) {
            P s = a.d[0];
            for (P x : a.d)
                s = s < x ? x : s;
            return one(s);
        }
        static F fill(const S &sh, const F &s) {
            F f(sh.a, sh.b);
            for (auto &x : f.d)
                x = s.d[0];
            return f;
        }
        static F iota(const S &sh, const F &s) {
            F f(sh.a, 1);
            P v = s.d[0];
            for (auto &x : f.d) {
                x = v;
                v = P(v + P(1));
            }
            return f;
        }
        static F rotate(const S &, const F &a, const Flat<int> &n) {
            F f(a.r, 1);
            long long N = (long long)(a.r);
            for (long long i = 0; i < N; ++i) {
                long long k = (i + n.d[0]) % N;
                f.d[std::size_t(i)] = a.d[std::size_t(k < 0 ? k + N : k)];
            }
            return f;
        }
        static F access(const S &, const F &a) {
            P s = a.d[0];
            for (std::size_t i = 0; i < a.n(); ++i)
                s = P(s + a.d[i] * P(int(i % 7 + 1)));
            return map(a, [&](P x) { return P(x + s); });
        }
        static F slice(const S &sh, const F &a, const Flat<uint64_t> &s) {
            F f(sh.a, 1);
            for (std::size_t i = 0; i < sh.a; ++i)
                f.d[i] = a.d[i + s.d[0]];
            return f;
        }
        static F slice0(const S &sh, const F &a) {
            F f(sh.a, 1);
            for (std::size_t i = 0; i < sh.a; ++i)
                f.d[i] = a.d[i];
            return f;
        }
        static F twice(const S &s, const F &a) {
            return concat(s, a, a);
        }
        static B eqself(const S &, const F &a) {
            return one(equal(a, a));
        }
        static F concat(const S &, const F &a, const F &b) {
            F f(a.r + b.r, 1);
            for (std::size_t i = 0; i < a.r; ++i)
                f.d[i] = a.d[i];
            for (std::size_t i = 0; i < b.r; ++i)
                f.d[a.r + i] = b.d[i];
            return f;
        }
        template<typename Q>
        static Flat<Q> cast(const S &, const F &a) {
            Flat<Q> f(a.r, a.c);
            for (std::size_t i = 0; i < a.n(); ++i)
                f.d[i] = static_cast<Q>(a.d[i]);
            return f;
        }
        static F linspace(const S &sh, const F &a, const F &b) {
            F f(sh.a, 1);
            for (std::size_t i = 0; i < sh.a; ++i)
                f.d[i] = P(double(a.d[0]) + (double(b.d[0]) - double(a.d[0])) * double(i) / double(sh.a > 1 ? sh.a - 1 : 1));
            return f;
        }
        static F sqrt(const S &, const F &a) {
            for (P x : a.d)
                if (x < 0)
                    return refuse<P>();
            return map(a, [](P x) { return P(std::sqrt(double(x))); });
        }
        static F ident(const S &, const F &a) {
            return a;
        }
        static F noop(const S &, const F &a, const F &) {
            return a;
        }
        // ---- matrices
        static F row(const S &, const F &m, const Flat<uint64_t> &i) {
            if (i.d[0] >= m.r)
                return refuse<P>();
            F f(m.c, 1);
            for (std::size_t j = 0; j < m.c; ++j)
                f.d[j] = m(i.d[0], j);
            return f;
        }
        static F column(const S &, const F &m, const Flat<uint64_t> &i) {
            if (i.d[0] >= m.c)
                return refuse<P>();
            F f(m.r, 1);
            for (std::size_t j = 0; j < m.r; ++j)
                f.d[j] = m(j, i.d[0]);
            return f;
        }
        static F transpose(const S &, const F &m) {
            F f(m.c, m.r);
            for (std::size_t i = 0; i < m.r; ++i)
                for (std::size_t j = 0; j < m.c; ++j)
                    f(j, i) = m(i, j);
            return f;
        }
        static F hermitian(const S &s, const F &m) {
            return conj(s, transpose(s, m));
        }
        static F matmul(const S &, const F &a, const F &b) {
            F f(a.r, b.c);
            for (std::size_t i = 0; i < a.r; ++i)
                for (std::size_t j = 0; j < b.c; ++j) {
                    P s = P(0);
                    for (std::size_t k = 0; k < a.c; ++k)
                        s = P(s + a(i, k) * b(k, j));
                    f(i, j) = s;
                }
            return f;
        }
        static F square(const S &s, const F &a) {
            return matmul(s, a, a);
        }
        static F vectmatmul(const S &, const F &v, const F &m) {
            F f(m.c, 1);
            for (std::size_t j = 0; j < m.c; ++j) {
                P s = P(0);
                for (std::size_t k = 0; k < m.r; ++k)
                    s = P(s + v.d[k] * m(k, j));
                f.d[j] = s;
            }
            return f;
        }
        static F matvectmul(const S &s, const F &m, const F &v) {
            return matmul(s, m, v);
        }
        static F kron(const S &, const F &a, const F &b) {
            F f(a.r * b.r, a.c * b.c);
            for (std::size_t i = 0; i < f.r; ++i)
                for (std::size_t j = 0; j < f.c; ++j)
                    f(i, j) = P(a(i / b.r, j / b.c) * b(i % b.r, j % b.c));
            return f;
        }
        static F macs(const S &, const F &m) {
            A best = A(0);
            for (std::size_t j = 0; j < m.c; ++j) {
                A s = A(0);
                for (std::size_t i = 0; i < m.r; ++i)
                    s = A(s + m_abs(m(i, j)));
                if (j == 0 || best < s)
                    best = s;
            }
            return one(P(best));
        }
        static F mars(const S &s, const F &m) {
            return macs(s, transpose(s, m));
        }
        static F trace(const S &, const F &m) {
            P s = P(0);
            for (std::size_t i = 0; i < m.r; ++i)
                s = P(s + m(i, i));
            return one(s);
        }
        static F identity(const S &sh, const F &) {
            F f(sh.a, sh.a);
            for (std::size_t i = 0; i < sh.a; ++i)
                for (std::size_t j = 0; j < sh.a; ++j)
                    f(i, j) = P(i == j ? 1 : 0);
            return f;
        }
        static F repmat(const S &sh, const F &m) {
            F f(m.r * sh.a, m.c * sh.b);
            for (std::size_t i = 0; i < f.r; ++i)
                for (std::size_t j = 0; j < f.c; ++j)
                    f(i, j) = m(i % m.r, j % m.c);
            return f;
        }
        static F swaprow(const S &, const F &m, const Flat<uint64_t> &a, const Flat<uint64_t> &b) {
            F f = m;
            for (std::size_t j = 0; j < m.c; ++j) {
                f(a.d[0], j) = m(b.d[0], j);
                f(b.d[0], j) = m(a.d[0], j);
            }
            return f;
        }
        static F swapcol(const S &, const F &m, const Flat<uint64_t> &a, const Flat<uint64_t> &b) {
            F f = m;
            for (std::size_t i = 0; i < m.r; ++i) {
                f(i, a.d[0]) = m(i, b.d[0]);
                f(i, b.d[0]) = m(i, a.d[0]);
            }
            return f;
        }
        static F horzcat(const S &, const F &a, const F &b) {
            F f(a.r, a.c + b.c);
            for (std::size_t i = 0; i < a.r; ++i) {
                for (std::size_t j = 0; j < a.c; ++j)
                    f(i, j) = a(i, j);
                for (std::size_t j = 0; j < b.c; ++j)
                    f(i, a.c + j) = b(i, j);
            }
            return f;
        }
        static F vertcat(const S &, const F &a, const F &b) {
            F f(a.r + b.r, a.c);
            for (std::size_t i = 0; i < a.n(); ++i)
                f.d[i] = a.d[i];
            for (std::size_t i = 0; i < b.n(); ++i)
                f.d[a.n() + i] = b.d[i];
            return f;
        }
        static F submat(const S &sh, const F &m, const Flat<uint64_t> &a, const Flat<uint64_t> &b) {
            if (sh.a > m.r || sh.b > m.c || a.d[0] > m.r - sh.a || b.d[0] > m.c - sh.b)
                return refuse<P>();
            F f(sh.a, sh.b);
            for (std::size_t i = 0; i < sh.a; ++i)
                for (std::size_t j = 0; j < sh.b; ++j)
                    f(i, j) = m(a.d[0] + i, b.d[0] + j);
            return f;
        }
        static F reshape(const S &sh, const F &m) {
            F f(sh.a, sh.b);
            f.d = m.d;
            return f;
        }
        static F as_row(const S &, const F &v) {
            F f(1, v.r);
            f.d = v.d;
            return f;
        }
        static F maccess(const S &, const F &m) {
            F f = m;
            for (std::size_t i = 0; i < m.r; ++i)
                for (std::size_t j = 0; j < m.c; ++j)
                    f(i, j) = P(m(i, j) + m(m.r - 1 - i, m.c - 1 - j) * P(int((i + 2 * j) % 5 + 1)));
            return f;
        }
        static F zero(const S &, const F &) {
            return one(P(0));
        }

        // ---- elimination: full search for the largest pivot; exact for Zp
        static A mag(const P &x) {
            return m_abs(x);
        }
        struct Elim {
            F m;
            std::size_t rank = 0;
            P det = P(1);
        };
        static Elim gauss(F m, double tol) {
            Elim e;
            std::size_t i = 0;
            for (std::size_t j = 0; j < m.c && i < m.r; ++j) {
                std::size_t best = i;
                for (std::size_t k = i; k < m.r; ++k)
                    if (mag(m(best, j)) < mag(m(k, j)))
                        best = k;
                bool zero;
                if constexpr (std::is_same<P, Zp>::value)
                    zero = m(best, j) == P(0);
                else
                    zero = !(double(mag(m(best, j))) > tol);
                if (zero) {
                    for (std::size_t k = i; k < m.r; ++k)
                        m(k, j) = P(0);
                    continue;
                }
                if (best != i) {
                    for (std::size_t c = 0; c < m.c; ++c)
                        std::swap(m(best, c), m(i, c));
                    e.det = P(-e.det);
                }
                P s = m(i, j);
                e.det = P(e.det * s);
                for (std::size_t c = 0; c < m.c; ++c)
                    m(i, c) = P(m(i, c) / s);
                for (std::size_t k = 0; k < m.r; ++k)
                    if (k != i) {
                        P t = m(k, j);
                        for (std::size_t c = 0; c < m.c; ++c)
                            m(k, c) = P(m(k, c) - t * m(i, c));
                        m(k, j) = P(0);
                    }
                ++e.rank;
                ++i;
            }
            if (e.rank < m.r)
                e.det = P(0);
            e.m = m;
            return e;
        }
        static double deftol() {
            return std::is_same<P, float>::value ? 1e-3 : 1e-7;
        }
        static F rref(const S &, const F &m) {
            return gauss(m, deftol()).m;
        }
        static F rreft(const S &, const F &m, const F &tol) {
            double t = 0;
            if constexpr (!std::is_same<P, Zp>::value)
                t = double(tol.d[0]);
            Elim e = gauss(m, t);
            return e.m;
        }
        static Flat<uint64_t> rank(const S &, const F &m) {
            return one(uint64_t(gauss(m, deftol()).rank));
        }
        static F det(const S &, const F &m) {
            return one(gauss(m, deftol()).det);
        }
        static F inverse(const S &, const F &m) {
            F w(m.r, 2 * m.r);
            for (std::size_t i = 0; i < m.r; ++i)
                for (std::size_t j = 0; j < m.r; ++j) {
                    w(i, j) = m(i, j);
                    w(i, m.r + j) = P(i == j ? 1 : 0);
                }
            if (gauss(m, deftol()).rank < m.r)
                return refuse<P>();
            Elim e = gauss(w, deftol());
            F f(m.r, m.r);
            for (std::size_t i = 0; i < m.r; ++i)
                for (std::size_t j = 0; j < m.r; ++j)
                    f(i, j) = e.m(i, m.r + j);
            return f;
        }
    };
}    // namespace sim
