// Stand-in for the external multiprecision library (absent here): fixed-width unsigned integers are Boost's, residues are
// kept in Montgomery form by the small class below.  Nothing in it allocates, waits or draws randomness, and it is not
// instrumented: the simulator schedules inside the library under test, not inside this file.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/functional/hash.hpp>
#include <boost/multiprecision/cpp_int.hpp>

#define SHIM_QUIET __attribute__((disable_sanitizer_instrumentation, no_sanitize("coverage"), no_sanitize("address")))

namespace boost {
    namespace multiprecision {
        namespace backends {
            template<std::size_t Bits>
            using cpp_int_modular_backend = cpp_int_backend<Bits, Bits, unsigned_magnitude, unchecked, void>;
        }    // namespace backends

        namespace shim {
            template<std::size_t W>
            struct words {
                uint64_t w[W];
                SHIM_QUIET constexpr uint64_t &operator[](std::size_t i) {
                    return w[i];
                }
                SHIM_QUIET constexpr const uint64_t &operator[](std::size_t i) const {
                    return w[i];
                }
                SHIM_QUIET constexpr const uint64_t *begin() const {
                    return w;
                }
                SHIM_QUIET constexpr const uint64_t *end() const {
                    return w + W;
                }
            };

            template<std::size_t W>
            SHIM_QUIET constexpr bool less(const words<W> &a, const words<W> &b) {
                for (std::size_t i = W; i-- > 0;)
                    if (a[i] != b[i])
                        return a[i] < b[i];
                return false;
            }
            template<std::size_t W>
            SHIM_QUIET constexpr uint64_t add_to(words<W> &a, const words<W> &b) {
                unsigned __int128 c = 0;
                for (std::size_t i = 0; i < W; ++i) {
                    c += (unsigned __int128)(a[i]) + b[i];
                    a[i] = uint64_t(c);
                    c >>= 64;
                }
                return uint64_t(c);
            }
            template<std::size_t W>
            SHIM_QUIET constexpr void sub_from(words<W> &a, const words<W> &b) {
                uint64_t borrow = 0;
                for (std::size_t i = 0; i < W; ++i) {
                    unsigned __int128 d = (unsigned __int128)(a[i]) - b[i] - borrow;
                    a[i] = uint64_t(d);
                    borrow = uint64_t(d >> 64) & 1;
                }
            }
            template<std::size_t W>
            struct modulus_data {
                words<W> m {};
                words<W> one {};    // 2^(64 W) mod m
                words<W> r2 {};     // its square
                uint64_t inv = 0;   // -1/m mod 2^64
            };
            template<std::size_t W>
            SHIM_QUIET constexpr void add_mod(words<W> &a, const words<W> &b, const words<W> &m) {
                uint64_t carry = add_to(a, b);
                if (carry || !less(a, m))
                    sub_from(a, m);
            }
            template<std::size_t W>
            SHIM_QUIET constexpr modulus_data<W> prepare(const words<W> &m) {
                modulus_data<W> d;
                d.m = m;
                uint64_t x = 1;
                for (int i = 0; i < 6; ++i)
                    x *= 2 - m[0] * x;
                d.inv = 0 - x;
                words<W> t {};
                t[0] = 1;
                if (!less(t, m))
                    t[0] = 0;
                for (std::size_t i = 0; i < 128 * W; ++i) {
                    if (i == 64 * W)
                        d.one = t;
                    words<W> u = t;
                    add_mod(t, u, m);
                }
                d.r2 = t;
                return d;
            }
            template<std::size_t W>
            SHIM_QUIET constexpr words<W> mont_mul(const words<W> &a, const words<W> &b, const modulus_data<W> &d) {
                uint64_t t[W + 2] = {};
                for (std::size_t i = 0; i < W; ++i) {
                    unsigned __int128 c = 0;
                    for (std::size_t j = 0; j < W; ++j) {
                        c += (unsigned __int128)(a[j]) * b[i] + t[j];
                        t[j] = uint64_t(c);
                        c >>= 64;
                    }
                    c += t[W];
                    t[W] = uint64_t(c);
                    t[W + 1] = uint64_t(c >> 64);
                    uint64_t q = t[0] * d.inv;
                    c = (unsigned __int128)(q) * d.m[0] + t[0];
                    c >>= 64;
                    for (std::size_t j = 1; j < W; ++j) {
                        c += (unsigned __int128)(q) * d.m[j] + t[j];
                        t[j - 1] = uint64_t(c);
                        c >>= 64;
                    }
                    c += t[W];
                    t[W - 1] = uint64_t(c);
                    t[W] = t[W + 1] + uint64_t(c >> 64);
                }
                words<W> r {};
                for (std::size_t i = 0; i < W; ++i)
                    r[i] = t[i];
                if (t[W] || !less(r, d.m))
                    sub_from(r, d.m);
                return r;
            }
            template<std::size_t W, typename B, expression_template_option ET>
            SHIM_QUIET constexpr words<W> to_words(number<B, ET> v) {
                words<W> w {};
                for (std::size_t i = 0; i < W; ++i) {
                    w[i] = static_cast<uint64_t>(v & 0xffffffffffffffffull);
                    if constexpr (std::numeric_limits<number<B, ET>>::digits > 64)
                        v >>= 64;
                    else
                        v = 0u;
                }
                return w;
            }
            template<typename N, std::size_t W>
            SHIM_QUIET constexpr N from_words(const words<W> &w) {
                N v = 0u;
                for (std::size_t i = W; i-- > 0;) {
                    if constexpr (std::numeric_limits<N>::digits > 64)
                        v <<= 64;
                    v |= N(w[i]);
                }
                return v;
            }
        }    // namespace shim

        namespace backends {
            template<typename Backend>
            struct modular_params {
                using number_type = number<Backend>;
                static constexpr std::size_t bits = std::size_t(std::numeric_limits<number_type>::digits);
                static constexpr std::size_t W = (bits + 63) / 64;
                shim::modulus_data<W> d {};
                SHIM_QUIET constexpr modular_params() {
                }
                SHIM_QUIET constexpr modular_params(const Backend &m) : d(shim::prepare(shim::to_words<W>(number_type(m)))) {
                }
                template<expression_template_option ET>
                SHIM_QUIET constexpr modular_params(const number<Backend, ET> &m) :
                    d(shim::prepare(shim::to_words<W>(number_type(m)))) {
                }
                constexpr number_type get_mod() const {
                    return shim::from_words<number_type>(d.m);
                }
            };
            template<typename Backend, const modular_params<Backend> &Modulus>
            struct modular_params_ct {
                using backend_type = Backend;
                static constexpr std::size_t W = modular_params<Backend>::W;
                static constexpr const shim::modulus_data<W> &data() {
                    return Modulus.d;
                }
            };
            template<typename Backend, typename Params>
            struct modular_adaptor {
                static constexpr std::size_t W = Params::W;
                using limbs = shim::words<W>;
                using plain = number<Backend>;
                limbs v {};    // Montgomery form
                SHIM_QUIET constexpr modular_adaptor() {
                }
                template<std::size_t B2, typename PT>
                SHIM_QUIET constexpr modular_adaptor(const cpp_int_backend<B2, B2, unsigned_magnitude, unchecked, void> &x,
                                                     const PT &) {
                    using wide = number<cpp_int_modular_backend<(B2 > 64 * W ? B2 : 64 * W)>>;
                    wide y = number<cpp_int_modular_backend<B2>>(x);
                    wide m = shim::from_words<wide>(Params::data().m);
                    if (y >= m)
                        y %= m;
                    v = shim::mont_mul(shim::to_words<W>(y), Params::data().r2, Params::data());
                }
                template<typename PT, std::size_t A1, std::size_t A2, cpp_integer_type S, cpp_int_check_type C, typename A,
                         typename = std::enable_if_t<S == signed_magnitude || C != unchecked || A1 != A2>>
                modular_adaptor(const cpp_int_backend<A1, A2, S, C, A> &x, const PT &) {
                    cpp_int y(number<cpp_int_backend<A1, A2, S, C, A>>(x) + 0);
                    cpp_int m = shim::from_words<cpp_int>(Params::data().m);
                    y %= m;
                    if (y < 0)
                        y += m;
                    v = shim::mont_mul(shim::to_words<W>(y), Params::data().r2, Params::data());
                }
                template<typename I, typename PT, typename = std::enable_if_t<std::is_integral<I>::value>>
                SHIM_QUIET constexpr modular_adaptor(I x, const PT &) {
                    bool neg = false;
                    uint64_t u = uint64_t(x);
                    if constexpr (std::is_signed<I>::value)
                        if (x < 0) {
                            neg = true;
                            u = 0 - uint64_t(x);
                        }
                    limbs w {};
                    w[0] = u;
                    if constexpr (W == 1)
                        w[0] %= Params::data().m[0];
                    v = shim::mont_mul(w, Params::data().r2, Params::data());
                    if (neg)
                        negate();
                }
                SHIM_QUIET constexpr bool is_zero() const {
                    for (std::size_t i = 0; i < W; ++i)
                        if (v[i])
                            return false;
                    return true;
                }
                SHIM_QUIET constexpr void negate() {
                    if (!is_zero()) {
                        limbs t = Params::data().m;
                        shim::sub_from(t, v);
                        v = t;
                    }
                }
                template<std::size_t N>
                SHIM_QUIET constexpr operator cpp_int_backend<N, N, unsigned_magnitude, unchecked, void>() const {
                    return shim::from_words<number<cpp_int_modular_backend<N>>>(plain_words()).backend();
                }
                SHIM_QUIET constexpr limbs plain_words() const {
                    limbs w {};
                    w[0] = 1;
                    return shim::mont_mul(v, w, Params::data());
                }
            };
        }    // namespace backends

        // Residues.  Every operation that the library applies to the data of a prime field element.
        template<typename B, typename P, expression_template_option ET>
        class number<backends::modular_adaptor<B, P>, ET> {
        public:
            using backend_type = backends::modular_adaptor<B, P>;
            using self = number;

        private:
            backend_type b;
            static constexpr auto &md() {
                return P::data();
            }

        public:
            static constexpr std::size_t W = P::W;
            constexpr number() = default;
            constexpr number(const number &) = default;
            constexpr number(number &&) = default;
            constexpr number &operator=(const number &) = default;
            constexpr number &operator=(number &&) = default;
            SHIM_QUIET constexpr number(const backend_type &x) : b(x) {
            }
            template<typename I, typename PT, typename = std::enable_if_t<std::is_integral<I>::value>>
            SHIM_QUIET constexpr number(I i, const PT &p) : b(i, p) {
            }
            template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>>
            SHIM_QUIET constexpr number(I i) : b(i, 0) {
            }
            template<typename B2, expression_template_option E2,
                     typename = std::enable_if_t<number_category<B2>::value == number_kind_integer>>
            SHIM_QUIET explicit constexpr number(const number<B2, E2> &n) : b(n.backend(), 0) {
            }
            constexpr backend_type &backend() {
                return b;
            }
            constexpr const backend_type &backend() const {
                return b;
            }
            SHIM_QUIET constexpr bool is_zero() const {
                return b.is_zero();
            }
            SHIM_QUIET constexpr number &operator+=(const number &o) {
                shim::add_mod(b.v, o.b.v, md().m);
                return *this;
            }
            SHIM_QUIET constexpr number &operator-=(const number &o) {
                number t(o);
                t.b.negate();
                shim::add_mod(b.v, t.b.v, md().m);
                return *this;
            }
            SHIM_QUIET constexpr number &operator*=(const number &o) {
                b.v = shim::mont_mul(b.v, o.b.v, md());
                return *this;
            }
            SHIM_QUIET constexpr number operator-() const {
                number t(*this);
                t.b.negate();
                return t;
            }
            // Every combination of value categories, so that none of Boost's own templates is a better match.
            friend SHIM_QUIET constexpr number operator+(const number &x, const number &y) {
                number t(x);
                t += y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator+(const number &x, number &&y) {
                number t(x);
                t += y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator+(number &&x, const number &y) {
                number t(x);
                t += y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator+(number &&x, number &&y) {
                number t(x);
                t += y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator-(const number &x, const number &y) {
                number t(x);
                t -= y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator-(const number &x, number &&y) {
                number t(x);
                t -= y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator-(number &&x, const number &y) {
                number t(x);
                t -= y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator-(number &&x, number &&y) {
                number t(x);
                t -= y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator*(const number &x, const number &y) {
                number t(x);
                t *= y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator*(const number &x, number &&y) {
                number t(x);
                t *= y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator*(number &&x, const number &y) {
                number t(x);
                t *= y;
                return t;
            }
            friend SHIM_QUIET constexpr number operator*(number &&x, number &&y) {
                number t(x);
                t *= y;
                return t;
            }
            friend SHIM_QUIET constexpr bool operator==(const number &x, const number &y) {
                for (std::size_t i = 0; i < W; ++i)
                    if (x.b.v[i] != y.b.v[i])
                        return false;
                return true;
            }
            friend SHIM_QUIET constexpr bool operator!=(const number &x, const number &y) {
                return !(x == y);
            }
            template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>>
            friend SHIM_QUIET constexpr bool operator==(const number &x, const I &y) {
                return x == number(y);
            }
            template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>>
            friend SHIM_QUIET constexpr bool operator!=(const number &x, const I &y) {
                return !(x == number(y));
            }
            friend SHIM_QUIET constexpr bool operator<(const number &x, const number &y) {
                return shim::less(x.b.plain_words(), y.b.plain_words());
            }
            friend SHIM_QUIET constexpr bool operator>(const number &x, const number &y) {
                return y < x;
            }
            friend SHIM_QUIET constexpr bool operator<=(const number &x, const number &y) {
                return !(y < x);
            }
            friend SHIM_QUIET constexpr bool operator>=(const number &x, const number &y) {
                return !(x < y);
            }
            template<typename T>
            SHIM_QUIET constexpr T convert_to() const {
                if constexpr (std::is_integral<T>::value)
                    return T(b.plain_words()[0]);
                else
                    return shim::from_words<T>(b.plain_words());
            }
            template<typename T, typename = std::enable_if_t<std::is_integral<T>::value || is_number<T>::value>>
            SHIM_QUIET explicit constexpr operator T() const {
                return convert_to<T>();
            }
            std::string str(std::streamsize digits = 0, std::ios_base::fmtflags f = std::ios_base::fmtflags(0)) const {
                return convert_to<number<B>>().str(digits, f);
            }
            friend std::ostream &operator<<(std::ostream &os, const number &x) {
                return os << x.template convert_to<number<B>>();
            }
            friend SHIM_QUIET std::size_t hash_value(const number &x) {
                std::size_t h = 1469598103934665603ull;
                for (uint64_t w : x.b.plain_words())
                    h = (h ^ w) * 1099511628211ull;
                return h;
            }

        };

        template<typename B, typename P, expression_template_option ET, typename EB, expression_template_option EE>
        SHIM_QUIET constexpr number<backends::modular_adaptor<B, P>, ET>
            powm(const number<backends::modular_adaptor<B, P>, ET> &x, const number<EB, EE> &e) {
            using R = number<backends::modular_adaptor<B, P>, ET>;
            R r(1u);
            constexpr std::size_t digits = std::numeric_limits<number<EB, EE>>::digits;
            constexpr std::size_t W = (digits + 63) / 64;
            auto w = shim::to_words<W>(e);
            bool seen = false;
            for (std::size_t i = 64 * W; i-- > 0;) {
                if (seen)
                    r *= R(r);
                if (w[i / 64] >> (i % 64) & 1) {
                    r *= x;
                    seen = true;
                }
            }
            return r;
        }
        template<typename B, typename P, expression_template_option ET>
        SHIM_QUIET constexpr number<backends::modular_adaptor<B, P>, ET>
            pow_words(const number<backends::modular_adaptor<B, P>, ET> &x, const shim::words<P::W> &w) {
            using R = number<backends::modular_adaptor<B, P>, ET>;
            R r(1u);
            bool seen = false;
            for (std::size_t i = 64 * P::W; i-- > 0;) {
                if (seen)
                    r *= R(r);
                if (w[i / 64] >> (i % 64) & 1) {
                    r *= x;
                    seen = true;
                }
            }
            return r;
        }
        template<typename B, typename P, expression_template_option ET>
        SHIM_QUIET constexpr number<backends::modular_adaptor<B, P>, ET>
            inverse_mod(const number<backends::modular_adaptor<B, P>, ET> &x) {
            shim::words<P::W> e = P::data().m, two {};
            two[0] = 2;
            shim::sub_from(e, two);
            return pow_words(x, e);    // the moduli are prime
        }
        // A square root (Tonelli and Shanks); zero when there is none.
        template<typename B, typename P, expression_template_option ET>
        SHIM_QUIET constexpr number<backends::modular_adaptor<B, P>, ET>
            ressol(const number<backends::modular_adaptor<B, P>, ET> &a) {
            using R = number<backends::modular_adaptor<B, P>, ET>;
            constexpr std::size_t W = P::W;
            auto half = [](shim::words<W> &x) {
                for (std::size_t i = 0; i < W; ++i)
                    x[i] = x[i] >> 1 | (i + 1 < W ? x[i + 1] << 63 : 0);
            };
            shim::words<W> h = P::data().m, q {}, unit {};
            unit[0] = 1;
            shim::sub_from(h, unit);
            q = h;
            half(h);
            const R one(1u), zero(0u);
            if (a == zero || pow_words(a, h) != one)
                return zero;
            std::size_t s = 0;
            while (!(q[0] & 1)) {
                half(q);
                ++s;
            }
            R n(2u);
            while (pow_words(n, h) == one)
                n += one;
            R c = pow_words(n, q);
            shim::words<W> q1 = q;
            shim::add_to(q1, unit);
            half(q1);
            R r = pow_words(a, q1), t = pow_words(a, q);
            std::size_t m = s;
            while (t != one) {
                std::size_t i = 0;
                R u = t;
                while (u != one) {
                    u *= R(u);
                    ++i;
                }
                R g = c;
                for (std::size_t j = 0; j + i + 1 < m; ++j)
                    g *= R(g);
                r *= g;
                c = g * g;
                t *= c;
                m = i;
            }
            return r;
        }
        template<typename B, typename P, expression_template_option ET>
        SHIM_QUIET constexpr bool bit_test(const number<backends::modular_adaptor<B, P>, ET> &x, std::size_t i) {
            auto w = x.backend().plain_words();
            return i < 64 * P::W && (w[i / 64] >> (i % 64) & 1);
        }
        template<typename B, typename P, expression_template_option ET>
        constexpr std::size_t msb(const number<backends::modular_adaptor<B, P>, ET> &x) {
            auto w = x.backend().plain_words();
            for (std::size_t i = 64 * P::W; i-- > 0;)
                if (w[i / 64] >> (i % 64) & 1)
                    return i;
            BOOST_MP_THROW_EXCEPTION(std::domain_error("No bits were set in the operand."));
        }
        template<typename B, expression_template_option ET>
        std::vector<long> find_wnaf(std::size_t window, const number<B, ET> &scalar) {
            cpp_int c(scalar);
            const long full = 1l << (window + 1), half = 1l << window;
            std::vector<long> res(std::size_t(std::numeric_limits<number<B, ET>>::digits) + 1, 0);
            for (std::size_t j = 0; c != 0 && j < res.size(); ++j) {
                long u = 0;
                if (bit_test(c, 0)) {
                    u = long(static_cast<unsigned long>(c & (full - 1)));
                    if (u > half)
                        u -= full;
                    c -= u;
                }
                res[j] = u;
                c >>= 1;
            }
            return res;
        }
        namespace shim {
            template<std::size_t Bits>
            SHIM_QUIET constexpr number<backends::cpp_int_modular_backend<Bits>> parse(const char *s) {
                number<backends::cpp_int_modular_backend<Bits>> r = 0u, before = 0u;
                bool hex = s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
                for (const char *p = hex ? s + 2 : s; *p; ++p) {
                    if (*p == '\'')
                        continue;
                    unsigned d = *p <= '9' ? unsigned(*p - '0') : unsigned((*p | 32) - 'a' + 10);
                    before = r;
                    if (hex)
                        r <<= 4;
                    else
                        r *= 10u;
                    r += d;
                    if ((r - d) / (hex ? 16u : 10u) != before)
                        throw std::length_error("literal wider than its type");
                }
                return r;
            }
        }    // namespace shim
    }        // namespace multiprecision
}    // namespace boost

template<typename B, typename P, boost::multiprecision::expression_template_option ET>
struct std::hash<boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<B, P>, ET>> {
    std::size_t operator()(const boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<B, P>, ET> &x) const {
        return hash_value(x);
    }
};

#define SHIM_LITERAL(Bits)                                                                                     \
    constexpr boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<Bits>>     \
    operator"" _cppui_modular##Bits(const char *s) {                                                           \
        return boost::multiprecision::shim::parse<Bits>(s);                                                    \
    }
SHIM_LITERAL(16)
SHIM_LITERAL(18)
SHIM_LITERAL(64)
SHIM_LITERAL(92)
SHIM_LITERAL(94)
SHIM_LITERAL(149)
SHIM_LITERAL(150)
SHIM_LITERAL(151)
SHIM_LITERAL(152)
SHIM_LITERAL(160)
SHIM_LITERAL(161)
SHIM_LITERAL(163)
SHIM_LITERAL(164)
SHIM_LITERAL(177)
SHIM_LITERAL(178)
SHIM_LITERAL(179)
SHIM_LITERAL(180)
SHIM_LITERAL(181)
SHIM_LITERAL(182)
SHIM_LITERAL(183)
SHIM_LITERAL(191)
SHIM_LITERAL(192)
SHIM_LITERAL(205)
SHIM_LITERAL(206)
SHIM_LITERAL(222)
SHIM_LITERAL(223)
SHIM_LITERAL(224)
SHIM_LITERAL(225)
SHIM_LITERAL(226)
SHIM_LITERAL(239)
SHIM_LITERAL(248)
SHIM_LITERAL(249)
SHIM_LITERAL(250)
SHIM_LITERAL(251)
SHIM_LITERAL(252)
SHIM_LITERAL(253)
SHIM_LITERAL(254)
SHIM_LITERAL(255)
SHIM_LITERAL(256)
SHIM_LITERAL(263)
SHIM_LITERAL(264)
SHIM_LITERAL(280)
SHIM_LITERAL(281)
SHIM_LITERAL(292)
SHIM_LITERAL(293)
SHIM_LITERAL(294)
SHIM_LITERAL(295)
SHIM_LITERAL(296)
SHIM_LITERAL(297)
SHIM_LITERAL(298)
SHIM_LITERAL(316)
SHIM_LITERAL(319)
SHIM_LITERAL(320)
SHIM_LITERAL(330)
SHIM_LITERAL(331)
SHIM_LITERAL(374)
SHIM_LITERAL(375)
SHIM_LITERAL(376)
SHIM_LITERAL(377)
SHIM_LITERAL(378)
SHIM_LITERAL(379)
SHIM_LITERAL(380)
SHIM_LITERAL(381)
SHIM_LITERAL(384)
SHIM_LITERAL(503)
SHIM_LITERAL(504)
SHIM_LITERAL(507)
SHIM_LITERAL(512)
SHIM_LITERAL(515)
SHIM_LITERAL(516)
SHIM_LITERAL(521)
SHIM_LITERAL(546)
SHIM_LITERAL(577)
SHIM_LITERAL(578)
SHIM_LITERAL(595)
SHIM_LITERAL(706)
SHIM_LITERAL(707)
SHIM_LITERAL(753)
SHIM_LITERAL(758)
SHIM_LITERAL(759)
SHIM_LITERAL(761)
SHIM_LITERAL(859)
SHIM_LITERAL(860)
SHIM_LITERAL(893)
SHIM_LITERAL(894)
SHIM_LITERAL(913)
SHIM_LITERAL(1024)
SHIM_LITERAL(1490)
SHIM_LITERAL(1536)
SHIM_LITERAL(2048)
SHIM_LITERAL(2790)
SHIM_LITERAL(3072)
SHIM_LITERAL(4096)
SHIM_LITERAL(4269)
SHIM_LITERAL(4314)
SHIM_LITERAL(6144)
SHIM_LITERAL(8192)
