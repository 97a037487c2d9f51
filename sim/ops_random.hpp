// Random field elements and points: the source decides everything, and its failures come through.
#pragma once
#include "ops_nt.hpp"
#include "entropy_seam.hpp"
#include <cmath>
#include <nil/crypto3/algebra/random_element.hpp>

namespace sim {
    // Random sources of several shapes.  Each draw may fail or let another caller run.
    template<typename U, U Lo, U Hi>
    struct Source {
        using result_type = U;
        Rng r;
        uint64_t drawn = 0;
        HARNESS explicit Source(uint64_t seed) : r(seed) {
        }
        static constexpr U min() {
            return Lo;
        }
        static constexpr U max() {
            return Hi;
        }
        static constexpr bool has_fixed_range = false;
        HARNESS U operator()() {
            fault_point(F_ENTROPY);
            yield_here();
            ++drawn;
            uint64_t v = r.next();
            return Hi - Lo == U(~U(0)) ? U(v) : U(Lo + v % (uint64_t(Hi - Lo) + 1));
        }
    };
    using Src32 = Source<uint32_t, 0u, ~0u>;
    using Src64 = Source<uint64_t, 0u, ~uint64_t(0)>;
    using Src31 = Source<uint32_t, 1u, 2147483646u>;
    using Src16 = Source<uint16_t, 0, 65535>;

    template<uint64_t P>
    class ToyPrime : public nil::crypto3::algebra::fields::field<64> {
    public:
        typedef nil::crypto3::algebra::fields::field<64> policy_type;
        constexpr static const std::size_t modulus_bits = policy_type::modulus_bits;
        constexpr static const std::size_t number_bits = policy_type::number_bits;
        constexpr static const std::size_t value_bits = modulus_bits;
        constexpr static const std::size_t arity = 1;
        typedef typename policy_type::integral_type integral_type;
        typedef typename policy_type::extended_integral_type extended_integral_type;
        constexpr static const integral_type modulus = integral_type(P);
        typedef typename policy_type::modular_backend modular_backend;
        constexpr static const modular_params_type modulus_params = modulus.backend();
        typedef boost::multiprecision::number<boost::multiprecision::backends::modular_adaptor<
            modular_backend, boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
            modular_type;
        typedef typename nil::crypto3::algebra::fields::detail::element_fp<
            nil::crypto3::algebra::fields::params<ToyPrime>> value_type;
    };

    struct Words {
        W w;
    };
    template<>
    struct Codec<Words> {
        HARNESS static FW flat(const Words &a) {
            return fw(a.w);
        }
    };
    // Does this count of equally likely outcomes look uniform?  The bound is out of reach by chance (below 1e-12).
    HARNESS inline bool level(const int *n, std::size_t k) {
        double all = 0, x = 0;
        for (std::size_t i = 0; i < k; ++i)
            all += n[i];
        for (std::size_t i = 0; i < k; ++i)
            x += (n[i] - all / double(k)) * (n[i] - all / double(k)) / (all / double(k));
        return x < 60 + 4 * double(k);
    }
    HARNESS inline std::tuple<uint64_t> seed_operand(Rng &r) {
        return {r.next()};
    }

    template<typename F, int FID>
    struct RandomOps {
        using E = typename F::value_type;
        // Two draws, written as words, then: are they reduced, and is the second another one?
        HARNESS static W summary(const E &a, const E &b) {
            W w, y;
            put_words(a, w);
            put_words(b, y);
            const W p = ntm::order(FID);
            bool ok = true;
            for (const W *v : {&w, &y})
                for (std::size_t i = 0; i < v->size(); i += LW)
                    ok = ok && ntm::less(W(v->begin() + long(i), v->begin() + long(i + LW)), p);
            bool fresh = w != y;
            for (std::size_t i = 0; i < w.size(); i += LW)    // no coefficient repeats another
                for (std::size_t j = 0; j < i; j += LW)
                    fresh = fresh && W(w.begin() + long(i), w.begin() + long(i + LW)) !=
                                         W(w.begin() + long(j), w.begin() + long(j + LW));
            w.insert(w.end(), y.begin(), y.end());
            w.push_back(ok);
            w.push_back(fresh);
            return w;
        }
        template<typename S>
        static Words draw(const uint64_t &seed) {
            S s(seed);
            E a = alg::random_element<F>(s);
            E b = alg::random_element<F>(s);
            Quiet q;
            return Words {summary(a, b)};
        }
        // The same seed gives the same elements, whoever else draws; they are reduced, and not the same twice.
        template<typename S>
        HARNESS static FW again(const Shape &, const FW &seed) {
            W w = draw<S>(seed.d[0]).w;
            w[w.size() - 1] = w[w.size() - 2] = 1;
            return fw(w);
        }
        static Words device(const uint64_t &seed) {
            entropy::reseed(seed);
            E a = alg::random_element<F>();
            E b = alg::random_element<F>();
            Quiet q;
            return Words {summary(a, b)};
        }
        HARNESS static FW device_again(const Shape &, const FW &seed) {
            W w = device(seed.d[0]).w;
            w[w.size() - 1] = w[w.size() - 2] = 1;
            return fw(w);
        }
        template<typename S>
        static bool spread(const uint64_t &seed) {
            S s(seed);
            const int N = 320 / int(ntm::dim(FID)) + 30;
            constexpr std::size_t K = 8;
            int top[K] = {}, low[K] = {}, all = 0;
            std::vector<int> ones(LW * 64);
            const W p = ntm::order(FID);
            std::size_t hi = LW;
            while (!p[hi - 1])
                --hi;
            for (int i = 0; i < N; ++i) {
                E a = alg::random_element<F>(s);
                Quiet q;
                W w;
                put_words(a, w);
                for (std::size_t j = 0; j < w.size(); j += LW) {
                    long double v = 0, m = 0;
                    for (std::size_t k = LW; k-- > 0;) {
                        v = v * 18446744073709551616.0L + (long double)w[j + k];
                        m = m * 18446744073709551616.0L + (long double)p[k];
                    }
                    std::size_t at = std::size_t(v / m * (long double)K);
                    top[at < K ? at : K - 1]++;
                    low[w[j] % K]++;
                    ++all;
                    for (std::size_t b = 0; b < LW * 64; ++b)
                        ones[b] += int(w[j + b / 64] >> (b % 64) & 1);
                }
            }
            Quiet q;
            std::size_t bits = hi * 64;
            while (!(p[(bits - 1) / 64] >> ((bits - 1) % 64) & 1))
                --bits;
            for (std::size_t b = 0; b + 8 < bits; ++b) {    // every bit but the first few is as often set as not
                const double off = std::fabs(ones[b] - all / 2.0) - all / 100.0;
                if (off > 5 * std::sqrt(double(all)))    // ten standard deviations
                    return false;
            }
            return level(top, K) && level(low, K);
        }
        // Uniform elements cannot be made from fewer bits than they carry: N of them from that many less 64 would take
        // a chance of 2^-64.
        static constexpr int N_SPENT = 24;
        HARNESS static double carried() {
            const W p = ntm::order(FID);
            std::size_t hi = LW * 64;
            while (!(p[(hi - 1) / 64] >> ((hi - 1) % 64) & 1))
                --hi;
            return double(N_SPENT) * double(ntm::dim(FID)) * double(hi - 1) - 64;
        }
        template<typename S, int Bits>
        static bool spent(const uint64_t &seed) {
            S s(seed);
            for (int i = 0; i < N_SPENT; ++i)
                alg::random_element<F>(s);
            Quiet q;
            return double(s.drawn) * Bits >= carried();
        }
        static bool device_spent(const uint64_t &seed) {
            entropy::reseed(seed);
            const uint64_t before = entropy::drawn();
            for (int i = 0; i < N_SPENT; ++i)
                alg::random_element<F>();
            Quiet q;
            return double(entropy::drawn() - before) * 32 >= carried();
        }
        HARNESS static FW yes(const Shape &, const FW &) {
            return one(uint64_t(1));
        }
        HARNESS static void reg(const std::string &name) {
            const std::string sfx = " " + name;
            const unsigned tg = T_RANDOM;
            add("random elements use the source" + sfx, tg | T_SLOW, seed_operand,
                +[](const uint64_t &seed) { return uint64_t(spent<Src32, 32>(seed) && spent<Src16, 16>(seed)); }, yes);
            add("random elements use the device" + sfx, tg | T_SLOW, seed_operand,
                +[](const uint64_t &seed) { return uint64_t(device_spent(seed)); }, yes);
            add("random element" + sfx, tg, seed_operand, &draw<Src32>, &again<Src32>, Shape(), 2);
            add("random element from 64 bits" + sfx, tg, seed_operand, &draw<Src64>, &again<Src64>);
            add("random element from 31 bits" + sfx, tg, seed_operand, &draw<Src31>, &again<Src31>);
            add("random element from 16 bits" + sfx, tg, seed_operand, &draw<Src16>, &again<Src16>);
            add("random element by default" + sfx, tg, seed_operand, &device, &device_again, Shape(), 2);
            add("random elements spread" + sfx, tg | T_SLOW, seed_operand, &spread<Src32>,
                +[](const Shape &, const FW &) { return one(true); });
        }
    };
    template<uint64_t P>
    HARNESS void random_toy() {
        using F = ToyPrime<P>;
        const std::string sfx = " field of " + std::to_string(P);
        add("random elements even" + sfx, T_RANDOM | T_SLOW, seed_operand, +[](const uint64_t &seed) {
                Src32 s(seed);
                int n[P] = {};
                for (int i = 0; i < int(400 * P); ++i) {
                    auto a = alg::random_element<F>(s);
                    Quiet q;
                    uint64_t w[1];
                    int_to(typename F::integral_type(a.data), w, 1);
                    if (w[0] >= P)
                        return false;
                    n[w[0]]++;
                }
                Quiet q;
                return level(n, P);
            }, +[](const Shape &, const FW &) { return one(true); });
    }
    template<typename G, int CID>
    struct RandomPoint {
        using P = typename G::value_type;
        HARNESS static W summary(const P &a, const P &b) {
            W w = affine_point<P, CID>(Codec<Raw<P, CID>>::flat(Raw<P, CID> {a}));
            W y = affine_point<P, CID>(Codec<Raw<P, CID>>::flat(Raw<P, CID> {b}));
            bool ok = true;
            for (const W *v : {&w, &y}) {
                ok = ok && ntm::on_curve(CID, ntm::px(CID, *v), ntm::py(CID, *v));
                ok = ok && ntm::inf(ntm::cmul(CID, *v, ntm::order(ntm::cscalar(CID))));
            }
            bool fresh = w != y;
            w.insert(w.end(), y.begin(), y.end());
            w.push_back(ok);
            w.push_back(fresh);
            return w;
        }
        template<typename S>
        static Words draw(const uint64_t &seed) {
            S s(seed);
            P a = alg::random_element<G>(s);
            P b = alg::random_element<G>(s);
            Quiet q;
            return Words {summary(a, b)};
        }
        template<typename S>
        HARNESS static FW again(const Shape &, const FW &seed) {
            W w = draw<S>(seed.d[0]).w;
            w[w.size() - 1] = w[w.size() - 2] = 1;
            return fw(w);
        }
        static Words device(const uint64_t &seed) {
            entropy::reseed(seed);
            P a = alg::random_element<G>();
            P b = alg::random_element<G>();
            Quiet q;
            return Words {summary(a, b)};
        }
        HARNESS static FW device_again(const Shape &, const FW &seed) {
            W w = device(seed.d[0]).w;
            w[w.size() - 1] = w[w.size() - 2] = 1;
            return fw(w);
        }
        static constexpr int N_SPENT = 6;
        HARNESS static double carried() {
            const W p = ntm::order(ntm::cscalar(CID));
            std::size_t hi = LW * 64;
            while (!(p[(hi - 1) / 64] >> ((hi - 1) % 64) & 1))
                --hi;
            return double(N_SPENT) * double(hi - 1) - 64;
        }
        static bool spent(const uint64_t &seed) {
            Src32 s(seed);
            for (int i = 0; i < N_SPENT; ++i)
                alg::random_element<G>(s);
            Quiet q;
            return double(s.drawn) * 32 >= carried();
        }
        static bool device_spent(const uint64_t &seed) {
            entropy::reseed(seed);
            const uint64_t before = entropy::drawn();
            for (int i = 0; i < N_SPENT; ++i)
                alg::random_element<G>();
            Quiet q;
            return double(entropy::drawn() - before) * 32 >= carried();
        }
        HARNESS static void reg(const std::string &name) {
            const std::string sfx = " " + name;
            const unsigned tg = T_RANDOM | T_SLOW;
            add("random points use the source" + sfx, tg, seed_operand, &spent,
                +[](const Shape &, const FW &) { return one(true); });
            add("random points use the device" + sfx, tg, seed_operand, &device_spent,
                +[](const Shape &, const FW &) { return one(true); });
            add("random point" + sfx, tg, seed_operand, &draw<Src32>, &again<Src32>);
            add("random point from 64 bits" + sfx, tg, seed_operand, &draw<Src64>, &again<Src64>);
            add("random point by default" + sfx, tg, seed_operand, &device, &device_again);
        }
    };
}    // namespace sim
