// Multi-exponentiation, windowed tables and signed windows, over the library's groups and over a toy group that can fail.
#pragma once
#include "ops_nt.hpp"
#include <nil/crypto3/algebra/curves/bls12.hpp>
#include <nil/crypto3/algebra/curves/params/multiexp/bls12.hpp>
#include <nil/crypto3/algebra/curves/params/wnaf/bls12.hpp>

namespace sim {
    struct ToySumGroup;
    // Integers modulo q kept in a heap cell; every operation can fail.
    struct ToySum {
        using group_type = ToySumGroup;
        static constexpr uint64_t q = 1000003, mark = uint64_t(1) << 30;
        Heap h;
        bool special = false;
        ToySum() : h(0.0) {
        }
        explicit ToySum(uint64_t v) : h(double(v % q)) {
        }
        HARNESS uint64_t get() const {
            return uint64_t(h.get());
        }
        static ToySum zero() {
            return ToySum(uint64_t(0));
        }
        static ToySum one() {
            return ToySum(uint64_t(1));
        }
        bool is_zero() const {
            Heap::fp();
            return get() == 0;
        }
        bool operator==(const ToySum &o) const {
            Heap::fp();
            return get() == o.get();
        }
        bool operator!=(const ToySum &o) const {
            Heap::fp();
            return get() != o.get();
        }
        ToySum operator+(const ToySum &o) const {
            Heap::fp();
            return ToySum(get() + o.get());
        }
        ToySum operator-(const ToySum &o) const {
            Heap::fp();
            return ToySum(get() + q - o.get());
        }
        ToySum operator-() const {
            Heap::fp();
            return ToySum(q - get());
        }
        ToySum &operator+=(const ToySum &o) {
            Heap::fp();
            h = Heap(double((get() + o.get()) % q));
            return *this;
        }
        ToySum &operator-=(const ToySum &o) {
            Heap::fp();
            h = Heap(double((get() + q - o.get()) % q));
            return *this;
        }
        void double_inplace() {
            Heap::fp();
            h = Heap(double(get() * 2 % q));
        }
        void mixed_add(const ToySum &o) {
            *this += o;
        }
        ToySum to_projective() const {
            Heap::fp();
            ToySum t(get());
            t.special = true;
            return t;
        }
        template<typename I>
        HARNESS static uint64_t residue(const I &k) {
            uint64_t w[LW], r = 0;
            int_to(k, w, LW);
            for (std::size_t i = LW; i-- > 0;)
                r = uint64_t((((unsigned __int128)r << 64) | w[i]) % q);
            return r;
        }
        HARNESS ToySum times(uint64_t k) const {
            Heap::fp();
            return ToySum(get() * k % q);
        }
        template<typename E, typename = typename E::integral_type>
        friend ToySum operator*(const E &k, const ToySum &p) {
            return p.times(residue(typename E::integral_type(k.data)));
        }
        template<typename B, boost::multiprecision::expression_template_option ET>
        friend ToySum operator*(const boost::multiprecision::number<B, ET> &k, const ToySum &p) {
            return p.times(residue(k));
        }
        template<typename B, boost::multiprecision::expression_template_option ET>
        friend ToySum operator*(const ToySum &p, const boost::multiprecision::number<B, ET> &k) {
            return p.times(residue(k));
        }
    };
    struct ToySumGroup {
        using value_type = ToySum;
        static void batch_to_special_all_non_zeros(std::vector<ToySum> &v) {
            for (auto &x : v)
                x = x.to_projective();
        }
    };
}    // namespace sim
namespace nil { namespace crypto3 { namespace algebra { namespace curves {
    template<>
    struct multiexp_params<sim::ToySumGroup> {
        constexpr static const std::array<std::size_t, 6> fixed_base_exp_window_table = {1, 5, 11, 0, 30, 60};
    };
    template<>
    struct wnaf_params<sim::ToySumGroup> {
        constexpr static const std::array<std::size_t, 4> wnaf_window_table = {3, 9, 30, 100};
    };
}}}}
#include <nil/crypto3/algebra/multiexp/multiexp.hpp>
#include <nil/crypto3/algebra/multiexp/policies.hpp>
#include <nil/crypto3/algebra/multiexp/inner_product.hpp>
#include <deque>

namespace sim {
    // How a group's elements are made from x times the generator, and written down.
    template<typename G, int CID>
    struct GroupIo {
        using P = typename G::value_type;
        static constexpr bool toy = false;
        HARNESS static P make(Rng &r, W &x) {
            if (r.below(10) == 0) {
                x.assign(LW, 0);
                return Stored<P, CID>::put(ntm::identity(CID), r, true);
            }
            W p = ntm::crnd(CID, r, &x);
            return Stored<P, CID>::put(p, r, r.below(2));
        }
        HARNESS static W raw(const P &p) {
            return Codec<Raw<P, CID>>::flat(Raw<P, CID> {p}).d;
        }
        HARNESS static W from(const W &x) {
            return ntm::cmul(CID, ntm::generator(CID), x);
        }
        HARNESS static bool special(const P &) {
            return true;
        }
        HARNESS static W read(const P &p) {
            return affine_point<P, CID>(Codec<Raw<P, CID>>::flat(Raw<P, CID> {p}));
        }
        HARNESS static W plus(const W &a, const W &b) {
            return ntm::add(ntm::cscalar(CID), a, b);
        }
        HARNESS static W times(const W &a, const W &b) {
            return ntm::mulmod(ntm::cscalar(CID), a, b);
        }
    };
    template<int CID>
    struct GroupIo<ToySumGroup, CID> {
        using P = ToySum;
        static constexpr bool toy = true;
        HARNESS static P make(Rng &r, W &x) {
            x.assign(LW, 0);
            x[0] = r.below(8) ? r.below(ToySum::q) : r.below(2) * (ToySum::q - 1);
            return ToySum(x[0]);
        }
        HARNESS static W raw(const P &p) {
            return W {p.get() + (p.special ? ToySum::mark : 0)};
        }
        HARNESS static bool special(const P &p) {
            return p.special;
        }
        HARNESS static W from(const W &x) {
            return W {x[0]};
        }
        HARNESS static W read(const P &p) {
            return W {p.get()};
        }
        HARNESS static W plus(const W &a, const W &b) {
            W c(LW, 0);
            c[0] = (a[0] + b[0]) % ToySum::q;
            return c;
        }
        HARNESS static W times(const W &a, const W &b) {    // b: an integer
            uint64_t r = 0;
            for (std::size_t i = LW; i-- > 0;)
                r = uint64_t((((unsigned __int128)r << 64) | b[i]) % ToySum::q);
            W c(LW, 0);
            c[0] = a[0] * r % ToySum::q;
            return c;
        }
    };

    template<typename M>
    struct Terms {
        std::vector<typename M::P> b;
        std::vector<typename M::E> s;
        W x;    // n, the second number, then multiplier and scalar of every term
    };
    template<typename M>
    struct Sum {
        typename M::P p;
    };
    template<typename M>
    struct Sums {
        std::vector<typename M::P> v;
        bool marked = false;
    };
    template<typename M>
    struct Table {
        std::vector<std::vector<typename M::P>> v;
    };
    template<typename M>
    struct Start {    // one element, its multiplier, a window and a number of bits
        typename M::P p;
        W x;
    };
    template<typename M>
    struct Codec<Terms<M>> {
        HARNESS static FW flat(const Terms<M> &t) {
            W w = t.x;
            for (auto &p : t.b) {
                W r = M::Io::raw(p);
                w.insert(w.end(), r.begin(), r.end());
            }
            for (auto &e : t.s)
                put_words(e, w);
            return fw(w);
        }
    };
    template<typename M>
    struct Codec<Start<M>> {
        HARNESS static FW flat(const Start<M> &t) {
            W w = t.x, r = M::Io::raw(t.p);
            w.insert(w.end(), r.begin(), r.end());
            return fw(w);
        }
    };
    template<typename M>
    struct Codec<Sum<M>> {
        HARNESS static FW flat(const Sum<M> &t) {
            return fw(M::Io::read(t.p));
        }
    };
    template<typename M>
    struct Codec<Sums<M>> {
        HARNESS static FW flat(const Sums<M> &t) {
            W w;
            for (auto &p : t.v) {
                W r = M::Io::read(p);
                w.insert(w.end(), r.begin(), r.end());
                if (t.marked)
                    w.push_back(M::Io::special(p));
            }
            return fw(w);
        }
    };
    template<typename M>
    struct Codec<Table<M>> {
        HARNESS static FW flat(const Table<M> &t) {
            W w;
            for (auto &row : t.v) {
                w.push_back(row.size());
                for (auto &p : row) {
                    W r = M::Io::read(p);
                    w.insert(w.end(), r.begin(), r.end());
                }
            }
            return fw(w);
        }
    };

    template<typename G, typename F, int CID, int SID>
    struct MultiOps {
        using Io = GroupIo<G, CID>;
        using P = typename G::value_type;
        using E = typename F::value_type;
        using I = typename F::integral_type;
        using Me = MultiOps;
        using T = Terms<Me>;
        using S = Sum<Me>;
        using B = Start<Me>;
        // ---- operands
        HARNESS static W scalar(Rng &r, bool small) {
            W k = ntm::zero(SID), p = ntm::order(SID);
            switch (small ? 2 + r.below(5) : r.below(9)) {
                case 0:
                    p[0] -= 1 + r.below(3);
                    return p;
                case 1:
                    k[r.below(3)] = uint64_t(1) << r.below(64);
                    return ntm::reduce(SID, k);
                case 2:
                    return k;
                case 3:
                    k[0] = 1;
                    return k;
                case 4:
                    k[0] = r.below(8);
                    return k;
                case 5:
                    k[0] = r.next() & 0xfff;
                    return k;
                case 6:
                    k[0] = r.next() >> r.below(64);
                    return k;
                default:
                    return ntm::rnd(SID, r);
            }
        }
        HARNESS static T terms(Rng &r, std::size_t most) {
            T t;
            std::size_t n = r.below(3) ? r.below(most + 1) : r.below(4);
            const bool small = Io::toy ? r.below(3) == 0 : n > 5 || r.below(4) != 0;
            const bool nil = r.below(8) == 0, eq = r.below(6) == 0;
            const W fixed = scalar(r, small);
            t.x = {n, 1 + r.below(r.below(2) ? 4 : n + 3)};
            for (std::size_t i = 0; i < n; ++i) {
                W x, k = nil ? ntm::zero(SID) : eq ? fixed : scalar(r, small);
                if (i && r.below(8) == 0) {
                    t.b.push_back(P(t.b.back()));
                    x.assign(t.x.end() - 2 * long(LW), t.x.end() - long(LW));
                } else {
                    t.b.push_back(Io::make(r, x));
                }
                t.s.push_back(make_elem<E>(k));
                t.x.insert(t.x.end(), x.begin(), x.end());
                t.x.insert(t.x.end(), k.begin(), k.end());
            }
            return t;
        }
        HARNESS static W mult(const FW &f, std::size_t i) {
            return W(f.d.begin() + 2 + long(2 * i * LW), f.d.begin() + 2 + long((2 * i + 1) * LW));
        }
        HARNESS static W coefw(const FW &f, std::size_t i) {
            return W(f.d.begin() + 2 + long((2 * i + 1) * LW), f.d.begin() + 2 + long((2 * i + 2) * LW));
        }
        HARNESS static std::tuple<T> few(Rng &r) {
            return {terms(r, Io::toy ? 9 : 4)};
        }
        HARNESS static std::tuple<T> some(Rng &r) {
            return {terms(r, Io::toy ? 70 : 7)};
        }
        HARNESS static FW dot(const Shape &, const FW &f) {
            W a(LW, 0);
            for (std::size_t i = 0; i < f.d[0]; ++i)
                a = Io::plus(a, Io::times(mult(f, i), coefw(f, i)));
            return fw(Io::from(a));
        }
        // ---- the calls
        template<typename Method>
        static S multi(const T &t) {
            return S {alg::multiexp<Method>(t.b.begin(), t.b.end(), t.s.begin(), t.s.end(), std::size_t(t.x[1]))};
        }
        template<typename Method>
        static S mixed(const T &t) {
            return S {alg::multiexp_with_mixed_addition<Method>(t.b.begin(), t.b.end(), t.s.begin(), t.s.end(),
                                                                std::size_t(t.x[1]))};
        }
        // Bases and scalars in containers that are not contiguous.
        template<typename Method>
        static S spread(const T &t) {
            std::deque<P> b;
            std::deque<E> s;
            for (std::size_t i = 0; i < t.b.size(); ++i)
                b.push_back(t.b[i]), s.push_back(t.s[i]);
            return S {alg::multiexp<Method>(b.begin(), b.end(), s.begin(), s.end(), std::size_t(t.x[1]))};
        }
        template<typename Method>
        HARNESS static void method(const std::string &name, int weight) {
            const std::string sfx = " by " + name;
            add("sum of multiples" + sfx, tags(), &some, &multi<Method>, &dot, Shape(), weight);
            add("sum of a few multiples" + sfx, tags(), &few, &multi<Method>, &dot, Shape(), weight);
            add("sum of multiples with units apart" + sfx, tags(), &some, &mixed<Method>, &dot, Shape(), weight);
            add("sum of scattered multiples" + sfx, tags(), &few, &spread<Method>, &dot);
        }
        // ---- tables.  x: multiplier, window, bits
        HARNESS static B base(Rng &r, std::size_t widest) {
            W x;
            P p = Io::make(r, x);
            x.push_back(1 + r.below(widest));
            x.push_back(1 + r.below(r.below(3) ? (Io::toy ? 40 : 14) : 5));
            return B {p, x};
        }
        HARNESS static W cut(W k, std::size_t bits) {    // below two to the bits
            for (std::size_t i = 0; i < LW; ++i)
                if (i * 64 >= bits)
                    k[i] = 0;
                else if ((i + 1) * 64 > bits)
                    k[i] &= (uint64_t(1) << (bits - i * 64)) - 1;
            return k;
        }
        HARNESS static W scaled(const FW &f, uint64_t n) {
            W k(LW, 0);
            k[0] = n;
            return Io::times(W(f.d.begin(), f.d.begin() + long(LW)), k);
        }
        HARNESS static std::tuple<B> table_operand(Rng &r) {
            return {base(r, Io::toy ? 7 : 4)};
        }
        static Table<Me> table(const B &b) {
            return Table<Me> {alg::get_window_table<G>(std::size_t(b.x[LW + 1]), std::size_t(b.x[LW]), b.p)};
        }
        // What a row holds is fixed by what reading it is for: entry k of row o is k 2^(window o) times the base.
        HARNESS static FW table_of(const Shape &, const FW &f) {
            const std::size_t win = f.d[LW], bits = f.d[LW + 1], rows = (bits + win - 1) / win;
            W w;
            for (std::size_t o = 0; o < rows; ++o) {
                std::size_t left = bits - o * win < win ? bits - o * win : win;
                w.push_back(uint64_t(1) << win);
                for (uint64_t k = 0; k < uint64_t(1) << win; ++k) {
                    W v = k < uint64_t(1) << left ? Io::from(scaled(f, k << (o * win))) : Io::from(W(LW, 0));
                    w.insert(w.end(), v.begin(), v.end());
                }
            }
            return fw(w);
        }
        HARNESS static std::tuple<B, T> fixed_operand(Rng &r) {
            B b = base(r, Io::toy ? 7 : 4);
            if (Io::toy && r.below(2))
                b.x[LW + 1] = 255;
            T t;
            std::size_t n = r.below(Io::toy ? 6 : 3);
            t.x = {n, 0};
            for (std::size_t i = 0; i < n; ++i) {
                W k = cut(scalar(r, r.below(2)), b.x[LW + 1]);
                if (r.below(4) == 0)
                    k = cut(W(LW, ~uint64_t(0)), b.x[LW + 1] < 254 ? b.x[LW + 1] : 254);
                t.s.push_back(make_elem<E>(k));
                t.x.insert(t.x.end(), LW, 0);
                t.x.insert(t.x.end(), k.begin(), k.end());
            }
            return {b, t};
        }
        static Sums<Me> fixed_base(const B &b, const T &t) {
            const std::size_t win = b.x[LW], bits = b.x[LW + 1];
            auto tab = alg::get_window_table<G>(bits, win, b.p);
            Sums<Me> o;
            for (auto &k : t.s)
                o.v.push_back(alg::windowed_exp<G, F>(bits, win, tab, k));
            return o;
        }
        static Sums<Me> batch(const B &b, const T &t) {
            const std::size_t win = b.x[LW], bits = b.x[LW + 1];
            auto tab = alg::get_window_table<G>(bits, win, b.p);
            return Sums<Me> {alg::batch_exp<G, F>(bits, win, tab, t.s)};
        }
        HARNESS static FW fixed_of(const Shape &, const FW &b, const FW &t) {
            W w, m(b.d.begin(), b.d.begin() + long(LW));
            for (std::size_t i = 0; i < t.d[0]; ++i) {
                W v = Io::from(Io::times(m, coefw(t, i)));
                w.insert(w.end(), v.begin(), v.end());
            }
            return fw(w);
        }
        // coefficient and scalars are small enough that the product keeps to the bits
        HARNESS static std::tuple<B, T> coeff_operand(Rng &r) {
            std::tuple<B, T> a = fixed_operand(r);
            B &b = std::get<0>(a);
            T &t = std::get<1>(a);
            const std::size_t bits = b.x[LW + 1];
            W k = cut(scalar(r, true), bits / 2);
            if (bits >= 255)
                k = scalar(r, false);    // any product is below the group's order
            for (std::size_t i = 0; i < t.x[0]; ++i) {
                W v(t.x.begin() + 2 + long((2 * i + 1) * LW), t.x.begin() + 2 + long((2 * i + 2) * LW));
                if (bits < 255)
                    v = cut(v, bits - bits / 2);
                t.s[i] = make_elem<E>(v);
                std::copy(v.begin(), v.end(), t.x.begin() + 2 + long((2 * i + 1) * LW));
            }
            t.b.clear();
            t.s.push_back(make_elem<E>(k));    // the coefficient comes last
            t.x.insert(t.x.end(), LW, 0);
            t.x.insert(t.x.end(), k.begin(), k.end());
            return a;
        }
        static Sums<Me> batch_coeff(const B &b, const T &t) {
            const std::size_t win = b.x[LW], bits = b.x[LW + 1];
            std::vector<E> v(t.s.begin(), t.s.end() - 1);
            auto tab = alg::get_window_table<G>(bits, win, b.p);
            return Sums<Me> {alg::batch_exp_with_coeff<G, F>(bits, win, tab, t.s.back(), v)};
        }
        HARNESS static FW coeff_of(const Shape &, const FW &b, const FW &t) {
            W w, m(b.d.begin(), b.d.begin() + long(LW)), k = coefw(t, t.d[0]);
            for (std::size_t i = 0; i < t.d[0]; ++i) {
                W v = Io::from(Io::times(m, ntm::mulmod(SID, coefw(t, i), k)));
                w.insert(w.end(), v.begin(), v.end());
            }
            return fw(w);
        }
        // ---- signed windows
        HARNESS static std::tuple<B, T> naf_operand(Rng &r) {
            B b = base(r, Io::toy ? 7 : 5);
            T t;
            W k = scalar(r, !Io::toy && r.below(2));
            t.x = {1, 0};
            t.x.insert(t.x.end(), LW, 0);
            t.x.insert(t.x.end(), k.begin(), k.end());
            t.s.push_back(make_elem<E>(k));
            std::size_t bits = 1;
            for (std::size_t i = 0; i < LW * 64; ++i)
                if (k[i / 64] >> (i % 64) & 1)
                    bits = i + 1;
            b.x[LW + 1] = bits;
            return {b, t};
        }
        static S naf(const B &b, const T &t) {
            return S {alg::fixed_window_wnaf_exp(std::size_t(b.x[LW]), b.p, I(t.s[0].data))};
        }
        static S opt_naf(const B &b, const T &t) {
            return S {alg::opt_window_wnaf_exp(b.p, I(t.s[0].data), std::size_t(b.x[LW + 1]))};
        }
        // ---- choice of the window: the widest whose table entry is set and not above the number of scalars
        HARNESS static std::tuple<uint64_t> count_operand(Rng &r) {
            switch (r.below(4)) {
                case 0:
                    return {r.below(6)};
                case 1: {
                    auto &t = nil::crypto3::algebra::curves::multiexp_params<G>::fixed_base_exp_window_table;
                    uint64_t v = t[r.below(t.size())];
                    return {v + r.below(3) - (v ? 1 : 0)};
                }
                default:
                    return {r.next() >> (1 + r.below(63))};
            }
        }
        static uint64_t window(const uint64_t &n) {
            return alg::get_exp_window_size<G>(std::size_t(n));
        }
        HARNESS static FW window_of(const Shape &, const FW &n) {
            auto &t = nil::crypto3::algebra::curves::multiexp_params<G>::fixed_base_exp_window_table;
            uint64_t best = 1;
            for (std::size_t i = 0; i < t.size(); ++i)
                if (t[i] && n.d[0] >= t[i])
                    best = i + 1;
            return one(best);
        }
        // ---- sums of products of field elements
        HARNESS static std::tuple<T> dots_operand(Rng &r) {
            T t;
            std::size_t n = r.below(12);
            t.x = {n, 0};
            for (std::size_t i = 0; i < n; ++i) {
                W a = scalar(r, false), b = scalar(r, false);
                t.s.push_back(make_elem<E>(a));
                t.s.push_back(make_elem<E>(b));
                t.x.insert(t.x.end(), a.begin(), a.end());
                t.x.insert(t.x.end(), b.begin(), b.end());
            }
            return {t};
        }
        static El<F> dots(const T &t) {
            std::vector<E> a, b;
            for (std::size_t i = 0; i < t.s.size(); i += 2)
                a.push_back(t.s[i]), b.push_back(t.s[i + 1]);
            return El<F> {alg::inner_product(a.begin(), a.end(), b.begin(), b.end())};
        }
        HARNESS static FW dots_of(const Shape &, const FW &f) {
            W a = ntm::zero(SID);
            for (std::size_t i = 0; i < f.d[0]; ++i)
                a = ntm::add(SID, a, ntm::mulmod(SID, mult(f, i), coefw(f, i)));
            return fw(a);
        }
        // ---- special form, for a group that offers it
        static Sums<Me> specials(const T &t) {
            std::vector<P> v = t.b;
            alg::batch_to_special<G>(v);
            return Sums<Me> {v, true};
        }
        HARNESS static FW specials_of(const Shape &, const FW &f) {
            W w;
            for (std::size_t i = 0; i < f.d[0]; ++i) {
                W v = Io::from(mult(f, i));
                w.insert(w.end(), v.begin(), v.end());
                w.push_back(1);
            }
            return fw(w);
        }
        HARNESS static unsigned tags() {
            return T_MULTIEXP | T_ALLOC | (Io::toy ? T_THROWING : 0u);
        }
        HARNESS static void reg(const std::string &name) {
            namespace p = nil::crypto3::algebra::policies;
            const std::string sfx = " " + name;
            method<p::multiexp_method_naive_plain>("plain method" + sfx, 1);
            method<p::multiexp_method_BDLO12>("buckets" + sfx, 3);
            method<p::multiexp_method_bos_coster>("Bos-Coster" + sfx, 3);
            add("window table" + sfx, tags(), &table_operand, &table, &table_of, Shape(), 2);
            add("windowed multiple" + sfx, tags(), &fixed_operand, &fixed_base, &fixed_of, Shape(), 2);
            add("batch of multiples" + sfx, tags(), &fixed_operand, &batch, &fixed_of, Shape(), 2);
            add("batch of multiples with coefficient" + sfx, tags(), &coeff_operand, &batch_coeff, &coeff_of, Shape(), 2);
            add("multiple by signed window" + sfx, tags(), &naf_operand, &naf, &fixed_of, Shape(), 3);
            add("multiple by chosen window" + sfx, tags(), &naf_operand, &opt_naf, &fixed_of, Shape(), 3);
            add("choice of window" + sfx, T_MULTIEXP, &count_operand, &window, &window_of);
            if constexpr (Io::toy) {
                add("special form" + sfx, tags(), &some, &specials, &specials_of, Shape(), 2);
                add("inner product" + sfx, T_MULTIEXP | T_ALLOC, &dots_operand, &dots, &dots_of, Shape(), 2);
            }
        }
    };
}    // namespace sim
