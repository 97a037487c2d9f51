// Encodings: the bytes of field elements and of points of BLS12-381, and what is read back after a faulty transfer.
#pragma once
#include "ops_nt.hpp"
#include <nil/crypto3/algebra/marshalling.hpp>

namespace sim {
    using Bytes = std::vector<uint8_t>;
    // The transfer: bits flip, pieces are lost, zeroed or come from another message, integers stop being reduced.
    struct Wire {
        int kind;
        uint64_t seed;
    };
    HARNESS inline Wire wire(Rng &r) {
        return Wire {int(r.below(2) ? 0 : 1 + r.below(9)), r.next()};
    }
    HARNESS inline W be_int(const uint8_t *b, std::size_t n) {    // big endian; more than the words hold: all ones
        W w(LW, 0);
        for (std::size_t i = 0; i < n; ++i)
            w[(n - 1 - i) / 8] |= uint64_t(b[i]) << (8 * ((n - 1 - i) % 8));
        return w;
    }
    HARNESS inline void be_put(const W &w, uint8_t *b, std::size_t n) {
        for (std::size_t i = 0; i < n; ++i)
            b[i] = uint8_t(w[(n - 1 - i) / 8] >> (8 * ((n - 1 - i) % 8)));
    }
    HARNESS inline W plus_int(const W &a, const W &b) {
        W c(a.size());
        unsigned __int128 t = 0;
        for (std::size_t i = 0; i < a.size(); ++i) {
            t += (unsigned __int128)a[i] + b[i];
            c[i] = uint64_t(t);
            t >>= 64;
        }
        return c;
    }
    HARNESS inline Bytes shake(const Wire &w, Bytes b, const Bytes &other, std::size_t unit, bool big, const W &p,
                               bool resize) {
        Rng r(w.seed);
        switch (w.kind) {
            case 0:
                return b;
            case 1:
                for (int i = 1 + int(r.below(3)); i > 0; --i)
                    b[r.below(b.size())] ^= uint8_t(1u << r.below(8));
                break;
            case 2:
                b[big ? 0 : unit - 1] ^= uint8_t((1 + r.below(7)) << 5);
                break;
            case 3: {    // the same residue, not reduced; only if it still fits
                std::size_t at = r.below(b.size() / unit) * unit;
                Bytes u(b.begin() + long(at), b.begin() + long(at + unit));
                if (!big)
                    std::reverse(u.begin(), u.end());
                uint8_t flags = big && at == 0 ? u[0] & 0xe0 : 0;
                u[0] ^= flags;
                W v = plus_int(be_int(u.data(), unit), p);
                be_put(v, u.data(), unit);
                if (be_int(u.data(), unit) != v || (big && at == 0 && (u[0] & 0xe0)))
                    break;
                u[0] |= flags;
                if (!big)
                    std::reverse(u.begin(), u.end());
                std::copy(u.begin(), u.end(), b.begin() + long(at));
                break;
            }
            case 4: {    // a piece is zeroed
                std::size_t at = r.below(b.size()), n = 1 + r.below(16);
                for (std::size_t i = at; i < b.size() && i < at + n; ++i)
                    b[i] = 0;
                break;
            }
            case 5: {    // torn: the rest is another message
                std::size_t at = r.below(b.size());
                std::copy(other.begin() + long(at), other.end(), b.begin() + long(at));
                break;
            }
            case 6:    // noise behind intact flags
                for (std::size_t i = 1; i < b.size(); ++i)
                    b[i] = uint8_t(r.next());
                break;
            case 7: {    // all noise, or all ones
                bool ones = r.below(3) == 0;
                for (auto &x : b)
                    x = ones ? 0xff : uint8_t(r.next());
                break;
            }
            case 8:    // the mark of infinity, with or without something behind it
                std::fill(b.begin(), b.end(), uint8_t(0));
                b[0] = uint8_t((big ? (b.size() == 2 * unit || b.size() == unit ? 0xc0 : 0x40) : 0));
                if (r.below(4))
                    b[r.below(b.size())] |= uint8_t(1u << r.below(8));
                break;
            default:
                if (!resize)
                    break;
                if (r.below(2))
                    b.resize(r.below(b.size()));
                else
                    b.resize(b.size() + 1 + r.below(unit), uint8_t(r.next()));
        }
        note(w.kind ? "transfer corrupted" : "transfer intact");
        return b;
    }
    struct Words {
        W w;
    };
    template<>
    struct Codec<Words> {
        HARNESS static FW flat(const Words &a) {
            return fw(a.w);
        }
    };
    struct Read {
        int verdict = 0;    // 0: not an encoding, 1: an encoding, 2: off the subgroup, so either answer will do
        W v;
    };

    // ---------------------------------------------------------------- field elements, least significant byte first
    template<typename F, int FID>
    struct FieldBytes {
        using E = typename F::value_type;
        using Cod = nil::marshalling::bincode::field<F>;
        HARNESS static std::size_t unit() {
            W p = ntm::order(FID);
            std::size_t n = LW * 8;
            while (!(p[(n - 1) / 8] >> (8 * ((n - 1) % 8)) & 0xff))
                --n;
            return n;
        }
        HARNESS static Bytes model(const W &w) {
            const std::size_t u = unit();
            Bytes b(u * ntm::dim(FID));
            for (std::size_t k = 0; k < ntm::dim(FID); ++k)
                for (std::size_t i = 0; i < u; ++i)
                    b[k * u + i] = uint8_t(w[k * LW + i / 8] >> (8 * (i % 8)));
            return b;
        }
        HARNESS static Read read(const Bytes &b) {
            const std::size_t u = unit();
            Read r;
            if (b.size() != u * ntm::dim(FID))
                return r;
            r.verdict = 1;
            for (std::size_t k = 0; k < ntm::dim(FID); ++k) {
                Bytes c(b.begin() + long(k * u), b.begin() + long((k + 1) * u));
                std::reverse(c.begin(), c.end());
                W w = be_int(c.data(), u);
                if (!ntm::less(w, ntm::order(FID)))
                    return Read();
                r.v.insert(r.v.end(), w.begin(), w.end());
            }
            return r;
        }
        HARNESS static W report(const Bytes &sent, const Read &r) {
            W w(sent.begin(), sent.end());
            w.push_back(uint64_t(r.verdict));
            w.insert(w.end(), r.v.begin(), r.v.end());
            return w;
        }
        HARNESS static std::tuple<El<F>, uint64_t, uint64_t> operand(Rng &r) {
            Wire w = wire(r);
            W e = ntm::rnd(FID, r);
            if (r.below(4) == 0)
                e = ntm::small(FID, r.below(300));
            return {El<F> {make_elem<E>(e)}, uint64_t(w.kind), w.seed};
        }
        static Words send(const El<F> &e, const uint64_t &kind, const uint64_t &seed) {
            Bytes sent, got;
            std::size_t n = Cod::get_element_size();
            {
                Quiet q;
                sent.assign(n, uint8_t(seed));    // whatever was in the buffer before
            }
            std::size_t m = Cod::field_element_to_bytes(e.v, sent.begin(), sent.end());
            yield_here();
            {
                Quiet q;
                W other = ntm::small(FID, seed >> 32);
                got = n == m && n == model(other).size() ?
                          shake(Wire {int(kind), seed}, sent, model(other), unit(), false, ntm::order(FID), true) :
                          Bytes();
            }
            std::pair<bool, E> back;
            try {
                back = Cod::field_element_from_bytes(got.begin(), got.end());
            } catch (const std::exception &) {
                back.first = false;
            }
            Quiet q;
            Read r;
            if (back.first) {
                r.verdict = 1;
                put_words(back.second, r.v);
            }
            return Words {report(sent, r)};
        }
        HARNESS static FW send_of(const Shape &, const FW &e, const FW &kind, const FW &seed) {
            Bytes sent = model(e.d);
            Bytes got = shake(Wire {int(kind.d[0]), seed.d[0]}, sent, model(ntm::small(FID, seed.d[0] >> 32)), unit(),
                              false, ntm::order(FID), true);
            return fw(report(sent, read(got)));
        }
        HARNESS static void reg(const std::string &name) {
            add("element over the wire " + name, T_MARSHAL, &operand, &send, &send_of, Shape(), 2);
        }
    };

    // ---------------------------------------------------------------- points, most significant byte first
    template<typename G, int CID>
    struct PointBytes {
        using P = typename G::value_type;
        using C = nil::crypto3::algebra::curves::bls12<381>;
        using Ser = nil::marshalling::curve_element_serializer<C>;
        using Cur = nil::marshalling::bincode::curve<C>;
        static constexpr bool second = CID == ntm::BLS381_G2;
        static constexpr std::size_t U = 48, D = second ? 2 : 1;
        // a square root, or nothing
        HARNESS static bool root1(const W &a, W &s) {
            W e = ntm::order(ntm::BLS381_P);    // p is 3 modulo 4
            for (std::size_t i = 0; i < LW; ++i)
                e[i] = (e[i] >> 2) | (i + 1 < LW ? e[i + 1] << 62 : 0);
            W one(LW, 0);
            one[0] = 1;
            s = ntm::pow(ntm::BLS381_P, a, plus_int(e, one));
            return ntm::mul(ntm::BLS381_P, s, s) == a;
        }
        HARNESS static bool root(const W &a, W &s) {
            if (!second)
                return root1(a, s);
            const int f = ntm::BLS381_P;
            W a0(a.begin(), a.begin() + long(LW)), a1(a.begin() + long(LW), a.end()), n, x, y;
            if (ntm::is_zero(a1)) {
                s.assign(2 * LW, 0);
                if (root1(a0, x)) {
                    std::copy(x.begin(), x.end(), s.begin());
                    return true;
                }
                root1(ntm::neg(f, a0), x);
                std::copy(x.begin(), x.end(), s.begin() + long(LW));
                return true;
            }
            if (!root1(ntm::add(f, ntm::mul(f, a0, a0), ntm::mul(f, a1, a1)), n))
                return false;
            W half = ntm::inv(f, ntm::small(f, 2));
            if (!root1(ntm::mul(f, half, ntm::add(f, a0, n)), x) && !root1(ntm::mul(f, half, ntm::sub(f, a0, n)), x))
                return false;
            y = ntm::mul(f, ntm::mul(f, half, a1), ntm::inv(f, x));
            s = x;
            s.insert(s.end(), y.begin(), y.end());
            return true;
        }
        HARNESS static bool upper(const W &y) {    // above half, looked at from the last coefficient that is not zero
            W h = ntm::order(ntm::BLS381_P);
            for (std::size_t i = 0; i < LW; ++i)
                h[i] = (h[i] >> 1) | (i + 1 < LW ? h[i + 1] << 63 : 0);
            for (std::size_t k = D; k-- > 0;) {
                W c(y.begin() + long(k * LW), y.begin() + long((k + 1) * LW));
                if (!ntm::is_zero(c))
                    return ntm::less(h, c);
            }
            return false;
        }
        HARNESS static void coord(const W &x, uint8_t *b) {
            for (std::size_t k = 0; k < D; ++k)
                be_put(W(x.begin() + long((D - 1 - k) * LW), x.begin() + long((D - k) * LW)), b + k * U, U);
        }
        HARNESS static Bytes model(const W &p, bool comp) {
            Bytes b(U * D * (comp ? 1 : 2), 0);
            if (ntm::inf(p)) {
                b[0] = comp ? 0xc0 : 0x40;
                return b;
            }
            coord(ntm::px(CID, p), b.data());
            if (!comp)
                coord(ntm::py(CID, p), b.data() + U * D);
            else
                b[0] |= uint8_t(0x80 | (upper(ntm::py(CID, p)) ? 0x20 : 0));
            return b;
        }
        HARNESS static bool uncoord(const uint8_t *b, uint8_t flags, W &x) {
            x.assign(D * LW, 0);
            for (std::size_t k = 0; k < D; ++k) {
                uint8_t t[U];
                std::copy(b + k * U, b + (k + 1) * U, t);
                if (!k)
                    t[0] ^= flags;
                W c = be_int(t, U);
                if (!ntm::less(c, ntm::order(ntm::BLS381_P)))
                    return false;
                std::copy(c.begin(), c.end(), x.begin() + long((D - 1 - k) * LW));
            }
            return true;
        }
        HARNESS static Read read(const Bytes &b, bool comp) {
            Read r;
            if (b.size() != U * D * (comp ? 1 : 2))
                return r;
            const uint8_t flags = b[0] & 0xe0;
            if (bool(flags & 0x80) != comp || (!comp && (flags & 0x20)))
                return r;
            if (flags & 0x40) {
                for (std::size_t i = 0; i < b.size(); ++i)
                    if ((i ? b[i] : b[i] & 0x3f))
                        return r;
                r.verdict = 1;
                r.v = ntm::identity(CID);
                return r;
            }
            const int f = ntm::cfield(CID);
            W x, y;
            if (!uncoord(b.data(), flags, x))
                return r;
            if (!comp) {
                if (!uncoord(b.data() + U * D, 0, y) || !ntm::on_curve(CID, x, y))
                    return r;
            } else {
                if (!root(ntm::add(f, ntm::mul(f, x, ntm::mul(f, x, x)), ntm::param(CID, 1)), y))
                    return r;
                if (upper(y) != bool(flags & 0x20))
                    y = ntm::neg(f, y);
            }
            r.v = ntm::point(CID, x, y);
            r.verdict = ntm::inf(ntm::cmul(CID, r.v, ntm::order(ntm::cscalar(CID)))) ? 1 : 2;
            return r;
        }
        HARNESS static W report(const Bytes &sent, const Read &r) {
            W w(sent.begin(), sent.end());
            w.push_back(uint64_t(r.verdict));
            if (r.verdict)
                w.insert(w.end(), r.v.begin(), r.v.end());
            return w;
        }
        HARNESS static W number(const char *h) {
            W w(LW, 0);
            for (; *h; ++h) {
                for (std::size_t i = LW; i-- > 0;)
                    w[i] = (w[i] << 4) | (i ? w[i - 1] >> 60 : 0);
                w[0] |= uint64_t(*h <= '9' ? *h - '0' : *h - 'a' + 10);
            }
            return w;
        }
        // A point of the curve, mostly outside the subgroup, with coordinates that are short or partly zero.
        HARNESS static W unusual(Rng &r) {
            const int f = ntm::cfield(CID);
            W x, y;
            if (second && r.below(2)) {
                static const char *const X[4][2] = {
                    {"9f1477ff0430ca4808b4b98f3ce959fcb5be667df6ef1073e182a4f887fa0f0b7fdd6105d99e027bba24c6b4e932032",
                     "c2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced"},
                    {"6e99ef914eed7209b51759c94a6a109ee476e3ca4db49c3182d8d0edf61d6213002db9a55f4b71c1f3be3a372d96323",
                     "6ed7257d7405e1ed5c54516c836a4f374fb2dffd1b4e3854ebd0a58f5bd48fb9b07ea16a89d7be9c945a5d6b033a8a5"},
                    {"100fca6a493cd9f5ca905c1d4f7d1737991b651d141621b82918a8516e31553366ae29ee53ba1fd7fe5cb394b16c8a79",
                     "c2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced"},
                    {"1532c181967ab8c2797ba8750783c4bb1b3847aba5de501dcaf77b282d4a62da0f9f8144f714d6192d0f1ae3b1565f81",
                     "1965da46c07d2865d1c48244b513c3b7ea54afdb8b89397fa3a9c7e913a21ac6ab2eb7fd34f42d46ae152bf15d5c9c8f"}};
                const char *const *c = X[r.below(4)];
                x = number(c[0]);
                W hi = number(c[1]);
                x.insert(x.end(), hi.begin(), hi.end());
            } else {
                x = ntm::small(f, r.below(60));
                if (second && r.below(2))
                    std::rotate(x.begin(), x.begin() + long(LW), x.end());
                if (second && r.below(3) == 0)
                    x[0] = r.below(60), x[LW] = r.below(60);
            }
            if (!root(ntm::add(f, ntm::mul(f, x, ntm::mul(f, x, x)), ntm::param(CID, 1)), y))
                return unusual(r);
            return ntm::point(CID, x, r.below(2) ? y : ntm::neg(f, y));
        }
        HARNESS static std::tuple<Raw<P, CID>, uint64_t, uint64_t> operand(Rng &r) {
            Wire w = wire(r);
            W p = r.below(12) == 0 ? ntm::identity(CID) : r.below(6) == 0 ? unusual(r) : ntm::crnd(CID, r);
            return {Raw<P, CID> {Stored<P, CID>::put(p, r, r.below(2))}, uint64_t(w.kind), w.seed};
        }
        template<typename A>
        HARNESS static Bytes change(const A &sent, uint64_t kind, uint64_t seed, bool comp, bool resize) {
            return shake(Wire {int(kind), seed}, Bytes(sent.begin(), sent.end()), model(ntm::generator(CID), comp), U, true,
                         ntm::order(ntm::BLS381_P), resize);
        }
        HARNESS static Words finish(const Bytes &sent, const Bytes &got, bool ok, const P &p, bool comp) {
            Read r, m = read(got, comp);
            if (ok) {
                r.verdict = 1;
                r.v = affine_point<P, CID>(Codec<Raw<P, CID>>::flat(Raw<P, CID> {p}));
            }
            if (m.verdict == 2 && (!ok || r.v == m.v))
                r = m;
            return Words {report(sent, r)};
        }
        template<bool Comp>
        static auto encode(const P &p) {
            if constexpr (Comp)
                return Ser::point_to_octets_compress(p);
            else
                return Ser::point_to_octets(p);
        }
        template<typename R>
        static P decode(const R &b) {
            if constexpr (second)
                return Ser::octets_to_g2_point(b);
            else
                return Ser::octets_to_g1_point(b);
        }
        // Over the wire in the arrays the library names, or (Loose) in a vector that may have lost its end.
        template<bool Comp, bool Loose>
        static Words send(const Raw<P, CID> &p, const uint64_t &kind, const uint64_t &seed) {
            auto a = encode<Comp>(p.p);
            yield_here();
            Bytes sent, got;
            {
                Quiet q;
                sent.assign(a.begin(), a.end());
                got = change(sent, kind, seed, Comp, Loose);
            }
            P back;
            bool ok = true;
            try {
                if constexpr (Loose) {
                    back = decode(got);
                } else {
                    std::copy(got.begin(), got.end(), a.begin());
                    back = decode(a);
                }
            } catch (const std::exception &) {
                ok = false;
            }
            Quiet q;
            return finish(sent, got, ok, back, Comp);
        }
        // The same through the iterator interface.
        static Words pass(const Raw<P, CID> &p, const uint64_t &kind, const uint64_t &seed) {
            Bytes sent, got;
            std::size_t n = Cur::template element_size<G>();
            {
                Quiet q;
                sent.assign(n, uint8_t(seed));
            }
            std::size_t m = Cur::template point_to_bytes<G>(p.p, sent.begin(), sent.end());
            yield_here();
            {
                Quiet q;
                got = n == m && n == U * D ? change(sent, kind, seed, true, true) : Bytes();
            }
            P back;
            bool ok = true;
            try {
                if constexpr (second)
                    back = Cur::g2_point_from_bytes(got.begin(), got.end());
                else
                    back = Cur::g1_point_from_bytes(got.begin(), got.end());
            } catch (const std::exception &) {
                ok = false;
            }
            Quiet q;
            return finish(sent, got, ok, back, true);
        }
        template<bool Comp, bool Resize>
        HARNESS static FW send_of(const Shape &, const FW &p, const FW &kind, const FW &seed) {
            Bytes sent = model(affine_point<P, CID>(p), Comp);
            return fw(report(sent, read(change(sent, kind.d[0], seed.d[0], Comp, Resize), Comp)));
        }
        HARNESS static void reg(const std::string &name) {
            add("compressed point over the wire " + name, T_MARSHAL, &operand, &send<true, false>, &send_of<true, false>,
                Shape(), 2);
            add("point over the wire " + name, T_MARSHAL, &operand, &send<false, false>, &send_of<false, false>, Shape(),
                2);
            add("compressed point over a loose wire " + name, T_MARSHAL, &operand, &send<true, true>, &send_of<true, true>);
            add("point over a loose wire " + name, T_MARSHAL, &operand, &send<false, true>, &send_of<false, true>);
            add("point passed by iterators " + name, T_MARSHAL, &operand, &pass, &send_of<true, true>);
        }
    };
}    // namespace sim
