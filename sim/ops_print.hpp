// Printing and hashing: the text names the value, on whatever stream, and a stream that fails half-way says so.
#pragma once
#include "ops_nt.hpp"
#include <nil/crypto3/algebra/algorithms/pair.hpp>
#include <ostream>
#include <streambuf>
#include <unordered_set>

namespace sim {
    // Where the text goes: room for so many characters (spaces not counted), may fail at any write, lets others run.
    struct Sink : std::streambuf {
        std::string text;
        long room;
        std::exception_ptr err;
        HARNESS explicit Sink(long room_) : room(room_) {
        }
        HARNESS bool one(char c) {
            if (c == ' ' || c == '\n' || c == '\t')
                return true;
            if (room >= 0 && long(text.size()) >= room)
                return false;
            text += c;
            return true;
        }
        HARNESS void hook() {
            yield_here();
            try {
                fault_point(F_STREAM);
            } catch (...) {
                err = std::current_exception();
                throw;
            }
        }
        HARNESS int_type overflow(int_type c) override {
            hook();
            Quiet q;
            return one(char(c)) ? c : traits_type::eof();
        }
        HARNESS std::streamsize xsputn(const char *s, std::streamsize n) override {
            hook();
            Quiet q;
            for (std::streamsize i = 0; i < n; ++i)
                if (!one(s[i]))
                    return i;
            return n;
        }
        HARNESS int sync() override {
            hook();
            Quiet q;
            return 0;
        }
    };
    struct Style {
        bool hex, loud;
        long room;
    };
    template<>
    struct Codec<Style> {
        HARNESS static FW flat(const Style &s) {
            return fw(W {s.hex, s.loud, uint64_t(s.room)});
        }
    };
    struct Seen {
        W w;    // did the stream fail, did it keep its settings, then the text
    };
    template<>
    struct Codec<Seen> {
        HARNESS static FW flat(const Seen &s) {
            return fw(s.w);
        }
    };
    HARNESS inline void pack(W &w, const std::string &t) {
        w.push_back(t.size());
        for (std::size_t i = 0; i < t.size(); ++i) {
            if (i % 8 == 0)
                w.push_back(0);
            w.back() |= uint64_t(uint8_t(t[i])) << 8 * (i % 8);
        }
    }
    HARNESS inline Style style(Rng &r, std::size_t chars) {
        Style s;
        s.hex = r.below(3) == 0;
        s.loud = r.below(3) == 0;
        s.room = r.below(4) ? -1 : long(r.below(chars));
        return s;
    }
    // ---- the expected text
    template<typename E>
    HARNESS std::string elem_text(const uint64_t *&p, bool hex) {
        if constexpr (has_under<E>::value) {
            std::string s = "[";
            const std::size_t n = std::tuple_size<typename E::data_type>::value;
            for (std::size_t i = 0; i < n; ++i)
                s += (i ? "," : "") + elem_text<typename E::underlying_type>(p, hex);
            return s + "]";
        } else {
            p += LW;
            return ntm::digits(p - LW, hex);
        }
    }
    // ---- what is printed
    template<typename E>
    struct Shown {    // a field element
        E v;
        HARNESS void words(W &w) const {
            put_words(v, w);
        }
        HARNESS static std::string text(const uint64_t *&p, bool hex) {
            return elem_text<E>(p, hex);
        }
    };
    template<typename P>
    struct ShownPoint {
        P v;
        using E = typename P::field_type::value_type;
        HARNESS void words(W &w) const {
            put_words(v.X, w);
            put_words(v.Y, w);
            if constexpr (has_T<P>::value)
                put_words(v.T, w);
            if constexpr (has_Z<P>::value)
                put_words(v.Z, w);
        }
        HARNESS static std::string text(const uint64_t *&p, bool hex) {
            std::string s = "{\"X\":" + elem_text<E>(p, hex);
            s += ",\"Y\":" + elem_text<E>(p, hex);
            if constexpr (has_T<P>::value)
                s += ",\"T\":" + elem_text<E>(p, hex);
            if constexpr (has_Z<P>::value)
                s += ",\"Z\":" + elem_text<E>(p, hex);
            return s + "}";
        }
    };
    template<typename V, typename = void>
    struct is_mnt1 : std::false_type { };
    template<typename V>
    struct is_mnt1<V, decltype((void)std::declval<V &>().PX_twist)> : std::true_type { };
    template<typename V, typename = void>
    struct is_mnt2 : std::false_type { };
    template<typename V>
    struct is_mnt2<V, decltype((void)std::declval<V &>().dbl_coeffs)> : std::true_type { };
    template<typename V, typename E1, typename E2>
    struct ShownPre1 {
        V v;
        HARNESS void words(W &w) const {
            put_words(v.PX, w);
            put_words(v.PY, w);
            if constexpr (is_mnt1<V>::value) {
                put_words(v.PX_twist, w);
                put_words(v.PY_twist, w);
            }
        }
        HARNESS static std::string text(const uint64_t *&p, bool hex) {
            std::string s = "{\"PX\":" + elem_text<E1>(p, hex);
            s += ",\"PY\":" + elem_text<E1>(p, hex);
            if constexpr (is_mnt1<V>::value) {
                s += ",\"PX_twist\":" + elem_text<E2>(p, hex);
                s += ",\"PY_twist\":" + elem_text<E2>(p, hex);
            }
            return s + "}";
        }
    };
    template<typename V, typename E>
    struct ShownPre2 {
        V v;
        HARNESS void words(W &w) const {
            put_words(v.QX, w);
            put_words(v.QY, w);
            if constexpr (is_mnt2<V>::value) {
                put_words(v.QY2, w);
                put_words(v.QX_over_twist, w);
                put_words(v.QY_over_twist, w);
                w.push_back(v.dbl_coeffs.size());
                for (auto &c : v.dbl_coeffs)
                    for (auto *x : {&c.c_H, &c.c_4C, &c.c_J, &c.c_L})
                        put_words(*x, w);
                w.push_back(v.add_coeffs.size());
                for (auto &c : v.add_coeffs)
                    for (auto *x : {&c.c_L1, &c.c_RZ})
                        put_words(*x, w);
            } else {
                w.push_back(v.coeffs.size());
                for (auto &c : v.coeffs)
                    for (auto *x : {&c.ell_0, &c.ell_VW, &c.ell_VV})
                        put_words(*x, w);
            }
        }
        HARNESS static std::string list(const uint64_t *&p, bool hex, int each) {
            std::string s = "[";
            for (uint64_t n = *p++, i = 0; i < n; ++i) {
                s += i ? ",[" : "[";
                for (int k = 0; k < each; ++k)
                    s += (k ? "," : "") + elem_text<E>(p, hex);
                s += "]";
            }
            return s + "]";
        }
        HARNESS static std::string text(const uint64_t *&p, bool hex) {
            std::string s = "{\"QX\":" + elem_text<E>(p, hex);
            s += ",\"QY\":" + elem_text<E>(p, hex);
            if constexpr (is_mnt2<V>::value) {
                s += ",\"QY2\":" + elem_text<E>(p, hex);
                s += ",\"QX_over_twist\":" + elem_text<E>(p, hex);
                s += ",\"QY_over_twist\":" + elem_text<E>(p, hex);
                s += ",\"dbl_coeffs\":" + list(p, hex, 4);
                s += ",\"add_coeffs\":" + list(p, hex, 2);
            } else
                s += ",\"coeffs\":" + list(p, hex, 3);
            return s + "}";
        }
        HARNESS static V make(const std::function<E()> &e, Rng &r) {
            V v;
            v.QX = e();
            v.QY = e();
            if constexpr (is_mnt2<V>::value) {
                v.QY2 = e();
                v.QX_over_twist = e();
                v.QY_over_twist = e();
                for (uint64_t n = r.below(4); n--;)
                    v.dbl_coeffs.push_back({e(), e(), e(), e()});
                for (uint64_t n = r.below(4); n--;)
                    v.add_coeffs.push_back({e(), e()});
            } else
                for (uint64_t n = r.below(5); n--;) {
                    typename V::coeffs_type c;
                    c.ell_0 = e();
                    c.ell_VW = e();
                    c.ell_VV = e();
                    v.coeffs.push_back(c);
                }
            return v;
        }
    };
#define SIM_SHOWN(head, name)                                  \
    template<head>                                             \
    struct Codec<name> {                                       \
        HARNESS static FW flat(const name &a) {                \
            W w;                                               \
            a.words(w);                                        \
            return fw(w);                                      \
        }                                                      \
    };
#define SIM_COMMA ,
    SIM_SHOWN(typename E, Shown<E>)
    SIM_SHOWN(typename P, ShownPoint<P>)
    SIM_SHOWN(typename V SIM_COMMA typename E1 SIM_COMMA typename E2, ShownPre1<V SIM_COMMA E1 SIM_COMMA E2>)
    SIM_SHOWN(typename V SIM_COMMA typename E, ShownPre2<V SIM_COMMA E>)
#undef SIM_SHOWN
#undef SIM_COMMA
    template<typename T>
    HARNESS std::string both(const T *, const uint64_t *a, const uint64_t *b, bool hex) {
        std::string s = T::text(a, hex);
        return s + ";" + T::text(b, hex);
    }
    // Two values one after the other on one stream.
    template<typename T>
    Seen print(const T &a, const T &b, const Style &st) {
        Sink sink(st.room);
        std::ostream os(&sink);
        if (st.hex)
            os << std::hex;
        if (st.loud)
            os.exceptions(std::ios::badbit);
        const auto flags = os.flags();
        const auto fill = os.fill();
        const auto prec = os.precision();
        try {
            os << a.v << ";" << b.v;
        } catch (...) {
            if (sink.err || st.room < 0 || !st.loud)
                throw;
        }
        Quiet q;
        trace("text " + sink.text);
        if (sink.err && os.bad()) {
            W x, y;
            a.words(x);
            b.words(y);
            const std::string all = both(&a, x.data(), y.data(), st.hex);
            if (all.compare(0, sink.text.size(), sink.text) == 0)
                std::rethrow_exception(sink.err);
        }
        Seen s;
        s.w.push_back(os.fail());
        s.w.push_back(os.flags() == flags && os.fill() == fill && os.precision() == prec && os.width() == 0);
        pack(s.w, sink.text);
        return s;
    }
    template<typename T>
    HARNESS FW print_ref(const Shape &, const FW &a, const FW &b, const FW &st) {
        std::string s = both<T>(nullptr, a.d.data(), b.d.data(), st.d[0]);
        const long room = long(st.d[2]);
        const bool full = room >= 0 && room < long(s.size());
        if (full)
            s.resize(std::size_t(room));
        W w {full, 1};
        pack(w, s);
        return fw(w);
    }
    template<typename F, int FID, bool Hash = false>
    struct PrintField {
        using E = typename F::value_type;
        using X = Shown<E>;
        HARNESS static X make(Rng &r) {
            return {make_elem<E>(ntm::rnd(FID, r))};
        }
        HARNESS static std::tuple<X, X, Style> gen(Rng &r) {
            X a = make(r);
            return {a, make(r), style(r, 90 * ntm::dim(FID))};
        }
        using Five = std::tuple<X, X, X, X, X>;
        HARNESS static Five five(Rng &r) {    // some of them equal
            X a = make(r), b = make(r), c = make(r);
            X d = r.below(2) ? a : make(r), e = r.below(2) ? b : make(r);
            return Five(a, b, c, d, e);
        }
        HARNESS static W value(const E &e) {
            W w;
            put_words(e, w);
            return w;
        }
        // How many different elements there are, found by hashing elements that came about in different ways.  Values
        // may share a hash, but not all of them.
        static Seen distinct(const X &a, const X &b, const X &c, const X &d, const X &e) {
            std::hash<E> h;
            std::unordered_set<E> s;
            const E one = E::one();
            const E x[] = {a.v,     b.v,             c.v,               d.v,       e.v,
                           -(-e.v), a.v + E::zero(), (b.v + one) - one, d.v * one, c.v - a.v + a.v};
            bool spread = false;
            for (const E &y : x) {
                s.insert(y);
                spread = spread || h(y) != h(x[0]);
            }
            return {W {s.size(), spread || s.size() < 3}};
        }
        HARNESS static FW distinct_ref(const Shape &, const FW &a, const FW &b, const FW &c, const FW &d, const FW &e) {
            std::vector<W> s;
            for (const FW *f : {&a, &b, &c, &d, &e})
                if (std::find(s.begin(), s.end(), f->d) == s.end())
                    s.push_back(f->d);
            return fw(W {s.size(), 1});
        }
        HARNESS static void reg(const std::string &name) {
            add("print " + name, T_STREAM, gen, print<X>, print_ref<X>, Shape(), 2);
            if constexpr (Hash)
                add("hash " + name, T_STREAM, five, distinct, distinct_ref);
        }
    };
    template<typename P, int CID>
    struct PrintPoint {
        using X = ShownPoint<P>;
        HARNESS static X make(Rng &r) {
            return {Stored<P, CID>::put(ntm::crnd(CID, r), r, r.below(2))};
        }
        HARNESS static std::tuple<X, X, Style> gen(Rng &r) {
            X a = make(r);
            return {a, make(r), style(r, 600)};
        }
        HARNESS static void reg(const std::string &name) {
            add("print point " + name, T_STREAM, gen, print<X>, print_ref<X>, Shape(), 2);
        }
    };
    template<typename C, int F1, int F2>
    struct PrintPre {
        using Policy = nil::crypto3::algebra::pairing::pairing_policy<C>;
        using E1 = typename C::base_field_type::value_type;
        using E2 = typename C::template g2_type<>::field_type::value_type;
        using V1 = typename Policy::g1_precomputed_type;
        using V2 = typename Policy::g2_precomputed_type;
        using X1 = ShownPre1<V1, E1, E2>;
        using X2 = ShownPre2<V2, E2>;
        HARNESS static X1 make1(Rng &r) {
            X1 x;
            x.v.PX = make_elem<E1>(ntm::rnd(F1, r));
            x.v.PY = make_elem<E1>(ntm::rnd(F1, r));
            if constexpr (is_mnt1<V1>::value) {
                x.v.PX_twist = make_elem<E2>(ntm::rnd(F2, r));
                x.v.PY_twist = make_elem<E2>(ntm::rnd(F2, r));
            }
            return x;
        }
        HARNESS static X2 make2(Rng &r) {
            return {X2::make([&] { return make_elem<E2>(ntm::rnd(F2, r)); }, r)};
        }
        HARNESS static std::tuple<X1, X1, Style> gen1(Rng &r) {
            X1 a = make1(r);
            return {a, make1(r), style(r, 1000)};
        }
        HARNESS static std::tuple<X2, X2, Style> gen2(Rng &r) {
            X2 a = make2(r);
            return {a, make2(r), style(r, 4000)};
        }
        HARNESS static void reg(const std::string &name) {
            add("print precomputed g1 " + name, T_STREAM, gen1, print<X1>, print_ref<X1>, Shape(), 2);
            add("print precomputed g2 " + name, T_STREAM, gen2, print<X2>, print_ref<X2>, Shape(), 2);
        }
    };
}    // namespace sim
