// How one call is described: operand generator, the library call, and an independent model.
#pragma once
#include "scalars.hpp"
#define HARNESS __attribute__((disable_sanitizer_instrumentation))
#include <cstring>
#include <optional>
#include <tuple>
#include <type_traits>

#include <nil/crypto3/algebra/vector/vector.hpp>
#include <nil/crypto3/algebra/vector/utility.hpp>
#include <nil/crypto3/algebra/vector/operators.hpp>
#include <nil/crypto3/algebra/vector/math.hpp>
#include <nil/crypto3/algebra/matrix/matrix.hpp>
#include <nil/crypto3/algebra/matrix/utility.hpp>
#include <nil/crypto3/algebra/matrix/operators.hpp>
#include <nil/crypto3/algebra/matrix/math.hpp>
#include <nil/crypto3/algebra/scalar/math.hpp>

namespace sim {
    namespace alg = nil::crypto3::algebra;

    template<typename T>
    struct plain {
        using type = T;
    };
    template<>
    struct plain<Heap> {
        using type = double;
    };
    template<typename T>
    using plain_t = typename plain<T>::type;
    inline double plain_of(const Heap &h) {
        return h.get();
    }
    template<typename T>
    T plain_of(const T &t) {
        return t;
    }

    // The model's value: a plain row-major table, or a refusal.
    template<typename T>
    struct Flat {
        std::size_t r = 1, c = 1;
        std::vector<T> d;
        bool raise = false;
        Flat() {
        }
        Flat(std::size_t r_, std::size_t c_) : r(r_), c(c_), d(r_ * c_) {
        }
        T &operator()(std::size_t i, std::size_t j) {
            return d[i * c + j];
        }
        const T &operator()(std::size_t i, std::size_t j) const {
            return d[i * c + j];
        }
        T &operator()(std::size_t i) {
            return d[i];
        }
        const T &operator()(std::size_t i) const {
            return d[i];
        }
        std::size_t n() const {
            return d.size();
        }
    };
    template<typename T>
    Flat<T> refuse() {
        Flat<T> f;
        f.raise = true;
        return f;
    }
    template<typename T>
    Flat<T> one(T v) {
        Flat<T> f(1, 1);
        f.d[0] = v;
        return f;
    }

    inline Flat<unsigned char> one(bool v) {
        Flat<unsigned char> f(1, 1);
        f.d[0] = v;
        return f;
    }

    template<typename X>
    struct Codec {    // scalars
        static auto flat(const X &x) {
            return one(plain_of(x));
        }
    };
    template<typename T, std::size_t N>
    struct Codec<alg::vector<T, N>> {
        static auto flat(const alg::vector<T, N> &v) {
            Flat<plain_t<T>> f(N, 1);
            for (std::size_t i = 0; i < N; ++i)
                f.d[i] = plain_of(v[i]);
            return f;
        }
    };
    template<typename T, std::size_t N, std::size_t M>
    struct Codec<alg::matrix<T, N, M>> {
        static auto flat(const alg::matrix<T, N, M> &m) {
            Flat<plain_t<T>> f(N, M);
            for (std::size_t i = 0; i < N; ++i)
                for (std::size_t j = 0; j < M; ++j)
                    f.d[i * M + j] = plain_of(m[i][j]);
            return f;
        }
    };
    template<typename X>
    auto flat(const X &x) {
        return Codec<X>::flat(x);
    }

    // ---- type-erased value: everything that is not a template lives in opkit.cpp
    enum ElemKind : unsigned char { K_I32, K_U32, K_U64, K_U8, K_F64, K_F32, K_C128, K_ZP, K_I64 };
    template<typename T>
    struct Kind;
#define SIM_KIND(T, k)                      \
    template<>                              \
    struct Kind<T> {                        \
        static constexpr ElemKind value = k; \
    };
    SIM_KIND(int, K_I32)
    SIM_KIND(unsigned, K_U32)
    SIM_KIND(uint64_t, K_U64)
    SIM_KIND(long long, K_I64)
    SIM_KIND(unsigned char, K_U8)
    SIM_KIND(double, K_F64)
    SIM_KIND(float, K_F32)
    SIM_KIND(std::complex<double>, K_C128)
    SIM_KIND(Zp, K_ZP)
#undef SIM_KIND
    struct Val {
        ElemKind kind = K_U8;
        bool raise = false;
        double tol = 0;    // 0: the default for the element type
        std::size_t r = 1, c = 1;
        std::string bytes;
        void set(ElemKind k, bool rs, std::size_t rr, std::size_t cc, const void *p, std::size_t n);
    };
    bool same(const Val &a, const Val &b);
    std::string show(const Val &v);
    template<typename T>
    void erase(Val &v, const Flat<T> &f) {
        v.set(Kind<T>::value, f.raise, f.r, f.c, f.d.data(), f.d.size() * sizeof(T));
    }
    struct Shape {
        std::size_t a = 0, b = 0;
        double tol = 0;
    };
    // Non-template half of a bundle: runs the call, checks the answer, operands and accounting.
    struct BundleBase : Bundle {
        const std::string *name = nullptr;
        uint64_t seed = 0;
        Val expected;
        std::string snap;
        virtual void invoke(Val &out) = 0;           // calls the library; op scope inside
        virtual void regenerate(uint64_t sd) = 0;    // operands and expected
        virtual void image(std::string &out) = 0;    // exact value of all operands
        Outcome exec(bool fault_allowed) override;
        bool intact(std::string &why) override;
        bool expects_raise() const override {
            return expected.raise;
        }
        void renew(uint64_t sd) override;
        std::string describe() const override;
    };
    template<typename T>
    void append_bits(std::string &s, const Flat<T> &f) {
        s.append(reinterpret_cast<const char *>(f.d.data()), f.d.size() * sizeof(T));
    }
    template<typename X>
    using flat_t = decltype(flat(std::declval<const X &>()));

    template<typename R, typename FR, typename... Args>
    struct OpBundle final : BundleBase {
        using Gen = std::tuple<Args...> (*)(Rng &);
        using CallF = R (*)(const Args &...);
        using RefF = FR (*)(const Shape &, const flat_t<Args> &...);
        Gen gen;
        CallF call;
        RefF ref;
        Shape sh;
        std::tuple<Args...> ops;    // the library sees const references into this tuple
        OpBundle(const std::string *n, Gen g, CallF c, RefF r, Shape s, uint64_t sd, Rng rng) :
            gen(g), call(c), ref(r), sh(s), ops(g(rng)) {
            name = n;
            seed = sd;
            finish(std::index_sequence_for<Args...>());
            image(snap);
            protect(&ops, sizeof ops);
        }
        ~OpBundle() override {
            unprotect(&ops);
        }
        template<std::size_t... I>
        void finish(std::index_sequence<I...>) {
            erase(expected, ref(sh, flat(std::get<I>(ops))...));
            expected.tol = sh.tol;
        }
        template<std::size_t... I>
        R do_call(std::index_sequence<I...>) {
            return call(std::get<I>(ops)...);
        }
        template<std::size_t... I>
        void do_image(std::string &s, std::index_sequence<I...>) {
            (void)std::initializer_list<int> {(append_bits(s, flat(std::get<I>(ops))), 0)...};
        }
        void invoke(Val &out) override {
            op_enter();
            R res = do_call(std::index_sequence_for<Args...>());
            op_leave();
            erase(out, flat(res));
        }
        void regenerate(uint64_t sd) override {
            Rng r(sd);
            ops = gen(r);
            finish(std::index_sequence_for<Args...>());
        }
        void image(std::string &out) override {
            out.clear();
            do_image(out, std::index_sequence_for<Args...>());
        }
    };

    void add_op(const std::string &name, unsigned tags, int weight,
                std::function<std::unique_ptr<Bundle>(const std::string *, uint64_t)> make);

    // Registers one op.  gen(Rng&) -> std::tuple of operands; call(const operands&...) -> result;
    // ref(Shape, Flat...) -> Flat of the expected result.
    template<typename R, typename FR, typename... Args>
    void add(const std::string &name, unsigned tags, std::tuple<Args...> (*gen)(Rng &), R (*call)(const Args &...),
             FR (*ref)(const Shape &, const flat_t<Args> &...), Shape sh = Shape(), int weight = 1) {
        add_op(name, tags, weight, [=](const std::string *nm, uint64_t seed) {
            return std::unique_ptr<Bundle>(
                new OpBundle<R, FR, Args...>(nm, gen, call, ref, sh, seed, Rng(seed)));
        });
    }

    // ---- operand generators.  Small dyadic values keep floating point exact; ties, zeros,
    // negatives and repeated rows are frequent.
    template<typename T>
    struct Gen1 {
        static T val(Rng &r) {
            return T(r.range(-9, 9));
        }
    };
    double wild_double(Rng &r);
    template<>
    struct Gen1<double> {
        static double val(Rng &r) {
            if (wild_values && r.below(5) == 0)
                return wild_double(r);
            double d = r.range(-36, 36) / 4.0;
            return r.below(4) ? d : d + double(r.next() >> 11) / 9007199254740992.0;    // all digits in use
        }
    };
    template<>
    struct Gen1<float> {
        static float val(Rng &r) {
            if (wild_values && r.below(5) == 0)
                return float(wild_double(r));
            float d = float(r.range(-36, 36)) / 4.0f;
            return r.below(4) ? d : d + float(r.next() >> 40) / 16777216.0f;
        }
    };
    template<>
    struct Gen1<Heap> {
        static Heap val(Rng &r) {
            return Heap(Gen1<double>::val(r));
        }
    };
    template<>
    struct Gen1<unsigned> {
        static unsigned val(Rng &r) {
            return r.below(4) ? unsigned(r.below(20)) : unsigned(r.next());
        }
    };
    template<>
    struct Gen1<uint64_t> {
        static uint64_t val(Rng &r) {
            return r.below(4) ? r.below(20) : r.next();
        }
    };
    template<>
    struct Gen1<long long> {
        static long long val(Rng &r) {
            return r.below(4) ? r.range(-9, 9) : (long long)(int(r.next() >> 33)) * (r.below(2) ? 1 : -1);
        }
    };
    template<>
    struct Gen1<Zp> {
        static Zp val(Rng &r) {
            return r.below(2) ? Zp(r.range(-9, 9)) : Zp(r.next());
        }
    };
    template<typename R>
    struct Gen1<std::complex<R>> {
        static std::complex<R> val(Rng &r) {
            return {Gen1<R>::val(r), Gen1<R>::val(r)};
        }
    };
    template<typename T>
    T rnd(Rng &r) {
        return Gen1<T>::val(r);
    }
    template<typename T>
    bool is0(const T &v) {
        return plain_of(v) == plain_t<T>(0);
    }
    template<typename T>
    T rnd_nz(Rng &r) {
        for (;;) {
            T v = rnd<T>(r);
            if (!is0(v))
                return v;
        }
    }
    template<typename T, std::size_t N>
    alg::vector<T, N> rvec(Rng &r, bool nz = false) {
        alg::vector<T, N> v = {};
        for (std::size_t i = 0; i < N; ++i)
            v[i] = nz ? rnd_nz<T>(r) : rnd<T>(r);
        return v;
    }
    template<typename T, std::size_t N, std::size_t M>
    alg::matrix<T, N, M> rmat(Rng &r, bool nz = false) {
        alg::matrix<T, N, M> m = {};
        for (std::size_t i = 0; i < N; ++i)
            for (std::size_t j = 0; j < M; ++j)
                m[i][j] = nz ? rnd_nz<T>(r) : rnd<T>(r);
        return m;
    }

    template<typename T>
    const char *tname();
    template<>
    inline const char *tname<int>() {
        return "int";
    }
    template<>
    inline const char *tname<unsigned>() {
        return "u32";
    }
    template<>
    inline const char *tname<uint64_t>() {
        return "u64";
    }
    template<>
    inline const char *tname<long long>() {
        return "i64";
    }
    template<>
    inline const char *tname<double>() {
        return "double";
    }
    template<>
    inline const char *tname<float>() {
        return "float";
    }
    template<>
    inline const char *tname<std::complex<double>>() {
        return "cplx";
    }
    template<>
    inline const char *tname<Zp>() {
        return "Zp";
    }
    template<>
    inline const char *tname<Heap>() {
        return "Heap";
    }
    template<typename T>
    constexpr unsigned ttag() {
        return std::is_same<T, Heap>::value ? T_THROWING : 0u;
    }
    inline std::string dims(std::size_t a) {
        return std::to_string(a);
    }
    inline std::string dims(std::size_t a, std::size_t b) {
        return std::to_string(a) + "x" + std::to_string(b);
    }
}    // namespace sim
