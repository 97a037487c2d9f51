// Functions that call back into user code.
#pragma once
#include "ops_mat.hpp"

namespace sim {
    // One record per call, on the caller's stack.
    struct CbLog {
        static constexpr int CAP = 1200;
        int total = 0, want = 0;
        bool nested = false;
        void (*again)() = nullptr;    // makes the same call on other operands
        int again_left = 0;
        uint8_t seen[CAP] = {};
        HARNESS void hit(long i) {
            if (i < 0 || i >= want)
                violation("callback-arguments", "a callback was called with arguments that are no element (or index) of the operands");
            if (seen[i]++)
                violation("callback-count", "a callback was called more than once for the same element");
            total++;
        }
        HARNESS void done() {
            Quiet q;
            if (total != want)
                violation("callback-count", "a callback was called for " + std::to_string(total) + " of " +
                                                std::to_string(want) + " elements");
        }
    };
    // What every callback does before it computes: it may fail, let others run, or use the library.
    template<typename T>
    HARNESS void cb_enter(CbLog *log, const T &x) {
        fault_point(F_CALLBACK);
        yield_here();
        if (log->again && log->again_left > 0) {
            --log->again_left;
            log->again();
            note("callback_repeats_the_same_call");
        }
        if (log->nested) {
            auto v = alg::fill<3>(x);
            auto w = alg::elementwise([](T a, T b) { return a + b; }, v, v);
            T s = alg::sum(alg::rotate(w, 1));
            Quiet q;
            if (!(plain_of(s) == plain_t<T>(plain_of(x) * plain_t<T>(6))))
                violation("wrong-value", "a library call made from inside a callback gave a wrong answer");
            note("callback_reenters_library");
        }
    }
    template<typename T>
    HARNESS long decode(const T &x, const T &salt) {
        auto d = plain_of(x), s = plain_of(salt);
        for (long i = 0; i < CbLog::CAP; ++i)
            if (plain_t<T>(s + plain_t<T>(int(7 * i))) == d)
                return i;
        return -1;
    }

    template<typename T, std::size_t N>
    struct CG {
        using V = alg::vector<T, N>;
        HARNESS static T salt(Rng &r) {
            return T(int(r.below(1000)));
        }
        HARNESS static V coded(const T &s, int plus) {
            V v = {};
            for (std::size_t i = 0; i < N; ++i)
                v[i] = s + T(int(7 * i) + plus);
            return v;
        }
        HARNESS static std::tuple<V, T, int> v1(Rng &r) {
            T s = salt(r);
            return {coded(s, 0), s, int(r.below(6))};
        }
        HARNESS static std::tuple<V, V, T, int> v2(Rng &r) {
            T s = salt(r);
            return {coded(s, 0), coded(s, 1), s, int(r.below(6))};
        }
        HARNESS static std::tuple<V, V, V, T, int> v3(Rng &r) {
            T s = salt(r);
            return {coded(s, 0), coded(s, 1), coded(s, 2), s, int(r.below(6))};
        }
    };
    template<typename T, std::size_t R, std::size_t C>
    struct CMG {
        using Mt = alg::matrix<T, R, C>;
        HARNESS static Mt coded(const T &s, int plus) {
            Mt m = {};
            for (std::size_t i = 0; i < R; ++i)
                for (std::size_t j = 0; j < C; ++j)
                    m[i][j] = s + T(int(7 * (i * C + j)) + plus);
            return m;
        }
        HARNESS static std::tuple<Mt, T, int> m1(Rng &r) {
            T s = CG<T, R>::salt(r);
            return {coded(s, 0), s, int(r.below(6))};
        }
        HARNESS static std::tuple<Mt, Mt, T, int> m2(Rng &r) {
            T s = CG<T, R>::salt(r);
            return {coded(s, 0), coded(s, 1), s, int(r.below(6))};
        }
        HARNESS static std::tuple<Mt, Mt, Mt, T, int> m3(Rng &r) {
            T s = CG<T, R>::salt(r);
            return {coded(s, 0), coded(s, 1), coded(s, 2), s, int(r.below(6))};
        }
    };
    // Callbacks as named types, so that both named and temporary callables can be passed.
    template<typename T>
    struct Cb1 {
        CbLog *log;
        T salt;
        HARNESS T operator()(const T &x) const {
            cb_enter(log, x);
            {
                Quiet q;
                log->hit(decode(x, salt));
            }
            return x * T(3) + T(1);
        }
    };
    template<typename T>
    struct Cb2 {
        CbLog *log;
        T salt;
        HARNESS T operator()(const T &x, const T &y) const {
            cb_enter(log, x);
            {
                Quiet q;
                long i = decode(x, salt);
                if (i < 0 || decode(y, T(salt + T(1))) != i)
                    violation("callback-arguments", "a callback was called with elements of different positions");
                log->hit(i);
            }
            return x * T(2) - y;
        }
    };
    template<typename T>
    struct Cb3 {
        CbLog *log;
        T salt;
        HARNESS double operator()(const T &x, const T &y, const T &z) const {
            cb_enter(log, x);
            Quiet q;
            long i = decode(x, salt);
            if (i < 0 || decode(y, T(salt + T(1))) != i || decode(z, T(salt + T(2))) != i)
                violation("callback-arguments", "a callback was called with elements of different positions");
            log->hit(i);
            return double(i) * 0.5 + 1;
        }
    };
    template<typename T>
    struct CbFold {
        CbLog *log;
        T salt;
        uint64_t *last;
        HARNESS uint64_t operator()(uint64_t acc, const T &x) const {
            cb_enter(log, x);
            Quiet q;
            if (acc != *last)
                violation("callback-order", "accumulate did not pass the previous result on to the next call");
            long i = decode(x, salt);
            if (i != log->total)
                violation("callback-order", "accumulate visited the elements out of order");
            log->hit(i);
            return *last = acc * 31 + uint64_t(i) + 7;
        }
    };
    template<typename T>
    struct CbFoldT {    // the accumulator has the element type
        CbLog *log;
        T salt;
        HARNESS T operator()(const T &acc, const T &x) const {
            cb_enter(log, x);
            {
                Quiet q;
                if (decode(x, salt) != log->total)
                    violation("callback-order", "accumulate visited the elements out of order");
                log->hit(decode(x, salt));
            }
            return x - acc;
        }
    };
    template<typename T>
    struct CbIdx {
        CbLog *log;
        T salt;
        HARNESS T operator()(std::size_t i) const {
            cb_enter(log, salt);
            {
                Quiet q;
                log->hit(i > 100000 ? -1 : long(i));
            }
            return salt + T(int(i) * 3);
        }
    };
    template<typename T, std::size_t C>
    struct CbIdx2 {
        CbLog *log;
        T salt;
        HARNESS T operator()(std::size_t i, std::size_t j) const {
            cb_enter(log, salt);
            {
                Quiet q;
                log->hit(i > 1000 || j >= C ? -1 : long(i * C + j));
            }
            return salt + T(int(i) * 3 - int(j));
        }
    };
    HARNESS inline CbLog mklog(std::size_t want, int mode, void (*again)() = nullptr) {
        CbLog l;
        l.want = int(want);
        l.nested = mode == 1;
        if (mode >= 3) {    // the first call, or several, repeat the call
            l.again = again;
            l.again_left = mode == 3 ? 1 : mode == 4 ? 2 : 4;
        }
        return l;
    }
    // Elements that repeat: the callback still has to be called for each of them.
    struct CbBag {
        static constexpr int CAP = 1200;
        int n = 0;
        double x[CAP], y[CAP];
    };
    template<typename P>
    double num(const P &p) {
        if constexpr (std::is_same<P, Zp>::value)
            return double(p.v);
        else
            return double(p);
    }
    template<typename T>
    struct CbBag1 {
        CbLog *log;
        CbBag *bag;
        HARNESS T operator()(const T &x) const {
            cb_enter(log, x);
            {
                Quiet q;
                if (bag->n == CbBag::CAP)
                    violation("callback-count", "a callback was called far more often than there are elements");
                bag->x[bag->n] = num(plain_of(x));
                bag->y[bag->n++] = 0;
            }
            return x * T(3) + T(1);
        }
    };
    template<typename T>
    struct CbBag2 {
        CbLog *log;
        CbBag *bag;
        HARNESS T operator()(const T &x, const T &y) const {
            cb_enter(log, x);
            {
                Quiet q;
                if (bag->n == CbBag::CAP)
                    violation("callback-count", "a callback was called far more often than there are elements");
                bag->x[bag->n] = num(plain_of(x));
                bag->y[bag->n++] = num(plain_of(y));
            }
            return x * T(2) - y;
        }
    };
    template<typename T>
    struct CbBagFold {
        CbLog *log;
        CbBag *bag;
        HARNESS T operator()(const T &acc, const T &x) const {
            cb_enter(log, x);
            {
                Quiet q;
                if (bag->n == CbBag::CAP)
                    violation("callback-count", "a callback was called far more often than there are elements");
                bag->y[bag->n] = num(plain_of(acc));
                bag->x[bag->n++] = num(plain_of(x));
            }
            return x - acc;
        }
    };
    template<typename P>
    HARNESS void bag_check(const CbBag &bag, const Flat<P> &a, const Flat<P> *b, bool ordered, double init = 0) {
        Quiet q;
        std::vector<std::pair<double, double>> got, want;
        for (int i = 0; i < bag.n; ++i)
            got.push_back({bag.x[i], bag.y[i]});
        P acc = a.d[0];
        for (std::size_t i = 0; i < a.n(); ++i) {
            if (ordered) {
                want.push_back({num(a.d[i]), i ? num(acc) : init});
                acc = i ? P(a.d[i] - acc) : P(a.d[i] - P((long long)(init)));
            } else
                want.push_back({num(a.d[i]), b ? num(b->d[i]) : 0.0});
        }
        if (got.size() != want.size())
            violation("callback-count", "a callback was called for " + std::to_string(got.size()) + " of " +
                                            std::to_string(want.size()) + " elements");
        if (!ordered) {
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
        }
        if (got != want)
            violation("callback-arguments", "a callback was not called with the elements of the operands");
    }
    template<typename T>
    HARNESS T repeated(Rng &r, int kind, std::size_t i) {
        switch (kind) {
            case 0:
                return T(int(i) & 1);
            case 1:
                return T(0);
            case 2:
                return T(int(i / 3));
            case 3:
                return T(5);
            case 4:
                return T(int(r.below(3)));
            default:
                return T(int(i < 2 ? r.below(9) : r.below(2)));
        }
    }
    template<typename T, std::size_t N>
    struct CBag {
        using V = alg::vector<T, N>;
        using P = plain_t<T>;
        using F = Flat<P>;
        HARNESS static V make(Rng &r) {
            V v = {};
            int k = int(r.below(6));
            for (std::size_t i = 0; i < N; ++i)
                v[i] = repeated<T>(r, k, i);
            return v;
        }
        HARNESS static std::tuple<V, int> v1(Rng &r) {
            V a = make(r);
            return {a, int(r.below(3))};
        }
        HARNESS static std::tuple<V, V, int> v2(Rng &r) {
            V a = make(r);
            V b = r.below(3) ? make(r) : a;
            return {a, b, int(r.below(3))};
        }
        static V ew1(const V &a, const int &mode) {
            CbLog log = mklog(N, mode);
            CbBag bag;
            V r = alg::elementwise(CbBag1<T> {&log, &bag}, a);
            bag_check<P>(bag, flat(a), nullptr, false);
            return r;
        }
        static V ew2(const V &a, const V &b, const int &mode) {
            CbLog log = mklog(N, mode);
            CbBag bag;
            V r = alg::elementwise(CbBag2<T> {&log, &bag}, a, b);
            F fb = flat(b);
            bag_check<P>(bag, flat(a), &fb, false);
            return r;
        }
        static T fold(const V &a, const int &mode) {
            CbLog log = mklog(N, mode);
            CbBag bag;
            T r = alg::accumulate(a, T(2), CbBagFold<T> {&log, &bag});
            bag_check<P>(bag, flat(a), nullptr, true, 2);
            return r;
        }
        static F rfold(const Shape &, const F &a, const Flat<int> &) {
            P acc = P(2);
            for (std::size_t i = 0; i < a.n(); ++i)
                acc = P(a.d[i] - acc);
            return one(acc);
        }
    };
    template<typename T, std::size_t R, std::size_t C>
    struct CBagM {
        using Mt = alg::matrix<T, R, C>;
        using P = plain_t<T>;
        using F = Flat<P>;
        HARNESS static Mt make(Rng &r) {
            Mt m = {};
            int k = int(r.below(6));
            for (std::size_t i = 0; i < R * C; ++i)
                m[i / C][i % C] = repeated<T>(r, k, r.below(4) ? i : i / C);
            return m;
        }
        HARNESS static std::tuple<Mt, int> m1(Rng &r) {
            Mt a = make(r);
            return {a, int(r.below(3))};
        }
        HARNESS static std::tuple<Mt, Mt, int> m2(Rng &r) {
            Mt a = make(r);
            Mt b = r.below(3) ? make(r) : a;
            return {a, b, int(r.below(3))};
        }
        static Mt ew1(const Mt &a, const int &mode) {
            CbLog log = mklog(R * C, mode);
            CbBag bag;
            Mt r = alg::elementwise(CbBag1<T> {&log, &bag}, a);
            bag_check<P>(bag, flat(a), nullptr, false);
            return r;
        }
        static Mt ew2(const Mt &a, const Mt &b, const int &mode) {
            CbLog log = mklog(R * C, mode);
            CbBag bag;
            Mt r = alg::elementwise(CbBag2<T> {&log, &bag}, a, b);
            F fb = flat(b);
            bag_check<P>(bag, flat(a), &fb, false);
            return r;
        }
    };
    template<typename T>
    struct CR {    // reference
        using P = plain_t<T>;
        using F = Flat<P>;
        using S = Shape;
        using I = Flat<int>;
        static F f1(const S &, const F &a, const F &, const I &) {
            return M<P>::map(a, [](P x) { return P(x * P(3) + P(1)); });
        }
        static F g1(const S &, const F &a, const I &) {
            return M<P>::map(a, [](P x) { return P(x * P(3) + P(1)); });
        }
        static F g2(const S &, const F &a, const F &b, const I &) {
            return M<P>::map2(a, b, [](P x, P y) { return P(x * P(2) - y); });
        }
        static F f2(const S &, const F &a, const F &b, const F &, const I &) {
            return M<P>::map2(a, b, [](P x, P y) { return P(x * P(2) - y); });
        }
        static Flat<double> f3(const S &, const F &a, const F &, const F &, const F &, const I &) {
            Flat<double> r(a.r, a.c);
            for (std::size_t i = 0; i < a.n(); ++i)
                r.d[i] = double(i) * 0.5 + 1;
            return r;
        }
        static Flat<uint64_t> fold(const S &, const F &a, const F &, const I &) {
            uint64_t acc = 99;
            for (std::size_t i = 0; i < a.n(); ++i)
                acc = acc * 31 + i + 7;
            return one(acc);
        }
        static F foldt(const S &, const F &a, const F &s, const I &) {
            P acc = s.d[0];
            for (std::size_t i = 0; i < a.n(); ++i)
                acc = P(a.d[i] - acc);
            return one(acc);
        }
        static F gen(const S &sh, const F &s, const I &) {
            F r(sh.a, 1);
            for (std::size_t i = 0; i < sh.a; ++i)
                r.d[i] = P(s.d[0] + P(int(i) * 3));
            return r;
        }
        static F gen2(const S &sh, const F &s, const I &) {
            F r(sh.a, sh.b);
            for (std::size_t i = 0; i < sh.a; ++i)
                for (std::size_t j = 0; j < sh.b; ++j)
                    r(i, j) = P(s.d[0] + P(int(i) * 3 - int(j)));
            return r;
        }
    };
    template<typename A, typename B>
    HARNESS void expect_nested(const A &got, const B &want) {
        Quiet q;
        Val g, w;
        erase(g, flat(got));
        erase(w, want);
        if (!same(g, w))
            violation("wrong-value", "the same library call made from inside its own callback gave a wrong answer");
    }
    // The calls themselves; SELF below repeats one of them, on fixed operands, from inside its own callback.
#define SIM_AGAIN(call, want)                  \
    +[] {                                      \
        const T s0 = T(50);                    \
        const int m0 = 0;                      \
        auto got = call;                       \
        expect_nested(got, want);              \
    }
    template<typename T, std::size_t N>
    struct CV {
        using V = alg::vector<T, N>;
        using G = CG<T, N>;
        using R = CR<T>;
        static V ew1(const V &a, const T &s, const int &mode) {
            CbLog log = mklog(N, mode, SIM_AGAIN(ew1(G::coded(s0, 0), s0, m0),
                                                 R::f1(Shape(), flat(G::coded(s0, 0)), flat(s0), flat(m0))));
            Cb1<T> cb {&log, s};
            V r = mode == 2 ? alg::elementwise(cb, a) : alg::elementwise(Cb1<T> {&log, s}, a);
            log.done();
            return r;
        }
        static V ew2(const V &a, const V &b, const T &s, const int &mode) {
            CbLog log = mklog(N, mode,
                              SIM_AGAIN(ew2(G::coded(s0, 0), G::coded(s0, 1), s0, m0),
                                        R::f2(Shape(), flat(G::coded(s0, 0)), flat(G::coded(s0, 1)), flat(s0), flat(m0))));
            Cb2<T> cb {&log, s};
            V r = mode == 2 ? alg::elementwise(cb, a, b) : alg::elementwise(Cb2<T> {&log, s}, a, b);
            log.done();
            return r;
        }
        static alg::vector<double, N> ew3(const V &a, const V &b, const V &c, const T &s, const int &mode) {
            CbLog log = mklog(N, mode, SIM_AGAIN(ew3(G::coded(s0, 0), G::coded(s0, 1), G::coded(s0, 2), s0, m0),
                                                 R::f3(Shape(), flat(G::coded(s0, 0)), flat(G::coded(s0, 1)),
                                                       flat(G::coded(s0, 2)), flat(s0), flat(m0))));
            auto r = alg::elementwise(Cb3<T> {&log, s}, a, b, c);
            log.done();
            return r;
        }
        static uint64_t fold(const V &a, const T &s, const int &mode) {
            CbLog log = mklog(N, mode, SIM_AGAIN(fold(G::coded(s0, 0), s0, m0),
                                                 R::fold(Shape(), flat(G::coded(s0, 0)), flat(s0), flat(m0))));
            uint64_t last = 99;
            CbFold<T> cb {&log, s, &last};
            uint64_t r = mode == 2 ? alg::accumulate(a, uint64_t(99), cb) :
                                     alg::accumulate(a, uint64_t(99), CbFold<T> {&log, s, &last});
            log.done();
            return r;
        }
        static T foldt(const V &a, const T &s, const int &mode) {
            CbLog log = mklog(N, mode, SIM_AGAIN(foldt(G::coded(s0, 0), s0, m0),
                                                 R::foldt(Shape(), flat(G::coded(s0, 0)), flat(s0), flat(m0))));
            CbFoldT<T> cb {&log, s};
            T r = mode == 2 ? alg::accumulate(a, s, cb) : alg::accumulate(a, s, CbFoldT<T> {&log, s});
            log.done();
            return r;
        }
        static V gen(const T &s, const int &mode) {
            CbLog log = mklog(N, mode, SIM_AGAIN(gen(s0, m0), R::gen(Shape {N, 1}, flat(s0), flat(m0))));
            CbIdx<T> cb {&log, s};
            V r = mode == 2 ? alg::generate<N>(cb) : alg::generate<N>(CbIdx<T> {&log, s});
            log.done();
            return r;
        }
    };
    template<typename T, std::size_t N, std::size_t C>
    struct CM {
        using Mt = alg::matrix<T, N, C>;
        using G = CMG<T, N, C>;
        using R = CR<T>;
        static Mt ew1(const Mt &a, const T &s, const int &mode) {
            CbLog log = mklog(N * C, mode, SIM_AGAIN(ew1(G::coded(s0, 0), s0, m0),
                                                     R::f1(Shape(), flat(G::coded(s0, 0)), flat(s0), flat(m0))));
            Cb1<T> cb {&log, s};
            Mt r = mode == 2 ? alg::elementwise(cb, a) : alg::elementwise(Cb1<T> {&log, s}, a);
            log.done();
            return r;
        }
        static Mt ew2(const Mt &a, const Mt &b, const T &s, const int &mode) {
            CbLog log = mklog(N * C, mode,
                              SIM_AGAIN(ew2(G::coded(s0, 0), G::coded(s0, 1), s0, m0),
                                        R::f2(Shape(), flat(G::coded(s0, 0)), flat(G::coded(s0, 1)), flat(s0), flat(m0))));
            Cb2<T> cb {&log, s};
            Mt r = mode == 2 ? alg::elementwise(cb, a, b) : alg::elementwise(Cb2<T> {&log, s}, a, b);
            log.done();
            return r;
        }
        static alg::matrix<double, N, C> ew3(const Mt &a, const Mt &b, const Mt &c, const T &s, const int &mode) {
            CbLog log = mklog(N * C, mode, SIM_AGAIN(ew3(G::coded(s0, 0), G::coded(s0, 1), G::coded(s0, 2), s0, m0),
                                                     R::f3(Shape {N, C}, flat(G::coded(s0, 0)), flat(G::coded(s0, 1)),
                                                           flat(G::coded(s0, 2)), flat(s0), flat(m0))));
            auto r = alg::elementwise(Cb3<T> {&log, s}, a, b, c);
            log.done();
            return r;
        }
        static Mt gen(const T &s, const int &mode) {
            CbLog log = mklog(N * C, mode, SIM_AGAIN(gen(s0, m0), R::gen2(Shape {N, C}, flat(s0), flat(m0))));
            CbIdx2<T, C> cb {&log, s};
            Mt r = mode == 2 ? alg::generate<N, C>(cb) : alg::generate<N, C>(CbIdx2<T, C> {&log, s});
            log.done();
            return r;
        }
    };
#undef SIM_AGAIN
    template<typename T>
    HARNESS std::tuple<T, int> cb_gi(Rng &r) {
        T s = T(int(r.below(1000)));
        return std::tuple<T, int>(s, int(r.below(6)));
    }
    template<typename T, std::size_t N>
    HARNESS void cb_vec() {
        using G = CG<T, N>;
        using R = CR<T>;
        using O = CV<T, N>;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(N) + ">";
        const unsigned tg = ttag<T>() | T_CALLBACK;
        add("elementwise(f,v)" + sfx, tg, G::v1, O::ew1, R::f1);
        add("elementwise(f,v,v)" + sfx, tg, G::v2, O::ew2, R::f2);
        add("elementwise(f,v,v,v)" + sfx, tg, G::v3, O::ew3, R::f3);
        add("accumulate" + sfx, tg, G::v1, O::fold, R::fold);
        add("accumulate same type" + sfx, tg, G::v1, O::foldt, R::foldt);
        using B = CBag<T, N>;
        add("elementwise(f,v) repeated elements" + sfx, tg, B::v1, B::ew1, R::g1);
        add("elementwise(f,v,v) repeated elements" + sfx, tg, B::v2, B::ew2, R::g2);
        add("accumulate repeated elements" + sfx, tg, B::v1, B::fold, B::rfold);
        add("generate(f) vector" + sfx, tg, cb_gi<T>, O::gen, R::gen, Shape {N, 1});
    }
    template<typename T, std::size_t N, std::size_t C>
    HARNESS void cb_mat() {
        using G = CMG<T, N, C>;
        using R = CR<T>;
        using O = CM<T, N, C>;
        const std::string sfx = std::string("<") + tname<T>() + "," + dims(N, C) + ">";
        const unsigned tg = ttag<T>() | T_CALLBACK;
        add("elementwise(f,m)" + sfx, tg, G::m1, O::ew1, R::f1);
        add("elementwise(f,m,m)" + sfx, tg, G::m2, O::ew2, R::f2);
        add("elementwise(f,m,m,m)" + sfx, tg, G::m3, O::ew3, R::f3, Shape {N, C});
        using B = CBagM<T, N, C>;
        add("elementwise(f,m) repeated elements" + sfx, tg, B::m1, B::ew1, R::g1);
        add("elementwise(f,m,m) repeated elements" + sfx, tg, B::m2, B::ew2, R::g2);
        add("generate(f) matrix" + sfx, tg, cb_gi<T>, O::gen, R::gen2, Shape {N, C});
    }
}    // namespace sim
