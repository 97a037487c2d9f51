#include "nt_model.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <cstring>
#include <stdexcept>
namespace ntm {
    using Big = boost::multiprecision::number<
        boost::multiprecision::cpp_int_backend<1024, 1024, boost::multiprecision::unsigned_magnitude,
                                               boost::multiprecision::unchecked, void>>;
    namespace {
        struct Level {
            int deg;
            std::vector<long> nr;    // over the tower below
        };
        struct Mont {    // word-by-word reduction
            uint64_t p[L], r2[L], inv;
            static void words(const Big &b, uint64_t *w) {
                auto *l = b.backend().limbs();
                std::size_t n = b.backend().size();
                static_assert(sizeof(*l) == 8);
                for (std::size_t i = 0; i < L; ++i)
                    w[i] = i < n ? l[i] : 0;
            }
            explicit Mont(const Big &m) {
                words(m, p);
                words(Big((Big(1) << 768) % m), r2);
                inv = 1;
                for (int i = 0; i < 6; ++i)
                    inv *= 2 - p[0] * inv;
                inv = 0 - inv;
            }
            void mul(const uint64_t *a, const uint64_t *b, uint64_t *r) const {    // a b / 2^384
                uint64_t t[L + 2] = {};
                for (std::size_t i = 0; i < L; ++i) {
                    unsigned __int128 c = 0;
                    for (std::size_t j = 0; j < L; ++j) {
                        c += (unsigned __int128)a[i] * b[j] + t[j];
                        t[j] = uint64_t(c);
                        c >>= 64;
                    }
                    c += t[L];
                    t[L] = uint64_t(c);
                    t[L + 1] = uint64_t(c >> 64);
                    uint64_t m = t[0] * inv;
                    c = ((unsigned __int128)m * p[0] + t[0]) >> 64;
                    for (std::size_t j = 1; j < L; ++j) {
                        c += (unsigned __int128)m * p[j] + t[j];
                        t[j - 1] = uint64_t(c);
                        c >>= 64;
                    }
                    c += t[L];
                    t[L - 1] = uint64_t(c);
                    t[L] = t[L + 1] + uint64_t(c >> 64);
                }
                bool ge = t[L] != 0;
                if (!ge) {
                    ge = true;
                    for (std::size_t i = L; i-- > 0;)
                        if (t[i] != p[i]) {
                            ge = t[i] > p[i];
                            break;
                        }
                }
                unsigned __int128 bw = 0;
                for (std::size_t i = 0; i < L; ++i) {
                    unsigned __int128 d = (unsigned __int128)t[i] - (ge ? p[i] : 0) - bw;
                    r[i] = uint64_t(d);
                    bw = (d >> 64) & 1;
                }
            }
            Big times(const Big &a, const Big &b) const {
                uint64_t x[L], y[L], z[L];
                words(a, x);
                words(b, y);
                mul(x, y, z);
                mul(z, r2, z);
                Big r;
                r.backend().resize(L, L);
                for (std::size_t i = 0; i < L; ++i)
                    r.backend().limbs()[i] = z[i];
                r.backend().normalize();
                return r;
            }
        };
        struct Field {
            Big p;
            std::vector<Level> lv;
            Mont mt;
            Field(const Big &m, std::vector<Level> l) : p(m), lv(std::move(l)), mt(p) {
            }
        };
        struct Num {    // an element: coefficients of the base field
            std::vector<Big> c;
        };
        const char *const P_BLS381 =
            "0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab";
        const char *const R_BLS381 = "0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
        const char *const P_BLS377 =
            "0x1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001";
        const char *const R_BLS377 = "0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001";
        const char *const P_BN = "0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47";
        const char *const R_BN = "0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001";
        const char *const P_MNT4 = "0x3bcf7bcd473a266249da7b0548ecaeec9635d1330ea41a9e35e51200e12c90cd65a71660001";
        const char *const P_MNT6 = "0x3bcf7bcd473a266249da7b0548ecaeec9635cf44194fb494c07925d6ad3bb4334a400000001";
        const char *const P_EDW = "0x40d5fc9d2a395b138b924ed6342d41b6eb690b80000001";
        const char *const P_25519 = "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed";
        Field make(int f) {
            auto F = [](const char *p, std::vector<Level> lv = {}) { return Field(Big(p), lv); };
            const Level bls2 {2, {-1}}, bls6 {3, {1, 1}}, top {2, {0, 0, 1}};
            switch (f) {
                case BLS381_P:
                    return F(P_BLS381);
                case BLS381_R:
                    return F(R_BLS381);
                case BLS377_P:
                    return F(P_BLS377);
                case BLS377_R:
                    return F(R_BLS377);
                case BN_P:
                    return F(P_BN);
                case BN_R:
                    return F(R_BN);
                case MNT_P:
                    return F(P_MNT4);
                case MNT_R:
                    return F(P_MNT6);
                case EDW_P:
                    return F(P_EDW);
                case EDW_R:
                    return F("0x10357f274a8e56c4e2e493b92e12cc1de5532780000001");
                case JUB_R:
                    return F("0xe7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7");
                case BABY_R:
                    return F("0x60c89ce5c263405370a08b6d0302b0bab3eedb83920ee0a677297dc392126f1");
                case K1_P:
                    return F("0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
                case K1_R:
                    return F("0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
                case R1_P:
                    return F("0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
                case R1_R:
                    return F("0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
                case ED_P:
                    return F(P_25519);
                case ED_R:
                    return F("0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed");
                case PALLAS_P:
                    return F("0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001");
                case VESTA_P:
                    return F("0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001");
                case GOLD:
                    return F("0xffffffff00000001");
                case SM2_P:
                    return F("0xfffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff");
                case SM2_R:
                    return F("0xfffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123");
                case MAX64:
                    return F("0xffffffffffffffc5");
                case K160_P:
                    return F("0xfffffffffffffffffffffffffffffffeffffac73");
                case K160_R:
                    return F("0x100000000000000000001b8fa16dfab9aca16b6b3");
                case K192_P:
                    return F("0xfffffffffffffffffffffffffffffffffffffffeffffee37");
                case K192_R:
                    return F("0xfffffffffffffffffffffffe26f2fc170f69466a74defd8d");
                case K224_P:
                    return F("0xfffffffffffffffffffffffffffffffffffffffffffffffeffffe56d");
                case K224_R:
                    return F("0x10000000000000000000000000001dce8d2ec6184caf0a971769fb1f7");
                case R160_P:
                    return F("0xffffffffffffffffffffffffffffffff7fffffff");
                case R160_R:
                    return F("0x100000000000000000001f4c8f927aed3ca752257");
                case R192_P:
                    return F("0xfffffffffffffffffffffffffffffffeffffffffffffffff");
                case R192_R:
                    return F("0xffffffffffffffffffffffff99def836146bc9b1b4d22831");
                case R224_P:
                    return F("0xffffffffffffffffffffffffffffffff000000000000000000000001");
                case R224_R:
                    return F("0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d");
                case R384_P:
                    return F("0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff");
                case R384_R:
                    return F("0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973");
                case BLS381_2:
                    return F(P_BLS381, {bls2});
                case BLS381_6:
                    return F(P_BLS381, {bls2, bls6});
                case BLS381_12:
                    return F(P_BLS381, {bls2, bls6, {2, {0, 0, 1}}});
                case BLS377_2:
                    return F(P_BLS377, {{2, {-5}}});
                case BLS377_6:
                    return F(P_BLS377, {{2, {-5}}, {3, {0, 1}}});
                case BLS377_12:
                    return F(P_BLS377, {{2, {-5}}, {3, {0, 1}}, {2, {0, 0, 1}}});
                case BN_2:
                    return F(P_BN, {bls2});
                case BN_6:
                    return F(P_BN, {bls2, {3, {9, 1}}});
                case BN_12:
                    return F(P_BN, {bls2, {3, {9, 1}}, {2, {0, 0, 1}}});
                case MNT4_2:
                    return F(P_MNT4, {{2, {17}}});
                case MNT4_4:
                    return F(P_MNT4, {{2, {17}}, {2, {0, 1}}});
                case MNT6_3:
                    return F(P_MNT6, {{3, {5}}});
                case MNT6_6:
                    return F(P_MNT6, {{3, {5}}, {2, {0, 1}}});
                case EDW_3:
                    return F(P_EDW, {{3, {61}}});
                default:
                    return F(P_EDW, {{3, {61}}, {2, {0, 1}}});
            }
        }
        const Field &fld(int f) {
            static std::vector<Field> *all = [] {
                auto *v = new std::vector<Field>;
                for (int i = 0; i < FIELDS; ++i)
                    v->push_back(make(i));
                // the third level's nonresidue is v: nr of the tower below has dimension 6
                for (int i : {int(BLS381_12), int(BLS377_12), int(BN_12)})
                    (*v)[std::size_t(i)].lv[2].nr = {0, 0, 1};
                return v;
            }();
            return (*all)[std::size_t(f)];
        }
        [[maybe_unused]] const Field &warm = fld(0);

        struct Arith {
            const Big &p;
            const std::vector<Level> &lv;
            const Mont &mt;
            explicit Arith(int f) : p(fld(f).p), lv(fld(f).lv), mt(fld(f).mt) {
            }
            using V = std::vector<Big>;
            std::size_t dim(std::size_t n) const {
                std::size_t d = 1;
                for (std::size_t i = 0; i < n; ++i)
                    d *= std::size_t(lv[i].deg);
                return d;
            }
            Big fix(long v) const {
                return v < 0 ? Big(p - Big((unsigned long)-v)) : Big((unsigned long)v);
            }
            V add(const V &a, const V &b) const {
                V r(a.size());
                for (std::size_t i = 0; i < a.size(); ++i) {
                    r[i] = a[i] + b[i];
                    if (r[i] >= p)
                        r[i] -= p;
                }
                return r;
            }
            V sub(const V &a, const V &b) const {
                V r(a.size());
                for (std::size_t i = 0; i < a.size(); ++i)
                    r[i] = a[i] >= b[i] ? Big(a[i] - b[i]) : Big(a[i] + p - b[i]);
                return r;
            }
            V neg(const V &a) const {
                return sub(V(a.size(), Big(0)), a);
            }
            V part(const V &a, std::size_t i, std::size_t n) const {
                return V(a.begin() + long(i * n), a.begin() + long((i + 1) * n));
            }
            V nr(std::size_t level) const {
                V r(dim(level), Big(0));
                for (std::size_t i = 0; i < lv[level].nr.size() && i < r.size(); ++i)
                    r[i] = fix(lv[level].nr[i]);
                return r;
            }
            void plus(Big *r, const Big *b, std::size_t n) const {
                for (std::size_t i = 0; i < n; ++i) {
                    r[i] += b[i];
                    if (r[i] >= p)
                        r[i] -= p;
                }
            }
            void mul(const Big *a, const Big *b, Big *r, std::size_t n) const {    // schoolbook, level by level
                if (n == 0) {
                    r[0] = a[0].is_zero() || b[0].is_zero() ? Big(0) : mt.times(a[0], b[0]);
                    return;
                }
                std::size_t d = std::size_t(lv[n - 1].deg), s = dim(n - 1);
                Big prod[5 * 6], t[6], q[6];
                for (std::size_t i = 0; i < d; ++i)
                    for (std::size_t j = 0; j < d; ++j) {
                        mul(a + i * s, b + j * s, t, n - 1);
                        plus(prod + (i + j) * s, t, s);
                    }
                for (std::size_t i = 0; i < lv[n - 1].nr.size() && i < s; ++i)
                    q[i] = fix(lv[n - 1].nr[i]);
                for (std::size_t i = 0; i < d; ++i) {
                    for (std::size_t k = 0; k < s; ++k)
                        r[i * s + k] = prod[i * s + k];
                    if (i + d < 2 * d - 1) {
                        mul(q, prod + (i + d) * s, t, n - 1);
                        plus(r + i * s, t, s);
                    }
                }
            }
            V mul(const V &a, const V &b, std::size_t n) const {
                V r(a.size());
                mul(a.data(), b.data(), r.data(), n);
                return r;
            }
            Big inv0(const Big &a) const {    // binary extended Euclid; the moduli leave two bits of the words free
                uint64_t x[L], y[L], u[L] = {1}, v[L] = {}, m[L];
                Mont::words(p, m);
                Mont::words(a, x);
                memcpy(y, m, sizeof y);
                auto zero = [](const uint64_t *q) {
                    uint64_t t = 0;
                    for (std::size_t k = 0; k < L; ++k)
                        t |= q[k];
                    return !t;
                };
                auto halve = [](uint64_t *q) {
                    for (std::size_t k = 0; k < L; ++k)
                        q[k] = (q[k] >> 1) | (k + 1 < L ? q[k + 1] << 63 : 0);
                };
                auto plus = [](uint64_t *q, const uint64_t *s) {
                    unsigned __int128 t = 0;
                    for (std::size_t k = 0; k < L; ++k) {
                        t += (unsigned __int128)q[k] + s[k];
                        q[k] = uint64_t(t);
                        t >>= 64;
                    }
                };
                auto below = [](const uint64_t *q, const uint64_t *s) {
                    for (std::size_t k = L; k-- > 0;)
                        if (q[k] != s[k])
                            return q[k] < s[k];
                    return false;
                };
                auto minus = [](uint64_t *q, const uint64_t *s) {
                    uint64_t c = 0;
                    for (std::size_t k = 0; k < L; ++k) {
                        uint64_t d = q[k] - s[k], e = d - c;
                        c = (q[k] < s[k]) | (d < c);
                        q[k] = e;
                    }
                };
                auto even = [&](uint64_t *q, uint64_t *c) {
                    while (!(q[0] & 1)) {
                        halve(q);
                        if (c[0] & 1)
                            plus(c, m);
                        halve(c);
                    }
                };
                auto less_mod = [&](uint64_t *c, const uint64_t *d) {
                    if (below(c, d))
                        plus(c, m);
                    minus(c, d);
                };
                if (zero(x))
                    return Big(0);
                for (even(x, u); !zero(y);) {    // x = u a and y = v a modulo p; both odd but for y = 0 at the end
                    even(y, v);
                    if (below(y, x)) {
                        std::swap(x, y);
                        std::swap(u, v);
                    }
                    minus(y, x);
                    less_mod(v, u);
                }
                Big r(0);
                for (std::size_t k = L; k-- > 0;) {
                    r <<= 64;
                    r |= u[k];
                }
                return r;
            }
            V inv(const V &a, std::size_t n) const {
                if (n == 0)
                    return V {p >> 382 ? pow(a, Big(p - 2), 0)[0] : inv0(a[0])};
                std::size_t d = std::size_t(lv[n - 1].deg), s = dim(n - 1);
                V q = nr(n - 1);
                auto m = [&](const V &x, const V &y) { return mul(x, y, n - 1); };
                V r;
                auto put = [&](const V &x) { r.insert(r.end(), x.begin(), x.end()); };
                if (d == 2) {
                    V x = part(a, 0, s), y = part(a, 1, s);
                    V t = inv(sub(m(x, x), m(q, m(y, y))), n - 1);
                    put(m(x, t));
                    put(neg(m(y, t)));
                    return r;
                }
                V x = part(a, 0, s), y = part(a, 1, s), z = part(a, 2, s);
                V t0 = sub(m(x, x), m(q, m(y, z)));
                V t1 = sub(m(q, m(z, z)), m(x, y));
                V t2 = sub(m(y, y), m(x, z));
                V t = inv(add(m(x, t0), m(q, add(m(z, t1), m(y, t2)))), n - 1);
                put(m(t0, t));
                put(m(t1, t));
                put(m(t2, t));
                return r;
            }
            V one(std::size_t n) const {
                V r(dim(n), Big(0));
                r[0] = 1;
                return r;
            }
            template<typename N>
            V pow(const V &a, const N &e, std::size_t n) const {
                V r = one(n);
                if (e == 0)
                    return r;
                for (long i = long(boost::multiprecision::msb(e)); i >= 0; --i) {
                    r = mul(r, r, n);
                    if (boost::multiprecision::bit_test(e, unsigned(i)))
                        r = mul(r, a, n);
                }
                return r;
            }
            V frob(const V &a, std::size_t n) const {    // p-th power, using the linearity of it
                if (n == 0)
                    return a;
                std::size_t d = std::size_t(lv[n - 1].deg), s = dim(n - 1);
                V q = nr(n - 1);
                V u = pow(q, Big((p - 1) / d), n - 1);    // the generator's p-th power is u times itself
                V w = one(n - 1), r;
                for (std::size_t i = 0; i < d; ++i) {
                    V t = mul(w, frob(part(a, i, s), n - 1), n - 1);
                    r.insert(r.end(), t.begin(), t.end());
                    w = mul(w, u, n - 1);
                }
                return r;
            }
        };
        using V = Arith::V;
        Big big(const uint64_t *w, std::size_t n) {
            Big b(0);
            for (std::size_t i = n; i-- > 0;) {
                b <<= 64;
                b |= w[i];
            }
            return b;
        }
        V in(const W &w) {
            V v;
            for (std::size_t i = 0; i + L <= w.size(); i += L)
                v.push_back(big(&w[i], L));
            return v;
        }
        void put(W &w, Big b) {
            for (std::size_t i = 0; i < L; ++i) {
                w.push_back(uint64_t(b & 0xffffffffffffffffull));
                b >>= 64;
            }
        }
        W out(const V &v) {
            W w;
            for (auto &b : v)
                put(w, b);
            return w;
        }
        std::size_t top(int f) {
            return fld(f).lv.size();
        }
    }    // namespace
    std::size_t dim(int f) {
        return Arith(f).dim(top(f));
    }
    W zero(int f) {
        return W(dim(f) * L, 0);
    }
    W small(int f, uint64_t v) {
        W w = zero(f);
        w[0] = v;
        return w;
    }
    W one(int f) {
        return small(f, 1);
    }
    W add(int f, const W &a, const W &b) {
        return out(Arith(f).add(in(a), in(b)));
    }
    W sub(int f, const W &a, const W &b) {
        return out(Arith(f).sub(in(a), in(b)));
    }
    W neg(int f, const W &a) {
        return out(Arith(f).neg(in(a)));
    }
    W mul(int f, const W &a, const W &b) {
        return out(Arith(f).mul(in(a), in(b), top(f)));
    }
    W inv(int f, const W &a) {
        return out(Arith(f).inv(in(a), top(f)));
    }
    W pow(int f, const W &a, const W &e) {
        boost::multiprecision::cpp_int n(0);
        for (std::size_t i = e.size(); i-- > 0;) {
            n <<= 64;
            n |= e[i];
        }
        return out(Arith(f).pow(in(a), n, top(f)));
    }
    W pow(int f, const W &a, uint64_t e) {
        return out(Arith(f).pow(in(a), Big(e), top(f)));
    }
    W frob(int f, const W &a, unsigned k) {
        V v = in(a);
        for (unsigned i = 0; i < k; ++i)
            v = Arith(f).frob(v, top(f));
        return out(v);
    }
    W cyclo(int f, const W &a) {
        if (is_zero(a))
            return one(f);
        unsigned d = unsigned(dim(f));
        W x = mul(f, frob(f, a, d / 2), inv(f, a));
        if (d % 6 == 0)
            x = mul(f, frob(f, x, d / 6), x);
        return x;
    }
    bool is_zero(const W &a) {
        for (uint64_t x : a)
            if (x)
                return false;
        return true;
    }
    bool is_square(int f, const W &a) {
        if (is_zero(a))
            return true;
        // the norm to Z/p of a square is a square, and the other way round
        Arith A(f);
        V v = in(a), n = v;
        for (std::size_t i = 1; i < dim(f); ++i) {
            v = A.frob(v, top(f));
            n = A.mul(n, v, top(f));
        }
        Big e = (A.p - 1) / 2, r = boost::multiprecision::powm(n[0], e, A.p);
        return r == 1;
    }
    bool less(const W &a, const W &b) {
        for (std::size_t i = a.size(); i-- > 0;)
            if (a[i] != b[i])
                return a[i] < b[i];
        return false;
    }
    std::string digits(const uint64_t *w, bool hex) {
        return big(w, L).str(0, hex ? std::ios_base::hex : std::ios_base::dec);
    }
    W order(int f) {
        W w;
        put(w, fld(f).p);
        return w;
    }
    W reduce(int f, const W &a) {
        W w;
        put(w, big(a.data(), a.size()) % fld(f).p);
        return w;
    }
    W mulmod(int f, const W &a, const W &b) {
        W w;
        put(w, Big(big(a.data(), L) * big(b.data(), L)) % fld(f).p);
        return w;
    }
    W coef(int, const W &a, std::size_t i, std::size_t n) {
        return W(a.begin() + long(i * L), a.begin() + long((i + n) * L));
    }
    static Big uniform(const Big &p, Rng &r) {
        Big b(0);
        for (int i = 0; i < 7; ++i) {
            b <<= 64;
            b |= r.next();
        }
        return b % p;
    }
    static Big edge(const Big &p, Rng &r) {
        switch (r.below(12)) {
            case 0:
                return Big(0);
            case 1:
                return Big(1);
            case 2:
                return p - 1;
            case 3:
                return Big(r.below(40));
            case 4:
                return Big(p - 1 - r.below(40));
            case 5:
                return Big((p - 1) / 2 + r.below(3)) % p;
            case 6:
                return ((Big(1) << unsigned(r.below(400))) - r.below(2)) % p;
            case 7:
                return (p - ((Big(1) << unsigned(r.below(boost::multiprecision::msb(p))))) + r.below(2)) % p;
            default:
                return uniform(p, r);
        }
    }
    W rnd(int f, Rng &r) {
        Arith A(f);
        V v;
        int mode = int(r.below(4));
        for (std::size_t i = 0; i < dim(f); ++i)
            v.push_back(mode == 0 ? uniform(A.p, r) : mode == 1 && i && r.below(2) ? Big(0) : edge(A.p, r));
        return out(v);
    }

    // ------------------------------------------------------------ curves
    namespace {
        enum Shape { SW, TE, MO };
        struct Curve {
            Shape sh;
            int f, s;
            W a, b, gx, gy;
        };
        W hex(std::vector<const char *> h) {
            W w;
            for (auto *x : h)
                put(w, Big(x[0] == '0' && x[1] == 'x' ? std::string(x) : "0x" + std::string(x)));
            return w;
        }
        Curve cmake(int c) {
            auto n = [](int f, long v) {
                W w = small(f, uint64_t(v < 0 ? -v : v));
                return v < 0 ? neg(f, w) : w;
            };
            switch (c) {
                case BLS381_G1:
                    return {SW, BLS381_P, BLS381_R, n(BLS381_P, 0), n(BLS381_P, 4),
                            hex({"17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00"
                                 "adb22c6bb"}),
                            hex({"8b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa2329"
                                 "46c5e7e1"})};
                case BLS381_G2:
                    return {SW, BLS381_2, BLS381_R, n(BLS381_2, 0), hex({"4", "4"}),
                            hex({"24aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8"
                                 "c121bdb8",
                                 "13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d0"
                                 "55d042b7e"}),
                            hex({"ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e1935486"
                                 "08b82801",
                                 "606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075f"
                                 "f05f79be"})};
                case BLS377_G1:
                    return {SW, BLS377_P, BLS377_R, n(BLS377_P, 0), n(BLS377_P, 1),
                            hex({"8848defe740a67c8fc6225bf87ff5485951e2caa9d41bb188282c8bd37cb5cd5481512ffcd394eeab9b16e"
                                 "b21be9ef"}),
                            hex({"1914a69c5102eff1f674f5d30afeec4bd7fb348ca3e52d96d182ad44fb82305c2fe3d3634a9591afd82de5"
                                 "5559c8ea6"})};
                case BLS377_G2:
                    return {SW, BLS377_2, BLS377_R, n(BLS377_2, 0),
                            hex({"0", "10222f6db0fd6f343bd03737460c589dc7b4f91cd5fd889129207b63c6bf8000dd39e5c1ccccccd1c9"
                                      "ed9999999999a"}),
                            hex({"b997fef930828fe1b9e6a1707b8aa508a3dbfd7fe2246499c709226a0a6fef49f85b3a375363f4f8f6ea3f"
                                 "bd159f8a",
                                 "d6ac33b84947d9845f81a57a136bfa326e915fabc8cd6a57ff133b42d00f62e4e1af460228cd5184deae97"
                                 "6fa62596"}),
                            hex({"118dd509b2e9a13744a507d515a595dbb7e3b63df568866473790184bdf83636c94df2b7a962cb2af4337f"
                                 "07cb7e622",
                                 "185067c6ca76d992f064a432bd9f9be832b0cac2d824d0518f77d39e76c3e146afb825f2092218d038867d"
                                 "7f337a010"})};
                case BN_G1:
                    return {SW, BN_P, BN_R, n(BN_P, 0), n(BN_P, 3), n(BN_P, 1), n(BN_P, 2)};
                case BN_G2:
                    return {SW, BN_2, BN_R, n(BN_2, 0),
                            hex({"2b149d40ceb8aaae81be18991be06ac3b5b4c5e559dbefa33267e6dc24a138e5",
                                 "9713b03af0fed4cd2cafadeed8fdf4a74fa084e52d1852e4a2bd0685c315d2"}),
                            hex({"1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed",
                                 "198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2"}),
                            hex({"12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa",
                                 "90689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b"})};
                case MNT4_G1:
                    return {SW, MNT_P, MNT_R, n(MNT_P, 2),
                            hex({"3545a27639415585ea4d523234fc3edd2a2070a085c7b980f4e9cd21a515d4b0ef528ec0fd5"}),
                            hex({"7a2caf82a1ba85213fe6ca3875aee86aba8f73d69060c4079492b948dea216b5b9c8d2af46"}),
                            hex({"2db619461cc82672f7f159fec2e89d0148dcc9862d36778c1afd96a71e29cba48e710a48ab2"})};
                case MNT4_G2:
                    return {SW, MNT4_2, MNT_R, hex({"22", "0"}),
                            hex({"0", "87788d2a0ee6e223b5540063ee1ecd2ff0038ab06a5c24b1b1a912ec4d6a3b6efb12b30d16"}),
                            hex({"371780491c5660571ff542f2ef89001f205151e12a72cb14f01a931e72dba7903df6c09a9a4",
                                 "4ba59a3f72da165def838081af697c851f002f576303302bb6c02c712c968be32c0ae0a989"}),
                            hex({"4b471f33ffaad868a1c47d6605d31e5c4b3b2e0b60ec98f0f610a5aafd0d9522bca4e79f22",
                                 "355d05a1c69a5031f3f81a5c100cb7d982f78ec9cfc3b5168ed8d75c7c484fb61a3cbf0e0f1"})};
                case MNT6_G1:
                    return {SW, MNT_R, MNT_P, n(MNT_R, 11),
                            hex({"d68c7b1dc5dd042e957b71c44d3d6c24e683fc09b420b1a2d263fde47ddba59463d0c65282"}),
                            hex({"2a4feee24fd2c69d1d90471b2ba61ed56f9bad79b57e0b4c671392584bdadebc01abbc0447d"}),
                            hex({"32986c245f6db2f82f4e037bf7afd69cbfcbff07fc25d71e9c75e1b97208a333d73d91d3028"})};
                case MNT6_G2:
                    return {SW, MNT6_3, MNT_P, hex({"0", "0", "b"}),
                            hex({"73c6aac069aeaec44dc18880f3682def1d36f7eeefa82ee21461980ba18ef8b14f13df9c89", "0", "0"}),
                            hex({"34f7320a12b56ce532bccb3b44902cbaa723cd60035ada7404b743ad2e644ad76257e4c6813",
                                 "cf41620baa52eec50e61a70ab5b45f681952e0109340fec84f1b2890aba9b15cac5a0c80fa",
                                 "11f99170e10e326433cccb8032fb48007ca3c4e105cf31b056ac767e2cb01258391bd4917ce"}),
                            hex({"3a65968f03cc64d62ad05c79c415e07ebd38b363ec48309487c0b83e1717a582c1b60fecc91",
                                 "ca5e8427e5db1506c1a24cefc2451ab3accaea5db82dcb0c7117cc74402faa5b2c37685c6e",
                                 "f75d2dd88302c9a4ef941307629a1b3e197277d83abb715f647c2e55a27baf782f5c60e7f7"})};
                case K1:
                    return {SW, K1_P, K1_R, n(K1_P, 0), n(K1_P, 7),
                            hex({"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"}),
                            hex({"483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"})};
                case R1:
                    return {SW, R1_P, R1_R, n(R1_P, -3),
                            hex({"5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"}),
                            hex({"6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"}),
                            hex({"4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"})};
                case PALLAS:
                    return {SW, PALLAS_P, VESTA_P, n(PALLAS_P, 0), n(PALLAS_P, 5), n(PALLAS_P, -1), n(PALLAS_P, 2)};
                case VESTA:
                    return {SW, VESTA_P, PALLAS_P, n(VESTA_P, 0), n(VESTA_P, 5), n(VESTA_P, -1), n(VESTA_P, 2)};
                case JUB:
                    return {TE, BLS381_R, JUB_R, n(BLS381_R, -1),
                            hex({"2a9318e74bfa2b48f5fd9207e6bd7fd4292d7f6d37579d2601065fd6d6343eb1"}),
                            hex({"11dafe5d23e1218086a365b99fbf3d3be72f6afd7d1f72623e6b071492d1122b"}),
                            hex({"1d523cf1ddab1a1793132e78c866c0c33e26ba5cc220fed7cc3f870e59d292aa"})};
                case BABY:
                    return {TE, BN_R, BABY_R, n(BN_R, 168700), n(BN_R, 168696),
                            hex({"bb77a6ad63e739b4eacb2e09d6277c12ab8d8010534e0b62893f3f6bb957051"}),
                            hex({"25797203f7a0b24925572e1cd16bf9edfce0051fb9e133774b3c257a872d7d8b"})};
                case ED:
                    return {TE, ED_P, ED_R, n(ED_P, -1),
                            hex({"52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3"}),
                            hex({"216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a"}),
                            hex({"6666666666666666666666666666666666666666666666666666666666666658"})};
                case EDW:
                    return {TE, EDW_P, EDW_R, n(EDW_P, 1), hex({"64536d55979879327cf1306bb5a6277d254ef9776ce70"}),
                            inv(EDW_P, hex({"13409a864796abaee9408348f6ff5b3bfad95722c1fa59"})),
                            inv(EDW_P, hex({"1e7a97fc36e6a4804891b4d4fd08df2ee75446ca3f0b55"}))};
                case JUBM:
                    return {MO, BLS381_R, JUB_R, n(BLS381_R, 40962), n(BLS381_R, 1),
                            hex({"52a47af6ec47deb77d663b6a45b148d1ccdaa4e2299ecfbd5504c409b3ea62c0"}),
                            hex({"399b020832f6a499ba9d5334ca932dc9faaeea860e9a49a8f8854f55f3b676d4"})};
                default:
                    return {MO, BN_R, BABY_R, n(BN_R, 168698), n(BN_R, 1),
                            hex({"fbc9ac10c16d45d4eacdd6489fa006480b17a811cdba46922896085f89faaf6"}),
                            hex({"203a710160811d5c07ebaeb8fe1d9ce201c66b970d66f18d0d2b264c195309aa"})};
            }
        }
        const Curve &crv(int c) {
            static std::vector<Curve> *all = [] {
                auto *v = new std::vector<Curve>;
                for (int i = 0; i < CURVES; ++i)
                    v->push_back(cmake(i));
                return v;
            }();
            return (*all)[std::size_t(c)];
        }
        [[maybe_unused]] const Curve &warm2 = crv(0);
    }    // namespace
    int cfield(int c) {
        return crv(c).f;
    }
    int cscalar(int c) {
        return crv(c).s;
    }
    bool edwards(int c) {
        return crv(c).sh == TE;
    }
    W point(int c, const W &x, const W &y) {
        W w = x;
        w.insert(w.end(), y.begin(), y.end());
        w.push_back(edwards(c) && is_zero(x) && y == one(crv(c).f));
        return w;
    }
    W generator(int c) {
        return point(c, crv(c).gx, crv(c).gy);
    }
    W identity(int c) {
        W w(2 * dim(crv(c).f) * L + 1, 0);
        if (edwards(c))
            w[dim(crv(c).f) * L] = 1;
        w.back() = 1;
        return w;
    }
    bool inf(const W &p) {
        return p.back() != 0;
    }
    W px(int c, const W &p) {
        std::size_t n = dim(crv(c).f) * L;
        return W(p.begin(), p.begin() + long(n));
    }
    W py(int c, const W &p) {
        std::size_t n = dim(crv(c).f) * L;
        return W(p.begin() + long(n), p.begin() + long(2 * n));
    }
    W param(int c, int which) {
        return which ? crv(c).b : crv(c).a;
    }
    bool on_curve(int c, const W &x, const W &y) {
        const Curve &k = crv(c);
        int f = k.f;
        W xx = mul(f, x, x), yy = mul(f, y, y);
        switch (k.sh) {
            case SW:
                return yy == add(f, mul(f, add(f, xx, k.a), x), k.b);
            case TE:
                return add(f, mul(f, k.a, xx), yy) == add(f, one(f), mul(f, k.b, mul(f, xx, yy)));
            default:
                return mul(f, k.b, yy) == mul(f, x, add(f, add(f, xx, mul(f, k.a, x)), one(f)));
        }
    }
    static bool root(int f, const W &a, W &r) {    // prime fields only
        if (dim(f) != 1 || !is_square(f, a))
            return false;
        if (is_zero(a)) {
            r = a;
            return true;
        }
        Arith A(f);
        Big p = A.p, q = p - 1, n = in(a)[0], z = 2;
        unsigned s = 0;
        while (!(q & 1))
            q >>= 1, ++s;
        using boost::multiprecision::powm;
        while (powm(z, Big((p - 1) / 2), p) == 1)
            ++z;
        Big c = powm(z, q, p), x = powm(n, Big((q + 1) / 2), p), t = powm(n, q, p);
        while (t != 1) {
            unsigned i = 0;
            for (Big u = t; u != 1; ++i)
                u = Big(u * u % p);
            Big b = c;
            for (unsigned j = 0; j + i + 1 < s; ++j)
                b = Big(b * b % p);
            s = i;
            c = Big(b * b % p);
            t = Big(t * c % p);
            x = Big(x * b % p);
        }
        V v(1);
        v[0] = x;
        r = out(v);
        return true;
    }
    std::vector<W> special_points(int c) {
        const Curve &k = crv(c);
        int f = k.f;
        std::vector<W> all;
        if (dim(f) != 1)
            return all;
        W o = one(f), y;
        auto take = [&](const W &px, const W &py) {
            if (on_curve(c, px, py))
                all.push_back(point(c, px, py));
        };
        for (int i = -3; i <= 3; ++i) {
            W x = small(f, uint64_t(i < 0 ? -i : i)), xx;
            if (i < 0)
                x = neg(f, x);
            xx = mul(f, x, x);
            switch (k.sh) {
                case SW:
                    if (root(f, add(f, mul(f, add(f, xx, k.a), x), k.b), y))
                        take(x, y);
                    break;
                case TE: {    // here x is the second coordinate
                    W d = sub(f, k.a, mul(f, k.b, xx));
                    if (!is_zero(d) && root(f, mul(f, sub(f, o, xx), inv(f, d)), y))
                        take(y, x);
                    break;
                }
                default:
                    if (root(f, mul(f, mul(f, x, add(f, add(f, xx, mul(f, k.a, x)), o)), inv(f, k.b)), y))
                        take(x, y);
            }
        }
        return all;
    }
    W related(int c, const W &p) {
        const Curve &k = crv(c);
        const int f = k.f;
        if (inf(p))
            return p;
        if (k.sh == TE)
            return point(c, px(c, p), neg(f, py(c, p)));
        Big q = fld(f).p;
        if (k.sh != SW || !is_zero(k.a) || q % 3 != 1)
            return p;
        W e;
        put(e, (q - 1) / 3);
        for (uint64_t t = 2;; ++t) {
            W b = pow(f, small(f, t), e);
            if (b != one(f))
                return point(c, mul(f, b, px(c, p)), py(c, p));
        }
    }
    W cneg(int c, const W &p) {
        if (inf(p))
            return p;
        int f = crv(c).f;
        if (edwards(c))
            return point(c, neg(f, px(c, p)), py(c, p));
        return point(c, px(c, p), neg(f, py(c, p)));
    }
    W cadd(int c, const W &p, const W &q) {
        const Curve &k = crv(c);
        int f = k.f;
        W x1 = px(c, p), y1 = py(c, p), x2 = px(c, q), y2 = py(c, q);
        if (k.sh == TE) {
            W xy = mul(f, x1, y2), yx = mul(f, y1, x2), xx = mul(f, x1, x2), yy = mul(f, y1, y2);
            W t = mul(f, k.b, mul(f, xx, yy));
            return point(c, mul(f, add(f, xy, yx), inv(f, add(f, one(f), t))),
                         mul(f, sub(f, yy, mul(f, k.a, xx)), inv(f, sub(f, one(f), t))));
        }
        if (inf(p))
            return q;
        if (inf(q))
            return p;
        W l;
        if (x1 == x2) {
            if (y1 != y2 || is_zero(y1))
                return identity(c);
            W three = small(f, 3), num = mul(f, three, mul(f, x1, x1));
            if (k.sh == SW)
                l = mul(f, add(f, num, k.a), inv(f, add(f, y1, y1)));
            else {
                num = add(f, add(f, num, mul(f, small(f, 2), mul(f, k.a, x1))), one(f));
                l = mul(f, num, inv(f, mul(f, k.b, add(f, y1, y1))));
            }
        } else
            l = mul(f, sub(f, y2, y1), inv(f, sub(f, x2, x1)));
        W x3 = mul(f, l, l);
        if (k.sh == MO)
            x3 = sub(f, mul(f, k.b, x3), k.a);
        x3 = sub(f, sub(f, x3, x1), x2);
        return point(c, x3, sub(f, mul(f, l, sub(f, x1, x3)), y1));
    }
    W cmul(int c, const W &p, const W &k) {
        W r = identity(c);
        bool on = false;
        for (std::size_t i = k.size() * 64; i-- > 0;) {
            if (on)
                r = cadd(c, r, r);
            if (k[i / 64] >> (i % 64) & 1) {
                r = on ? cadd(c, r, p) : p;
                on = true;
            }
        }
        return r;
    }
    W srnd(int c, Rng &r) {
        return rnd(crv(c).s, r);
    }
    W crnd(int c, Rng &r, W *kout) {
        W k;
        if (r.below(12) == 0)
            k = srnd(c, r);
        else
            k = small(crv(c).s, r.below(3) ? r.below(1 << 10) : r.below(8));
        W p = cmul(c, generator(c), k);
        if (r.below(3) == 0) {
            p = cneg(c, p);
            k = neg(crv(c).s, k);
        }
        if (kout)
            *kout = k;
        return p;
    }

    // ------------------------------------------------------------ pairings
    // The exponent is (p^k - 1)/r, times three for BLS12 as is customary there.
    W fexp(int f, const W &a) {
        using boost::multiprecision::cpp_int;
        Arith A(f);
        const std::size_t n = top(f);
        cpp_int p(A.p), r, h;
        V x = in(a), y;
        auto fr = [&](V v, int k) {
            for (int i = 0; i < k; ++i)
                v = A.frob(v, n);
            return v;
        };
        if (f == BLS381_12) {
            r = cpp_int(fld(BLS381_R).p);
            x = A.mul(fr(x, 6), A.inv(x, n), n);
            x = A.mul(fr(x, 2), x, n);
            h = (p * p * p * p - p * p + 1) / r * 3;
        } else if (f == MNT4_4) {
            r = cpp_int(fld(MNT_R).p);
            x = A.mul(fr(x, 2), A.inv(x, n), n);
            h = (p * p + 1) / r;
        } else {
            r = cpp_int(fld(MNT_P).p);
            x = A.mul(fr(x, 3), A.inv(x, n), n);
            x = A.mul(fr(x, 1), x, n);
            h = (p * p - p + 1) / r;
        }
        // digits of h in base p, one table entry per subset of them
        std::vector<V> tab(1, A.one(n));
        std::vector<Big> dig;
        for (V g = x; h != 0; h /= p, g = A.frob(g, n)) {
            dig.push_back(Big(h % p));
            std::size_t m = tab.size();
            for (std::size_t i = 0; i < m; ++i)
                tab.push_back(i ? A.mul(tab[i], g, n) : g);
        }
        y = A.one(n);
        bool on = false;
        for (long i = long(boost::multiprecision::msb(A.p)); i >= 0; --i) {
            if (on)
                y = A.mul(y, y, n);
            std::size_t k = 0;
            for (std::size_t d = 0; d < dig.size(); ++d)
                k |= std::size_t(boost::multiprecision::bit_test(dig[d], unsigned(i))) << d;
            if (k) {
                y = on ? A.mul(y, tab[k], n) : tab[k];
                on = true;
            }
        }
        return out(y);
    }
    W pairing(int f) {
        switch (f) {
            case BLS381_12:
                return hex({"1250ebd871fc0a92a7b2d83168d0d727272d441befa15c503dd8e90ce98db3e7b6d194f60839c508a84305aaca1789b6",
                            "89a1c5b46e5110b86750ec6a532348868a84045483c92b7af5af689452eafabf1a8943e50439f1d59882a98eaa0170f",
                            "1368bb445c7c2d209703f239689ce34c0378a68e72a6b3b216da0e22a5031b54ddff57309396b38c881c4c849ec23e87",
                            "193502b86edb8857c273fa075a50512937e0794e1e65a7617c90d8bd66065b1fffe51d7a579973b1315021ec3c19934f",
                            "1b2f522473d171391125ba84dc4007cfbf2f8da752f7c74185203fcca589ac719c34dffbbaad8431dad1c1fb597aaa5",
                            "18107154f25a764bd3c79937a45b84546da634b8f6be14a8061e55cceba478b23f7dacaa35c8ca78beae9624045b4b6",
                            "19f26337d205fb469cd6bd15c3d5a04dc88784fbb3d0b2dbdea54d43b2b73f2cbb12d58386a8703e0f948226e47ee89d",
                            "6fba23eb7c5af0d9f80940ca771b6ffd5857baaf222eb95a7d2809d61bfe02e1bfd1b68ff02f0b8102ae1c2d5d5ab1a",
                            "11b8b424cd48bf38fcef68083b0b0ec5c81a93b330ee1a677d0d15ff7b984e8978ef48881e32fac91b93b47333e2ba57",
                            "3350f55a7aefcd3c31b4fcb6ce5771cc6a0e9786ab5973320c806ad360829107ba810c5a09ffdd9be2291a0c25a99a2",
                            "4c581234d086a9902249b64728ffd21a189e87935a954051c7cdba7b3872629a4fafc05066245cb9108f0242d0fe3ef",
                            "f41e58663bf08cf068672cbd01a7ec73baca4d72ca93544deff686bfd6df543d48eaa24afe47e1efde449383b676631"});
            case MNT4_4:
                return hex({"3653498b90d54a52c420cc4a73ad1882feb23bf2ae451037a96e17babd70402dd237238b101",
                            "cd0a4994729a71440144fedc4378511a7febdf4cdb0499253bcbea9e023c6cfa9cf9682784",
                            "2532341e5b711a9f8f7049a99af28177e51d7a0c384d19cb7547352a7e65c44417babfe0089",
                            "30c15f867b221786f818a8e96ffa041ea4366fee9bdc9b2d845d6a9b9aded3d34d24b1a34b8"});
            default:
                return hex({"14ac12149eebffe74a1c75a7225deb91ca243c49eef01392080ff519ab6209431f81b50ec03",
                            "1ba8ab5bc93186b5bc2b1936fee360528228ab953fbce3c7b84f71d6c0e87b293d0de36eb93",
                            "323a5728ce32f5a04635ca9f84857882e9c13a2b415a021985921c79f303f1f0b69557c5c3d",
                            "32e067f62de41a786c2a43da960855694f3e0da14a964377a32ddad42cf9dd6b80bdc8d4300",
                            "bf02fd56dcd4f6b1d132c8b56a9f8801696d77cdb911a35335360f07eba30bc3083ecaa394",
                            "28a449b7699751b6bf17003c141307311241614b886c0fb6ffaf5b39896e182bddd85859e9c"});
        }
    }
}    // namespace ntm
