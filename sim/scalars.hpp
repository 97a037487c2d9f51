// Element types the simulator plugs into the library's templates.
#pragma once
#include "runtime.hpp"
#include <cmath>
#include <complex>
#include <limits>
#include <type_traits>

namespace sim {
    // A prime field small enough for an exact reference model.
    struct Zp {
        static constexpr uint64_t P = 2147483647ull;
        uint32_t v = 0;
        constexpr Zp() = default;
        template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>>
        constexpr Zp(I i) : v(norm(i)) {
        }
        template<typename I>
        static constexpr uint32_t norm(I i) {
            if constexpr (std::is_signed<I>::value) {
                long long r = (long long)(i) % (long long)(P);
                return uint32_t(r < 0 ? r + (long long)(P) : r);
            } else
                return uint32_t((unsigned long long)(i) % P);
        }
        static constexpr uint32_t pw(uint64_t b, uint64_t e) {
            uint64_t r = 1;
            for (; e; e >>= 1, b = b * b % P)
                if (e & 1)
                    r = r * b % P;
            return uint32_t(r);
        }
        static constexpr Zp raw(uint32_t x) {
            Zp z;
            z.v = x;
            return z;
        }
        friend constexpr Zp operator+(Zp a, Zp b) {
            return raw(uint32_t((uint64_t(a.v) + b.v) % P));
        }
        friend constexpr Zp operator-(Zp a, Zp b) {
            return raw(uint32_t((uint64_t(a.v) + P - b.v) % P));
        }
        friend constexpr Zp operator*(Zp a, Zp b) {
            return raw(uint32_t(uint64_t(a.v) * b.v % P));
        }
        friend constexpr Zp operator/(Zp a, Zp b) {
            return a * raw(pw(b.v, P - 2));
        }
        constexpr Zp operator-() const {
            return raw(v ? uint32_t(P - v) : 0);
        }
        constexpr Zp &operator+=(Zp b) {
            return *this = *this + b;
        }
        constexpr Zp &operator-=(Zp b) {
            return *this = *this - b;
        }
        constexpr Zp &operator*=(Zp b) {
            return *this = *this * b;
        }
        constexpr Zp &operator/=(Zp b) {
            return *this = *this / b;
        }
        friend constexpr bool operator==(Zp a, Zp b) {
            return a.v == b.v;
        }
        friend constexpr bool operator!=(Zp a, Zp b) {
            return a.v != b.v;
        }
        friend constexpr bool operator<(Zp a, Zp b) {
            return a.v < b.v;
        }
        friend constexpr bool operator>(Zp a, Zp b) {
            return a.v > b.v;
        }
        friend constexpr bool operator<=(Zp a, Zp b) {
            return a.v <= b.v;
        }
        friend constexpr bool operator>=(Zp a, Zp b) {
            return a.v >= b.v;
        }
    };

    // A scalar that owns storage.  Every copy and every arithmetic operation can fail.
    struct Heap {
        void *p;
        static void fp() {
            fault_point(F_ELEM);
        }
        Heap() : p(nullptr) {
            fp();
            p = cell_new(0);
        }
        Heap(double d) : p(nullptr) {
            fp();
            p = cell_new(d);
        }
        template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>>
        Heap(I i) : p(nullptr) {
            fp();
            p = cell_new(double(i));
        }
        Heap(const Heap &o) : p(nullptr) {
            fp();
            p = cell_new(cell_get(o.p));
        }
        Heap(Heap &&o) noexcept : p(o.p) {
            o.p = nullptr;
        }
        Heap &operator=(const Heap &o) {
            fp();
            double d = cell_get(o.p);
            if (!p)
                p = cell_new(d);
            else
                cell_set(p, d);
            return *this;
        }
        Heap &operator=(Heap &&o) noexcept {
            if (this != &o) {
                cell_free(p);
                p = o.p;
                o.p = nullptr;
            }
            return *this;
        }
        ~Heap() {
            cell_free(p);
            p = nullptr;
        }
        double get() const {
            return cell_get(p);
        }
        explicit operator double() const {
            return get();
        }
#define SIM_BIN(op)                                          \
    friend Heap operator op(const Heap &a, const Heap &b) {  \
        fp();                                                \
        return Heap(a.get() op b.get());                     \
    }                                                        \
    Heap &operator op##=(const Heap &b) {                    \
        fp();                                                \
        cell_set(p, get() op b.get());                       \
        return *this;                                        \
    }
        SIM_BIN(+) SIM_BIN(-) SIM_BIN(*) SIM_BIN(/)
#undef SIM_BIN
#define SIM_CMP(op)                                         \
    friend bool operator op(const Heap &a, const Heap &b) { \
        fp();                                               \
        return a.get() op b.get();                          \
    }
        SIM_CMP(==) SIM_CMP(!=) SIM_CMP(<) SIM_CMP(>) SIM_CMP(<=) SIM_CMP(>=)
#undef SIM_CMP
        Heap operator-() const {
            fp();
            return Heap(-get());
        }
    };
}    // namespace sim

namespace std {
    template<>
    class numeric_limits<sim::Heap> {
    public:
        static constexpr bool is_specialized = true;
        static constexpr bool is_integer = false;
        static constexpr bool is_exact = false;
        static constexpr bool is_signed = true;
        static double epsilon() {
            return numeric_limits<double>::epsilon();
        }
    };
}    // namespace std
