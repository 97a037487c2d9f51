// Long histories over a few named variables: results are assigned over operands, storage is reused,
// refused requests are mixed in.  The same script runs on the library and on the model.
#pragma once
#include "ops_mat.hpp"

namespace sim {
    struct HStep {
        int op;
        unsigned d, a, b, i, j;
        int val;
        uint64_t wide;
    };
    enum HOp {
        H_ADD, H_MUL, H_MATMUL, H_TRANSPOSE, H_SWAPROW, H_SWAPCOL, H_ROW, H_COLUMN, H_MATVEC, H_VECMAT, H_WRITE, H_VWRITE,
        H_ASROW, H_ROTATE, H_VADD, H_VMUL, H_BADROW, H_BADCOL, H_BADSUB, H_COPY, H_SUBMAT, H_SCALE, H_IDENT, H_INVERSE,
        H_RREF, H_DET, H_KRON, H_SUM, H_RESHAPE, H_ITER, H_SELFCOPY, H_COUNT
    };
    HARNESS inline HStep hstep(Rng &r, unsigned n, bool growing, bool field) {
        HStep s;
        for (;;) {
            s.op = int(r.below(H_COUNT));
            bool grows = s.op == H_MUL || s.op == H_MATMUL || s.op == H_VMUL || s.op == H_MATVEC || s.op == H_VECMAT ||
                         s.op == H_KRON || s.op == H_SCALE;
            bool needs_field = s.op == H_INVERSE || s.op == H_RREF || s.op == H_DET;
            if ((!grows || growing) && (!needs_field || field))
                break;
        }
        s.d = unsigned(r.below(3));
        s.a = r.below(2) ? s.d : unsigned(r.below(3));    // aliasing is common
        s.b = r.below(2) ? s.a : unsigned(r.below(3));
        s.i = unsigned(r.below(n));
        s.j = unsigned(r.below(n));
        s.val = r.range(-9, 9);
        s.wide = r.next();
        return s;
    }
    template<typename T, std::size_t N>
    struct Hist {
        using Mt = alg::matrix<T, N, N>;
        using V = alg::vector<T, N>;
        using P = plain_t<T>;
        using Tup = std::tuple<Mt, Mt, V, uint64_t, int>;
        static constexpr bool growing = std::is_unsigned<T>::value || std::is_same<T, Zp>::value;
        static constexpr bool field = std::is_same<T, Zp>::value;
        HARNESS static Tup gen(Rng &r) {
            Mt a = rmat<T, N, N>(r);
            Mt b = rmat<T, N, N>(r);
            V v = rvec<T, N>(r);
            uint64_t s = r.next();
            return Tup(a, b, v, s, int(4 + r.below(!growing || r.below(4) ? 12 : 60)));
        }
        template<typename Fn>
        HARNESS static int refused(Fn f) {    // 1 when the library refused the request
            try {
                f();
            } catch (...) {
                if (classify() != C_OTHER)
                    throw;
                return 1;
            }
            return 0;
        }
        static alg::vector<T, 3 * N * N + 3 * N> run(const Mt &m0, const Mt &m1, const V &v0, const uint64_t &seed,
                                                     const int &len) {
            Rng r(seed);
            Mt m[3] = {m0, m1, alg::transpose(m0)};
            V v[3] = {v0, v0 + v0, alg::rotate(v0, 1)};
            for (int k = 0; k < len; ++k) {
                HStep s = hstep(r, N, growing, field);
                switch (s.op) {
                    case H_ADD:
                        m[s.d] = m[s.a] + m[s.b];
                        break;
                    case H_MUL:
                        m[s.d] = m[s.a] * m[s.b];
                        break;
                    case H_MATMUL:
                        m[s.d] = alg::matmul(m[s.a], m[s.b]);
                        break;
                    case H_TRANSPOSE:
                        m[s.d] = alg::transpose(m[s.a]);
                        break;
                    case H_SWAPROW:
                        m[s.d] = alg::swaprow(m[s.a], s.i, s.j);
                        break;
                    case H_SWAPCOL:
                        m[s.d] = alg::swapcol(m[s.a], s.i, s.j);
                        break;
                    case H_ROW:
                        v[s.d] = m[s.a].row(s.i);
                        break;
                    case H_COLUMN:
                        v[s.d] = m[s.a].column(s.i);
                        break;
                    case H_MATVEC:
                        v[s.d] = alg::matvectmul(m[s.a], v[s.b]);
                        break;
                    case H_VECMAT:
                        v[s.d] = alg::vectmatmul(v[s.b], m[s.a]);
                        break;
                    case H_WRITE:
                        m[s.d][s.i][s.j] = T(s.val);
                        break;
                    case H_VWRITE:
                        v[s.d][s.i] = T(s.val);
                        break;
                    case H_ASROW: {
                        auto t = alg::vertcat(alg::as_row(v[s.a]), m[s.b]);
                        m[s.d] = alg::submat<N, N>(t, s.i & 1, 0);
                        break;
                    }
                    case H_ROTATE:
                        v[s.d] = alg::rotate(v[s.a], s.val);
                        break;
                    case H_VADD:
                        v[s.d] = v[s.a] + v[s.b];
                        break;
                    case H_VMUL:
                        v[s.d] = v[s.a] * v[s.b];
                        break;
                    case H_BADROW:
                        v[s.d][s.i] = T(refused([&] { v[s.a] = m[s.b].row(s.val < 0 ? s.wide | N : N + s.i); }));
                        break;
                    case H_BADCOL:
                        v[s.d][s.i] = T(refused([&] { v[s.a] = m[s.b].column(s.val < 0 ? s.wide | N : N + s.i); }));
                        break;
                    case H_BADSUB:
                        m[s.d][s.i][s.j] = T(refused([&] { m[s.a] = alg::submat<N, N>(m[s.b], s.i, 1 + s.j); }));
                        break;
                    case H_COPY:
                        m[s.d] = m[s.a];
                        v[s.d] = v[s.a];
                        m[s.a][s.i][s.j] = T(s.val);    // the copy must not follow
                        break;
                    case H_SUBMAT: {
                        auto t = alg::submat<N - 1, N - 1>(m[s.a], s.i & 1, s.j & 1);
                        m[s.d][s.i][s.j] = t[N - 2][0];
                        break;
                    }
                    case H_SCALE:
                        m[s.d] = m[s.a] * T(s.val);
                        break;
                    case H_IDENT:
                        m[s.d] = alg::get_identity<T, N>();
                        break;
                    case H_INVERSE:
                        if constexpr (field) {
                            int no = refused([&] { m[s.d] = alg::inverse(m[s.a]); });
                            v[s.d][s.i] = T(no);
                        }
                        break;
                    case H_RREF:
                        if constexpr (field)
                            m[s.d] = alg::rref(m[s.a]);
                        break;
                    case H_DET:
                        if constexpr (field)
                            v[s.d][s.i] = alg::det(m[s.a]) + T(int(alg::rank(m[s.b])));
                        break;
                    case H_KRON:
                        m[s.d] = alg::submat<N, N>(alg::kron(m[s.a], m[s.b]), s.i, s.j);
                        break;
                    case H_SUM:
                        v[s.d][s.i] = alg::sum(v[s.a]);
                        break;
                    case H_RESHAPE:
                        m[s.d] = alg::reshape<N, N>(alg::reshape<1, N * N>(m[s.a]));
                        break;
                    case H_ITER:
                        for (auto &x : v[s.d])
                            x = x + T(1);
                        break;
                    case H_SELFCOPY:
                        m[s.d] = *&m[s.d];
                        v[s.d] = alg::slice<N>(alg::concat(v[s.a], v[s.d]), s.i);
                        break;
                }
            }
            auto all = alg::concat(alg::concat(v[0], v[1]), v[2]);
            alg::vector<T, 3 * N * N + 3 * N> out = {};
            for (std::size_t i = 0; i < 3 * N; ++i)
                out[i] = all[i];
            for (std::size_t q = 0; q < 3; ++q)
                for (std::size_t i = 0; i < N * N; ++i)
                    out[3 * N + q * N * N + i] = m[q][i / N][i % N];
            return out;
        }
        using F = Flat<P>;
        using R = M<P>;
        static F ref(const Shape &, const F &m0, const F &m1, const F &v0, const Flat<uint64_t> &seed,
                     const Flat<int> &len) {
            Rng r(seed.d[0]);
            const Shape z, nn {N, N};
            F m[3] = {m0, m1, R::transpose(z, m0)};
            F v[3] = {v0, R::add(z, v0, v0), R::rotate(z, v0, one(1))};
            auto u = [](uint64_t x) { return one(uint64_t(x)); };
            for (int k = 0; k < len.d[0]; ++k) {
                HStep s = hstep(r, N, growing, field);
                F x;
                switch (s.op) {
                    case H_ADD:
                        m[s.d] = R::add(z, m[s.a], m[s.b]);
                        break;
                    case H_MUL:
                        m[s.d] = R::mul(z, m[s.a], m[s.b]);
                        break;
                    case H_MATMUL:
                        m[s.d] = R::matmul(z, m[s.a], m[s.b]);
                        break;
                    case H_TRANSPOSE:
                        m[s.d] = R::transpose(z, m[s.a]);
                        break;
                    case H_SWAPROW:
                        m[s.d] = R::swaprow(z, m[s.a], u(s.i), u(s.j));
                        break;
                    case H_SWAPCOL:
                        m[s.d] = R::swapcol(z, m[s.a], u(s.i), u(s.j));
                        break;
                    case H_ROW:
                        v[s.d] = R::row(z, m[s.a], u(s.i));
                        break;
                    case H_COLUMN:
                        v[s.d] = R::column(z, m[s.a], u(s.i));
                        break;
                    case H_MATVEC:
                        v[s.d] = R::matvectmul(z, m[s.a], v[s.b]);
                        break;
                    case H_VECMAT:
                        v[s.d] = R::vectmatmul(z, v[s.b], m[s.a]);
                        break;
                    case H_WRITE:
                        m[s.d](s.i, s.j) = P(s.val);
                        break;
                    case H_VWRITE:
                        v[s.d].d[s.i] = P(s.val);
                        break;
                    case H_ASROW:
                        x = R::vertcat(z, R::as_row(z, v[s.a]), m[s.b]);
                        m[s.d] = R::submat(nn, x, u(s.i & 1), u(0));
                        break;
                    case H_ROTATE:
                        v[s.d] = R::rotate(z, v[s.a], one(s.val));
                        break;
                    case H_VADD:
                        v[s.d] = R::add(z, v[s.a], v[s.b]);
                        break;
                    case H_VMUL:
                        v[s.d] = R::mul(z, v[s.a], v[s.b]);
                        break;
                    case H_BADROW:
                    case H_BADCOL:
                        v[s.d].d[s.i] = P(1);
                        break;
                    case H_BADSUB:
                        m[s.d](s.i, s.j) = P(1);
                        break;
                    case H_COPY:
                        m[s.d] = m[s.a];
                        v[s.d] = v[s.a];
                        m[s.a](s.i, s.j) = P(s.val);
                        break;
                    case H_SUBMAT:
                        x = R::submat(Shape {N - 1, N - 1}, m[s.a], u(s.i & 1), u(s.j & 1));
                        m[s.d](s.i, s.j) = x(N - 2, 0);
                        break;
                    case H_SCALE:
                        m[s.d] = R::muls(z, m[s.a], one(P(s.val)));
                        break;
                    case H_IDENT:
                        m[s.d] = R::identity(nn, x);
                        break;
                    case H_INVERSE:
                        if constexpr (field) {
                            x = R::inverse(z, m[s.a]);
                            if (!x.raise)
                                m[s.d] = x;
                            v[s.d].d[s.i] = P(x.raise ? 1 : 0);
                        }
                        break;
                    case H_RREF:
                        if constexpr (field)
                            m[s.d] = R::rref(z, m[s.a]);
                        break;
                    case H_DET:
                        if constexpr (field)
                            v[s.d].d[s.i] = P(R::det(z, m[s.a]).d[0] + P(int(R::rank(z, m[s.b]).d[0])));
                        break;
                    case H_KRON:
                        x = R::kron(z, m[s.a], m[s.b]);
                        m[s.d] = R::submat(nn, x, u(s.i), u(s.j));
                        break;
                    case H_SUM:
                        v[s.d].d[s.i] = R::sum(z, v[s.a]).d[0];
                        break;
                    case H_RESHAPE:
                        m[s.d] = m[s.a];
                        break;
                    case H_ITER:
                        for (auto &e : v[s.d].d)
                            e = P(e + P(1));
                        break;
                    case H_SELFCOPY:
                        v[s.d] = R::slice(Shape {N, 1}, R::concat(z, v[s.a], v[s.d]), u(s.i));
                        break;
                }
            }
            F out(3 * N * N + 3 * N, 1);
            for (std::size_t q = 0; q < 3; ++q) {
                for (std::size_t i = 0; i < N; ++i)
                    out.d[q * N + i] = v[q].d[i];
                for (std::size_t i = 0; i < N * N; ++i)
                    out.d[3 * N + q * N * N + i] = m[q].d[i];
            }
            return out;
        }
    };
    template<typename T, std::size_t N>
    HARNESS void history_op() {
        using H = Hist<T, N>;
        add(std::string("history<") + tname<T>() + "," + dims(N) + ">", ttag<T>() | T_HISTORY | T_REJECT, H::gen, &H::run,
            &H::ref, Shape(), 8);
    }
}    // namespace sim
