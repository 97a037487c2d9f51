// The catalogue of library instantiations under simulation, cut into pieces for parallel builds.
#include "ops_cb.hpp"
#include "ops_hist.hpp"
#include "ops_scalar.hpp"
#include "ops_special.hpp"
using namespace sim;
using cd = std::complex<double>;

template<typename T, std::size_t R, std::size_t C>
HARNESS static void mat_all() {
    mat_elementary<T, R, C>();
    mat_shape<T, R, C>();
}
template<typename T, std::size_t R, std::size_t C>
HARNESS static void mat_full() {
    mat_all<T, R, C>();
    mat_gauss<T, R, C>();
}
HARNESS static void reg() {
#if TU == 0
    vec_all<double, 1, 3, 4>();
    scalar_ops();
#elif TU == 1
    vec_all<double, 8, 17, 64>();
#elif TU == 2
    vec_all<int, 1, 2, 4>();
    vec_all<int, 16>();
#elif TU == 3
    vec_all<uint64_t, 3, 32>();
    vec_all<unsigned, 5>();
    mat_all<unsigned, 4, 4>();
#elif TU == 4
    vec_all<float, 4, 9>();
    mat_full<float, 3, 3>();
    mat_gauss<float, 4, 4>();
    mat_gauss<float, 2, 3>();
#elif TU == 5
    vec_all<cd, 2, 4, 7>();
#elif TU == 6
    vec_all<Zp, 3, 6, 16>();
    vec_all<Zp, 33>();
#elif TU == 7
    vec_all<Heap, 1, 2, 4>();
#elif TU == 8
    vec_all<Heap, 8>();
    mat_full<Heap, 2, 2>();
    mat_gauss<Heap, 3, 3>();
#elif TU == 9
    mat_all<Heap, 2, 4>();
    mat_all<Heap, 3, 3>();
    mat_gauss<Heap, 2, 4>();
    mat_gauss<Heap, 4, 4>();
#elif TU == 10
    mat_full<double, 1, 1>();
    mat_full<double, 2, 2>();
#elif TU == 11
    mat_full<double, 3, 3>();
    mat_full<double, 2, 3>();
#elif TU == 12
    mat_full<double, 4, 4>();
    mat_full<double, 4, 3>();
#elif TU == 13
    mat_gauss<double, 5, 5>();
    mat_gauss<double, 6, 6>();
    mat_gauss<double, 8, 8>();
    mat_gauss<double, 3, 5>();
    mat_gauss<double, 5, 2>();
    mat_gauss<double, 1, 4>();
    mat_shape<double, 5, 6>();
    mat_shape<double, 8, 8>();
#elif TU == 14
    mat_full<Zp, 2, 2>();
    mat_full<Zp, 3, 3>();
#elif TU == 15
    mat_full<Zp, 4, 4>();
    mat_full<Zp, 5, 3>();
#elif TU == 16
    mat_gauss<Zp, 1, 1>();
    mat_gauss<Zp, 5, 5>();
    mat_gauss<Zp, 6, 6>();
    mat_gauss<Zp, 7, 7>();
    mat_gauss<Zp, 8, 8>();
    mat_gauss<Zp, 12, 12>();
    mat_gauss<Zp, 3, 7>();
    mat_gauss<Zp, 7, 3>();
    mat_full<Zp, 3, 5>();
#elif TU == 17
    mat_all<int, 3, 3>();
    mat_all<int, 2, 5>();
    mat_shape<int, 1, 4>();
#elif TU == 18
    mat_all<cd, 2, 2>();
    mat_all<cd, 3, 2>();
#elif TU == 19
    mat_mul<double, 1, 1, 1>();
    mat_mul<double, 2, 2, 2>();
    mat_mul<double, 3, 4, 5>();
    mat_mul<double, 4, 4, 4>();
    mat_mul<double, 1, 7, 1>();
    mat_mul<double, 8, 8, 8>();
    mat_mul<double, 9, 16, 3>();
    mat_mul<double, 16, 16, 16>();
    mat_mul<int, 3, 3, 3>();
    mat_mul<int, 2, 8, 4>();
    mat_mul<int, 5, 1, 5>();
    mat_mul<uint64_t, 4, 8, 2>();
    mat_mul<float, 3, 3, 3>();
    mat_mul<float, 2, 5, 6>();
    mat_mul<cd, 2, 3, 4>();
    mat_mul<cd, 4, 4, 4>();
    mat_mul<Zp, 1, 2, 3>();
    mat_mul<Zp, 5, 5, 5>();
    mat_mul<Zp, 6, 2, 7>();
    mat_mul<Zp, 17, 17, 17>();
    mat_mul<Zp, 3, 32, 3>();
    mat_mul<Zp, 33, 4, 2>();
    mat_mul<Heap, 2, 2, 2>();
    mat_mul<Heap, 2, 3, 4>();
    mat_mul<Heap, 4, 4, 4>();
    mat_kron<double, 2, 2, 2, 2>();
    mat_kron<double, 2, 3, 4, 2>();
    mat_kron<double, 4, 4, 3, 3>();
    mat_kron<int, 1, 3, 3, 1>();
    mat_kron<Zp, 2, 3, 3, 2>();
    mat_kron<Zp, 3, 1, 1, 5>();
    mat_kron<cd, 2, 2, 1, 3>();
    mat_kron<Heap, 2, 2, 1, 2>();
    mat_fromvec<double, 1>();
    mat_fromvec<double, 4>();
    mat_fromvec<int, 9>();
    mat_fromvec<Zp, 17>();
    mat_fromvec<cd, 3>();
    mat_fromvec<Heap, 4>();
#elif TU == 20
    history_op<Zp, 2>();
    history_op<Zp, 3>();
    history_op<Zp, 4>();
    history_op<unsigned, 3>();
    history_op<unsigned, 4>();
    history_op<Heap, 2>();
    history_op<Heap, 3>();
    history_op<double, 3>();
    history_op<int, 3>();
#elif TU == 21
    cb_vec<int, 1>();
    cb_vec<int, 4>();
    cb_vec<double, 2>();
    cb_vec<double, 8>();
    cb_vec<double, 64>();
    cb_vec<uint64_t, 3>();
    cb_vec<Zp, 5>();
    cb_vec<Zp, 17>();
    cb_vec<double, 3>();
    cb_vec<int, 7>();
    cb_vec<double, 16>();
    cb_vec<Zp, 32>();
#elif TU == 22
    cb_vec<Heap, 1>();
    cb_vec<Heap, 3>();
    cb_vec<Heap, 8>();
    cb_mat<int, 1, 1>();
    cb_mat<int, 3, 3>();
    cb_mat<double, 2, 3>();
    cb_mat<double, 8, 4>();
    cb_mat<double, 17, 16>();
    cb_mat<uint64_t, 4, 4>();
    cb_mat<Zp, 5, 2>();
    cb_mat<Zp, 2, 7>();
    cb_mat<double, 3, 5>();
    cb_mat<int, 6, 6>();
    cb_mat<double, 1, 9>();
    cb_mat<Heap, 2, 5>();
    cb_mat<Heap, 2, 2>();
    cb_mat<Heap, 3, 4>();
#elif TU == 23
    vec_elementary<double, 2>();
    vec_elementary<double, 5>();
    vec_elementary<double, 7>();
    vec_elementary<double, 9>();
    vec_elementary<double, 16>();
    vec_elementary<double, 32>();
    vec_elementary<int, 3>();
    vec_elementary<int, 6>();
    vec_elementary<int, 8>();
#elif TU == 24
    vec_shape<double, 2>();
    vec_shape<double, 5>();
    vec_shape<double, 6>();
    vec_shape<double, 9>();
    vec_shape<double, 16>();
    vec_shape<double, 33>();
    vec_shape<int, 3>();
    vec_shape<int, 7>();
    vec_shape<int, 8>();
    vec_shape<int, 64>();
#elif TU == 25
    mat_scaled<double, 1, 1>();
    mat_scaled<double, 2, 2>();
    mat_scaled<double, 3, 3>();
    mat_scaled<double, 3, 5>();
    mat_scaled<double, 5, 3>();
    mat_scaled<double, 6, 6>();
    mat_scaled<float, 3, 3>();
    mat_scaled<Heap, 2, 2>();
    mat_scaled<Heap, 3, 3>();
#elif TU == 26
    mat_shape<Zp, 9, 17>();
    mat_shape<Zp, 16, 8>();
    mat_elementary<Zp, 10, 11>();
    vec_elementary<Zp, 128>();
    vec_shape<Zp, 130>();
    vec_elementary<Zp, 257>();
    vec_all<long long, 5>();
    mat_all<long long, 3, 2>();
    mat_mul<Zp, 40, 33, 5>();
    mat_kron<Zp, 7, 5, 4, 6>();
    mat_kron<Zp, 1, 20, 1, 14>();
    mat_kron<Zp, 20, 1, 14, 1>();
    mat_mul<Zp, 2, 300, 2>();
    mat_shape<Zp, 2, 130>();
    mat_shape<Zp, 131, 2>();
#elif TU == 27
    special_ops<double, 1, 1>();
    special_ops<double, 3, 2>();
    special_ops<double, 4, 4>();
    special_ops<double, 9, 5>();
    special_ops<float, 4, 3>();
#endif
}
static RegisterOps r(reg);
