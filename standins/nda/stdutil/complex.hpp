#pragma once
#include <complex>
#include <concepts>
#include <type_traits>
namespace std { // mixed complex<T> op U, as nda
#define NDA_STANDIN_CPLX(OP)                                                                                                                          \
  template <typename T, typename U> requires(std::is_arithmetic_v<T> and std::is_arithmetic_v<U> and std::common_with<T, U> and !std::is_same_v<T, U>) \
  auto operator OP(std::complex<T> const &x, U y) {                                                                                                   \
    using C = std::complex<std::common_type_t<T, U>>;                                                                                                  \
    return C(x.real(), x.imag()) OP C(y);                                                                                                              \
  }                                                                                                                                                    \
  template <typename T, typename U> requires(std::is_arithmetic_v<T> and std::is_arithmetic_v<U> and std::common_with<T, U> and !std::is_same_v<T, U>) \
  auto operator OP(T x, std::complex<U> const &y) {                                                                                                   \
    using C = std::complex<std::common_type_t<T, U>>;                                                                                                  \
    return C(x) OP C(y.real(), y.imag());                                                                                                              \
  }
  NDA_STANDIN_CPLX(+)
  NDA_STANDIN_CPLX(-)
  NDA_STANDIN_CPLX(*)
  NDA_STANDIN_CPLX(/)
#undef NDA_STANDIN_CPLX
} // namespace std
