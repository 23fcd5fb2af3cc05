#pragma once
#include "../clef.hpp"
namespace nda::clef {
#define CLEF_STANDIN_STD(name)                                                                                                                       \
  struct std_##name {                                                                                                                                \
    template <typename A> auto operator()(A const &a) const {                                                                                       \
      using std::name;                                                                                                                               \
      return name(a);                                                                                                                                \
    }                                                                                                                                                \
  };                                                                                                                                                 \
  template <typename A> requires(is_any_lazy<A>) auto name(A &&a) { return make_expr_call(std_##name{}, std::forward<A>(a)); }                      \
  using std::name;
  CLEF_STANDIN_STD(exp)
  CLEF_STANDIN_STD(cos)
  CLEF_STANDIN_STD(sin)
  CLEF_STANDIN_STD(tan)
  CLEF_STANDIN_STD(cosh)
  CLEF_STANDIN_STD(sinh)
  CLEF_STANDIN_STD(tanh)
  CLEF_STANDIN_STD(acos)
  CLEF_STANDIN_STD(asin)
  CLEF_STANDIN_STD(atan)
  CLEF_STANDIN_STD(log)
  CLEF_STANDIN_STD(sqrt)
  CLEF_STANDIN_STD(abs)
  CLEF_STANDIN_STD(real)
  CLEF_STANDIN_STD(imag)
  CLEF_STANDIN_STD(conj)
  struct std_pow {
    template <typename A, typename B> auto operator()(A const &a, B const &b) const { return std::pow(a, b); }
  };
  template <typename A, typename B> requires(is_any_lazy<A, B>) auto pow(A &&a, B &&b) { return make_expr_call(std_pow{}, std::forward<A>(a), std::forward<B>(b)); }
} // namespace nda::clef
