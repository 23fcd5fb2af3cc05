#pragma once
#include <gtest/gtest.h>
#include <mpi/mpi.hpp>
#include "nda.hpp"
#define MAKE_MAIN                                                                                                                                    \
  int main(int argc, char **argv) {                                                                                                                  \
    ::testing::InitGoogleTest(&argc, argv);                                                                                                          \
    return RUN_ALL_TESTS();                                                                                                                          \
  }
template <typename X, typename Y> bool arrays_eq(X const &x, Y const &y) {
  bool r = std::array<long, nda::get_rank<X>>(x.shape()) == std::array<long, nda::get_rank<X>>(y.shape());
  if (!r) return false;
  nda::for_each(x.shape(), [&](auto... i) { r = r && x(i...) == y(i...); });
  return r;
}
template <typename X, typename Y> ::testing::AssertionResult array_are_close(X const &x, Y const &y, double precision = 1.e-10) {
  if (std::array<long, nda::get_rank<X>>(x.shape()) != std::array<long, nda::get_rank<X>>(y.shape())) return ::testing::AssertionFailure() << "shapes differ";
  double m = 0;
  nda::for_each(x.shape(), [&](auto... i) {
    double d = std::abs(x(i...) - y(i...));
    if (!(d <= m)) m = d;
  });
  if (!(m <= precision)) return ::testing::AssertionFailure() << "arrays differ by " << m;
  return ::testing::AssertionSuccess();
}
template <typename X> ::testing::AssertionResult array_almost_zero(X const &x, double precision = 1.e-10) {
  double m = 0;
  nda::for_each(x.shape(), [&](auto... i) { m = std::max(m, double(std::abs(x(i...)))); });
  if (!(m <= precision)) return ::testing::AssertionFailure() << "array is not zero: " << m;
  return ::testing::AssertionSuccess();
}
template <typename X, typename Y> ::testing::AssertionResult complex_are_close(X const &x, Y const &y, double precision = 1.e-10) {
  if (!(std::abs(x - y) <= precision)) return ::testing::AssertionFailure() << x << " and " << y << " differ";
  return ::testing::AssertionSuccess();
}
template <typename X, typename Y> ::testing::AssertionResult generic_are_near(X const &x, Y const &y) {
  if constexpr (nda::is_arr<X>) return array_are_close(x, y);
  else return complex_are_close(x, y);
}
#define EXPECT_ARRAY_EQ(X, Y) EXPECT_TRUE(arrays_eq(X, Y))
#define ASSERT_ARRAY_EQ(X, Y) ASSERT_TRUE(arrays_eq(X, Y))
#define EXPECT_ARRAY_NEAR(...) EXPECT_TRUE(array_are_close(__VA_ARGS__))
#define ASSERT_ARRAY_NEAR(...) ASSERT_TRUE(array_are_close(__VA_ARGS__))
#define EXPECT_ARRAY_ZERO(...) EXPECT_TRUE(array_almost_zero(__VA_ARGS__))
#define EXPECT_COMPLEX_NEAR(...) EXPECT_TRUE(complex_are_close(__VA_ARGS__))
#define EXPECT_CLOSE(...) EXPECT_TRUE(complex_are_close(__VA_ARGS__))
#define EXPECT_GF_NEAR_(...) EXPECT_TRUE(gfs_are_close(__VA_ARGS__))
#define EXPECT_APPROX(...) EXPECT_TRUE(complex_are_close(__VA_ARGS__))
namespace nda::clef {
}
