#pragma once
#include "../nda.hpp"
namespace nda::linalg {
  template <typename X, typename Y> auto cross_product(X const &u, Y const &v) {
    if (u.shape()[0] != 3 || v.shape()[0] != 3) NDA_STANDIN_ERROR("nda : cross_product: only in dimension 3");
    array<get_value_t<X>, 1> r(3);
    r(0) = u(1) * v(2) - u(2) * v(1);
    r(1) = -u(0) * v(2) + u(2) * v(0);
    r(2) = u(0) * v(1) - u(1) * v(0);
    return r;
  }
} // namespace nda::linalg
