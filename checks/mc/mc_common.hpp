#pragma once
#include "explore.hpp"
#include <triqs/mc_tools/mc_generic.hpp>
#include <iomanip>
using namespace triqs;
struct quiet_streams {
  std::streambuf *a, *b;
  quiet_streams() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {}
  ~quiet_streams() {
    std::cout.rdbuf(a);
    std::cerr.rdbuf(b);
  }
};
