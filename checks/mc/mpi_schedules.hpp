// Schedules of virtual ranks: which rank runs first, and whether ranks run in rounds or to the next communication
#pragma once
#include "explore.hpp"
#include <mpi/mpi.hpp>
#include <algorithm>
[[maybe_unused]] static mpi::sim::outcome ranks(int n, std::function<void(int)> f) {
  int k = ex::choose(n);
  bool rounds = ex::flip();
  return mpi::sim::run(n, f, [=](std::vector<int> const &en, int last) {
    if (!rounds && last >= 0 && std::find(en.begin(), en.end(), last) != en.end()) return int(std::find(en.begin(), en.end(), last) - en.begin());
    for (int d = last < 0 ? 0 : 1; d <= n; ++d) {
      int r = ((last < 0 ? k : last) + (k ? n - d : d)) % n;
      auto it = std::find(en.begin(), en.end(), r);
      if (it != en.end()) return int(it - en.begin());
    }
    return 0;
  });
}
[[maybe_unused]] static void fine(mpi::sim::outcome const &o) {
  ex::check(o.error.empty(), "mpi", o.error);
  for (auto &e : o.exceptions)
    if (e) try {
        std::rethrow_exception(e);
      } catch (std::exception const &x) { ex::fail("exception", x.what()); }
}
