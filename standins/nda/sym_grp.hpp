#pragma once
#include <functional>
#include "nda.hpp"
namespace nda {
  // symmetry classes of an array under a set of index maps (an index outside of the array is mapped on, at most max_length times)
  template <typename F, typename A> class sym_grp {
    static constexpr int R = get_rank<A>;
    using index_t          = std::array<long, R>;
    std::vector<std::vector<std::pair<index_t, operation>>> classes;
    static bool valid(A const &x, index_t const &i) {
      for (int d = 0; d < R; ++d)
        if (i[d] < 0 || i[d] >= x.shape()[d]) return false;
      return true;
    }
    static decltype(auto) at(A &x, index_t const &i) {
      return std::apply([&](auto... k) -> decltype(auto) { return x(k...); }, i);
    }

    public:
    sym_grp() = default;
    sym_grp(A const &x, std::vector<F> const &syms, long max_length = 0) {
      array<bool, R> seen(x.shape());
      seen = false;
      auto mark = [&](index_t const &i) -> bool & { return std::apply([&](auto... k) -> bool & { return seen(k...); }, i); };
      for_each(x.shape(), [&](auto... k) {
        index_t i{k...};
        if (mark(i)) return;
        mark(i) = true;
        std::vector<std::pair<index_t, operation>> cl{{i, operation{}}};
        std::function<void(index_t const &, operation const &, long)> go = [&](index_t const &j, operation const &op, long len) {
          for (auto const &f : syms) {
            auto [jp, opp] = f(j);
            auto op2       = operation{bool(opp.sgn xor op.sgn), bool(opp.cc xor op.cc)};
            if (valid(x, jp)) {
              if (!mark(jp)) {
                mark(jp) = true;
                cl.push_back({jp, op2});
                go(jp, op2, 0);
              }
            } else if (len < max_length)
              go(jp, op2, len + 1);
          }
        };
        go(i, operation{}, 0);
        classes.push_back(cl);
      });
    }
    long num_classes() const { return classes.size(); }
    auto const &get_sym_classes() const { return classes; }
    template <typename H> void init(A &x, H const &h, bool = false) const {
      for (auto const &cl : classes) {
        auto v = h(cl[0].first);
        for (auto const &[i, op] : cl) at(x, i) = op(v);
      }
    }
    std::tuple<double, index_t> symmetrize(A &x) const {
      double max_diff = 0;
      index_t max_idx{};
      for (auto const &cl : classes) {
        get_value_t<A> ref{};
        for (auto const &[i, op] : cl) ref += op(at(x, i));
        ref /= double(cl.size());
        for (auto const &[i, op] : cl) {
          auto m    = op(ref);
          auto diff = std::abs(at(x, i) - m);
          if (diff > max_diff) {
            max_diff = diff;
            max_idx  = i;
          }
          at(x, i) = m;
        }
      }
      return {max_diff, max_idx};
    }
  };
} // namespace nda
