#pragma once
#include <mpi/mpi.hpp>
#include "nda.hpp"
namespace nda {
  namespace details {
    template <typename A> std::vector<get_value_t<A>> to_vec(A const &a) {
      std::vector<get_value_t<A>> v;
      for_each(a.shape(), [&](auto... i) { v.push_back(a(i...)); });
      return v;
    }
    template <typename T, int R> struct mpi_init : array_initializer_tag { // the result of a communication, ready to fill an array
      std::array<long, R> s;
      std::vector<T> v;
      bool has = true; // false: nothing arrives on this rank
      static constexpr int rank = R;
      using value_type = T;
      auto const &shape() const { return s; }
      template <typename V> void invoke(V &&target) const {
        if (!has) return;
        long n = 0;
        for_each(s, [&](auto... i) { target(i...) = v[n++]; });
      }
    };
    template <typename A> std::array<long, get_rank<A>> shape_of(A const &a) { return a.shape(); }
    inline std::string shape_str(auto const &s) {
      std::string r;
      for (auto x : s) r += "," + std::to_string(x);
      return r;
    }
  } // namespace details
  template <typename A> requires(is_arr<A>) void mpi_broadcast(A &&a, mpi::communicator c = {}, int root = 0) {
    using V  = get_value_t<A>;
    auto s   = details::shape_of(a);
    auto s0  = s;
    mpi::mpi_broadcast(s, c, root);
    if constexpr (std::remove_cvref_t<A>::is_owner) {
      if (c.rank() != root) a.resize(s);
    } else if (s != s0)
      NDA_STANDIN_ERROR("mpi : broadcast to a view of a different shape");
    if constexpr (is_scalar_v<V> && !std::is_same_v<V, bool>) {
      auto all = mpi::exchange_vec(c, "broadcast array root " + std::to_string(root), details::to_vec(a));
      if (mpi::sim::W().running) {
        long n = 0;
        for_each(a.shape(), [&](auto... i) { a(i...) = all[root][n++]; });
      }
    } else
      for_each(a.shape(), [&](auto... i) { mpi::broadcast(a(i...), c, root); });
  }
  template <typename A> requires(is_arr<A>) auto mpi_reduce(A const &a, mpi::communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    using V = get_value_t<A>;
    details::mpi_init<V, get_rank<A>> r;
    r.s = details::shape_of(a);
    if constexpr (is_scalar_v<V>) {
      auto v = mpi::exchange_vec(c, std::string(all ? "all_reduce" : "reduce") + " array root " + std::to_string(root) + " op " + std::to_string(op), details::to_vec(a));
      for (auto &x : v)
        if (x.size() != v[0].size()) NDA_STANDIN_ERROR("mpi : reduce of arrays of different sizes");
      r.has = all || c.rank() == root;
      if (r.has) {
        r.v = v[0];
        for (size_t k = 1; k < v.size(); ++k)
          for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = mpi::sim::combine(r.v[i], v[k][i], op);
      }
    } else {
      for_each(a.shape(), [&](auto... i) { r.v.push_back(V(mpi::reduce(a(i...), c, root, all, op))); });
    }
    return r;
  }
  template <typename A> requires(is_arr<A>) void mpi_reduce_in_place(A &&a, mpi::communicator c = {}, int root = 0, bool all = false, MPI_Op op = MPI_SUM) {
    auto r = mpi_reduce(a, c, root, all, op);
    r.invoke(a);
  }
  template <typename A> requires(is_arr<A>) auto mpi_scatter(A const &a, mpi::communicator c = {}, int root = 0, bool all = false) {
    using V = get_value_t<A>;
    details::mpi_init<V, get_rank<A>> r;
    auto v     = mpi::exchange_vec(c, "scatter array root " + std::to_string(root), details::to_vec(a));
    auto s     = details::shape_of(a);
    mpi::mpi_broadcast(s, c, root);
    auto &x    = mpi::sim::W().running ? v[root] : v[0];
    auto [i, j] = mpi::chunk_pair(0, s[0], c.size(), c.rank());
    long row   = s[0] ? long(x.size()) / s[0] : 0;
    r.s        = s;
    r.s[0]     = j - i;
    r.v.assign(x.begin() + i * row, x.begin() + j * row);
    return r;
  }
  template <typename A> requires(is_arr<A>) auto mpi_gather(A const &a, mpi::communicator c = {}, int root = 0, bool all = false) {
    using V = get_value_t<A>;
    details::mpi_init<V, get_rank<A>> r;
    auto v = mpi::exchange_vec(c, std::string(all ? "all_gather" : "gather") + " array root " + std::to_string(root), details::to_vec(a));
    r.s    = details::shape_of(a);
    long n = mpi::mpi_reduce(r.s[0], c, 0, true);
    if (all || c.rank() == root) {
      r.s[0] = n;
      for (auto &x : v) r.v.insert(r.v.end(), x.begin(), x.end());
    } else
      r.s.fill(0);
    return r;
  }
} // namespace nda
