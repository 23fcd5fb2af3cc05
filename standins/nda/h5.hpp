#pragma once
#include <h5/h5.hpp>
#include "nda.hpp"
namespace nda {
  template <MemoryArray A> void h5_write(h5::group g, std::string const &name, A const &a, bool = true) {
    using V         = get_value_t<A>;
    constexpr int R = get_rank<A>;
    if constexpr (is_scalar_v<V>) {
      std::vector<V> v_;
      std::unique_ptr<V[]> buf(new V[a.size() + 1]);
      long n = 0;
      for_each(a.shape(), [&](auto... i) { buf[n++] = a(i...); });
      h5::details::write_block(g, name, buf.get(), std::vector<hsize_t>(a.shape().begin(), a.shape().end()));
    } else if constexpr (std::is_same_v<V, std::string>) {
      std::vector<std::string> v(a.begin(), a.end());
      h5::details::write_strings(g, name, v, std::vector<hsize_t>(a.shape().begin(), a.shape().end()));
    } else {
      auto gr = g.create_group(name);
      h5_write(gr, "shape", std::array<long, R>(a.shape()));
      for_each(a.shape(), [&](auto... i) {
        std::string k;
        ((k += (k.empty() ? "" : "_") + std::to_string(i)), ...);
        h5_write(gr, k, a(i...));
      });
    }
  }
  template <MemoryArray A> void h5_read(h5::group g, std::string const &name, A &&a) {
    using V         = get_value_t<A>;
    constexpr int R = get_rank<A>;
    auto prepare    = [&](std::vector<hsize_t> const &d) {
      if (int(d.size()) != R) NDA_STANDIN_ERROR("h5 : rank mismatch reading the array " << name << ": " << d.size() << " for " << R);
      std::array<long, R> s;
      std::copy(d.begin(), d.end(), s.begin());
      if constexpr (std::remove_cvref_t<A>::is_owner)
        a.resize(s);
      else if (a.shape() != s)
        NDA_STANDIN_ERROR("h5 : shape mismatch reading the array view " << name);
    };
    if constexpr (is_scalar_v<V>) {
      bool fc = false;
      prepare(h5::details::block_dims<V>(g, name, &fc));
      std::unique_ptr<V[]> buf(new V[a.size() + 1]);
      h5::details::read_block(g, name, buf.get());
      long n = 0;
      for_each(a.shape(), [&](auto... i) { a(i...) = buf[n++]; });
    } else if constexpr (std::is_same_v<V, std::string>) {
      std::vector<hsize_t> d;
      auto v = h5::details::read_strings(g, name, d);
      prepare(d);
      std::copy(v.begin(), v.end(), a.begin());
    } else {
      auto gr = g.open_group(name);
      std::array<long, R> s;
      h5_read(gr, "shape", s);
      a.resize(s);
      for_each(a.shape(), [&](auto... i) {
        std::string k;
        ((k += (k.empty() ? "" : "_") + std::to_string(i)), ...);
        h5_read(gr, k, a(i...));
      });
    }
  }
} // namespace nda
namespace h5 {
  template <typename T, int R, typename L, char A, typename CP> struct hdf5_format_impl<nda::basic_array<T, R, L, A, CP>> {
    static std::string invoke() { return "array"; }
  };
} // namespace h5
