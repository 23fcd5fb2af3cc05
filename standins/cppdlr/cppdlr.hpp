// Stand-in for cppdlr: the discrete Lehmann representation by pivoted Gram-Schmidt on the kernel
#pragma once
#include <complex>
#include <vector>
#include <nda/nda.hpp>
#include <nda/h5.hpp>
#include <nda/lapack.hpp>

namespace cppdlr {
  enum statistic_t { Boson = 0, Fermion = 1 };
  using dcomplex = std::complex<double>;

  // t in relative format: in [0, 1/2], or in [-1/2, 0) for t - 1; also accepts t in (1/2, 1]
  inline double k_it(double t, double om) {
    double u = t >= 0 ? t : 1 + t, v = t >= 0 ? 1 - t : -t; // u + v = 1
    if (om >= 0) return -std::exp(-u * om) / (1 + std::exp(-om));
    return -std::exp(v * om) / (1 + std::exp(om));
  }
  inline dcomplex k_if(int n, double om, statistic_t s) {
    const double pi = std::acos(-1.0);
    if (s == Fermion) return 1.0 / (dcomplex(0, (2 * n + 1) * pi) - om);
    if (n == 0 && om == 0) return -0.5;
    return std::tanh(0.5 * om) / (dcomplex(0, 2 * n * pi) - om);
  }

  namespace details {
    // indices of at most rmax rows of a, chosen by pivoting, down to the relative norm eps
    template <typename T> std::vector<long> pivot(std::vector<std::vector<T>> a, double eps, long rmax) {
      std::vector<long> idx;
      auto norm2 = [](auto const &v) {
        double s = 0;
        for (auto const &x : v) s += std::norm(x);
        return s;
      };
      double n0 = -1;
      while (long(idx.size()) < rmax) {
        long b    = -1;
        double bn = -1;
        for (long i = 0; i < long(a.size()); ++i)
          if (double n = norm2(a[i]); n > bn * (1 + 1e-9)) {
            bn = n;
            b  = i;
          }
        if (n0 < 0) n0 = bn;
        if (bn <= 4 * eps * eps * n0) break;
        idx.push_back(b);
        auto q = a[b];
        for (auto &x : q) x /= std::sqrt(bn);
        for (auto &r : a) {
          T d{};
          for (size_t k = 0; k < q.size(); ++k) d += nda::details::sconj(q[k]) * r[k];
          for (size_t k = 0; k < q.size(); ++k) r[k] -= d * q[k];
        }
        for (auto &x : a[b]) x = 0;
      }
      return idx;
    }
    inline std::vector<double> grid(double lo, double hi) { // dyadic panels towards 0
      std::vector<double> r;
      for (double b = hi; b > lo; b /= 2)
        for (int k = 0; k < 8; ++k) r.push_back(b / 2 + b / 2 * (k + 0.5) / 8);
      return r;
    }
    inline std::vector<double> omegas(double lambda) {
      std::vector<double> om;
      for (double x : grid(std::min(0.2, lambda / 4), lambda)) {
        om.push_back(x);
        om.push_back(-x);
      }
      return om;
    }
    inline std::vector<double> taus(double lambda) {
      std::vector<double> t;
      for (double x : grid(0.2 / std::max(1.0, lambda), 0.5)) {
        t.push_back(x);
        t.push_back(-x);
      }
      return t;
    }
    template <typename K, typename A, typename V = std::common_type_t<nda::get_value_t<K>, nda::get_value_t<A>>>
    auto apply(K const &k, A const &g) {
      constexpr int R = nda::get_rank<A>;
      auto s          = std::array<long, R>(g.shape());
      long n = s[0], cols = n ? g.size() / n : 0;
      if (k.shape()[1] != n) NDA_STANDIN_ERROR("cppdlr : the size of the data does not match the number of nodes");
      s[0] = k.shape()[0];
      nda::array<V, R> r(s);
      nda::array<nda::get_value_t<A>, R> gc(g);
      for (long i = 0; i < s[0]; ++i)
        for (long c = 0; c < cols; ++c) {
          V x{};
          for (long j = 0; j < n; ++j) x += k(i, j) * gc.data()[j * cols + c];
          r.data()[i * cols + c] = x;
        }
      return r;
    }
  } // namespace details

  namespace details {
    // solve k x = g by LU with partial pivoting (backward stable, unlike a product with the inverse)
    template <typename K, typename A> auto solve(K const &k, A const &g) {
      using V         = std::common_type_t<nda::get_value_t<K>, nda::get_value_t<A>>;
      constexpr int R = nda::get_rank<A>;
      auto s          = std::array<long, R>(g.shape());
      long n = s[0], cols = n ? g.size() / n : 0;
      if (k.shape()[0] != n) NDA_STANDIN_ERROR("cppdlr : the size of the data does not match the number of nodes");
      nda::matrix<nda::get_value_t<K>> m(k);
      nda::array<V, R> r(s);
      nda::array<nda::get_value_t<A>, R> gc(g);
      for (long i = 0; i < r.size(); ++i) r.data()[i] = gc.data()[i];
      for (long j = 0; j < n; ++j) {
        long p = j;
        for (long i = j + 1; i < n; ++i)
          if (std::abs(m(i, j)) > std::abs(m(p, j))) p = i;
        if (p != j) {
          for (long c = 0; c < n; ++c) std::swap(m(p, c), m(j, c));
          for (long c = 0; c < cols; ++c) std::swap(r.data()[p * cols + c], r.data()[j * cols + c]);
        }
        for (long i = j + 1; i < n; ++i) {
          auto f = m(i, j) / m(j, j);
          for (long c = j; c < n; ++c) m(i, c) -= f * m(j, c);
          for (long c = 0; c < cols; ++c) r.data()[i * cols + c] -= f * r.data()[j * cols + c];
        }
      }
      for (long j = n - 1; j >= 0; --j)
        for (long c = 0; c < cols; ++c) {
          V x = r.data()[j * cols + c];
          for (long i = j + 1; i < n; ++i) x -= m(j, i) * r.data()[i * cols + c];
          r.data()[j * cols + c] = x / m(j, j);
        }
      return r;
    }
  } // namespace details

  inline nda::vector<double> build_dlr_rf(double lambda, double eps) {
    auto om = details::omegas(lambda);
    auto ts = details::taus(lambda);
    std::vector<std::vector<double>> a;
    for (double o : om) {
      a.emplace_back();
      for (double t : ts) a.back().push_back(k_it(t, o));
    }
    auto idx = details::pivot(a, eps, long(om.size()));
    std::vector<double> f;
    for (auto i : idx) f.push_back(om[i]);
    std::sort(f.begin(), f.end());
    nda::vector<double> r(f.size());
    std::copy(f.begin(), f.end(), r.begin());
    return r;
  }

  class imtime_ops {
    double lambda_ = 0;
    nda::vector<double> rf, nodes;
    nda::matrix<double> cf2it;

    public:
    imtime_ops() = default;
    imtime_ops(double lambda, nda::vector_const_view<double> f) : lambda_(lambda), rf(f), nodes(f.size()), cf2it(f.size(), f.size()) {
      auto ts = details::taus(lambda);
      std::vector<std::vector<double>> a;
      for (double t : ts) {
        a.emplace_back();
        for (double o : rf) a.back().push_back(k_it(t, o));
      }
      auto idx = details::pivot(a, 0, rf.size());
      std::vector<double> v;
      for (auto i : idx) v.push_back(ts[i]);
      std::sort(v.begin(), v.end(), [](double x, double y) { return (x < 0 ? 1 + x : x) < (y < 0 ? 1 + y : y); });
      std::copy(v.begin(), v.end(), nodes.begin());
      for (long i = 0; i < rf.size(); ++i)
        for (long j = 0; j < rf.size(); ++j) cf2it(i, j) = k_it(nodes(i), rf(j));
    }
    nda::vector_const_view<double> get_itnodes() const { return nodes; }
    nda::vector_const_view<double> get_rfnodes() const { return rf; }
    long rank() const { return rf.size(); }
    template <typename A> auto vals2coefs(A const &g) const { return details::solve(cf2it, g); }
    template <typename A> auto coefs2vals(A const &g) const { return details::apply(cf2it, g); }
    template <typename T, typename A> auto fitvals2coefs(T const &t, A const &g) const {
      nda::matrix<dcomplex> k(t.shape()[0], rf.size());
      for (long i = 0; i < t.shape()[0]; ++i)
        for (long j = 0; j < rf.size(); ++j) k(i, j) = k_it(t(i), rf(j));
      constexpr int R = nda::get_rank<A>;
      auto s          = std::array<long, R>(g.shape());
      long cols       = g.size() / s[0];
      nda::array<dcomplex, R> gc(g);
      nda::matrix<dcomplex> b(s[0], cols);
      std::copy(gc.begin(), gc.end(), b.begin());
      auto [x, e] = nda::lapack::gelss_worker<dcomplex>(k)(b);
      s[0]        = rf.size();
      nda::array<nda::get_value_t<A>, R> r(s);
      for (long i = 0; i < r.size(); ++i)
        if constexpr (nda::is_complex_v<nda::get_value_t<A>>) r.data()[i] = x.data()[i];
        else r.data()[i] = x.data()[i].real();
      return r;
    }
    static std::string hdf5_format() { return "cppdlr::imtime_ops"; }
    friend void h5_write(h5::group fg, std::string const &n, imtime_ops const &m) {
      auto g = fg.create_group(n);
      h5::write_hdf5_format(g, m);
      h5_write(g, "lambda", m.lambda_);
      h5_write(g, "rf", m.rf);
      h5_write(g, "it", m.nodes);
      h5_write(g, "cf2it", m.cf2it);
    }
    friend void h5_read(h5::group fg, std::string const &n, imtime_ops &m) {
      auto g = fg.open_group(n);
      h5_read(g, "lambda", m.lambda_);
      h5_read(g, "rf", m.rf);
      h5_read(g, "it", m.nodes);
      h5_read(g, "cf2it", m.cf2it);
    }
  };

  class imfreq_ops {
    double lambda_    = 0;
    statistic_t stat_ = Fermion;
    nda::vector<double> rf;
    nda::vector<int> nodes;
    nda::matrix<dcomplex> cf2if;

    public:
    imfreq_ops() = default;
    imfreq_ops(double lambda, nda::vector_const_view<double> f, statistic_t s)
       : lambda_(lambda), stat_(s), rf(f), nodes(f.size()), cf2if(f.size(), f.size()) {
      std::vector<int> ns;
      int nmax = std::max(20, int(2 * lambda));
      for (int n = 0; n <= nmax; n = (n < 30 ? n + 1 : int(n * 1.05) + 1)) {
        ns.push_back(n);
        if (s == Fermion || n > 0) ns.push_back(s == Fermion ? -n - 1 : -n);
      }
      std::vector<std::vector<dcomplex>> a;
      for (int n : ns) {
        a.emplace_back();
        for (double o : rf) a.back().push_back(k_if(n, o, s));
      }
      auto idx = details::pivot(a, 0, rf.size());
      std::vector<int> v;
      for (auto i : idx) v.push_back(ns[i]);
      std::sort(v.begin(), v.end());
      std::copy(v.begin(), v.end(), nodes.begin());
      for (long i = 0; i < rf.size(); ++i)
        for (long j = 0; j < rf.size(); ++j) cf2if(i, j) = k_if(nodes(i), rf(j), s);
    }
    nda::vector_const_view<int> get_ifnodes() const { return nodes; }
    nda::vector_const_view<double> get_rfnodes() const { return rf; }
    long rank() const { return rf.size(); }
    template <typename A> auto vals2coefs(A const &g) const { return details::solve(cf2if, g); }
    template <typename A> auto coefs2vals(A const &g) const { return details::apply(cf2if, g); }
    static std::string hdf5_format() { return "cppdlr::imfreq_ops"; }
    friend void h5_write(h5::group fg, std::string const &n, imfreq_ops const &m) {
      auto g = fg.create_group(n);
      h5::write_hdf5_format(g, m);
      h5_write(g, "lambda", m.lambda_);
      h5_write(g, "statistic", int(m.stat_));
      h5_write(g, "rf", m.rf);
      h5_write(g, "if", m.nodes);
      h5_write(g, "cf2if", m.cf2if);
    }
    friend void h5_read(h5::group fg, std::string const &n, imfreq_ops &m) {
      auto g = fg.open_group(n);
      int s;
      h5_read(g, "lambda", m.lambda_);
      h5_read(g, "statistic", s);
      m.stat_ = statistic_t(s);
      h5_read(g, "rf", m.rf);
      h5_read(g, "if", m.nodes);
      h5_read(g, "cf2if", m.cf2if);
    }
  };
} // namespace cppdlr
