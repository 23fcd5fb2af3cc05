#pragma once
#include "../nda.hpp"
namespace nda::linalg {
  namespace details {
    // cyclic Jacobi diagonalisation of a Hermitian matrix: eigenvalues ascending, eigenvectors in columns
    template <typename V> std::pair<array<double, 1>, matrix<V>> jacobi(matrix<V> a) {
      long n = a.shape()[0];
      if (a.shape()[1] != n) NDA_STANDIN_ERROR("nda : eigenelements of a rectangular matrix");
      for (long i = 0; i < n; ++i) // only one triangle is used, as LAPACK
        for (long j = 0; j < i; ++j) a(i, j) = nda::details::sconj(a(j, i));
      for (long i = 0; i < n; ++i) a(i, i) = nda::details::sreal(a(i, i));
      matrix<V> u(n, n);
      u = V(1);
      for (int sweep = 0; sweep < 100; ++sweep) {
        double off = 0, tot = 0;
        for (long i = 0; i < n; ++i)
          for (long j = 0; j < n; ++j) (i == j ? tot : off) += std::norm(a(i, j));
        if (off <= 1e-34 * (tot + off) || off == 0) break;
        for (long p = 0; p < n; ++p)
          for (long q = p + 1; q < n; ++q) {
            double r = std::abs(a(p, q));
            if (r == 0) continue;
            V ph         = a(p, q) / r; // e^{i phi}
            double theta = (nda::details::sreal(a(q, q)) - nda::details::sreal(a(p, p))) / (2 * r);
            double t     = (theta >= 0 ? 1.0 : -1.0) / (std::abs(theta) + std::sqrt(theta * theta + 1));
            double c = 1 / std::sqrt(t * t + 1), s = t * c;
            // columns: p' = c p - s conj(ph) q ; q' = s ph p + c q
            for (long k = 0; k < n; ++k) {
              V x = a(k, p), y = a(k, q);
              a(k, p) = c * x - s * nda::details::sconj(ph) * y;
              a(k, q) = s * ph * x + c * y;
              x = u(k, p), y = u(k, q);
              u(k, p) = c * x - s * nda::details::sconj(ph) * y;
              u(k, q) = s * ph * x + c * y;
            }
            for (long k = 0; k < n; ++k) {
              V x = a(p, k), y = a(q, k);
              a(p, k) = c * x - s * ph * y;
              a(q, k) = s * nda::details::sconj(ph) * x + c * y;
            }
            a(p, q) = a(q, p) = V{};
          }
      }
      std::vector<long> idx(n);
      for (long i = 0; i < n; ++i) idx[i] = i;
      std::stable_sort(idx.begin(), idx.end(), [&](long i, long j) { return nda::details::sreal(a(i, i)) < nda::details::sreal(a(j, j)); });
      array<double, 1> ev(n);
      matrix<V> vec(n, n);
      for (long i = 0; i < n; ++i) {
        ev(i) = nda::details::sreal(a(idx[i], idx[i]));
        for (long k = 0; k < n; ++k) vec(k, i) = u(k, idx[i]);
      }
      return {ev, vec};
    }
  } // namespace details
  template <typename M> auto eigenelements(M const &m) { return details::jacobi(matrix<get_value_t<M>>(m)); }
  template <typename M> array<double, 1> eigenvalues(M const &m) { return details::jacobi(matrix<get_value_t<M>>(m)).first; }
  template <typename M> array<double, 1> eigenvalues_in_place(M const &m) { return eigenvalues(m); }
} // namespace nda::linalg
