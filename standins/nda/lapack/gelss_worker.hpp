// linear least squares by singular value decomposition (one-sided Jacobi), with the interface of nda
#pragma once
#include <optional>
#include "../nda.hpp"
namespace nda::lapack {
  template <typename T> class gelss_worker {
    long M, N;
    matrix<T> pinv, img; // pseudo inverse; orthonormal basis of the image, in columns
    array<double, 1> s_vec;

    double residual(vector<T> b) const { // the norm of the part orthogonal to the image
      for (long j = 0; j < N; ++j) {
        T d{};
        for (long k = 0; k < M; ++k) d += nda::details::sconj(img(k, j)) * b(k);
        for (long k = 0; k < M; ++k) b(k) -= d * img(k, j);
      }
      double e = 0;
      for (long k = 0; k < M; ++k) e += std::norm(b(k));
      return std::sqrt(e);
    }

    public:
    int n_var() const { return static_cast<int>(N); }
    array<double, 1> const &S_vec() const { return s_vec; }
    gelss_worker(matrix_const_view<T> A) : M(A.shape()[0]), N(A.shape()[1]), s_vec(std::min(M, N)) {
      if (N > M) NDA_STANDIN_ERROR("ERROR: Matrix A for linear least square procedure cannot have more columns than rows");
      using nda::details::sconj;
      matrix<T> u(A);
      matrix<T> v(N, N);
      v = T(1);
      for (int sweep = 0; sweep < 100; ++sweep) {
        bool done = true;
        for (long p = 0; p < N; ++p)
          for (long q = p + 1; q < N; ++q) {
            double a = 0, b = 0;
            T g{};
            for (long k = 0; k < M; ++k) {
              a += std::norm(u(k, p));
              b += std::norm(u(k, q));
              g += sconj(u(k, p)) * u(k, q);
            }
            double r = std::abs(g);
            if (r <= 1e-15 * std::sqrt(a * b) || r == 0) continue;
            done         = false;
            T ph         = g / r;
            double theta = (b - a) / (2 * r);
            double t     = (theta >= 0 ? 1.0 : -1.0) / (std::abs(theta) + std::sqrt(theta * theta + 1));
            double c = 1 / std::sqrt(t * t + 1), s = t * c;
            auto rot = [&](matrix<T> &m, long n) {
              for (long k = 0; k < n; ++k) {
                T x = m(k, p), y = m(k, q);
                m(k, p) = c * x - s * sconj(ph) * y;
                m(k, q) = s * ph * x + c * y;
              }
            };
            rot(u, M);
            rot(v, N);
          }
        if (done) break;
      }
      std::vector<double> sv(N);
      for (long i = 0; i < N; ++i) {
        double a = 0;
        for (long k = 0; k < M; ++k) a += std::norm(u(k, i));
        sv[i] = std::sqrt(a);
      }
      pinv = matrix<T>::zeros(N, M);
      for (long i = 0; i < N; ++i)
        for (long j = 0; j < N; ++j)
          for (long k = 0; k < M; ++k) pinv(i, k) += v(i, j) * sconj(u(k, j)) / (sv[j] * sv[j]);
      img = u;
      for (long j = 0; j < N; ++j)
        for (long k = 0; k < M; ++k) img(k, j) = u(k, j) / sv[j];
      std::sort(sv.rbegin(), sv.rend());
      for (long i = 0; i < N; ++i) s_vec(i) = sv[i];
    }
    std::pair<matrix<T>, double> operator()(matrix_const_view<T> B, std::optional<long> = {}) const {
      double err = 0;
      if (M != N)
        for (long i = 0; i < B.shape()[1]; ++i) {
          err = std::max(err, residual(vector<T>(B(range::all, i))) / std::sqrt(double(B.shape()[0])));
        }
      return {matrix<T>(pinv * B), err};
    }
    std::pair<vector<T>, double> operator()(vector_const_view<T> B, std::optional<long> = {}) const {
      double err = 0;
      if (M != N) err = residual(vector<T>(B)) / std::sqrt(double(B.shape()[0]));
      return {vector<T>(pinv * B), err};
    }
  };

  struct gelss_worker_hermitian {
    private:
    static matrix<dcomplex> vstack(matrix_const_view<dcomplex> a, matrix_const_view<dcomplex> b) {
      matrix<dcomplex> r(a.shape()[0] + b.shape()[0], a.shape()[1]);
      r(range(a.shape()[0]), range::all)                                 = a;
      r(range(a.shape()[0], a.shape()[0] + b.shape()[0]), range::all) = b;
      return r;
    }
    gelss_worker<dcomplex> _lss, _lss_matrix;

    public:
    int n_var() const { return _lss.n_var(); }
    array<double, 1> const &S_vec() const { return _lss.S_vec(); }
    gelss_worker_hermitian(matrix_const_view<dcomplex> A) : _lss(A), _lss_matrix(vstack(A, matrix<dcomplex>(conj(A)))) {}
    std::pair<matrix<dcomplex>, double> operator()(matrix_const_view<dcomplex> B, std::optional<long> inner_matrix_dim = {}) const {
      if (!inner_matrix_dim) NDA_STANDIN_ERROR("Error in gelss_worker_hermitian: Inner matrix dimension required for hermitian least square fitting");
      long d = *inner_matrix_dim;
      if (d != 1 && d != 2 && B.shape()[1] % (d * d) != 0) NDA_STANDIN_ERROR("gelss_worker_hermitian : columns");
      auto inner_adjoint = [d](auto const &m) {
        matrix<dcomplex> r(m.shape()[0], m.shape()[1]);
        if (m.shape()[1] % (d * d) != 0) NDA_STANDIN_ERROR("ERROR in gelss_worker_hermitian: Data shape incompatible with given dimension");
        for (long i = 0; i < m.shape()[0]; ++i)
          for (long b = 0; b < m.shape()[1] / (d * d); ++b)
            for (long j = 0; j < d; ++j)
              for (long k = 0; k < d; ++k) r(i, b * d * d + j * d + k) = std::conj(m(i, b * d * d + k * d + j));
        return r;
      };
      auto [x, err] = _lss_matrix(vstack(B, inner_adjoint(B)));
      return {matrix<dcomplex>(0.5 * (x + inner_adjoint(x))), err};
    }
    std::pair<vector<dcomplex>, double> operator()(vector_const_view<dcomplex> B, std::optional<long> = {}) const {
      matrix<dcomplex> m(B.shape()[0], 1);
      for (long i = 0; i < B.shape()[0]; ++i) m(i, 0) = B(i);
      auto [x, err] = (*this)(m, 1);
      return {vector<dcomplex>(x(range::all, 0)), err};
    }
  };
} // namespace nda::lapack
