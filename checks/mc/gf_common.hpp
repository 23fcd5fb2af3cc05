// Shared by the harnesses of Green's functions: the content of a function as plain numbers, fills, meshes
#pragma once
#include "explore.hpp"
#include <triqs/gfs.hpp>
#include <triqs/mesh.hpp>
#include <memory>
using namespace triqs::gfs;
using namespace triqs::mesh;
using triqs::lattice::bravais_lattice;
using triqs::lattice::brillouin_zone;
using cplx = std::complex<double>;
using arr3 = std::array<long, 3>;
using mat  = nda::matrix<cplx>;
[[maybe_unused]] static const auto _ = nda::range::all;

// ---------------------------------------------------------------- oracle: a value at a point (n x m row major)
struct Val {
  int n = 1, m = 1;
  std::vector<cplx> x;
};
[[maybe_unused]] static Val inv(Val const &a) { // Gauss-Jordan with pivoting
  int n = a.n;
  std::vector<std::vector<cplx>> A(n, std::vector<cplx>(2 * n));
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) A[i][j] = a.x[i * n + j];
    A[i][n + i] = 1;
  }
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int i = c; i < n; ++i)
      if (std::abs(A[i][c]) > std::abs(A[p][c])) p = i;
    std::swap(A[c], A[p]);
    cplx d = A[c][c];
    for (auto &z : A[c]) z /= d;
    for (int i = 0; i < n; ++i)
      if (i != c) {
        cplx f = A[i][c];
        for (int j = 0; j < 2 * n; ++j) A[i][j] -= f * A[c][j];
      }
  }
  Val r{n, n, {}};
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) r.x.push_back(A[i][n + j]);
  return r;
}
[[maybe_unused]] static Val mul(Val const &a, Val const &b) {
  Val r{a.n, b.m, {}};
  for (int i = 0; i < a.n; ++i)
    for (int j = 0; j < b.m; ++j) {
      cplx s = 0;
      for (int k = 0; k < a.m; ++k) s += a.x[i * a.m + k] * b.x[k * b.m + j];
      r.x.push_back(s);
    }
  return r;
}
[[maybe_unused]] static Val scale(Val a, cplx s) {
  for (auto &z : a.x) z *= s;
  return a;
}
[[maybe_unused]] static Val add(Val a, Val const &b, double s) {
  for (size_t i = 0; i < a.x.size(); ++i) a.x[i] += s * b.x[i];
  return a;
}
[[maybe_unused]] static Val op2(int op, Val const &a, Val const &b) {
  switch (op) {
    case 0: return add(a, b, 1);
    case 1: return add(a, b, -1);
    case 2: return mul(a, b);
    default: return mul(a, inv(b));
  }
}
using Fun = std::vector<Val>; // over the points of the mesh, in memory order
template <typename F> Fun zip(Fun const &a, Fun const &b, F f) {
  Fun r;
  for (size_t i = 0; i < a.size(); ++i) r.push_back(f(a[i], b[i]));
  return r;
}
template <typename F> Fun each(Fun const &a, F f) {
  Fun r;
  for (auto const &v : a) r.push_back(f(v));
  return r;
}
// content of a function, whatever its layout
template <typename G> Fun content(G const &g) {
  constexpr int tr = G::target_rank;
  Fun r;
  auto sh  = g.target_shape();
  long n   = 1;
  for (auto s : sh) n *= s;
  Val v;
  if constexpr (tr == 2) v.n = int(sh[0]), v.m = int(sh[1]);
  else v.n = int(n), v.m = 1;
  auto a = nda::array<typename G::scalar_t, G::data_rank>(g.data());
  auto const *p = a.data();
  for (long i = 0; i < a.size(); i += n) {
    Val w = v;
    for (long k = 0; k < n; ++k) w.x.push_back(p[i + k]);
    r.push_back(w);
  }
  return r;
}
[[maybe_unused]] static bool same(Fun const &a, Fun const &b, double tol = 1e-11) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].n != b[i].n || a[i].m != b[i].m || a[i].x.size() != b[i].x.size()) return false;
    for (size_t k = 0; k < a[i].x.size(); ++k)
      if (!(std::abs(a[i].x[k] - b[i].x[k]) <= tol * (1 + std::abs(b[i].x[k])))) return false;
  }
  return true;
}
[[maybe_unused]] static std::string text(Fun const &f) {
  std::ostringstream o;
  for (size_t i = 0; i < f.size() && i < 3; ++i) {
    for (auto z : f[i].x) o << z;
    o << " ";
  }
  return o.str();
}
template <typename G> void expect(G const &g, typename G::mesh_t const &m, Fun const &want, const char *key, std::string const &what) {
  ex::step();
  auto got = content(g);
  bool ok = g.mesh() == m;
  ex::check(ok, std::string(key) + "-mesh", what, ": mesh of the result");
  ex::check(same(got, want), key, what, ": ", text(got), "instead of ", text(want));
}
template <typename T> struct shape_of { [[maybe_unused]] static std::array<long, 0> get(int) { return {}; } };
template <> struct shape_of<matrix_valued> { [[maybe_unused]] static std::array<long, 2> get(int n = 2) { return {n, n}; } };
template <> struct shape_of<matrix_real_valued> { [[maybe_unused]] static std::array<long, 2> get(int n = 2) { return {n, n}; } };
template <> struct shape_of<tensor_valued<3>> { [[maybe_unused]] static std::array<long, 3> get(int n = 2) { return {n, 1, 3}; } };
template <typename G> void fill(G &&g, int seed) { // irregular, diagonally dominant
  long i = seed * 1000;
  auto sh = g.target_shape();
  long n = 1;
  for (auto s : sh) n *= s;
  long k = 0;
  for (auto &x : g.data()) {
    ++i;
    double a = double((i * 37) % 19 - 9) / 8, b = double((i * 53) % 17 - 8) / 8;
    long c = k++ % n;
    bool dg = sh.size() == 0 || (sh.size() == 2 && c / sh[1] == c % sh[1]);
    if (dg) a += 4 * seed;
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>)
      x = a;
    else
      x = cplx(a, b);
  }
}
template <typename T> T conv(cplx z) {
  if constexpr (std::is_same_v<T, double>) return z.real();
  else return z;
}
template <typename F> bool refuses(F f) {
  try {
    f();
  } catch (triqs::runtime_error const &) { return true; }
  return false;
}
[[maybe_unused]] static bravais_lattice square() { return bravais_lattice{{{1, 0}, {0, 1}}}; }
// two meshes of each kind: the one of the operands and another one
template <typename M> M mesh_of(int k);
template <> imfreq mesh_of<imfreq>(int k) { return k == 0 ? imfreq{2.0, Fermion, 2} : k == 1 ? imfreq{2.0, Boson, 3} : imfreq{2.0, Fermion, 3}; }
template <> imtime mesh_of<imtime>(int k) { return k == 0 ? imtime{2.0, Fermion, 3} : k == 1 ? imtime{2.0, Fermion, 5} : imtime{3.0, Fermion, 3}; }
template <> refreq mesh_of<refreq>(int k) { return k == 0 ? refreq{-1, 2, 3} : k == 1 ? refreq{-1, 2, 4} : refreq{-1, 1, 3}; }
template <> retime mesh_of<retime>(int k) { return k == 0 ? retime{-1, 2, 3} : k == 1 ? retime{-1, 2, 4} : retime{-1, 1, 3}; }
template <> legendre mesh_of<legendre>(int k) { return k == 0 ? legendre{2.0, Fermion, 3} : k == 1 ? legendre{2.0, Fermion, 4} : legendre{3.0, Fermion, 3}; }
template <> dlr_imtime mesh_of<dlr_imtime>(int k) { return k == 0 ? dlr_imtime{2.0, Fermion, 1.0, 1e-2} : k == 1 ? dlr_imtime{2.0, Fermion, 4.0, 1e-6} : dlr_imtime{3.0, Fermion, 1.0, 1e-2}; }
template <> brzone mesh_of<brzone>(int k) { return k == 0 ? brzone{brillouin_zone{square()}, 2} : k == 1 ? brzone{brillouin_zone{square()}, 3} : brzone{brillouin_zone{bravais_lattice{{{2, 0}, {0, 1}}}}, 2}; }
template <> prod<imfreq, imtime> mesh_of<prod<imfreq, imtime>>(int k) { return {mesh_of<imfreq>(0), mesh_of<imtime>(k)}; }
template <> prod<brzone, refreq> mesh_of<prod<brzone, refreq>>(int k) { return {mesh_of<brzone>(k), mesh_of<refreq>(0)}; }
