// C23, C25, C26, C37: meshes, product meshes, lattice meshes and lattices
#include "explore.hpp"
#include <triqs/gfs.hpp>
#include <triqs/mesh/adjoint.hpp>
#include <triqs/mesh/discrete.hpp>
#include <triqs/mesh/evaluate.hpp>
#include <triqs/lattice/brillouin_zone.hpp>
#include <optional>
#include <unistd.h>
using namespace triqs::mesh;
using triqs::lattice::bravais_lattice;
using triqs::lattice::brillouin_zone;
using cplx = std::complex<double>;
using arr3 = std::array<long, 3>;
template <typename T> std::string text(T const &x) {
  std::ostringstream s;
  if constexpr (std::is_same_v<T, arr3>)
    s << "(" << x[0] << "," << x[1] << "," << x[2] << ")";
  else
    s << x;
  return s.str();
}
template <typename T> T rw(T const &x) {
  char name[] = "/tmp/mesh_XXXXXX";
  ::close(mkstemp(name));
  T y;
  {
    h5::file f(name, 'w');
    h5_write(f, "x", x);
  }
  {
    h5::file f(name, 'r');
    h5_read(f, "x", y);
  }
  ::unlink(name);
  return y;
}
static bool near(double a, double b, double tol = 1e-13) { return std::abs(a - b) <= tol * std::max({1.0, std::abs(a), std::abs(b)}); }
static bool same_value(double a, double b) { return a == b; }
static bool same_value(matsubara_freq a, matsubara_freq b) { return a.n == b.n && a.beta == b.beta && a.statistic == b.statistic; }
static bool same_value(nda::vector<double> const &a, nda::vector<double> const &b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (a(i) != b(i)) return false;
  return true;
}
static bool same_value(bravais_lattice::point_t const &a, bravais_lattice::point_t const &b) { return a.index() == b.index() && a.lattice() == b.lattice(); }
template <typename B, typename E> long walk_length(B b, E const &e) {
  long k = 0;
  for (; k < 100000 && b != e; ++b) ++k;
  return k;
}
// everything that does not depend on the type of mesh
template <typename M> void check_mesh(M const &m, long size, std::string const &what, bool archive = true) {
  using point = typename M::mesh_point_t;
  static_assert(std::is_same_v<typename point::mesh_t, M>);
  ex::step();
  ex::check(m.size() == size, "size", what, ": ", m.size(), " points instead of ", size);
  long k = 0;
  std::set<typename M::index_t> seen;
  for (auto const &p : m) {
    if (k >= size) break;
    auto idx = p.index();
    auto q = m[k];
    ex::check(p.data_index() == k && q.data_index() == k, "iteration", what, ": point ", k, " of the iteration has data index ", p.data_index());
    ex::check(seen.insert(idx).second, "index-unique", what, ": index ", text(idx), " twice");
    ex::check(q.index() == idx && m.to_index(k) == idx && m.is_index_valid(idx), "index", what, ": point ", k, " has index ", text(idx), ", to_index gives ", text(m.to_index(k)), m.is_index_valid(idx) ? "" : ", which is not valid");
    if (!m.is_index_valid(idx)) break;
    auto r = m(idx);
    ex::check(m.to_data_index(idx) == k && r.data_index() == k && r.index() == idx, "data-index", what, ": index ", text(idx), " has data index ", m.to_data_index(idx));
    ex::check(p.mesh_hash() == m.mesh_hash() && q.mesh_hash() == m.mesh_hash() && r.mesh_hash() == m.mesh_hash(), "point-hash", what);
    if constexpr (MeshWithValues<M>) {
      auto v = m.to_value(idx);
      ex::check(same_value(p.value(), v) && same_value(q.value(), v) && same_value(r.value(), v) && same_value(static_cast<typename M::value_t>(p), v), "value", what, ": value of point ", k);
      point c = p, d0 = point(r), &d = d0;
      if constexpr (std::is_copy_assignable_v<point>) {
        d = c;
        d = point(r);
      }
      ex::check(same_value(c.value(), v) && same_value(d.value(), v) && c.index() == idx && d.data_index() == k, "point-copy", what);
    }
    ++k;
  }
  ex::check(k == size && walk_length(m.begin(), m.end()) == size && walk_length(m.cbegin(), m.cend()) == size, "iteration-length", what, ": ", k, " points iterated");
  // exactly these indices are valid
  if constexpr (std::is_same_v<typename M::index_t, long>) {
    for (long i = -size - 5; i <= size + 5; ++i) ex::check(m.is_index_valid(i) == (seen.count(i) > 0), "index-valid", what, ": index ", i, m.is_index_valid(i) ? " valid" : " not valid");
  } else {
    auto d = m.dims();
    for (long a = -2; a <= d[0] + 1; ++a)
      for (long b = -2; b <= d[1] + 1; ++b)
        for (long c = -2; c <= d[2] + 1; ++c) ex::check(m.is_index_valid({a, b, c}) == (seen.count({a, b, c}) > 0), "index-valid", what, ": index ", text(arr3{a, b, c}));
  }
  M copy = m, assigned;
  assigned = m;
  ex::check(copy == m && assigned == m && !(copy != m) && copy.mesh_hash() == m.mesh_hash(), "copy", what);
  std::ostringstream out;
  out << m;
  ex::check(!out.str().empty(), "print", what);
  if (archive) {
    M b = rw(m);
    ex::check(b == m && b.size() == m.size() && b.mesh_hash() == m.mesh_hash(), "archive", what, ": differs when read back");
    if constexpr (MeshWithValues<M>)
      if (b.size() == size)
        for (long i = 0; i < size; ++i) ex::check(same_value(M(b)[i].value(), m[i].value()) || std::is_same_v<M, cyclat>, "archive-value", what, ": value of point ", i, " after reading");
  }
}
static const std::vector<double> BETAS = {1, 10, 0.3, 25.7, 1000};
template <typename M> void check_closest(M const &m, std::string const &what) {
  long L = m.size();
  double a = m[0].value(), b = m[L - 1].value();
  std::vector<double> pts;
  for (long i = 0; i < L; ++i) {
    double x = m[i].value();
    for (double f : {0., 0.24, 0.49, 0.51, 0.76, -0.24, -0.49}) pts.push_back(x + f * m.delta());
  }
  for (double x : pts) {
    if (x < a || x > b) continue;
    long got = m.to_index(closest_mesh_pt(x));
    double best = 1e300;
    for (long i = 0; i < L; ++i) best = std::min(best, std::abs(m[i].value() - x));
    bool ok = got >= 0 && got < L && std::abs(m[std::clamp(got, 0l, L - 1)].value() - x) <= best * (1 + 1e-9) + 1e-13 * std::max(std::abs(a), std::abs(b));
    ex::check(ok && m.to_data_index(closest_mesh_pt(x)) == got && m[closest_mesh_pt(x)].index() == got, "closest", what, ": the point closest to ", x, " has index ", got);
  }
}
template <typename M> void check_linear(M const &m, double a, double b, long L, std::string const &what) {
  check_mesh(m, L, what);
  ex::check(m.first_index() == 0 && m.last_index() == L - 1, "first-last", what);
  if (L == 0) return;
  ex::check(m[0].value() == a && (L == 1 || m[L - 1].value() == b), "ends", what, ": first and last points are ", m[0].value(), ", ", m[L - 1].value());
  for (long i = 0; i < L; ++i) {
    double want = L == 1 ? a : a + (b - a) * i / (L - 1);
    ex::check(near(m[i].value(), want), "linear-value", what, ": point ", i, " is ", m[i].value(), " instead of ", want);
    if (i) ex::check(m[i].value() > m[i - 1].value(), "monotonic", what);
    auto p = m[i];
    double v = p.value();
    ex::check(p + 1.5 == v + 1.5 && 1.5 - p == 1.5 - v && p * 2 == v * 2 && p / 2. == v / 2. && 2. * p == 2. * v && p - p == 0 && p + p == 2 * v, "point-arithmetic", what);
  }
  if (L > 1) ex::check(near(m.delta(), (b - a) / (L - 1)) && near(m.delta_inv() * m.delta(), 1), "delta", what);
  check_closest(m, what);
}
JOB_SHARDED(mesh_linear, 5) {
  double beta = ex::pick(BETAS);
  int kind = ex::choose(4);
  long L = ex::choose(ex::thorough() ? 40 : 14);
  auto st = kind == 0 ? Fermion : Boson;
  std::ostringstream w;
  if (kind < 2) {
    w << "imtime(" << beta << "," << kind << "," << L << ")";
    imtime m(beta, st, L);
    check_linear(m, 0, beta, L, w.str());
    ex::check(m.beta() == beta && m.statistic() == st, "accessors", w.str());
    if (L > 1) {
      auto a = make_adjoint_mesh(m);
      ex::check(a.beta() == beta && a.statistic() == st && a.last_index() == (L - 1) / 6 - 1 && make_adjoint_mesh(m, 5).last_index() == 4 && !a.positive_only(), "adjoint", w.str());
    }
  } else {
    double a = ex::pick(std::vector<double>{-beta, 0, -3.7, 0.1, 1e5});
    double b = a + beta;
    w << (kind == 2 ? "refreq(" : "retime(") << a << "," << b << "," << L << ")";
    if (kind == 2) {
      refreq m(a, b, L), m2({a, b}, int(L));
      check_linear(m, a, b, L, w.str());
      ex::check(m == m2 && m.w_min() == a && m.w_max() == b && !m.positive_only(), "accessors", w.str());
    } else {
      retime m(a, b, L), m2({a, b}, int(L));
      check_linear(m, a, b, L, w.str());
      ex::check(m == m2 && m.t_min() == a && m.t_max() == b, "accessors", w.str());
    }
    if (L > 1) {
      auto adj = [&](auto const &m) { // the conjugate grid: step times step is 2 pi / L
        for (bool shift : {false, true}) {
          auto c = make_adjoint_mesh(m, shift);
          double s = shift ? M_PI / L / m.delta() : 0;
          ex::check(c.size() == L && near(c.delta() * m.delta(), 2 * M_PI / L) && near(c[0].value() + c[L - 1].value(), 2 * s), "adjoint", w.str(), shift ? " shifted" : "");
        }
      };
      if (kind == 2) adj(refreq(a, b, L)); else adj(retime(a, b, L));
    }
  }
}
JOB_SHARDED(mesh_imfreq, 5) {
  double beta = ex::pick(BETAS);
  auto st = ex::flip() ? Fermion : Boson;
  bool pos = ex::flip();
  long n = ex::choose(ex::thorough() ? 30 : 10);
  if (st == Boson && n == 0 && !pos) return; // undefined: no such set of frequencies
  std::ostringstream w;
  w << "imfreq(" << beta << "," << (st == Fermion ? "Fermion," : "Boson,") << n << (pos ? ",positive)" : ")");
  imfreq m(beta, st, n, pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies);
  check_mesh(m, pos ? n : st == Fermion ? 2 * n : 2 * n - 1, w.str());
  ex::check(m.beta() == beta && m.statistic() == st && m.positive_only() == pos, "accessors", w.str());
  ex::check(m.get_positive_freq() == imfreq(beta, st, n, imfreq::option::positive_frequencies_only), "positive", w.str());
  if (m.size() > 0) {
    ex::check(m.last_index() == n - 1 && m.first_index() == (pos ? 0 : st == Fermion ? -n : -n + 1), "first-last", w.str());
    ex::check(cplx(m.w_max()) == cplx(0, M_PI * (2 * (n - 1) + (st == Fermion)) / beta), "w-max", w.str());
    long k = m.first_index();
    for (auto iw : m) {
      cplx v(0, M_PI * (2 * k + (st == Fermion)) / beta);
      ex::check(std::abs(cplx(iw) - v) < 1e-14 * std::abs(v) + 1e-300 && iw.index() == k, "frequency", w.str(), ": index ", k);
      ex::check(m.to_data_index(iw.value()) == iw.data_index() && m[closest_mesh_pt(iw.value())].index() == k && m.to_index(closest_mesh_pt(iw.value())) == k && m.to_data_index(closest_mesh_pt(iw.value())) == iw.data_index(), "closest", w.str());
      ex::check(same_value(m.index_to_freq(k), iw.value()), "index-to-freq", w.str());
      ++k;
    }
    auto t = make_adjoint_mesh(m);
    ex::check(t.size() == 6 * n + 1 && t.beta() == beta && t.statistic() == st && make_adjoint_mesh(t).last_index() == m.last_index() && make_adjoint_mesh(m, 17).size() == 17, "adjoint", w.str());
    for (long i = -3 * n; i < 3 * n; ++i) ex::check(m.eval_to_zero(i) == !m.is_index_valid(i) && m.eval_to_zero(matsubara_freq{i, beta, st}) == !m.is_index_valid(i), "eval-to-zero", w.str(), ": index ", i);
  }
}
JOB(mesh_others) {
  double beta = ex::pick(BETAS);
  auto st = ex::flip() ? Fermion : Boson;
  long n = ex::choose(12);
  check_mesh(triqs::mesh::legendre(beta, st, n), n, "legendre");
  auto l = triqs::mesh::legendre(beta, st, n);
  ex::check(l.beta() == beta && l.statistic() == st, "accessors", "legendre");
  check_mesh(discrete(n), n, "discrete");
}
JOB_SHARDED(mesh_dlr, 5) {
  double beta = ex::pick(BETAS);
  auto st = ex::flip() ? Fermion : Boson;
  double wmax = ex::pick(std::vector<double>{1, 3.3});
  double eps = ex::pick(std::vector<double>{1e-3, 1e-7});
  if (beta * wmax > 100) return;
  std::ostringstream w;
  w << "(" << beta << "," << st << "," << wmax << "," << eps << ")";
  dlr c(beta, st, wmax, eps);
  dlr_imtime t(beta, st, wmax, eps);
  dlr_imfreq f(beta, st, wmax, eps);
  long n = c.size();
  ex::check(n > 0, "dlr-size", w.str());
  check_mesh(c, n, "dlr" + w.str()), check_mesh(t, n, "dlr_imtime" + w.str()), check_mesh(f, n, "dlr_imfreq" + w.str());
  auto acc = [&](auto const &m) { return m.beta() == beta && m.statistic() == st && m.w_max() == wmax && m.eps() == eps; };
  ex::check(acc(c) && acc(t) && acc(f), "accessors", w.str());
  ex::check(dlr(t) == c && dlr(f) == c && dlr(c) == c && dlr_imtime(c) == t && dlr_imtime(f) == t && dlr_imfreq(c) == f && dlr_imfreq(t) == f && dlr_imfreq(dlr_imtime(c)) == f, "dlr-conversions", w.str());
  ex::check(make_adjoint_mesh(t) == f && make_adjoint_mesh(f) == t, "adjoint", w.str());
  bool ok = true;
  for (auto x : c) ok = ok && std::abs(double(x)) <= wmax * beta * (1 + 1e-12);
  for (auto x : t) ok = ok && double(x) >= 0 && double(x) <= beta;
  for (auto x : f) ok = ok && x.value().beta == beta && x.value().statistic == st;
  ex::check(ok, "dlr-values", w.str());
  auto [lo, hi] = f.min_max_frequencies();
  for (auto x : f) ok = ok && lo.n <= x.value().n && x.value().n <= hi.n;
  ex::check(ok, "min-max", w.str());
}
// equal exactly when made of the same parameters
template <typename M> void pairs(std::vector<M> const &v, std::string const &what) {
  ex::step();
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < v.size(); ++j) {
      std::ostringstream d;
      if ((v[i] == v[j]) != (i == j)) d << what << ": " << v[i] << (i == j ? " differs from itself" : " equals ") << v[j];
      ex::check((v[i] == v[j]) == (i == j) && (v[i] != v[j]) == (i != j), "equality", d.str());
    }
}
static nda::matrix<double> units(int k) {
  using M = nda::matrix<double>;
  double h = std::sqrt(3.) / 2;
  switch (k) {
    case 0: return M{{1.}};
    case 1: return M{{2.5}};
    case 2: return M{{1., 0.}, {0., 1.}};
    case 3: return M{{1., 0.}, {0.5, h}};
    case 4: return M{{1., 0.}, {-0.5, h}};
    case 5: return M{{2., 0.}, {0., 0.7}};
    case 6: return M{{0., 1.}, {-1., 0.}};
    case 7: return M{{1., 0., 0.}, {0., 1., 0.}, {0., 0., 1.}};
    case 8: return M{{0., .5, .5}, {.5, 0., .5}, {.5, .5, 0.}};    // fcc
    case 9: return M{{-.5, .5, .5}, {.5, -.5, .5}, {.5, .5, -.5}}; // bcc
    case 10: return M{{1., 0., 0.}, {-0.5, h, 0.}, {0., 0., 1.6}};
    case 11: return M{{1., 0., 0.}, {0., 2., 0.}, {0., 0., 3.}};
    case 12: return M{{2., 0., 0.}, {0., 1., 0.}, {0., 0., 3.}};
    case 13: return M{{1.1, 0.2, 0.}, {0.1, 0.9, -0.1}, {0.3, 0., 1.2}};
    default: return M{{-1., 0., 0.}, {0., 1., 0.}, {0., 0., 1.}}; // left-handed
  }
}
static constexpr int NLAT = 15;
JOB(mesh_equality) {
  switch (ex::choose(6)) {
    case 0: {
      std::vector<imtime> v;
      for (double b : {1., 2., 3.}) for (auto s : {Fermion, Boson}) for (long n : {0, 1, 2, 3, 7}) v.push_back(imtime(b, s, n));
      pairs(v, "imtime");
      break;
    }
    case 1: {
      std::vector<imfreq> v;
      for (double b : {1., 2., 3.}) for (auto s : {Fermion, Boson}) for (long n : {1, 2, 3, 7}) for (auto o : {imfreq::option::all_frequencies, imfreq::option::positive_frequencies_only}) v.push_back(imfreq(b, s, n, o));
      pairs(v, "imfreq");
      break;
    }
    case 2: {
      std::vector<refreq> v;
      std::vector<retime> t;
      for (auto [a, b] : std::vector<std::pair<double, double>>{{-1, 1}, {0, 1}, {1, 2}, {-2, 1}, {-1, 2}}) for (long n : {2, 3, 5}) v.push_back(refreq(a, b, n)), t.push_back(retime(a, b, n));
      pairs(v, "refreq"), pairs(t, "retime");
      break;
    }
    case 3: {
      std::vector<triqs::mesh::legendre> v;
      std::vector<discrete> d;
      for (double b : {1., 2.}) for (auto s : {Fermion, Boson}) for (long n : {0, 1, 2, 3}) v.push_back(triqs::mesh::legendre(b, s, n));
      for (long n : {0, 1, 2, 5}) d.push_back(discrete(n));
      pairs(v, "legendre"), pairs(d, "discrete");
      break;
    }
    case 4: {
      std::vector<dlr> c;
      std::vector<dlr_imtime> t;
      std::vector<dlr_imfreq> f;
      for (auto [b, w] : std::vector<std::pair<double, double>>{{1, 4}, {4, 1}, {2, 2}, {5, 5}, {10, 2.5}}) for (auto s : {Fermion, Boson}) for (double e : {1e-3, 1e-6}) c.push_back(dlr(b, s, w, e)), t.push_back(dlr_imtime(b, s, w, e)), f.push_back(dlr_imfreq(b, s, w, e));
      pairs(c, "dlr"), pairs(t, "dlr_imtime"), pairs(f, "dlr_imfreq");
      break;
    }
    case 5: {
      std::vector<brzone> b;
      std::vector<cyclat> c;
      for (int k : {2, 3, 5, 7, 8, 11, 12})
        for (arr3 d : {arr3{2, 3, 1}, arr3{3, 2, 1}, arr3{2, 2, 1}, arr3{1, 3, 1}, arr3{4, 1, 1}, arr3{6, 1, 1}, arr3{1, 2, 3}}) {
          bravais_lattice bl{units(k)};
          b.push_back(brzone(brillouin_zone{bl}, d)), c.push_back(cyclat(bl, d));
        }
      pairs(b, "brzone"), pairs(c, "cyclat");
      break;
    }
  }
}
// Matsubara frequencies
JOB(matsubara_arithmetic) {
  double beta = ex::pick(BETAS);
  auto s1 = ex::flip() ? Fermion : Boson, s2 = ex::flip() ? Fermion : Boson;
  for (long n = -4; n <= 4; ++n)
    for (long m = -4; m <= 4; ++m) {
      ex::step();
      matsubara_freq x(n, beta, s1), y(m, beta, s2);
      cplx a(0, M_PI * (2 * n + s1) / beta), b(0, M_PI * (2 * m + s2) / beta);
      double tol = 1e-13 * (std::abs(a) + std::abs(b));
      ex::check(std::abs(cplx(x) - a) <= tol && x.index() == n, "matsubara-value", n, " ", s1);
      auto p = x + y, d = x - y, u = -x;
      ex::check(std::abs(cplx(p) - (a + b)) <= tol && p.statistic == (s1 == s2 ? Boson : Fermion) && p.beta == beta, "matsubara-sum", n, " ", s1, " + ", m, " ", s2);
      ex::check(std::abs(cplx(d) - (a - b)) <= tol && d.statistic == (s1 == s2 ? Boson : Fermion) && d.beta == beta, "matsubara-difference", n, " ", s1, " - ", m, " ", s2);
      ex::check(std::abs(cplx(u) + a) <= tol && u.statistic == s1 && u.beta == beta, "matsubara-minus", n, " ", s1);
      ex::check(std::abs(x * y - a * b) <= 1e-13 * std::abs(a * b), "matsubara-product", n, " ", m);
      if (b != 0.) ex::check(std::abs(x / y - a / b) <= 1e-13 * std::abs(a / b), "matsubara-quotient", "(", n, ",", s1, ") / (", m, ",", s2, ") = ", (x / y).real());
      cplx z(0.3, -0.7);
      ex::check(x + z == a + z && z - x == z - a && x * z == a * z && z / (x + cplx(0.1)) == z / (a + cplx(0.1)) && x * 2.0 == a * 2.0, "matsubara-mixed", n);
      ex::check(kronecker(x, y) == (n == m) && kronecker(x) == (n == 0), "kronecker", n, " ", m);
    }
}
// ---------------------------------------------------------------- lattice meshes
static void vec_near(nda::vector<double> const &a, std::array<double, 3> const &b, const char *key, std::string const &what) {
  double d = a.size() == 3 ? 0 : 1;
  for (int i = 0; i < 3 && d < 1; ++i) d = std::max(d, std::abs(a(i) - b[i]));
  ex::check(d < 1e-12, key, what, ": ", a, " instead of (", b[0], ",", b[1], ",", b[2], ")");
}
static std::array<double, 3> comb(nda::matrix<double> const &u, std::array<double, 3> const &x) { // sum_i x_i u_i
  std::array<double, 3> r{};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[j] += x[i] * u(i, j);
  return r;
}
JOB_SHARDED(lattice_mesh, 15) {
  int k = ex::choose(NLAT);
  bravais_lattice bl{units(k)};
  int nd = bl.ndim();
  arr3 d{ex::choose(4) + 1l, nd >= 2 ? ex::choose(3) + 1l : 1, nd >= 3 ? ex::choose(3) + 1l : 1};
  if (ex::thorough()) d[0] += 4 * ex::choose(2);
  long size = d[0] * d[1] * d[2];
  brillouin_zone bz{bl};
  brzone bm(bz, d);
  cyclat cm(bl, d);
  auto what = "lattice " + std::to_string(k) + " dims " + text(d);
  check_mesh(bm, size, "brzone " + what), check_mesh(cm, size, "cyclat " + what);
  ex::check(bm.dims() == d && cm.dims() == d && bm.bz() == bz && cm.lattice() == bl, "accessors", what);
  nda::matrix<long> pm = nda::zeros<long>(3, 3);
  for (int i = 0; i < 3; ++i) pm(i, i) = d[i];
  ex::check(brzone(bz, pm) == bm && cyclat(bl, pm) == cm, "periodization-matrix", what);
  pm(0, 1) = 1;
  bool t1 = false, t2 = false;
  try { brzone(bz, pm); } catch (std::exception const &) { t1 = true; }
  try { cyclat(bl, pm); } catch (std::exception const &) { t2 = true; }
  ex::check(t1 && t2, "periodization-matrix-refusal", what);
  ex::check(brzone(bz, 3l).dims() == (arr3{3, nd >= 2 ? 3 : 1, nd >= 3 ? 3 : 1}) && cyclat(bl, 3l).dims() == (arr3{3, nd >= 2 ? 3 : 1, nd >= 3 ? 3 : 1}), "cubic", what);
  ex::check(make_adjoint_mesh(bm) == cm && make_adjoint_mesh(cm) == bm, "adjoint", what);
  for (long i = 0; i < size; ++i) {
    arr3 idx{i / (d[1] * d[2]), i / d[2] % d[1], i % d[2]};
    ex::check(bm[i].index() == idx && cm[i].index() == idx, "row-major", what, ": point ", i);
    std::array<double, 3> x{double(idx[0]), double(idx[1]), double(idx[2])}, f{x[0] / d[0], x[1] / d[1], x[2] / d[2]};
    vec_near(bm[i].value(), comb(bz.units(), f), "k-value", what), vec_near(nda::vector<double>(cm[i]), comb(bl.units(), x), "r-value", what);
    for (int j = 0; j < 3; ++j) ex::check(bm[i][j] == bm[i].value()(j) && near(cm[i][j], comb(bl.units(), x)[j]), "component", what);
    // periodic images
    for (long a = -2; a <= 2; ++a)
      for (long b = -1; b <= 1; ++b)
        for (long c = -1; c <= 1; ++c) {
          arr3 im{idx[0] + a * d[0], idx[1] + b * d[1], idx[2] + c * d[2]};
          ex::check(bm.index_modulo(im) == idx && cm.index_modulo(im) == idx, "modulo", what, ": image ", text(im));
          ex::check(evaluate(cm, [&](auto const &z) { return cm.to_data_index(z); }, im) == i && evaluate(bm, [&](auto const &z) { return bm.to_data_index(z); }, im) == i, "evaluate-image", what, ": image ", text(im));
          bravais_lattice::point_t p{im, &cm.lattice()};
          ex::check(evaluate(cm, [&](auto const &z) { return cm.to_data_index(z); }, p) == i, "evaluate-point", what, ": image ", text(im));
          ex::check(cm.to_data_index(closest_mesh_pt(p)) == i && cm.to_index(closest_mesh_pt(p)) == idx && cm[closest_mesh_pt(p)].index() == idx, "closest-image", what, ": the point closest to ", text(im), " has data index ", cm.to_data_index(closest_mesh_pt(p)));
          if (nd < 2 && b != 0) continue;
          if (nd < 3 && c != 0) continue;
          std::array<double, 3> kf{f[0] + a, f[1] + b, f[2] + c};
          auto kv = comb(bz.units(), kf);
          nda::vector<double> kk{kv[0], kv[1], kv[2]};
          ex::check(bm.to_data_index(closest_mesh_pt(kk)) == i && bm.closest_index(kv) == idx && bm[closest_mesh_pt(kk)].data_index() == i, "closest-k-image", what, ": image ", text(im));
        }
  }
  // sums of momenta and of displacements
  for (long i = 0; i < size; ++i)
    for (long j = 0; j < size; ++j) {
      auto p = bm[i], q = bm[j];
      auto r = cm[i], s = cm[j];
      arr3 a = p.index(), b = q.index();
      auto lin = [&](long x, long y) { arr3 z; for (int n = 0; n < 3; ++n) z[n] = positive_modulo(x * a[n] + y * b[n], d[n]); return z[0] * d[1] * d[2] + z[1] * d[2] + z[2]; };
      ex::check(bm.to_data_index(p + q) == lin(1, 1) && bm.to_data_index(p - q) == lin(1, -1) && bm.to_data_index(-p) == lin(-1, 0) && bm.to_data_index(3l * q) == lin(0, 3) && bm.to_data_index(2l * p - q) == lin(2, -1) && bm.to_data_index(-(p + q)) == lin(-1, -1), "k-sum", what, ": points ", i, " and ", j);
      auto v = (2l * p - q).value();
      for (int n = 0; n < 3; ++n) ex::check(near(v(n), 2 * p.value()(n) - q.value()(n)), "k-sum-value", what);
      ex::check(bm.to_data_index(closest_mesh_pt(p + q)) == lin(1, 1), "closest-k-sum", what, ": points ", i, " and ", j);
      auto u = r + s, m = r - s, neg = -r;
      auto sub = [&](long x, long y) { arr3 z; for (int n = 0; n < 3; ++n) z[n] = x * a[n] + y * b[n]; return z; };
      ex::check(u.index() == sub(1, 1) && m.index() == sub(1, -1) && neg.index() == sub(-1, 0), "r-sum", what);
      // k.r duality: the phase of the product is that of the indices
      double kr = 0, want = 0;
      for (int n = 0; n < 3; ++n) kr += p.value()(n) * s[n], want += 2 * M_PI * a[n] * b[n] / d[n];
      ex::check(std::abs(std::exp(cplx(0, kr)) - std::exp(cplx(0, want))) < 1e-11, "k-r-duality", what, ": points ", i, " and ", j);
    }
  // closest point and evaluation anywhere: a grid of momenta finer than the mesh, over several zones
  auto f = [](arr3 const &z) { return 1.0 + z[0] * 0.7 + z[1] * z[1] * 0.3 - z[2] * 1.1 + z[0] * z[1] * z[2]; };
  std::vector<double> fr = {-1.37, -0.5, -0.11, 0., 0.29, 0.5, 0.62, 0.97, 1.0, 1.73};
  for (double x : fr)
    for (double y : nd >= 2 ? fr : std::vector<double>{0})
      for (double z : nd >= 3 ? std::vector<double>{-0.61, 0., 0.34, 1.2} : std::vector<double>{0}) {
        std::array<double, 3> fx{x, y, z};
        auto kv = comb(bz.units(), fx);
        nda::vector<double> kk{kv[0], kv[1], kv[2]};
        arr3 got = bm.closest_index(kk);
        ex::check(bm.is_index_valid(got), "closest-valid", what);
        if (!bm.is_index_valid(got)) continue;
        double best = 1e300, mine = 1e300;
        for (long i = 0; i < size; ++i)
          for (int a = -3; a <= 3; ++a)
            for (int b = nd >= 2 ? -3 : 0; b <= (nd >= 2 ? 3 : 0); ++b)
              for (int c = nd >= 3 ? -3 : 0; c <= (nd >= 3 ? 3 : 0); ++c) {
                auto id = bm[i].index();
                auto o = comb(bz.units(), {double(id[0]) / d[0] + a - x, double(id[1]) / d[1] + b - y, double(id[2]) / d[2] + c - z});
                double n = o[0] * o[0] + o[1] * o[1] + o[2] * o[2];
                best = std::min(best, n);
                if (id == got) mine = std::min(mine, n);
              }
        ex::check(std::sqrt(mine) <= std::sqrt(best) + 1e-9, "closest-nearest", what, ": the point ", text(got), " given as closest to ", text(arr3{}), kk, " is at ", std::sqrt(mine), ", another at ", std::sqrt(best));
        double ev = evaluate(bm, f, kk), want = 0;
        for (int c = 0; c < 8; ++c) {
          double wt = 1;
          arr3 id;
          for (int n = 0; n < 3; ++n) {
            double t = fx[n] * d[n], fl = std::floor(t + 1e-9), u = t - fl;
            wt *= c >> n & 1 ? u : 1 - u;
            id[n] = positive_modulo(long(fl) + (c >> n & 1), d[n]);
          }
          want += wt * f(id);
        }
        ex::check(near(ev, want, 1e-7), "evaluate-k", what, ": evaluation at ", kk, " gives ", ev, " instead of ", want);
      }
}
// ---------------------------------------------------------------- lattices
JOB(lattice_bases) {
  int k = ex::choose(NLAT);
  int np = ex::choose(3);
  std::vector<triqs::lattice::r_t> pos;
  std::vector<std::string> names;
  for (int i = 0; i < np; ++i) pos.push_back(triqs::lattice::r_t{0.1 * i, 0.2, -0.3 * i}), names.push_back("orb" + std::to_string(i));
  auto u = units(k);
  int nd = u.shape()[0];
  bravais_lattice bl = np == 0 ? bravais_lattice{u} : ex::flip() ? bravais_lattice{u, pos, names} : bravais_lattice{u, pos};
  auto what = "lattice " + std::to_string(k);
  ex::step();
  ex::check(bl.ndim() == nd && bl.n_orbitals() == std::max(np, 1), "dimension", what);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      if (i < nd) ex::check(bl.units()(i, j) == (j < nd ? u(i, j) : 0), "units", what);
  // missing dimensions: completed to an orthonormal complement
  for (int i = nd; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      double dot = 0;
      for (int n = 0; n < 3; ++n) dot += bl.units()(i, n) * bl.units()(j, n);
      ex::check(near(dot, i == j ? 1 : 0), "completion", what, ": vectors ", i, " and ", j, " have product ", dot);
    }
  }
  brillouin_zone bz{bl};
  ex::check(bz.ndim() == nd && bz.lattice() == bl && bravais_lattice(bz) == bl, "zone", what);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double dot = 0, inv = 0;
      for (int n = 0; n < 3; ++n) dot += bl.units()(i, n) * bz.units()(j, n), inv += bz.reciprocal_matrix()(i, n) * bz.reciprocal_matrix_inv()(n, j);
      ex::check(std::abs(dot - (i == j ? 2 * M_PI : 0)) < 1e-12, "dual", what, ": a", i, ".b", j, " = ", dot);
      ex::check(near(inv, i == j), "reciprocal-inverse", what);
    }
  for (double x : {-1.5, 0., 2.}) for (double y : {0.25, -3.}) for (double z : {1., -0.5}) {
    std::array<double, 3> c{x, nd >= 2 ? y : 0, nd >= 3 ? z : 0};
    nda::vector<double> v{c[0], c[1], c[2]};
    auto r = bl.lattice_to_real_coordinates(v);
    vec_near(r, comb(bl.units(), c), "to-real", what);
    vec_near(bl.real_to_lattice_coordinates(r), c, "to-lattice", what);
    auto kr = bz.lattice_to_real_coordinates(v);
    vec_near(kr, comb(bz.units(), c), "zone-to-real", what);
    vec_near(bz.real_to_lattice_coordinates(kr), c, "zone-to-lattice", what);
    arr3 n{2, nd >= 2 ? -1 : 0, nd >= 3 ? 3 : 0};
    vec_near(bl.lattice_to_real_coordinates(n), comb(bl.units(), {double(n[0]), double(n[1]), double(n[2])}), "integer-to-real", what);
    bravais_lattice::point_t p{n, &bl};
    vec_near(triqs::lattice::r_t(p), comb(bl.units(), {double(n[0]), double(n[1]), double(n[2])}), "point", what);
    ex::check(near(p[1], triqs::lattice::r_t(p)(1)) && p.index() == n && p.lattice() == bl, "point-component", what);
  }
  auto b2 = rw(bl);
  auto z2 = rw(bz);
  ex::check(b2 == bl && z2 == bz && b2.orbital_names() == bl.orbital_names() && b2.orbital_positions().size() == bl.orbital_positions().size(), "archive", what);
  for (int i = 0; i < int(bl.orbital_positions().size()); ++i) ex::check(same_value(b2.orbital_positions()[i], bl.orbital_positions()[i]), "archive-position", what);
}
JOB(lattice_equality) {
  std::vector<bravais_lattice> v;
  std::vector<brillouin_zone> z;
  for (int k = 0; k < NLAT; ++k) v.push_back(bravais_lattice{units(k)}), z.push_back(brillouin_zone{v.back()});
  pairs(v, "lattice"), pairs(z, "zone");
}
JOB(lattice_refusal) {
  using M = nda::matrix<double>;
  std::vector<M> bad = {M{{1., 2.}, {2., 4.}}, M{{0., 0.}, {1., 0.}}, M{{1., 0., 0.}, {0., 1., 0.}, {1., 1., 0.}}, M{{1., 2., 3.}, {2., 4., 6.}, {0., 0., 1.}}, nda::zeros<double>(4, 4), nda::zeros<double>(3, 3)};
  int k = ex::choose(bad.size());
  ex::step();
  bool t = false;
  try { bravais_lattice bl{bad[k]}; } catch (triqs::runtime_error const &) { t = true; }
  ex::check(t, "dependent-vectors", "unit vectors that span no lattice are accepted: ", bad[k]);
}
// ---------------------------------------------------------------- product meshes
template <typename... Ms> void check_prod(std::string const &what, Ms const &...ms) {
  constexpr int N = sizeof...(Ms);
  using P = prod<Ms...>;
  ex::step();
  P m{ms...};
  std::array<long, N> d{ms.size()...};
  long size = 1;
  for (long x : d) size *= x;
  ex::check(m.size() == size && m.size_of_components() == d, "prod-size", what);
  long k = 0;
  for (auto const &p : m) {
    std::array<long, N> di;
    long r = k;
    for (int i = N - 1; i >= 0; --i) di[i] = r % d[i], r /= d[i];
    auto dt = std::apply([](auto... x) { return std::make_tuple(x...); }, di);
    auto want = [&]<size_t... I>(std::index_sequence<I...>) { return std::make_tuple(std::get<I>(m.components())[di[I]]...); }(std::make_index_sequence<N>{});
    auto idx = std::apply([](auto const &...x) { return std::make_tuple(x.index()...); }, want);
    ex::check(p.data_index() == dt && p.index() == idx, "prod-order", what, ": point ", k, " of the iteration");
    ex::check(m.to_data_index(idx) == dt && m.to_index(dt) == idx && m[dt].index() == idx && m(idx).data_index() == dt && m.is_index_valid(idx), "prod-index", what, ": point ", k);
    bool comp = [&]<size_t... I>(std::index_sequence<I...>) { return ((std::get<I>(p).index() == std::get<I>(want).index() && std::get<I>(p).data_index() == di[I] && std::get<I>(p).mesh_hash() == std::get<I>(want).mesh_hash() && std::get<I>(m[dt]).index() == std::get<I>(want).index()) && ...); }(std::make_index_sequence<N>{});
    ex::check(comp, "prod-components", what, ": point ", k);
    // evaluation on a point is the value of the point
    double v = std::apply([&](auto const &...x) { return evaluate(m, [](auto const &...) { return 1.0; }, x...); }, idx);
    ex::check(v == 1.0, "prod-evaluate", what);
    ++k;
  }
  ex::check(k == size && walk_length(m.begin(), m.end()) == size, "prod-length", what);
  ex::check((ms * ...) == m || N == 1, "prod-times", what);
  P b = rw(m);
  ex::check(b == m && !(b != m) && b.size() == size, "prod-archive", what);
  // an index outside of one component
  bool out = [&]<size_t... I>(std::index_sequence<I...>) {
    auto test = [&](auto c) {
      constexpr size_t J = decltype(c)::value;
      if (size == 0) return true;
      auto dt = std::apply([](auto... x) { return std::make_tuple((x, 0l)...); }, d);
      auto idx = m.to_index(dt);
      if constexpr (std::is_same_v<std::decay_t<decltype(std::get<J>(idx))>, long>)
        std::get<J>(idx) = 1000;
      else
        std::get<J>(idx)[0] = 1000;
      return !m.is_index_valid(idx) && !std::apply([&](auto const &...x) { return m.is_index_valid(x...); }, idx);
    };
    return (test(std::integral_constant<size_t, I>{}) && ...);
  }(std::make_index_sequence<N>{});
  ex::check(out, "prod-invalid", what);
}
template <typename F> void with_mesh(int k, int s, F f) {
  static bravais_lattice bl{units(3)};
  static brillouin_zone bz{bl};
  switch (k) {
    case 0: return f(imfreq(1.5, s % 2 ? Boson : Fermion, 1 + s, s == 2 ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies));
    case 1: return f(imtime(1.5, s % 2 ? Boson : Fermion, 1 + s));
    case 2: return f(refreq(-1, 2, 2 * s + 1));
    case 3: return f(discrete(s + 1));
    case 4: return f(cyclat(bl, arr3{s + 1, 2, 1}));
    case 5: return f(brzone(bz, arr3{s + 1, 2, 1}));
    case 6: return f(triqs::mesh::legendre(1.5, Fermion, s + 1));
    default: return f(dlr_imfreq(1.5, Fermion, 1.0, s == 0 ? 0.1 : s == 1 ? 1e-2 : 1e-4));
  }
}
JOB_SHARDED(product2, 8) {
  int a = ex::choose(8), b = ex::choose(8), s = ex::choose(3), t = ex::choose(3);
  auto what = "product of meshes " + std::to_string(a) + std::to_string(b) + " sizes " + std::to_string(s) + std::to_string(t);
  with_mesh(a, s, [&](auto const &m) {
    with_mesh(b, t, [&](auto const &n) {
      check_prod(what, m, n);
      auto p = m * n;
      with_mesh(a, (s + 1) % 3, [&](auto const &m2) {
        if constexpr (std::is_same_v<std::decay_t<decltype(m)>, std::decay_t<decltype(m2)>>) ex::check(m2 * n != p && !(m2 * n == p), "prod-equality", what);
      });
      with_mesh(b, (t + 1) % 3, [&](auto const &n2) {
        if constexpr (std::is_same_v<std::decay_t<decltype(n)>, std::decay_t<decltype(n2)>>) ex::check(m * n2 != p, "prod-equality", what);
      });
    });
  });
}
JOB_SHARDED(product3, 3) {
  int s = ex::choose(3), t = ex::choose(3), u = ex::choose(3), k = ex::choose(4);
  auto what = "triple product " + std::to_string(k) + " sizes " + std::to_string(s) + std::to_string(t) + std::to_string(u);
  imfreq w(2.0, Fermion, 1 + s), w2(2.0, Boson, 1 + t), w3(2.0, Fermion, 1 + u, imfreq::option::positive_frequencies_only);
  refreq r(-1, 1, 1 + u);
  bravais_lattice bl{units(2)};
  brzone bz(brillouin_zone{bl}, arr3{1 + t, 2, 1});
  cyclat cy(bl, arr3{2, 1 + u, 1});
  discrete d(1 + s);
  switch (k) {
    case 0: check_prod(what, w, w2, w3); ex::check((w * w2) * w3 == prod(w, w2, w3) && w * (w2 * w3) == prod(w, w2, w3), "associative", what); break;
    case 1: check_prod(what, bz, w, r); ex::check((bz * w) * r == bz * (w * r), "associative", what); break;
    case 2: check_prod(what, d, cy, imtime(2.0, Fermion, 2)); break;
    case 3: check_prod(what, d, w2, cy, r); ex::check((d * w2) * (cy * r) == prod(d, w2, cy, r), "associative", what); break;
  }
}
