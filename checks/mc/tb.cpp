// C38: tight-binding Hamiltonians
#include "explore.hpp"
#include <triqs/lattice/tight_binding.hpp>
#include <triqs/lattice/grid_generator.hpp>
#include <eigen3/Eigen/Dense>
#include <optional>
#include <unistd.h>
using namespace triqs::lattice;
using triqs::gfs::gf;
using triqs::mesh::brzone;
using cplx = std::complex<double>;
using EM   = Eigen::MatrixXcd;
namespace triqs::lattice { // defined in tight_binding.cpp, declared nowhere
  nda::array<dcomplex, 3> hopping_stack(tight_binding const &TB, nda::array_const_view<double, 2> k_stack);
  nda::array<double, 2> energies_on_bz_path(tight_binding const &TB, k_t const &K1, k_t const &K2, int n_pts);
  nda::array<dcomplex, 3> energy_matrix_on_bz_path(tight_binding const &TB, k_t const &K1, k_t const &K2, int n_pts);
  nda::array<double, 2> energies_on_bz_grid(tight_binding const &TB, int n_pts);
} // namespace triqs::lattice
static const auto _ = nda::range::all;
static nda::matrix<double> units(int k) {
  using M = nda::matrix<double>;
  static std::vector<M> l = {M{{1.}}, M{{-2.5}}, M{{1., 0.}, {0., 1.}}, M{{1., 0.}, {0.5, std::sqrt(3) / 2}}, M{{0., 2.}, {1., 0.3}}, M{{1., 0., 0.}, {0., 1., 0.}, {0., 0., 1.}}, M{{0., 1., 1.}, {1., 0., 1.}, {1., 1., 0.}}, M{{1., 0.2, 0.}, {0., -2., 0.1}, {0.3, 0., 0.5}}};
  return l[k];
}
constexpr int NLAT = 8;
static bravais_lattice lattice(int k, int norb) {
  std::vector<r_t> pos;
  for (int i = 0; i < norb; ++i) pos.push_back(r_t{0.1 * i, 0.2 * i, 0});
  return bravais_lattice{units(k), pos};
}
// the oracle: displacements and matrices
struct Model {
  int nd = 1, norb = 1;
  std::vector<std::vector<long>> r;
  std::vector<EM> t;
  EM h(std::array<double, 3> const &k) const {
    EM s = EM::Zero(norb, norb);
    for (size_t i = 0; i < r.size(); ++i) {
      double p = 0;
      for (int d = 0; d < nd; ++d) p += k[d] * r[i][d];
      s += std::polar(1.0, 2 * M_PI * p) * t[i];
    }
    return s;
  }
  [[nodiscard]] double scale() const {
    double s = 1;
    for (auto const &m : t) s += m.cwiseAbs().sum();
    return s;
  }
};
static std::vector<nda::vector<long>> displ(Model const &m) {
  std::vector<nda::vector<long>> v;
  for (auto const &r : m.r) {
    nda::vector<long> x(long(r.size()));
    for (size_t i = 0; i < r.size(); ++i) x(i) = r[i];
    v.push_back(x);
  }
  return v;
}
static nda::matrix<cplx> tonda(EM const &e) {
  nda::matrix<cplx> a(e.rows(), e.cols());
  for (int i = 0; i < e.rows(); ++i)
    for (int j = 0; j < e.cols(); ++j) a(i, j) = e(i, j);
  return a;
}
static std::vector<nda::matrix<cplx>> mats(Model const &m) {
  std::vector<nda::matrix<cplx>> v;
  for (auto const &t : m.t) v.push_back(tonda(t));
  return v;
}
// hopping matrices: 0 unit, 1 generic complex, 2 real antisymmetric-ish, 3 rank one, 4 zero
static EM hop(int kind, int n, int seed) {
  EM m = EM::Zero(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) switch (kind) {
        case 0: m(i, j) = i == j ? -1. - 0.5 * seed : 0; break;
        case 1: m(i, j) = cplx(0.3 * (i + 1) - 0.2 * j + 0.1 * seed, 0.25 * j - 0.4 * i + 0.05 * (seed + 1)); break;
        case 2: m(i, j) = i < j ? 0.7 + seed : i > j ? -0.2 : 0.1 * i; break;
        case 3: m(i, j) = (i == 0 && j == n - 1) ? cplx(0, 1.5) : 0; break;
        default: break;
      }
  return m;
}
static std::vector<std::vector<long>> half_space(int nd) { // one of each pair of opposite displacements, and the origin
  if (nd == 1) return {{0}, {1}, {2}, {-3}};
  if (nd == 2) return {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {1, -1}, {-2, 1}};
  return {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {0, -1, 2}, {2, 1, -1}};
}
// all models of up to n pairs of displacements
static Model model(int nd, int norb, int n) {
  Model m;
  m.nd = nd, m.norb = norb;
  auto hs = half_space(nd);
  int at  = 0;
  for (int i = 0; i < n && at < int(hs.size()); ++i) {
    int j = at + ex::choose(int(hs.size()) - at + 1); // increasing order; the last value: none
    if (j == int(hs.size())) break;
    at = j + 1;
    EM t = hop(ex::choose(norb == 1 ? 2 : 4), norb, i);
    if (j == 0) t = EM(t + t.adjoint());
    bool first = ex::flip();
    auto minus = hs[j];
    for (auto &x : minus) x = -x;
    if (j == 0) m.r.push_back(hs[j]), m.t.push_back(t);
    else if (first) m.r.push_back(hs[j]), m.t.push_back(t), m.r.push_back(minus), m.t.push_back(t.adjoint());
    else m.r.insert(m.r.begin(), minus), m.t.insert(m.t.begin(), t.adjoint()), m.r.push_back(hs[j]), m.t.push_back(t);
  }
  return m;
}
static std::string text(Model const &m) {
  std::ostringstream o;
  o << m.norb << " orbitals, " << m.nd << "d";
  for (size_t i = 0; i < m.r.size(); ++i) {
    o << " (";
    for (auto x : m.r[i]) o << x << " ";
    o << "):" << m.t[i](0, 0);
  }
  return o.str();
}
static std::vector<std::array<double, 3>> momenta(int nd) {
  std::vector<std::array<double, 3>> v;
  std::vector<double> a = {0, 0.5, 0.25, -1. / 3, 0.1234};
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < (nd > 1 ? a.size() : 1); ++j)
      for (size_t k = 0; k < (nd > 2 ? 3 : 1); ++k) v.push_back({a[i], nd > 1 ? a[j] : 0, nd > 2 ? a[(k + i + j) % 5] : 0});
  return v;
}
template <typename A> bool close(A const &a, EM const &e, double tol) {
  if (a.shape()[0] != e.rows() || a.shape()[1] != e.cols()) return false;
  for (int i = 0; i < e.rows(); ++i)
    for (int j = 0; j < e.cols(); ++j)
      if (!(std::abs(a(i, j) - e(i, j)) < tol)) return false;
  return true;
}
static Eigen::VectorXd levels(EM const &h) { return Eigen::SelfAdjointEigenSolver<EM>(h).eigenvalues(); }
template <typename A> bool close_levels(A const &a, Eigen::VectorXd const &e, double tol) {
  if (a.size() != e.size()) return false;
  for (int i = 0; i < e.size(); ++i)
    if (!(std::abs(a(i) - e(i)) < tol)) return false;
  return true;
}
template <typename T> T rw(T const &x) {
  char name[] = "/tmp/tb_XXXXXX";
  ::close(mkstemp(name));
  std::optional<T> y;
  {
    h5::file f(name, 'w');
    h5_write(f, "x", x);
  }
  {
    h5::file f(name, 'r');
    y = h5::h5_read<T>(f, "x");
  }
  ::unlink(name);
  return *y;
}
static void check_fourier(int lat, int norb, int npairs) {
  auto bl = lattice(lat, norb);
  int nd  = bl.ndim();
  Model m = model(nd, norb, npairs);
  auto what = ex::cat("lattice ", lat, ", ", text(m));
  tight_binding tb{bl, displ(m), mats(m)};
  double tol = 1e-12 * m.scale();
  ex::check(tb.n_orbitals() == norb && tb.lattice() == bl, "accessors", what);
  int nf = 0;
  foreach (tb, [&](auto const &r, auto const &t) {
    bool ok = nf < int(m.r.size()) && r.size() == nd && close(t, m.t[nf], 1e-15);
    for (int i = 0; ok && i < nd; ++i) ok = r(i) == m.r[nf][i];
    ex::check(ok, "foreach", what, ": hopping ", nf);
    ++nf;
  });
  ex::check(nf == int(m.r.size()), "foreach", what, ": ", nf, " hoppings");
  auto ks = momenta(nd);
  nda::array<double, 2> list(long(ks.size()), 3), stack(3, long(ks.size())), list_nd(long(ks.size()), nd);
  for (size_t i = 0; i < ks.size(); ++i)
    for (int d = 0; d < 3; ++d) {
      list(i, d) = ks[i][d], stack(d, i) = ks[i][d];
      if (d < nd) list_nd(i, d) = ks[i][d];
    }
  auto hl = tb.fourier(list);
  auto hn = tb.fourier(list_nd);
  auto el = tb.dispersion(list);
  auto hs = hopping_stack(tb, stack);
  long N = ks.size();
  ex::check(hl.shape() == (std::array<long, 3>{N, norb, norb}) && hn.shape() == hl.shape() && el.shape() == (std::array<long, 2>{N, norb}) && hs.shape() == (std::array<long, 3>{norb, norb, N}), "shapes", what);
  for (size_t i = 0; i < ks.size(); ++i) {
    auto k = ks[i];
    EM want = m.h(k);
    auto kk = ex::cat(what, " at k = ", k[0], ",", k[1], ",", k[2]);
    nda::vector<double> k3{k[0], k[1], k[2]}, kn(nd);
    for (int d = 0; d < nd; ++d) kn(d) = k[d];
    auto h = tb.fourier(k3);
    ex::step();
    ex::check(close(h, want, tol), "fourier", kk, ": ", h(0, 0), " instead of ", want(0, 0));
    ex::check(close(tb.fourier(kn), want, tol), "fourier-dimension", kk);
    ex::check(close(hl(long(i), nda::ellipsis()), want, tol) && close(hn(long(i), nda::ellipsis()), want, tol), "fourier-list", kk);
    ex::check(close(hs(_, _, long(i)), want, tol), "stack", kk);
    ex::check(close(h, EM(want.adjoint()), tol), "hermitian", kk);
    auto lev = levels(want);
    auto e   = tb.dispersion(k3);
    ex::check(close_levels(e, lev, 10 * tol), "dispersion", kk, ": ", e(0), " instead of ", lev(0));
    ex::check(close_levels(tb.dispersion(kn), lev, 10 * tol), "dispersion", kk);
    ex::check(close_levels(el(long(i), _), lev, 10 * tol), "dispersion-list", kk);
    for (int d = 0; d < nd; ++d) { // periods
      auto q = k3;
      q(d) += d == 1 ? -2 : 1;
      ex::check(close(tb.fourier(q), want, 100 * tol), "periodic", kk, ", direction ", d);
    }
  }
  auto copy = tb;
  ex::check(copy == tb, "copy", what);
  // on meshes
  brillouin_zone bz{bl};
  std::array<long, 3> dims{2 + ex::choose(2), nd > 1 ? 3 : 1, nd > 2 ? 2 : 1};
  for (int which = 0; which < 2; ++which) {
    brzone mesh   = which ? brzone(bz, 3) : brzone(bz, dims);
    auto hk       = which ? tb.fourier(3) : tb.fourier(mesh);
    auto ek       = which ? tb.dispersion(3) : tb.dispersion(mesh);
    ex::check(hk.mesh() == mesh && ek.mesh() == mesh && hk.target_shape() == (std::array<long, 2>{norb, norb}) && ek.target_shape() == (std::array<long, 1>{norb}), "mesh", what);
    auto dm = mesh.dims();
    for (auto k : mesh) {
      auto idx  = k.index();
      EM want   = m.h({double(idx[0]) / dm[0], double(idx[1]) / dm[1], double(idx[2]) / dm[2]});
      auto here = ex::cat(what, ", point ", idx[0], ",", idx[1], ",", idx[2]);
      ex::step();
      ex::check(close(hk[k], want, 10 * tol), "fourier-mesh", here, ": ", hk[k](0, 0), " instead of ", want(0, 0));
      ex::check(close_levels(ek[k], levels(want), 100 * tol), "dispersion-mesh", here);
    }
  }
}
JOB_SHARDED(fourier, NLAT) {
  int lat = ex::choose(NLAT);
  check_fourier(lat, 1 + ex::choose(3), ex::tier(2, 3));
}
JOB(archive) {
  int lat = ex::choose(NLAT), norb = 1 + ex::choose(3);
  auto bl = lattice(lat, norb);
  Model m = model(bl.ndim(), norb, ex::tier(1, 2));
  if (m.r.empty()) return;
  tight_binding tb{bl, displ(m), mats(m)};
  auto tb2 = rw(tb);
  ex::step();
  auto what = ex::cat("lattice ", lat, ", ", text(m));
  ex::check(tb2 == tb && !(tb2 != tb) && tb2.displ_vec() == tb.displ_vec() && tb2.overlap_mat_vec() == tb.overlap_mat_vec() && tb2.lattice() == tb.lattice(), "archive", what);
  auto h = tb2.fourier(nda::vector<double>{0.1, 0.2, 0.3});
  ex::check(close(h, m.h({0.1, 0.2, 0.3}), 1e-12 * m.scale()), "archive", what);
}
JOB(refusals) {
  int lat = ex::choose(NLAT), norb = 1 + ex::choose(2);
  auto bl = lattice(lat, norb);
  Model m;
  m.nd = bl.ndim(), m.norb = norb;
  auto hs = half_space(m.nd);
  std::vector<long> a = hs[1], b = hs[2], ma = a, mb = b;
  for (auto &x : ma) x = -x;
  for (auto &x : mb) x = -x;
  m.r = {hs[0], a, mb, ma, b};
  EM o = hop(1, norb, 0), s = hop(2, norb, 1), t = hop(1, norb, 2);
  m.t = {EM(o + o.adjoint()), s, EM(t.adjoint()), EM(s.adjoint()), t};
  auto r = displ(m);
  auto x = mats(m);
  int at = ex::choose(5), damage = ex::choose(9);
  bool refuse = true;
  switch (damage) {
    case 0: refuse = false; break;
    case 1: r.erase(r.begin() + at); break;
    case 2: x.erase(x.begin() + at); break;
    case 3: r.erase(r.begin() + at), x.erase(x.begin() + at), refuse = at != 0; break;
    case 4: x[at](0, norb - 1) += cplx(1e-6, at ? 0 : 1e-6), refuse = true; if (!at && norb > 1) x[at](0, norb - 1) += cplx(0, 1e-6); break;
    case 5: x[at] = nda::matrix<cplx>(norb + 1, norb), x[at] = 0; break;
    case 6: x[at] = nda::matrix<cplx>(norb, norb + 1), x[at] = 0; break;
    case 7: {
      nda::vector<long> v(m.nd + 1);
      v = 0;
      for (int i = 0; i < m.nd; ++i) v(i) = r[at](i);
      r[at] = v;
      break;
    }
    default: r[at](0) += 7; break;
  }
  if (damage == 8 && at == 0) refuse = true;
  bool thrown = false;
  try {
    tight_binding tb{bl, r, x};
  } catch (std::exception const &) { thrown = true; }
  ex::step();
  ex::check(thrown == refuse, "refusal", "lattice ", lat, ", ", norb, " orbitals, damage ", damage, " at ", at, thrown ? ": refused" : ": accepted");
}
JOB(equality) {
  int norb = 1 + ex::choose(2);
  auto bl = lattice(2, norb);
  std::vector<tight_binding> all;
  for (int kind = 0; kind < 2; ++kind)
    for (int r = 1; r < 4; ++r)
      for (int order = 0; order < 2; ++order) {
        Model m;
        m.nd = 2, m.norb = norb;
        auto p = half_space(2)[r], q = p;
        for (auto &x : q) x = -x;
        EM t = hop(kind, norb, 0);
        m.r = order ? std::vector{q, p} : std::vector{p, q};
        m.t = order ? std::vector{EM(t.adjoint()), t} : std::vector{t, EM(t.adjoint())};
        all.push_back(tight_binding{bl, displ(m), mats(m)});
        if (!order && kind == 0) all.push_back(tight_binding{lattice(3, norb), displ(m), mats(m)});
      }
  all.push_back(tight_binding{bl, {}, {}});
  for (size_t i = 0; i < all.size(); ++i)
    for (size_t j = 0; j < all.size(); ++j) {
      ex::step();
      ex::check((all[i] == all[j]) == (i == j) && (all[i] != all[j]) == (i != j), "equality", norb, " orbitals, models ", i, " and ", j);
    }
}
JOB(grid) {
  int dim = 1 + ex::choose(3), n = 1 + ex::choose(ex::tier(5, 8));
  grid_generator g(dim, n);
  int N[3] = {n, dim > 1 ? n : 1, dim > 2 ? n : 1};
  ex::check(g.size() == N[0] * N[1] * N[2], "grid-size", dim, "d, ", n, ": ", g.size());
  int k = 0;
  for (; g && k < 10000; ++g, ++k) {
    ex::step();
    ex::check(g.index() == k, "grid-index", dim, "d, ", n, ": ", g.index(), " instead of ", k);
    int i[3] = {k % N[0], k / N[0] % N[1], k / N[0] / N[1]};
    for (int d = 0; d < 3; ++d) ex::check(std::abs((*g)(d) - (i[d] + 0.5) / N[d]) < 1e-13, "grid-point", dim, "d, ", n, ": point ", k, " component ", d, " is ", (*g)(d));
  }
  ex::check(k == g.size(), "grid-length", dim, "d, ", n, ": ", k, " points");
}
// number of weights below an edge, with those at the edge (within tol) counted or not
struct Weighted {
  std::vector<std::pair<double, double>> x;
  [[nodiscard]] double below(double e) const {
    double s = 0;
    for (auto [y, w] : x)
      if (y < e) s += w;
    return s;
  }
};
template <typename R> static void check_bins(Weighted const &w, R const &rho, double lo, double deps, double tol, char const *key, std::string const &what) {
  double sum = 0;
  long n = rho.size();
  for (long b = 0; b < n; ++b) {
    sum += rho(b) * deps;
    double e  = lo + (b + 1) * deps;
    double l = b == n - 1 ? w.below(1e300) : w.below(e - tol), u = b == n - 1 ? l : w.below(e + tol);
    ex::check(rho(b) >= 0 && sum >= l - 1e-9 && sum <= u + 1e-9, key, what, ": up to bin ", b, " of ", n, " the weight is ", sum, " instead of ", l, u != l ? ex::cat(" to ", u) : std::string{});
  }
}
static void check_dos(int lat, int norb, int npairs) {
  auto bl = lattice(lat, norb);
  int nd  = bl.ndim();
  Model m = model(nd, norb, npairs);
  tight_binding tb{bl, displ(m), mats(m)};
  int nk = 1 + ex::choose(ex::tier(4, 6)), ne = 1 + ex::choose(ex::tier(5, 8));
  if (nd == 3 && nk > 3) return;
  auto what = ex::cat("lattice ", lat, ", ", text(m), ", ", nk, " momenta, ", ne, " bins");
  int N[3] = {nk, nd > 1 ? nk : 1, nd > 2 ? nk : 1}, tot = N[0] * N[1] * N[2];
  std::vector<Weighted> w(norb);
  double lo = 1e300, hi = -1e300;
  auto eg = energies_on_bz_grid(tb, nk);
  ex::check(eg.shape() == (std::array<long, 2>{norb, tot}), "grid-energies", what);
  for (int p = 0; p < tot; ++p) {
    EM h = m.h({(p % N[0] + 0.5) / N[0], (p / N[0] % N[1] + 0.5) / N[1], (p / N[0] / N[1] + 0.5) / N[2]});
    Eigen::SelfAdjointEigenSolver<EM> s(h);
    for (int l = 0; l < norb; ++l) {
      double e = s.eigenvalues()(l);
      lo = std::min(lo, e), hi = std::max(hi, e);
      ex::check(std::abs(eg(l, p) - e) < 1e-11 * m.scale(), "grid-energies", what, ": point ", p, " level ", l, ": ", eg(l, p), " instead of ", e);
      for (int k = 0; k < norb; ++k) w[k].x.push_back({e, std::norm(s.eigenvectors()(k, l)) / tot});
    }
  }
  auto [eps, rho] = dos(tb, nk, ne);
  ex::step();
  ex::check(eps.size() == ne && rho.shape() == (std::array<long, 2>{ne, norb}), "dos-shape", what);
  double tol = 1e-10 * m.scale();
  bool flat = hi - lo < tol; // up to rounding: a single energy
  // unit weight for every orbital
  double width = ne > 1 ? eps(1) - eps(0) : 0;
  if (ne == 1) width = 1 / rho(0, 0);
  for (int k = 0; k < norb; ++k) {
    double s = 0;
    for (int b = 0; b < ne; ++b) s += rho(b, k) * width;
    if (!flat || width > 1e-9) ex::check(std::abs(s - 1) < 1e-9, "dos-weight", what, ": orbital ", k, " has weight ", s);
  }
  if (flat) {
    ex::count("flat");
    for (int b = 0; b < ne; ++b) ex::check(std::abs(eps(b) - lo) < 1, "dos-flat", what, ": energy ", eps(b));
    return;
  }
  for (int b = 0; b < ne; ++b) ex::check(std::abs(eps(b) - (lo + (b + 0.5) * (hi - lo) / ne)) < tol, "dos-energies", what, ": energy ", b, " is ", eps(b));
  ex::check(std::abs(width - (hi - lo) / ne) < tol, "dos-width", what);
  for (int k = 0; k < norb; ++k) check_bins(w[k], rho(_, k), lo, (hi - lo) / ne, tol, "dos", what + ", orbital " + std::to_string(k));
}
JOB_SHARDED(density, NLAT) {
  int lat = ex::choose(NLAT);
  check_dos(lat, 1 + ex::choose(3), ex::tier(1, 2));
}
JOB(path) {
  int lat = ex::choose(NLAT), norb = 1 + ex::choose(2);
  auto bl = lattice(lat, norb);
  int nd  = bl.ndim();
  Model m = model(nd, norb, 2);
  tight_binding tb{bl, displ(m), mats(m)};
  auto ks = momenta(nd);
  auto a  = ks[ex::choose(int(std::min<size_t>(ks.size(), 5)))];
  auto b  = ks[ks.size() - 1 - ex::choose(3)];
  int n   = 1 + ex::choose(4);
  k_t A{a[0], a[1], a[2]}, B{b[0], b[1], b[2]};
  auto e = energies_on_bz_path(tb, A, B, n);
  auto h = energy_matrix_on_bz_path(tb, A, B, n);
  auto what = ex::cat("lattice ", lat, ", ", text(m), ", ", n, " points");
  ex::check(e.shape() == (std::array<long, 2>{norb, n}) && h.shape() == (std::array<long, 3>{norb, norb, n}), "path-shape", what);
  for (int i = 0; i < n; ++i) {
    std::array<double, 3> k;
    for (int d = 0; d < 3; ++d) k[d] = a[d] + (b[d] - a[d]) * i / n;
    EM want = m.h(k);
    ex::step();
    ex::check(close(h(_, _, i), want, 1e-11 * m.scale()), "path", what, ": point ", i);
    ex::check(close_levels(e(_, i), levels(want), 1e-11 * m.scale()), "path", what, ": point ", i, ": ", e(0, i), " instead of ", levels(want)(0));
  }
}
JOB(patch) {
  int lat = 2 + ex::choose(3);
  auto bl = lattice(lat, 1);
  Model m = model(2, 1, 2);
  if (ex::flip())
    for (auto &t : m.t) t *= 3e5; // units do not matter
  bool shifted = ex::flip();
  if (shifted) { // all energies far from zero
    bool on = false;
    for (size_t i = 0; i < m.r.size(); ++i)
      if (m.r[i] == std::vector<long>{0, 0}) m.t[i](0, 0) += 20 * m.scale(), on = true;
    if (!on) m.r.push_back({0, 0}), m.t.push_back(EM::Constant(1, 1, -20 * m.scale()));
  }
  tight_binding tb{bl, displ(m), mats(m)};
  static const std::vector<std::vector<std::array<double, 2>>> patches = {{{0, 0}, {1, 0}, {0, 1}}, {{0, 0}, {0, 0.5}, {0.5, 0.5}, {0.5, 0.5}, {0.5, 0}, {0, 0}}, {{0.1, 0.2}, {0.9, 0.3}, {-0.4, 0.8}, {-1, -1}, {1, -1}, {0, 0}, {0.5, 0.5}, {0.5, 0.5}, {0.5, 0.5}}};
  auto const &p = patches[ex::choose(3)];
  int nd = 1 + ex::choose(4), ne = 2 + ex::choose(4);
  nda::array<double, 2> tri(long(p.size()), 2);
  for (size_t i = 0; i < p.size(); ++i) tri(i, 0) = p[i][0], tri(i, 1) = p[i][1];
  auto what = ex::cat("lattice ", lat, ", ", text(m), ", ", p.size() / 3, " triangles, ", nd, " divisions, ", ne, " bins");
  // the centres of the nd*nd small triangles into which each triangle is cut
  Weighted w;
  double lo = 1e300, hi = -1e300, area = 0;
  for (size_t t = 0; t < p.size(); t += 3) {
    auto a = p[t], b = p[t + 1], c = p[t + 2];
    double s = 0.5 * std::abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]));
    area += s;
    for (int i = 0; i < nd; ++i)
      for (int j = 0; i + j < nd; ++j)
        for (int up = 0; up < 2; ++up) {
          if (up && i + j + 1 >= nd) continue;
          double x = (i + (up ? 2. : 1.) / 3) / nd, y = (j + (up ? 2. : 1.) / 3) / nd;
          double e = m.h({a[0] + x * (b[0] - a[0]) + y * (c[0] - a[0]), a[1] + x * (b[1] - a[1]) + y * (c[1] - a[1]), 0})(0, 0).real();
          w.x.push_back({e, s / (nd * nd)});
          lo = std::min(lo, e), hi = std::max(hi, e);
        }
  }
  auto [eps, rho] = dos_patch(tb, tri, ne, nd);
  ex::step();
  ex::check(eps.size() == ne && rho.size() == ne, "patch-shape", what);
  double tol = 1e-10 * m.scale();
  if (hi - lo < tol) {
    ex::count("flat");
    double s = 0;
    for (int b = 0; b < ne; ++b) s += rho(b);
    ex::check(std::abs(s * (eps(ne - 1) - eps(0)) / ne - area) < 1e-6 * (1 + area) || hi != lo, "patch-flat", what, ": weight ", s * (eps(ne - 1) - eps(0)) / ne, " instead of ", area);
    ex::check(eps(0) <= lo + tol && eps(ne - 1) >= hi - tol, "patch-flat", what);
    return;
  }
  double deps = (hi - lo) / ne;
  for (int b = 0; b < ne; ++b) ex::check(eps(b) >= lo + b * deps - tol && eps(b) <= lo + (b + 1) * deps + tol, "patch-energies", what, ": energy ", b, " is ", eps(b), ", outside of its bin");
  check_bins(w, rho, lo, deps, tol, "patch", what);
}
JOB(patch_refusals) {
  int lat = ex::choose(NLAT);
  auto bl = lattice(lat, 1);
  Model m;
  m.nd = bl.ndim();
  tight_binding tb{bl, {}, {}};
  int cols = 1 + ex::choose(3);
  nda::array<double, 2> tri(3, cols);
  tri = 0;
  tri(1, 0) = 1;
  if (cols > 1) tri(2, 1) = 1;
  bool thrown = false;
  try { dos_patch(tb, tri, 3, 2); } catch (std::exception const &) { thrown = true; }
  ex::step();
  ex::check(thrown == (m.nd != 2 || cols != 2), "patch-refusal", "lattice ", lat, ", ", cols, " columns");
}
