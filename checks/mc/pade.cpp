// C22: Pade approximants against continued fractions in exact rational arithmetic and against rational functions
#include "explore.hpp"
#include <triqs/gfs.hpp>
#include <triqs/utility/pade_approximants.hpp>
using cplx = std::complex<double>;
using namespace triqs::gfs;
namespace mesh = triqs::mesh;
#include <triqs/gfs/transform/pade.hpp>
using nda::range;
struct Q { // exact complex rational numbers
  mpq_class re, im;
  Q(mpq_class a = 0, mpq_class b = 0) : re(a), im(b) {}
  Q(int a) : re(a), im(0) {}
  Q(cplx z) : re(z.real()), im(z.imag()) {}
  friend Q operator+(Q const &a, Q const &b) { return {a.re + b.re, a.im + b.im}; }
  friend Q operator-(Q const &a, Q const &b) { return {a.re - b.re, a.im - b.im}; }
  friend Q operator*(Q const &a, Q const &b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
  friend Q operator/(Q const &a, Q const &b) {
    mpq_class d = b.re * b.re + b.im * b.im;
    return {(a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d};
  }
  bool zero() const { return re == 0 && im == 0; }
  cplx d() const { return {re.get_d(), im.get_d()}; }
};
// the coefficients of the continued fraction a0/(1+ a1(z-z0)/(1+ ...)) by inverse differences; false if it does not exist
static bool fraction(std::vector<Q> const &z, std::vector<Q> const &u, std::vector<Q> &a) {
  int n = z.size();
  // inverse differences in the formulation of single points: g_p(z) = (g_{p-1}(z_{p-1}) - g_{p-1}(z)) / ((z - z_{p-1}) g_{p-1}(z))
  a.assign(n, Q(0));
  bool stop = false;
  std::vector<Q> g = u;
  for (int p = 0; p < n; ++p) {
    a[p] = g[p];
    if (a[p].zero()) {
      // exact lower order: all the other points must vanish too
      for (int j = p; j < n; ++j)
        if (!g[j].zero()) return false;
      return true;
    }
    double m = std::abs(a[p].d());
    if (m < 1e-8) return false; // next to the threshold of truncation
    for (int j = p + 1; j < n; ++j) {
      if (g[j].zero()) return false;
      g[j] = (a[p] - g[j]) / ((z[j] - z[p]) * g[j]);
    }
  }
  return true;
}
// value by backward evaluation; false at a pole or where a partial denominator vanishes
static bool value(std::vector<Q> const &z, std::vector<Q> const &a, Q x, Q &r) {
  int n = z.size();
  Q d(1);
  for (int p = n - 1; p > 0; --p) {
    if (d.zero()) return false;
    d = Q(1) + a[p] * (x - z[p - 1]) / d;
  }
  if (d.zero()) return false;
  r = a[0] / d;
  // partial denominators of the forward recursion
  Q B(1);
  for (int p = 0; p + 1 < n; ++p) {
    Q nb = Q(1) + (x - z[p]) * a[p + 1] * B;
    if (std::abs(nb.d()) < 1e-6) return false;
    B = Q(1) / nb;
  }
  return true;
}
static const std::vector<cplx> &PTS() {
  static const std::vector<cplx> v = {{0, 1}, {0, 3}, {0, 5}, {0, -1}, {2, 0}, {-1, 0.5}, {0, 0}, {0, 7}};
  return v;
}
static const std::vector<cplx> &EVAL() {
  static const std::vector<cplx> v = {{0, 2}, {0.5, 0.125}, {-3, 0.25}, {0, -4}, {1, 0}, {100, 1}};
  return v;
}
static std::vector<cplx> points(int n) {
  std::vector<cplx> z;
  std::vector<int> used;
  for (int i = 0; i < n; ++i) {
    int k = ex::choose(int(PTS().size()) - i);
    for (int u = 0; u <= k; ++u)
      if (std::find(used.begin(), used.end(), u) != used.end()) ++k;
    used.push_back(k);
    z.push_back(PTS()[k]);
  }
  return z;
}
static triqs::utility::pade_approximant make(std::vector<cplx> const &z, std::vector<cplx> const &u) {
  nda::vector<cplx> a(z.size()), b(z.size());
  for (size_t i = 0; i < z.size(); ++i) a(i) = z[i], b(i) = u[i];
  return {a, b};
}
static std::string text(std::vector<cplx> const &v) {
  std::ostringstream s;
  for (auto x : v) s << x;
  return s.str();
}
// any data whose continued fraction exists
static void data(int n, std::vector<cplx> const &vals) {
  std::vector<cplx> u;
  for (int i = 0; i < n; ++i) u.push_back(ex::pick(vals));
  auto z = points(n);
  std::vector<Q> zq(z.begin(), z.end()), uq(u.begin(), u.end()), a;
  if (!fraction(zq, uq, a)) {
    ex::count("no continued fraction");
    return;
  }
  auto prec = mpf_get_default_prec();
  auto P    = make(z, u);
  ex::check(mpf_get_default_prec() == prec, "precision", "the default precision of GMP is left changed");
  ex::step();
  for (int i = 0; i < n; ++i) {
    Q r;
    if (!value(zq, a, zq[i], r)) continue; // unattainable point
    ex::check((r - uq[i]).zero(), "reference", "the reference does not interpolate");
    ex::check(std::abs(P(z[i]) - u[i]) < 1e-8 * (1 + std::abs(u[i])), "interpolation", "values ", text(u), " at ", text(z), ": at point ", i, " the approximant is ", P(z[i]));
  }
  for (auto e : EVAL()) {
    Q r;
    if (!value(zq, a, Q(e), r)) continue;
    cplx w = r.d();
    ex::check(std::abs(P(e) - w) < 1e-6 * (1 + std::abs(w)), "value", "values ", text(u), " at ", text(z), ": the approximant at ", e, " is ", P(e), " instead of ", w);
    ex::outcome(ex::hash(w.real()));
  }
}
static const std::vector<cplx> V6 = {{1, 0}, {-1, 0}, {0, 2}, {0.5, 1}, {0, 0}, {-0.25, -3}};
JOB(data1) { data(1, V6); }
JOB(data2) { data(2, V6); }
JOB_SHARDED(data3, 6) { data(3, V6); }
JOB_SHARDED(data4, 6) { data(4, ex::thorough() ? V6 : std::vector<cplx>{V6.begin(), V6.begin() + 4}); }
// rational functions: sums of poles and constants are reproduced from enough points (also from more points than needed), in any order of the points
JOB_SHARDED(rational, 12) {
  int first = ex::choose(12), np = first % 4;
  cplx c = std::array<cplx, 3>{0.0, 1.0, {-0.5, 0.25}}[first / 4];
  static const std::vector<cplx> poles = {{0.5, 0}, {-1.5, 0}, {3, -0.5}, {0.25, -2}}, res = {{1, 0}, {0.25, 0}, {-0.5, 1}};
  std::vector<std::pair<cplx, cplx>> f;
  int from = 0;
  for (int k = 0; k < np; ++k) {
    if (from >= int(poles.size())) return;
    int p = from + ex::choose(int(poles.size()) - from);
    from  = p + 1;
    f.push_back({poles[p], ex::pick(res)});
  }
  if (np == 0 && c == 0.0) return;
  auto F = [&](cplx z) {
    cplx r = c;
    for (auto [p, w] : f) r += w / (z - p);
    return r;
  };
  int need  = 2 * np + (c != 0.0 ? 1 : 0);
  int extra = ex::choose(4);
  bool neg  = ex::flip();
  std::vector<cplx> z, u;
  for (int i = 0; i < need + extra; ++i) z.push_back(cplx(0, (2 * i + 1) * (neg && i % 2 ? -1 : 1)));
  if (ex::flip()) std::reverse(z.begin(), z.end());
  if (ex::flip()) std::rotate(z.begin(), z.begin() + z.size() / 2, z.end());
  for (auto x : z) u.push_back(F(x));
  auto P = make(z, u);
  for (auto e : EVAL()) {
    cplx w = F(e);
    ex::check(std::abs(P(e) - w) < 1e-3 * (1 + std::abs(w)), "rational", "a function with ", np, " poles and constant ", c, " from ", z.size(), " points is ", P(e), " at ", e, " instead of ", w);
  }
  for (size_t i = 0; i < z.size(); ++i) ex::check(std::abs(P(z[i]) - u[i]) < 1e-6, "rational-points", "a function with ", np, " poles from ", z.size(), " points is not reproduced at point ", i);
  ex::step();
}
// Green's functions: positive frequencies are used, every component on its own
JOB_SHARDED(green, 3) {
  int first = ex::choose(6);
  auto stat = first % 2 ? Boson : Fermion;
  double beta = std::array{1.0, 7.0, 40.0}[first / 2];
  bool posonly = ex::flip();
  int nw = 8, np = 1 + ex::choose(8);
  double off = ex::pick({0.0, 0.05, 1.0});
  mesh::imfreq m{beta, stat, nw, posonly ? mesh::imfreq::option::positive_frequencies_only : mesh::imfreq::option::all_frequencies};
  mesh::refreq w{-2, 3, 6};
  auto comp = [&](int i, int j, cplx z) { // at most two poles; different in every component
    if (i == 0 && j == 0) return cplx(0.5) / (z - cplx(0.3, -0.4));
    if (i == 1 && j == 1) return cplx(1.0, 0.25) / (z + cplx(1.1, 0.7));
    if (i == 0) return cplx(0.25, -0.125) / (z - cplx(0.7, -0.9));
    return cplx(0.0, 2.0) / (z - cplx(2.5, -0.2));
  };
  gf<imfreq, matrix_valued> g{m, {2, 2}};
  gf<refreq, matrix_valued> r{w, {2, 2}};
  r() = 17;
  for (auto x : m)
    for (int i : {0, 1})
      for (int j : {0, 1}) g[x](i, j) = x.index() >= 0 ? comp(i, j, cplx(x)) : cplx(1e3, 1e3); // negative frequencies must not be used
  pade(r, g, np, off);
  gf<imfreq, scalar_valued> gs{m};
  gf<refreq, scalar_valued> rs{w};
  gs.data() = g.data()(range::all, 1, 0);
  pade(rs, gs, np, off);
  // reference: the approximant of the first np points (the class itself is checked by the other jobs)
  for (int i : {0, 1})
    for (int j : {0, 1}) {
      std::vector<cplx> z, u;
      for (int n = 0; n < np; ++n) z.push_back(cplx(0, (2 * n + (stat == Fermion)) * M_PI / beta)), u.push_back(comp(i, j, z.back()));
      auto P = make(z, u);
      int k  = 0;
      for (auto om : w) {
        cplx e = cplx(-2.0 + k * 1.0, off), want = np >= 2 ? comp(i, j, e) : P(e);
        ex::check(std::abs(cplx(r[om](i, j)) - want) < 1e-5 * (1 + std::abs(want)), "green", "component ", i, j, " at ", e, " from ", np, " points is ", cplx(r[om](i, j)), " instead of ", want);
        if (i == 1 && j == 0) ex::check(cplx(rs[om]) == cplx(r[om](1, 0)), "green-scalar", "the scalar function differs from the component of the matrix");
        ++k;
      }
    }
  ex::step();
  for (int bad : {-1, 0, nw + 1}) {
    bool thrown = false;
    try {
      pade(rs, gs, bad, off);
    } catch (triqs::runtime_error const &) { thrown = true; }
    ex::check(thrown, "green-points", bad, " points of ", nw, " are accepted");
  }
}
