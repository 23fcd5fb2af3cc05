// C24: evaluation of functions on and off the points of their mesh
#include "explore.hpp"
#include <triqs/gfs.hpp>
#include <triqs/mesh.hpp>
using namespace triqs::gfs;
using namespace triqs::mesh;
using triqs::lattice::bravais_lattice;
using triqs::lattice::brillouin_zone;
using cplx = std::complex<double>;
using lcplx = std::complex<long double>;
using arr3 = std::array<long, 3>;
using weights = std::vector<std::pair<long double, long>>;

template <typename T> struct shape_of;
template <> struct shape_of<scalar_valued> { static std::array<long, 0> get() { return {}; } };
template <> struct shape_of<scalar_real_valued> { static std::array<long, 0> get() { return {}; } };
template <> struct shape_of<matrix_valued> { static std::array<long, 2> get() { return {2, 3}; } };
template <> struct shape_of<tensor_valued<3>> { static std::array<long, 3> get() { return {2, 1, 3}; } };

// irregular data: no two points or components alike
template <typename G> void fill(G &g) {
  long i = 0;
  for (auto &x : g.data()) {
    ++i;
    double a = double((i * 37) % 101) - 50, b = double((i * 53) % 97) - 48;
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>)
      x = a;
    else
      x = cplx(a, b);
  }
}
// components of a value, in order
template <typename V> std::vector<cplx> comps(V const &v) {
  std::vector<cplx> r;
  if constexpr (nda::is_scalar_v<V>)
    r.push_back(v);
  else {
    auto w = nda::make_regular(v);
    for (auto const &x : w) r.push_back(x);
  }
  return r;
}
// components of the data at a given position of the mesh(es)
template <typename G> std::vector<cplx> stored(G const &g, long flat, long npoints) {
  long n = g.data().size() / npoints;
  std::vector<cplx> r;
  auto const *p = g.data().data();
  for (long k = 0; k < n; ++k) r.push_back(p[flat * n + k]);
  return r;
}
static bool same(std::vector<cplx> const &a, std::vector<cplx> const &b, double tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!(std::abs(a[i] - b[i]) <= tol * (1 + std::abs(b[i])))) return false;
  return true;
}
template <typename G> std::vector<cplx> combine(G const &g, weights const &w, long npoints) {
  std::vector<lcplx> s(g.data().size() / npoints);
  for (auto [x, i] : w) {
    auto d = stored(g, i, npoints);
    for (size_t k = 0; k < s.size(); ++k) s[k] += x * lcplx(d[k]);
  }
  std::vector<cplx> r;
  for (auto z : s) r.push_back(cplx(z));
  return r;
}
static std::string text(std::vector<cplx> const &v) {
  std::ostringstream o;
  for (auto z : v) o << z << " ";
  return o.str();
}
template <typename V> void expect(V const &v, std::vector<cplx> const &want, double tol, const char *key, std::string const &what) {
  ex::step();
  auto got = comps(v);
  ex::check(same(got, want, tol), key, what, ": ", text(got), "instead of ", text(want));
}
// ---------------------------------------------------------------- linear meshes
template <typename M> weights lin(M const &m, double a, double b, double x) {
  long L = m.size();
  long double u = (static_cast<long double>(x) - a) * (L - 1) / (static_cast<long double>(b) - a);
  u = std::clamp<long double>(u, 0, L - 1);
  long i = std::min<long>(long(u), L - 2);
  return {{1 - (u - i), i}, {u - i, i + 1}};
}
template <typename T, typename M> void linear_case(M const &m, double a, double b, std::string const &what) {
  gf<M, T> g{m, shape_of<T>::get()};
  fill(g);
  long L = m.size();
  gf_const_view<M, T> c = g;
  gf_view<M, T> v = g;
  for (auto p : m) {
    long i = p.data_index();
    auto s = stored(g, i, L);
    expect(g[p], s, 0, "subscript", what), expect(g[i], s, 0, "subscript", what);
    expect(g(p), s, 1e-12, "mesh-point", what), expect(c(p), s, 1e-12, "mesh-point", what), expect(v(p), s, 1e-12, "mesh-point", what);
    expect(g(p.value()), s, 1e-12, "value-of-point", what + " at point " + std::to_string(i));
    expect(g(long(i)), s, 0, "index", what);
    expect(g[closest_mesh_pt(p.value())], s, 0, "closest", what), expect(g(closest_mesh_pt(p.value())), s, 0, "closest", what);
  }
  int N = 16 * (L - 1);
  for (int k = 0; k <= N; ++k)
    for (int n = -1; n <= 1; ++n) {
      double x = k == N ? b : a + (b - a) * k / N;
      if (n) x = std::nextafter(x, n * 1e300);
      if (x < a || x > b) continue;
      auto w = combine(g, lin(m, a, b, x), L);
      auto at = what + " at " + std::to_string(x);
      expect(g(x), w, 1e-11, "interpolation", at), expect(c(x), w, 1e-11, "interpolation", at), expect(v(x), w, 1e-11, "interpolation", at);
      // nearest point
      long best = 0;
      for (long i = 1; i < L; ++i)
        if (std::abs(m[i].value() - x) < std::abs(m[best].value() - x)) best = i;
      long other = -1;
      for (long i = 0; i < L; ++i)
        if (i != best && std::abs(m[i].value() - x) <= std::abs(m[best].value() - x) + 1e-12 * std::abs(b - a)) other = i;
      auto got = comps(g(closest_mesh_pt(x)));
      ex::check(same(got, stored(g, best, L), 0) || (other >= 0 && same(got, stored(g, other, L), 0)), "closest-value", at);
    }
  // exact for linear data
  for (auto p : m) g[p] = (2.0 - 3 * p.value());
  if constexpr (T::rank == 0)
    for (int k = 0; k <= 40; ++k) {
      double x = std::min(b, a + (b - a) * k / 40);
      expect(g(x), {cplx(2 - 3 * x)}, 1e-12, "linear-exact", what);
    }
}
template <typename T> void linear_all(int kind, long L, int w) {
  static const double ends[][2] = {{-1, 1}, {0, 3}, {-2.5, -0.5}, {1e-3, 1e3}, {-1e-7, 2e-7}};
  auto [a, b] = ends[w];
  auto what = "mesh kind " + std::to_string(kind) + " of " + std::to_string(L) + " points in " + std::to_string(a) + ".." + std::to_string(b);
  switch (kind) {
    case 0: return linear_case<T>(refreq(a, b, L), a, b, what);
    case 1: return linear_case<T>(retime(a, b, L), a, b, what);
    default: return linear_case<T>(imtime(b - a, w % 2 ? Boson : Fermion, L), 0, b - a, what);
  }
}
JOB_SHARDED(eval_linear, 5) {
  int w = ex::choose(5), kind = ex::choose(3), t = ex::choose(4);
  long L = 2 + ex::choose(ex::tier(5, 12));
  if (t == 0) linear_all<scalar_valued>(kind, L, w);
  if (t == 1) linear_all<scalar_real_valued>(kind, L, w);
  if (t == 2) linear_all<matrix_valued>(kind, L, w);
  if (t == 3) linear_all<tensor_valued<3>>(kind, L, w);
}
// ---------------------------------------------------------------- Matsubara frequencies
template <typename T> void imfreq_case(double beta, statistic_enum st, long n, bool pos) {
  imfreq m(beta, st, n, pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies);
  gf<imfreq, T> g{m, shape_of<T>::get()};
  fill(g);
  gf_const_view<imfreq, T> c = g;
  std::ostringstream w;
  w << "imfreq beta " << beta << (st == Fermion ? " F " : " B ") << n << (pos ? " positive" : "");
  for (auto p : m) {
    auto s = stored(g, p.data_index(), m.size());
    expect(g(p), s, 0, "mesh-point", w.str()), expect(g[p], s, 0, "subscript", w.str()), expect(g[p.index()], s, 0, "subscript", w.str());
    expect(g(p.value()), s, 0, "value-of-point", w.str()), expect(c(matsubara_freq{p.n, beta, st}), s, 0, "value-of-point", w.str()), expect(g(int(p.n)), s, 0, "index", w.str());
  }
  if (!pos) return;
  int sh = st == Fermion;
  for (long k = -n - 3; k < n + 4; ++k) {
    if (m.is_index_valid(k)) continue;
    bool threw = false;
    std::vector<cplx> got;
    try {
      got = comps(g(matsubara_freq{k, beta, st}));
    } catch (triqs::runtime_error const &) { threw = true; }
    ex::step();
    if (k < 0 && m.is_index_valid(-k - sh)) {
      auto want = stored(g, m.to_data_index(-k - sh), m.size());
      for (auto &z : want) z = std::conj(z);
      ex::check(!threw && got == want, "negative", w.str(), ": frequency ", k, " of a function on positive frequencies");
    } else
      ex::check(threw, "beyond", w.str(), ": frequency ", k, " beyond a mesh of positive frequencies");
  }
}
JOB(eval_imfreq) {
  int b = ex::choose(3), n = 1 + ex::choose(6), t = ex::choose(3);
  bool pos = ex::flip();
  auto st = ex::flip() ? Boson : Fermion;
  double beta = b == 0 ? 1 : b == 1 ? 3.7 : 50;
  if (t == 0) imfreq_case<scalar_valued>(beta, st, n, pos);
  if (t == 1) imfreq_case<matrix_valued>(beta, st, n, pos);
  if (t == 2) imfreq_case<tensor_valued<3>>(beta, st, n, pos);
}
// beyond the mesh: the sum of the moments
JOB(eval_tail) {
  int b = ex::choose(2), s = ex::choose(2), k = ex::choose(5), t = ex::choose(2);
  double beta = b ? 40 : 10;
  auto st = s ? Boson : Fermion;
  imfreq m(beta, st, ex::tier(300, 600));
  // k = 0 .. 2: a single moment, 3: three moments, 4: a pole
  auto f = [&](cplx iw, double c) {
    switch (k) {
      case 0: return c / iw;
      case 1: return c * cplx(1, 2) / (iw * iw);
      case 2: return c * 3.0 / (iw * iw * iw);
      case 3: return c / iw - 2.0 / (iw * iw) + c * 0.5 / (iw * iw * iw);
      default: return c / (iw - 0.7);
    }
  };
  auto what = "tail " + std::to_string(k) + " beta " + std::to_string(beta) + (s ? " B" : " F");
  for (long n : {m.last_index() + 1, m.last_index() + 10, 2 * m.last_index(), 20 * m.last_index(), m.first_index() - 1, m.first_index() - 5, 3 * m.first_index(), 50 * m.first_index()}) {
    matsubara_freq w{n, beta, st};
    cplx iw = w;
    auto at = what + " index " + std::to_string(n);
    if (t == 0) {
      gf<imfreq, scalar_valued> g{m};
      for (auto p : m) g[p] = p.n == 0 && st == Boson ? cplx(0) : f(p, 1);
      cplx want = f(iw, 1), got = g(w);
      ex::step();
      ex::check(std::abs(got - want) <= 1e-5 * std::abs(want) + 1e-12, "tail", at, ": ", got.real(), "+", got.imag(), "i instead of ", want.real(), "+", want.imag(), "i");
      ex::check(std::abs(g(int(n)) - got) <= 1e-15, "tail-index", at);
    } else {
      gf<imfreq, matrix_valued> g{m, {2, 2}};
      for (auto p : m)
        for (int i = 0; i < 2; ++i)
          for (int j = 0; j < 2; ++j) g[p](i, j) = p.n == 0 && st == Boson ? cplx(0) : f(p, 1 + i + 3 * j);
      auto v = g(w);
      ex::step();
      for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) ex::check(std::abs(v(i, j) - f(iw, 1 + i + 3 * j)) <= 1e-5 * std::abs(f(iw, 1 + i + 3 * j)) + 1e-12, "tail-matrix", at);
    }
  }
}
// ---------------------------------------------------------------- expansions
static long double legendre_p(int l, long double x) {
  long double a = 1, b = x;
  if (l == 0) return 1;
  for (int n = 1; n < l; ++n) {
    long double c = ((2 * n + 1) * x * b - n * a) / (n + 1);
    a = b, b = c;
  }
  return b;
}
template <typename T> void legendre_case(double beta, int n) {
  triqs::mesh::legendre m(beta, Fermion, n);
  gf<triqs::mesh::legendre, T> g{m, shape_of<T>::get()};
  fill(g);
  auto what = "legendre beta " + std::to_string(beta) + " size " + std::to_string(n);
  for (int k = 0; k <= 24; ++k) {
    double tau = beta * k / 24;
    weights w;
    for (int l = 0; l < n; ++l) w.push_back({std::sqrt(2.0L * l + 1) * legendre_p(l, 2 * static_cast<long double>(tau) / beta - 1) / beta, l});
    expect(g(tau), combine(g, w, n), 1e-10, "legendre", what + " at " + std::to_string(tau));
  }
  for (auto p : m) expect(g[p], stored(g, p.data_index(), n), 0, "subscript", what);
}
JOB(eval_legendre) {
  double beta = ex::flip() ? 7.5 : 1;
  int n = 1 + ex::choose(ex::tier(8, 30));
  if (ex::flip())
    legendre_case<scalar_valued>(beta, n);
  else
    legendre_case<matrix_valued>(beta, n);
}
template <typename T> void dlr_case(double beta, statistic_enum st, double wmax, double eps) {
  dlr m(beta, st, wmax, eps);
  gf<dlr, T> g{m, shape_of<T>::get()};
  fill(g);
  long n = m.size();
  auto what = "dlr beta " + std::to_string(beta) + " size " + std::to_string(n);
  for (int k = 0; k <= 12; ++k) {
    double tau = beta * k / 12;
    weights w;
    for (long l = 0; l < n; ++l) {
      long double om = m[l].value(), t = k / 12.0L; // the frequencies of the mesh are in units of the temperature
      w.push_back({om > 0 ? - std::exp(-t * om) / (1 + std::exp(-om)) : -std::exp((1 - t) * om) / (1 + std::exp(om)), l});
    }
    expect(g(tau), combine(g, w, n), 1e-8, "dlr-tau", what + " at " + std::to_string(tau));
  }
  for (long k = -7; k <= 7; ++k) {
    std::vector<lcplx> s(g.data().size() / n);
    for (long l = 0; l < n; ++l) {
      long double om = m[l].value();
      lcplx iw(0, (2 * k + (st == Fermion)) * std::numbers::pi_v<long double>); // transform of the kernel in tau
      lcplx kern = static_cast<long double>(beta) * (st == Fermion ? 1.0L : std::tanh(om / 2)) / (iw - om);
      auto d = stored(g, l, n);
      for (size_t c = 0; c < s.size(); ++c) s[c] += kern * lcplx(d[c]);
    }
    std::vector<cplx> want;
    for (auto z : s) want.push_back(cplx(z));
    expect(g(matsubara_freq{k, beta, st}), want, 1e-9, "dlr-iw", what + " frequency " + std::to_string(k));
  }
}
JOB(eval_dlr) {
  double beta = ex::flip() ? 7.5 : 1, wmax = ex::flip() ? 1 : 4, eps = ex::flip() ? 1e-3 : 1e-8;
  auto st = ex::flip() ? Boson : Fermion;
  if (ex::flip())
    dlr_case<scalar_valued>(beta, st, wmax, eps);
  else
    dlr_case<matrix_valued>(beta, st, wmax, eps);
}
// ---------------------------------------------------------------- products
// calls f(argument, weights, is the result zero) for a set of arguments of the mesh
template <typename F> void arguments(imtime const &m, F f) {
  for (auto p : m) f(p, weights{{1, p.data_index()}});
  for (int k = 0; k <= 5; ++k) f(m.beta() * k / 5, lin(m, 0, m.beta(), m.beta() * k / 5));
  f(1l, weights{{1, 1}});
  f(closest_mesh_pt(0.9 * m.beta()), weights{{1, long(0.9 * (m.size() - 1) + 0.5)}});
}
template <typename F> void arguments(refreq const &m, F f) {
  double a = m.w_min(), b = m.w_max();
  for (auto p : m) f(p, weights{{1, p.data_index()}});
  for (int k = 0; k <= 5; ++k) f(std::min(b, a + (b - a) * k / 5), lin(m, a, b, a + (b - a) * k / 5));
}
template <typename F> void arguments(imfreq const &m, F f) {
  for (auto p : m) f(p, weights{{1, p.data_index()}});
  for (long n = m.first_index() - 2; n <= m.last_index() + 2; ++n) {
    auto w = m.is_index_valid(n) ? weights{{1, m.to_data_index(n)}} : weights{};
    f(matsubara_freq{n, m.beta(), m.statistic()}, w);
    f(n, w);
  }
}
template <typename F> void arguments(discrete const &m, F f) {
  for (auto p : m) f(p, weights{{1, p.data_index()}}), f(p.index(), weights{{1, p.data_index()}});
}
template <typename F> void arguments(triqs::mesh::legendre const &m, F f) {
  for (int k = 0; k <= 3; ++k) {
    double tau = m.beta() * k / 3;
    weights w;
    for (int l = 0; l < m.size(); ++l) w.push_back({std::sqrt(2.0L * l + 1) * legendre_p(l, 2 * static_cast<long double>(tau) / m.beta() - 1) / m.beta(), l});
    f(tau, w);
  }
}
template <typename F> void arguments(cyclat const &m, F f) {
  for (auto p : m) f(p, weights{{1, p.data_index()}});
  auto d = m.dims();
  for (long x : {-3l, 0l, 2l})
    for (long y : {-1l, 1l, 5l}) {
      arr3 id{x, y, 0};
      long i = (((x % d[0]) + d[0]) % d[0]) * d[1] * d[2] + (((y % d[1]) + d[1]) % d[1]) * d[2];
      f(id, weights{{1, i}});
      f(bravais_lattice::point_t{id, &m.lattice()}, weights{{1, i}});
    }
}
template <typename F> void arguments(brzone const &m, F f) {
  auto d = m.dims();
  for (auto const &p : m) f(p, weights{{1, p.data_index()}});
  for (auto const &p : m) f(-p, weights{{1, ((d[0] - p.index()[0]) % d[0]) * d[1] * d[2] + ((d[1] - p.index()[1]) % d[1]) * d[2]}});
  for (double x : {-0.3, 0.0, 0.6, 2.25})
    for (double y : {0.1, 1.5}) {
      nda::vector<double> k(3);
      for (int n = 0; n < 3; ++n) k(n) = x / d[0] * m.bz().units()(0, n) + y / d[1] * m.bz().units()(1, n);
      weights w;
      long i = long(std::floor(x)), j = long(std::floor(y));
      for (int a = 0; a < 2; ++a)
        for (int b = 0; b < 2; ++b) {
          long i2 = (((i + a) % d[0]) + d[0]) % d[0], j2 = (((j + b) % d[1]) + d[1]) % d[1];
          w.push_back({(a ? x - i : 1 - x + i) * (b ? y - j : 1 - y + j), i2 * d[1] * d[2] + j2 * d[2]});
        }
      f(k, w);
    }
}
template <typename F> void with_mesh(int k, F f) {
  static nda::matrix<double> u{{1.0, 0.0}, {0.5, std::sqrt(3.) / 2}};
  static bravais_lattice bl{u};
  static brillouin_zone bz{bl};
  switch (k) {
    case 0: return f(imtime(1.5, Fermion, 4));
    case 1: return f(refreq(-1, 2, 3));
    case 2: return f(imfreq(1.5, Boson, 2));
    case 3: return f(imfreq(1.5, Fermion, 2, imfreq::option::positive_frequencies_only));
    case 4: return f(discrete(2));
    case 5: return f(triqs::mesh::legendre(1.5, Fermion, 3));
    case 6: return f(cyclat(bl, arr3{3, 2, 1}));
    default: return f(brzone(bz, arr3{2, 3, 1}));
  }
}
static weights outer(weights const &a, weights const &b, long nb) {
  weights r;
  for (auto [x, i] : a)
    for (auto [y, j] : b) r.push_back({x * y, i * nb + j});
  return r;
}
template <typename T, typename M1, typename M2> void prod2(M1 const &m1, M2 const &m2, std::string const &what) {
  gf<prod<M1, M2>, T> g{m1 * m2, shape_of<T>::get()};
  fill(g);
  gf_const_view<prod<M1, M2>, T> c = g;
  long n2 = m2.size(), n = m1.size() * n2;
  arguments(m1, [&](auto const &x, weights const &w1) {
    arguments(m2, [&](auto const &y, weights const &w2) {
      auto want = combine(g, outer(w1, w2, n2), n);
      expect(g(x, y), want, 1e-10, "product", what), expect(c(x, y), want, 1e-10, "product", what);
    });
  });
  for (auto const &p : m1)
    for (auto const &q : m2) expect(g[p, q], stored(g, p.data_index() * n2 + q.data_index(), n), 0, "product-subscript", what);
  // one variable only: a function of the other
  for (auto const &p : m1) {
    auto h = g[p, all_t{}];
    ex::check(h.mesh() == m2, "partial-mesh", what);
    for (auto const &q : m2) expect(h[q], stored(g, p.data_index() * n2 + q.data_index(), n), 0, "partial", what);
  }
  for (auto const &q : m2) {
    auto h = c[all_t{}, q];
    ex::check(h.mesh() == m1, "partial-mesh", what);
    for (auto const &p : m1) expect(h[p], stored(g, p.data_index() * n2 + q.data_index(), n), 0, "partial", what);
  }
}
JOB_SHARDED(eval_product, 8) {
  int a = ex::choose(8), b = ex::choose(8);
  bool mat = ex::flip();
  auto what = "product of meshes " + std::to_string(a) + " and " + std::to_string(b);
  with_mesh(a, [&](auto const &m1) {
    with_mesh(b, [&](auto const &m2) {
      if (mat)
        prod2<matrix_valued>(m1, m2, what);
      else
        prod2<scalar_valued>(m1, m2, what);
    });
  });
}
// partial evaluation off the points
JOB(eval_partial) {
  int k = ex::choose(4);
  imtime t(2.0, Fermion, 4);
  refreq r(-1, 2, 3);
  with_mesh(6 + k % 2, [&](auto const &m) {
    using M = std::decay_t<decltype(m)>;
    if constexpr (std::is_same_v<M, cyclat> || std::is_same_v<M, brzone>)
    if (k < 2) {
      gf<prod<M, imtime>, matrix_valued> g{m * t, {2, 2}};
      fill(g);
      for (int s = 0; s <= 8; ++s) {
        double tau = 2.0 * s / 8;
        auto h = g(all_t{}, tau);
        ex::check(h.mesh() == m, "partial-mesh", "");
        for (auto const &p : m) expect(h[p], combine(g, outer({{1, p.data_index()}}, lin(t, 0, 2, tau), 4), m.size() * 4), 1e-11, "partial-evaluation", "first variable free");
      }
    } else {
      gf<prod<imtime, M>, matrix_valued> g{t * m, {2, 2}};
      fill(g);
      arguments(m, [&](auto const &x, weights const &w) {
        auto h = g(all_t{}, x);
        for (auto const &p : t) expect(h[p], combine(g, outer({{1, p.data_index()}}, w, m.size()), m.size() * 4), 1e-11, "partial-evaluation", "first variable free");
      });
      for (int s = 0; s <= 8; ++s) {
        double tau = 2.0 * s / 8;
        auto h = g(tau, all_t{});
        for (auto const &p : m) expect(h[p], combine(g, outer(lin(t, 0, 2, tau), {{1, p.data_index()}}, m.size()), m.size() * 4), 1e-11, "partial-evaluation", "second variable free");
      }
    }
  });
}
JOB(eval_triple) {
  int k = ex::choose(2);
  imtime t(2.0, Fermion, 3);
  imfreq w(2.0, Boson, 2);
  refreq r(-1, 2, 3);
  with_mesh(6 + k, [&](auto const &m) {
    using M = std::decay_t<decltype(m)>;
    if constexpr (std::is_same_v<M, cyclat> || std::is_same_v<M, brzone>) {
    gf<prod<imfreq, M, imtime>, scalar_valued> g{w * m * t};
    fill(g);
    long nm = m.size(), n = nm * 3 * w.size();
    arguments(w, [&](auto const &x, weights const &wx) {
      arguments(m, [&](auto const &y, weights const &wy) {
        arguments(t, [&](auto const &z, weights const &wz) { expect(g(x, y, z), combine(g, outer(wx, outer(wy, wz, 3), nm * 3), n), 1e-10, "triple", "three variables"); });
      });
    });
    for (auto const &y : m) {
      auto h = g[all_t{}, y, all_t{}];
      ex::check(h.mesh() == w * t, "partial-mesh", "");
      for (auto const &x : w)
        for (auto const &z : t) expect(h[x, z], stored(g, (x.data_index() * nm + y.data_index()) * 3 + z.data_index(), n), 0, "triple-partial", "");
    }
    }
  });
}
