// C30: high-frequency tails, density, rebinning, Hermiticity     C31 (jobs legendre_*): Legendre representation
#include "explore.hpp"
#include <triqs/gfs.hpp>
#include <triqs/mesh.hpp>
using namespace triqs::gfs;
using namespace triqs::mesh;
using cplx  = std::complex<double>;
using lcplx = std::complex<long double>;
using ld    = long double;
static const bool quiet = (std::cerr.setstate(std::ios::failbit), true);
static const ld PI      = acosl(-1.0L);
static auto const _     = nda::range::all;

template <typename F> bool refuses(F f) {
  try {
    f();
  } catch (triqs::runtime_error const &) { return true; }
  return false;
}
template <typename A, typename B> double dist(A const &a, B const &b) {
  if (a.shape() != b.shape()) return 1e300;
  nda::array<cplx, A::rank> x = a, y = b;
  double d = 0;
  for (auto i = x.begin(), j = y.begin(); i != x.end(); ++i, ++j) {
    double e = std::abs(*i - *j);
    if (e != e) return 1e300;
    d = std::max(d, e);
  }
  return d;
}
template <typename T> struct comps { static constexpr int n = 1, s = 1; static std::array<long, 0> shape() { return {}; } };
template <> struct comps<matrix_valued> { static constexpr int n = 4, s = 2; static std::array<long, 2> shape() { return {2, 2}; } };
template <typename X> void put(X &&x, int c, cplx v) {
  if constexpr (requires { x(0, 0) = v; }) x(c / 2, c % 2) = v;
  else x = v;
}
static const char *sname(statistic_enum s) { return s == Fermion ? "fermion" : "boson"; }
// ------------------------------------------------------------------------------------------- fits
static cplx coef(int n, int c) { return {double((n * 37 + c * 11) % 23 - 11) / 8, double((n * 29 + c * 7) % 19 - 9) / 8}; }
// moments, in units of the largest frequency; Hermitian matrices if asked for
template <typename T> nda::array<cplx, 1 + T::rank> series(int order, bool herm) {
  constexpr int NC = comps<T>::n, S = comps<T>::s;
  auto sh = nda::stdutil::front_append(comps<T>::shape(), order + 1);
  nda::array<cplx, 1 + T::rank> m(sh);
  for (int n = 0; n <= order; ++n)
    for (int c = 0; c < NC; ++c) {
      cplx v = coef(n, c);
      if (herm) v = 0.5 * (v + std::conj(coef(n, (c % S) * S + c / S)));
      if constexpr (T::rank == 0) m(n) = v;
      else m(n, c / 2, c % 2) = v;
    }
  return m;
}
template <typename M> ld freq(M const &m, long n) { return m.to_value(n); }
template <typename M, typename T> gf<M, T> from_series(M const &m, nda::array<cplx, 1 + T::rank> const &mom, double unit) {
  gf<M, T> g{m, comps<T>::shape()};
  for (auto w : m)
    for (int c = 0; c < comps<T>::n; ++c) {
      lcplx x = lcplx(unit) / lcplx(cplx(w.value())), z = 1, s = 0;
      if (std::abs(cplx(w.value())) == 0) x = 0; // not used
      for (long n = 0; n < mom.shape()[0]; ++n, z *= x) {
        if constexpr (T::rank == 0) s += lcplx(mom(n)) * z;
        else s += lcplx(mom(n, c / 2, c % 2)) * z;
      }
      put(g[w], c, cplx(s));
    }
  return g;
}
template <typename A> void physical(A &mom, double unit) {
  double z = 1;
  for (long n = 0; n < mom.shape()[0]; ++n, z *= unit) mom(n, nda::ellipsis()) *= z;
}
template <typename A> void scaled(A &mom, double unit) { physical(mom, 1 / unit); }

template <typename T, typename MF> void fits(MF make, bool matsubara, std::string const &name) {
  using M = decltype(make());
  int order = ex::choose(7) - 1;                                // -1: adjusted
  if (order == 0) order = 7;
  double fraction = ex::pick(std::vector<double>{0.3, 0.6});
  int nmax = ex::pick(std::vector<int>{11, 30});
  // up to three fits with the same mesh, of any number of known moments and of both kinds; every one as good as the first on a fresh mesh
  int nfits = ex::choose(ex::tier(2, 3)) + 1;
  auto setup = [&] {
    M m = make();
    if (order < 0) m.set_tail_fit_parameters(fraction, nmax);
    else m.set_tail_fit_parameters(fraction, nmax, order);
    return m;
  };
  M shared = setup();
  double unit = std::abs(shared.w_max());
  std::string what = ex::cat(name, " order ", order, " fraction ", fraction, " at most ", nmax, " points: ");
  for (int f = 0; f < nfits; ++f) {
    int known = ex::choose(4);
    bool herm = matsubara && ex::choose(2), sym = herm && ex::choose(2);
    ex::cat("");
    what += ex::cat(f ? ", " : "", known, " known", herm ? " hermitian" : "", sym ? " data" : "");
    int P = order < 0 ? 3 : order; // the data are a series of this order
    auto mom = series<T>(P, sym);
    auto g = from_series<M, T>(shared, mom, unit);
    auto phys = mom;
    physical(phys, unit);
    auto km = nda::array<cplx, 1 + T::rank>(phys(nda::range(std::min(known, P + 1)), nda::ellipsis()));
    if (herm) { // known moments are Hermitian matrices
      auto hm = series<T>(P, true);
      physical(hm, unit);
      km = hm(nda::range(std::min(known, P + 1)), nda::ellipsis());
    }
    auto run = [&](auto const &gg) {
      if constexpr (std::is_same_v<M, imfreq>)
        if (herm) return fit_hermitian_tail(gg, km);
      return fit_tail(gg, km);
    };
    auto gd = g;
    auto [t1, e1] = run(g);
    M fresh = setup();
    gf<M, T> g2{fresh, comps<T>::shape()};
    g2.data() = gd.data();
    auto [t2, e2] = run(g2);
    ex::step();
    ex::check(dist(g.data(), gd.data()) == 0, "argument-changed", what);
    ex::check(dist(t1, t2) == 0 && e1 == e2, "depends-on-earlier-fits", what);
    long n = t1.shape()[0];
    ex::check(order < 0 ? n >= 4 || known > 9 : n == P + 1, "number-of-moments", what, ": ", n);
    if (n < P + 1) return;
    auto want = mom;
    auto got = t1;
    scaled(got, unit);
    double tol = order < 0 ? 1e-6 : 1e-9;
    nda::array<cplx, 1 + T::rank> low = got(nda::range(P + 1), nda::ellipsis());
    bool exact = !herm || sym; // otherwise the least squares decide
    ex::check(!exact || dist(low, want) < tol, "moments", what, ": error ", dist(low, want));
    if (n > P + 1 && exact) {
      nda::array<cplx, 1 + T::rank> high = got(nda::range(P + 1, n), nda::ellipsis());
      ex::check(nda::max_element(nda::abs(high)) < 1e-5, "moments-too-many", what);
    }
    for (long k = 0; k < std::min<long>(known, P + 1); ++k)
      ex::check(dist(nda::array<cplx, T::rank + 1>(t1(nda::range(k, k + 1), nda::ellipsis())), nda::array<cplx, T::rank + 1>(km(nda::range(k, k + 1), nda::ellipsis()))) == 0, "known-moments-changed", what);
    if (!herm || sym) ex::check(e1 < 1e-10, "error-estimate", what, ": ", e1);
    if (T::rank == 2 && herm) {
      bool ok = true;
      for (long k = 0; k < n; ++k)
        for (int i = 0; i < 2; ++i)
          for (int j = 0; j < 2; ++j)
            if constexpr (T::rank == 2) ok = ok && std::abs(t1(k, i, j) - std::conj(t1(k, j, i))) <= 1e-13 * std::pow(unit, k);
      ex::check(ok, "not-hermitian", what);
    }
    if (known == 0 && !herm) {
      auto [u, eu] = fit_tail_no_normalize(g);
      auto v = t1;
      scaled(v, unit);
      ex::check(dist(u, v) < 1e-12 && eu == e1, "not-normalized", what);
    }
    // the tail evaluated
    if (!herm || sym)
      for (auto w : shared) {
        cplx x(w.value());
        if (std::abs(x) < unit * (1 - fraction * 0.9)) continue;
        nda::array_const_view<cplx, 1 + T::rank> tv = t1;
        auto val = tail_eval(tv, x);
        double d = 0;
        if constexpr (T::rank == 0) d = std::abs(val - cplx(g[w]));
        else d = nda::max_element(nda::abs(val - nda::array<cplx, 2>(g[w])));
        if (!(d < 1e-8)) {
          ex::check(false, "tail-evaluated", what, ": ", d);
          return;
        }
      }
  }
}
JOB_SHARDED(fits, 10) {
  switch (ex::choose(10)) {
    case 0: return fits<scalar_valued>([] { return imfreq{10, Fermion, 60}; }, true, "fermion scalar");
    case 1: return fits<matrix_valued>([] { return imfreq{10, Fermion, 60}; }, true, "fermion matrix");
    case 2: return fits<scalar_valued>([] { return imfreq{3, Boson, 61}; }, true, "boson scalar");
    case 3: return fits<matrix_valued>([] { return imfreq{3, Boson, 61}; }, true, "boson matrix");
    case 4: return fits<scalar_valued>([] { return refreq{-40, 40, 151}; }, false, "real scalar");
    case 5: return fits<matrix_valued>([] { return refreq{-40, 40, 151}; }, false, "real matrix");
    case 6: return fits<scalar_valued>([] { return refreq{-30, 20, 151}; }, false, "asymmetric real scalar");
    case 7: return fits<matrix_valued>([] { return imfreq{300, Fermion, 100}; }, true, "cold fermion matrix");
    case 8: return fits<scalar_valued>([] { return imfreq{1, Boson, 40}; }, true, "hot boson scalar");
    case 9: return fits<matrix_valued>([] { return refreq{-10, 10, 100}; }, false, "narrow real matrix");
  }
}
// errors of the arguments
JOB(fit_refusals) {
  int c = ex::choose(7);
  imfreq m{10, Fermion, 60};
  gf<imfreq, scalar_valued> g{m};
  gf<imfreq, matrix_valued> gm{m, {2, 2}}, gr{m, {1, 2}};
  ex::step();
  switch (c) {
    case 0: {
      gf<imfreq, scalar_valued> gp{imfreq{10, Fermion, 60, imfreq::option::positive_frequencies_only}};
      ex::check(refuses([&] { fit_tail(gp); }), "positive-frequencies", "fit");
      ex::check(refuses([&] { density(gp); }), "positive-frequencies", "density");
      return;
    }
    case 1: ex::check(refuses([&] { fit_hermitian_tail(gr); }), "rectangular", "hermitian fit of 1x2"); return;
    case 2: // too few points
      for (int n = 1; n < 12; ++n) {
        gf<imfreq, scalar_valued> gs{imfreq{10, Fermion, n}};
        auto t = [&] { auto r = fit_tail(gs); (void)r; };
        if (n <= 2) ex::check(refuses(t), "too-few-points", n, " frequencies");
        else try { t(); } catch (triqs::runtime_error const &) {}
      }
      return;
    case 3: { // moments of another shape
      nda::array<cplx, 3> km(2, 2, 3);
      km = 0;
      ex::check(refuses([&] { fit_tail(gm, km); }), "shape", "2x3 moments of a 2x2 function");
      return;
    }
    case 4: { // all the moments are known
      m.set_tail_fit_parameters(0.5, 30, 3);
      gf<imfreq, matrix_valued> h{m, {2, 2}};
      for (int k = 4; k < 7; ++k) {
        nda::array<cplx, 3> km(k, 2, 2);
        for (auto &x : km) x = cplx(0.25 * k, 1);
        auto [t, e] = fit_tail(h, km);
        ex::check(dist(t, km) == 0 && e == 0, "all-known", k, " known moments");
        auto [t2, e2] = fit_hermitian_tail(h, km);
        ex::check(dist(t2, km) == 0 && e2 == 0, "all-known", k, " known moments");
      }
      return;
    }
    case 5: { // more known moments than the fitter has a place for
      m.set_tail_fit_parameters(0.9, 60, 12);
      gf<imfreq, scalar_valued> h{m};
      for (int k : {9, 10, 11, 12}) {
        nda::array<cplx, 1> km = nda::zeros<cplx>(std::array<long, 1>{k});
        for (auto w : m) h[w] = 0;
        try {
          auto [t, e] = fit_tail(h, km);
          ex::check(t.shape()[0] == 13 && nda::max_element(nda::abs(t)) < 1e-8, "many-known", k, " of order 12");
          auto [t2, e2] = fit_hermitian_tail(h); // and the fits after that
          ex::check(t2.shape()[0] == 13 && nda::max_element(nda::abs(t2)) < 1e-8, "many-known", k, " of order 12, then none");
        } catch (triqs::runtime_error const &) {}
      }
      return;
    }
    case 6: { // fits of blocks
      std::vector<gf<imfreq, matrix_valued>> v;
      std::vector<nda::array<cplx, 3>> want, km;
      m.set_tail_fit_parameters(0.5, 30, 4);
      for (int b = 0; b < 3; ++b) {
        auto s = series<matrix_valued>(4, true);
        s *= (b + 1.0);
        v.push_back(from_series<imfreq, matrix_valued>(m, s, std::abs(m.w_max())));
        physical(s, std::abs(m.w_max()));
        want.push_back(s), km.push_back(s(nda::range(2), _, _));
      }
      auto bg = make_block_gf<imfreq>({"a", "b", "c"}, v);
      for (int k = 0; k < 4; ++k) {
        auto [t, e] = k == 0 ? fit_tail(bg) : k == 1 ? fit_tail(bg, km) : k == 2 ? fit_hermitian_tail(bg) : fit_hermitian_tail(bg, km);
        bool ok = t.size() == 3 && e < 1e-10;
        for (int b = 0; b < 3 && ok; ++b) {
          auto a = t[b], w = want[b];
          scaled(a, std::abs(m.w_max())), scaled(w, std::abs(m.w_max()));
          ok = dist(a, w) < 1e-9;
        }
        ex::check(ok, "blocks", "way ", k);
      }
      // the largest of the errors
      for (int bad = 0; bad < 3; ++bad) {
        auto w = v;
        w[bad].data()(2, 0, 1) += 0.5;
        auto bw = make_block_gf<imfreq>({"a", "b", "c"}, w);
        auto [t, e] = fit_tail(bw);
        auto [ts, es] = fit_tail(w[bad]);
        ex::check(e == es && e > 1e-4, "blocks-error", "block ", bad, ": ", e, " instead of ", es);
      }
      return;
    }
  }
}
// the frequency at any position
JOB_SHARDED(fit_products, 6) {
  int pos = ex::choose(3), target = ex::choose(2), known = ex::choose(3);
  std::string what = ex::cat("position ", pos, target ? " matrix" : " scalar", " known ", known);
  imfreq m{10, Fermion, 40};
  m.set_tail_fit_parameters(0.5, 30, 4);
  imtime a{1, Boson, 3};
  refreq b{-1, 1, 2};
  double unit = std::abs(m.w_max());
  auto test = [&]<typename T, int POS>(T, std::integral_constant<int, POS>, auto mesh, auto index) {
    constexpr int R = 3 + T::rank;
    using M = decltype(mesh);
    gf<M, T> g{mesh, comps<T>::shape()};
    long NA = 3, NB = 2;
    // every pair of other variables has a multiple of its own
    auto factor = [](long i, long j) { return cplx(1 + i, 0.5 * j - 0.25 * i); };
    auto s = series<T>(4, false);
    auto one = from_series<imfreq, T>(m, s, unit);
    for (long i = 0; i < NA; ++i)
      for (long j = 0; j < NB; ++j)
        for (long w = 0; w < m.size(); ++w) index(g.data(), i, j, w) = factor(i, j) * nda::array<cplx, T::rank + 1>(one.data()(nda::range(w, w + 1), nda::ellipsis()))(0, nda::ellipsis());
    physical(s, unit);
    std::array<long, R> sh;
    sh[0] = known, sh[1] = NA, sh[2] = NB;
    if constexpr (T::rank == 2) sh[3] = sh[4] = 2;
    nda::array<cplx, R> km(sh);
    for (long k = 0; k < known; ++k)
      for (long i = 0; i < NA; ++i)
        for (long j = 0; j < NB; ++j) {
          if constexpr (T::rank == 0) km(k, i, j) = factor(i, j) * s(k);
          else km(k, i, j, _, _) = factor(i, j) * s(k, _, _);
        }
    auto gd = g;
    auto [t, e] = fit_tail<POS>(g, km);
    ex::step();
    bool ok = e < 1e-9 && t.shape()[0] == 5 && t.shape()[1] == NA && t.shape()[2] == NB;
    for (long k = 0; k < 5 && ok; ++k)
      for (long i = 0; i < NA; ++i)
        for (long j = 0; j < NB; ++j)
          for (int c = 0; c < comps<T>::n; ++c) {
            cplx got, want;
            if constexpr (T::rank == 0) got = t(k, i, j), want = s(k);
            else got = t(k, i, j, c / 2, c % 2), want = s(k, c / 2, c % 2);
            ok = ok && std::abs(got - factor(i, j) * want) < 1e-8 * std::pow(unit, k);
          }
    ex::check(ok, "product", what);
    ex::check(dist(g.data(), gd.data()) == 0, "argument-changed", what);
    auto z = make_zero_tail<POS>(g, 3);
    sh[0] = 3;
    ex::check(z.shape() == sh && nda::max_element(nda::abs(z)) == 0, "zero-tail", what);
  };
  auto el = nda::ellipsis();
  auto f0 = [&](auto &d, long i, long j, long w) -> decltype(auto) { return d(w, i, j, el); };
  auto f1 = [&](auto &d, long i, long j, long w) -> decltype(auto) { return d(i, w, j, el); };
  auto f2 = [&](auto &d, long i, long j, long w) -> decltype(auto) { return d(i, j, w, el); };
  if (target) {
    if (pos == 0) test(matrix_valued{}, std::integral_constant<int, 0>{}, prod{m, a, b}, f0);
    if (pos == 1) test(matrix_valued{}, std::integral_constant<int, 1>{}, prod{a, m, b}, f1);
    if (pos == 2) test(matrix_valued{}, std::integral_constant<int, 2>{}, prod{a, b, m}, f2);
  } else {
    if (pos == 0) test(scalar_valued{}, std::integral_constant<int, 0>{}, prod{m, a, b}, f0);
    if (pos == 1) test(scalar_valued{}, std::integral_constant<int, 1>{}, prod{a, m, b}, f1);
    if (pos == 2) test(scalar_valued{}, std::integral_constant<int, 2>{}, prod{a, b, m}, f2);
  }
}
// windows and replacements
JOB_SHARDED(windows, 8) {
  auto st = ex::choose(2) ? Boson : Fermion;
  double beta = ex::pick(std::vector<double>{1.0, 10.0});
  int N = ex::pick(std::vector<int>{60, 61});
  int n_min = ex::pick(std::vector<int>{10, 20, 30}), n_max = ex::pick(std::vector<int>{-1, 45, 50, 59});
  bool herm = ex::choose(2);
  int known = ex::choose(3);
  std::string what = ex::cat(sname(st), " beta ", beta, " N ", N, " window ", n_min, "..", n_max, herm ? " hermitian" : "", " known ", known);
  imfreq m{beta, st, N};
  double unit = std::abs(cplx(m.to_value(n_max == -1 ? N - 1 : n_max)));
  auto s = series<matrix_valued>(4, herm);
  auto g = from_series<imfreq, matrix_valued>(m, s, unit);
  long last = n_max == -1 ? m.last_index() : n_max;
  for (auto w : m) // the window decides alone
    if (std::abs(w.index()) > last || std::abs(w.index()) < n_min - 2) g[w] = 1000.0;
  auto phys = s;
  physical(phys, unit);
  nda::array<cplx, 3> km = phys(nda::range(known), _, _);
  auto gd = g;
  auto [t, e] = herm ? fit_hermitian_tail_on_window(g, n_min, n_max, km, 40, 4) : fit_tail_on_window(g, n_min, n_max, km, 40, 4);
  ex::step();
  ex::check(dist(g.data(), gd.data()) == 0, "argument-changed", what);
  auto got = t;
  scaled(got, unit);
  ex::check(t.shape()[0] == 5 && dist(got, s) < 1e-8 && e < 1e-8, "window", what, ": error ", dist(got, s), " estimate ", e);
  auto rv = restricted_view(g, int(last));
  bool ok = rv.mesh().statistic() == st && rv.mesh().beta() == beta && rv.mesh() == imfreq{beta, st, last};
  for (auto w : rv.mesh()) ok = ok && dist(nda::array<cplx, 2>(rv[w]), nda::array<cplx, 2>(g.data()(m.to_data_index(w.index()), _, _))) == 0 && cplx(w.value()) == cplx(m.to_value(w.index()));
  ex::check(ok, "restricted-view", what);
  // replacement by the tail: the frequencies from n_min on, and their mirror images
  for (int n0 : {1, 7, n_min, N - 2, N - 1, N, N + 3}) {
    auto h = g;
    replace_by_tail(h(), nda::array_const_view<cplx, 3>(t), n0);
    bool good = true;
    for (auto w : m) {
      long n = w.index(), mirror = st == Fermion ? -n - 1 : -n;
      auto v = nda::array<cplx, 2>(h[w]);
      nda::array_const_view<cplx, 3> tv = t;
      if (n >= n0 || mirror >= n0) good = good && dist(v, tail_eval(tv, cplx(w.value()))) == 0;
      else good = good && dist(v, nda::array<cplx, 2>(g[w])) == 0;
    }
    ex::check(good, "replace", what, ": from ", n0);
  }
  {
    auto h = g;
    h.mesh().set_tail_fit_parameters(0.4);
    replace_by_tail_in_fit_window(h(), nda::array_const_view<cplx, 3>(t));
    long n0 = m.last_index() - std::lround(0.4 * m.size() / 2);
    auto h2 = g;
    replace_by_tail(h2(), nda::array_const_view<cplx, 3>(t), n0);
    ex::check(dist(h.data(), h2.data()) == 0 && dist(h.data(), g.data()) > 0, "replace-in-window", what);
  }
}
// ------------------------------------------------------------------------------------------- Hermiticity
template <typename T> struct shape_of { static std::array<long, 0> get() { return {}; } };
template <> struct shape_of<matrix_valued> { static std::array<long, 2> get() { return {2, 2}; } };
template <> struct shape_of<tensor_valued<4>> { static std::array<long, 4> get() { return {2, 1, 2, 1}; } };
template <typename M, typename T> void hermitian(M const &m, std::string const &name) {
  gf<M, T> g{m, shape_of<T>::get()};
  long N = m.size(), C = g.data().size() / N;
  bool freq = std::is_same_v<M, imfreq>;
  // the component another one is conjugate to
  auto partner = [&](long w, long c, bool transpose) {
    long w2 = freq ? N - 1 - w : w, c2 = c;
    if (transpose && T::rank > 0) c2 = (c % 2) * 2 + c / 2; // (i,j) <-> (j,i); (i,0,k,0) <-> (k,0,i,0)
    return std::pair{w2, c2};
  };
  // data: up to two components that are not zero
  int k1 = ex::choose(int(N * C)), k2 = ex::choose(int(N * C) + 1);
  cplx v1 = ex::pick(std::vector<cplx>{1, cplx(0, 1), cplx(2, -3)}), v2 = ex::pick(std::vector<cplx>{1, cplx(0, -1), cplx(2, 3)});
  auto flat = [&](auto &x) { return nda::reshape(x.data(), std::array<long, 2>{N, C}); };
  auto gv = flat(g);
  gv(k1 / C, k1 % C) = v1;
  if (k2 < N * C) gv(k2 / C, k2 % C) = v2;
  g.data() = nda::reshape(gv, g.data().shape());
  std::string what = ex::cat(name, ": components ", k1, "=", v1, " ", k2, "=", v2);
  for (int tr = 0; tr < 2; ++tr) {
    if (!freq && !tr) continue;
    nda::array<cplx, 2> want(N, C);
    bool sym = true;
    for (long w = 0; w < N; ++w)
      for (long c = 0; c < C; ++c) {
        auto [w2, c2] = partner(w, c, tr);
        want(w, c) = 0.5 * (gv(w, c) + std::conj(gv(w2, c2)));
        sym = sym && gv(w, c) == std::conj(gv(w2, c2));
      }
    auto gd = g;
    gf<M, T> h;
    bool is1 = false, is2 = false, isv = false;
    if constexpr (std::is_same_v<M, imfreq>) {
      if (tr) h = make_hermitian(g), is1 = is_gf_hermitian(g), is2 = is_gf_hermitian(h), isv = is_gf_hermitian(g());
      else h = make_real_in_tau(g), is1 = is_gf_real_in_tau(g), is2 = is_gf_real_in_tau(h), isv = is_gf_real_in_tau(g());
    } else
      h = make_hermitian(g), is1 = is_gf_hermitian(g), is2 = is_gf_hermitian(h), isv = is_gf_hermitian(g());
    ex::step();
    ex::check(dist(g.data(), gd.data()) == 0 && h.mesh() == m, "argument-changed", what);
    ex::check(dist(flat(h), want) == 0, "symmetrized", what, tr ? "" : " real in tau");
    ex::check(is1 == sym && isv == sym && is2, "is-symmetric", what, tr ? "" : " real in tau", ": ", is1, " ", isv, " ", is2, " instead of ", sym);
    // tolerances
    double worst = 0;
    for (long w = 0; w < N; ++w)
      for (long c = 0; c < C; ++c) {
        auto [w2, c2] = partner(w, c, tr);
        worst = std::max(worst, std::abs(gv(w, c) - std::conj(gv(w2, c2))));
      }
    if (worst > 0) {
      bool lo, hi;
      if constexpr (std::is_same_v<M, imfreq>) {
        lo = tr ? is_gf_hermitian(g, worst * 0.999) : is_gf_real_in_tau(g, worst * 0.999), hi = tr ? is_gf_hermitian(g, worst * 1.001) : is_gf_real_in_tau(g, worst * 1.001);
      } else
        lo = is_gf_hermitian(g, worst * 0.999), hi = is_gf_hermitian(g, worst * 1.001);
      ex::check(!lo && hi, "tolerance", what);
    }
    // blocks
    gf<M, T> z{m, shape_of<T>::get()};
    z.data() = 0;
    for (int place = 0; place < 3; ++place) {
      std::vector<gf<M, T>> v(3, z);
      v[place] = g;
      auto bg = make_block_gf<M, T>({"a", "b", "c"}, v);
      bool ok, res = true;
      if constexpr (std::is_same_v<M, imfreq>) {
        ok = tr ? is_gf_hermitian(bg) : is_gf_real_in_tau(bg);
        auto bh = tr ? make_hermitian(bg) : make_real_in_tau(bg);
        for (int b = 0; b < 3; ++b) res = res && dist(bh[b].data(), b == place ? h.data() : z.data()) == 0;
      } else {
        ok = is_gf_hermitian(bg);
        auto bh = make_hermitian(bg);
        for (int b = 0; b < 3; ++b) res = res && dist(bh[b].data(), b == place ? h.data() : z.data()) == 0;
      }
      ex::check(ok == sym && res, "blocks", what, " in block ", place);
    }
  }
}
JOB_SHARDED(hermitian, 9) {
  switch (ex::choose(9)) {
    case 0: return hermitian<imfreq, scalar_valued>({1, Fermion, 2}, "fermion scalar");
    case 1: return hermitian<imfreq, scalar_valued>({1, Boson, 2}, "boson scalar");
    case 2: return hermitian<imfreq, matrix_valued>({1, Fermion, 2}, "fermion matrix");
    case 3: return hermitian<imfreq, matrix_valued>({1, Boson, 2}, "boson matrix");
    case 4: return hermitian<imfreq, tensor_valued<4>>({1, Fermion, 1}, "fermion tensor");
    case 5: return hermitian<imfreq, tensor_valued<4>>({1, Boson, 2}, "boson tensor");
    case 6: return hermitian<imtime, scalar_valued>({1, Fermion, 3}, "time scalar");
    case 7: return hermitian<imtime, matrix_valued>({1, Fermion, 2}, "time matrix");
    case 8: return hermitian<imtime, tensor_valued<4>>({1, Boson, 2}, "time tensor");
  }
}
// positive frequencies
JOB_SHARDED(half_meshes, 2) {
  auto st = ex::choose(2) ? Boson : Fermion;
  int N = ex::choose(5) + 1, k = ex::choose(N * 4);
  cplx v = ex::pick(std::vector<cplx>{1, cplx(0, 1), cplx(2, -3)});
  imfreq half{2, st, N, imfreq::option::positive_frequencies_only}, full{2, st, N};
  std::string what = ex::cat(sname(st), " N ", N, " component ", k, "=", v);
  gf<imfreq, matrix_valued> g{half, {2, 2}};
  g.data() = 0;
  g.data()(k / 4, (k / 2) % 2, k % 2) = v;
  if (st == Boson && k / 4 == 0) g.data()(0, (k / 2) % 2, k % 2) = v.real(); // the zero frequency is real
  auto f = make_gf_from_real_gf(gf_const_view<imfreq, matrix_valued>(g));
  ex::step();
  bool ok = f.mesh() == full && f.data().shape()[0] == full.size();
  for (auto w : full) {
    long n = w.index(), p = n >= 0 ? n : st == Fermion ? -n - 1 : -n;
    nda::array<cplx, 2> want = g.data()(p, _, _), got = f[w];
    if (n < 0) want = nda::conj(want);
    ok = ok && dist(got, want) == 0;
  }
  ex::check(ok, "whole-mesh", what);
  auto pv = positive_freq_view(f);
  ex::check(pv.mesh() == half && dist(pv.data(), g.data()) == 0, "positive-view", what);
  pv.data() = 7;
  ok = true;
  for (auto w : full) ok = ok && (f[w](0, 0) == cplx(7)) == (w.index() >= 0);
  ex::check(ok, "positive-view-aliases", what);
  auto pg = positive_freq_view(g());
  ex::check(pg.mesh() == half && dist(pg.data(), g.data()) == 0, "positive-view", what);
  ex::check(refuses([&] { make_gf_from_real_gf(gf_const_view<imfreq, matrix_valued>(f)); }), "whole-refused", what);
  ex::check(is_gf_hermitian(g) && is_gf_real_in_tau(g) && dist(make_hermitian(g).data(), g.data()) == 0 && dist(make_real_in_tau(g).data(), g.data()) == 0, "half-hermitian", what);
}
// ------------------------------------------------------------------------------------------- density
static double occupation(double e, double beta, statistic_enum s) { // -xi G(0-) of 1/(w - e)
  return s == Fermion ? 1 / (1 + std::exp(beta * e)) : 1 / (std::exp(beta * e) - 1);
}
static const std::vector<double> PF{-2.0, -0.5, 0, 1, 2.5}, PB{-2.0, -1, 0.5, 1, 2.5};
JOB_SHARDED(density_matsubara, 4) {
  int shard = ex::choose(4);
  auto st = shard % 2 ? Boson : Fermion;
  double beta = shard / 2 ? 8 : 1;
  auto const &P = st == Fermion ? PF : PB;
  int set = ex::choose(1 << P.size()), known = ex::choose(7);
  int N = ex::pick(std::vector<int>{50, 200});
  imfreq m{beta, st, N};
  gf<imfreq, matrix_valued> g{m, {2, 2}};
  gf<imfreq, scalar_valued> gs{m};
  nda::array<cplx, 3> mom(known, 2, 2);
  nda::array<cplx, 1> moms(known);
  nda::matrix<cplx> rho(2, 2);
  mom = 0, moms = 0, rho = 0;
  g.data() = 0, gs.data() = 0;
  cplx rs = 0;
  double scale = 1;
  for (size_t i = 0; i < P.size(); ++i)
    if (set >> i & 1) {
      nda::matrix<cplx> a{{cplx(1 + 0.25 * i), cplx(0.5, -0.25 * i)}, {cplx(0.5, 0.25 * i), cplx(0.75)}};
      for (auto w : m) g[w] += a / (w - P[i]), gs[w] += (1.0 + 0.5 * i) / (w - P[i]);
      for (int k = 1; k < known; ++k) mom(k, _, _) += a * std::pow(P[i], k - 1), moms(k) += (1.0 + 0.5 * i) * std::pow(P[i], k - 1);
      rho += a * occupation(P[i], beta, st), rs += (1.0 + 0.5 * i) * occupation(P[i], beta, st);
      scale += 3 * (1 + std::pow(std::abs(P[i]), 3));
    }
  std::string what = ex::cat(sname(st), " beta ", beta, " poles ", set, " N ", N, " known moments ", known);
  auto gd = g;
  // what four moments leave of the sum, or the error of a fit
  double tol = 0;
  for (long n = N; n < 40 * N; ++n) tol += 2 * std::pow(beta / (2 * M_PI * n), 4) / beta;
  tol = 4 * scale * tol + 1e-11 * scale;
  if (known < 4) tol = std::max(3 * tol, 1e-5 * scale);
  auto d = known == 0 ? density(g) : density(g, mom);
  auto ds = known == 0 ? density(gs) : density(gs, moms);
  ex::step();
  ex::check(dist(g.data(), gd.data()) == 0, "argument-changed", what);
  ex::check(dist(d, rho) < tol, "density", what, ": error ", dist(d, rho), " allowed ", tol);
  ex::check(std::abs(ds - rs) < tol, "density-scalar", what, ": error ", std::abs(ds - rs));
  if (known > 0) {
    auto m2 = mom;
    m2(0, 1, 0) = 0.1;
    ex::check(refuses([&] { density(g, m2); }), "density-constant", what);
  }
}
JOB_SHARDED(density_real, 3) {
  int shard = ex::choose(3);
  // a broad peak inside of a fine mesh; zero and finite temperature
  double c = ex::pick(std::vector<double>{-1.5, -0.3, 0, 0.4, 1.0}), width = ex::pick(std::vector<double>{0.3, 0.6});
  double wmin = ex::pick(std::vector<double>{-8, -7.9013, -8.0071}), wmax = ex::pick(std::vector<double>{8.0, 7.77});
  int N = ex::pick(std::vector<int>{2001, 2000});
  double beta = shard == 0 ? 0 : shard == 1 ? 3 : 40;
  refreq m{wmin, wmax, N};
  nda::matrix<cplx> a{{cplx(1), cplx(0.5, -0.25)}, {cplx(0.5, 0.25), cplx(0.75)}};
  gf<refreq, matrix_valued> g{m, {2, 2}};
  gf<refreq, scalar_valued> gs{m};
  auto A = [&](double w) { return std::exp(-std::pow((w - c) / width, 2) / 2) / (width * std::sqrt(2 * M_PI)); };
  for (auto w : m) {
    double x = w.value();
    g[w] = cplx(std::sin(x), -M_PI * A(x)) * a; // the Hermitian part of the amplitude does not count
    gs[w] = cplx(3 - x, -M_PI * A(x));
  }
  if (m.to_value(3) < 0) g.data()(3, 0, 0) += cplx(1e6), gs.data()(5) += cplx(-1e6); // divergences of the real part
  ld want = 0;
  int K = 40000;
  for (int k = 0; k < K; ++k) { // midpoints, long double
    ld x = c - 9 * width + 18 * width * (k + 0.5L) / K, f = beta == 0 ? (x < 0 ? 1 : 0) : 1 / (1 + expl(beta * x));
    want += A(x) * f * 18 * width / K;
  }
  std::string what = ex::cat("beta ", beta, " peak ", c, " width ", width, " mesh ", wmin, "..", wmax, " ", N);
  auto d = beta == 0 ? density(g) : density(g, beta);
  auto ds = beta == 0 ? density(gs) : density(gs, beta);
  ex::step();
  nda::matrix<cplx> rho = a * double(want);
  double tol = 2e-4;
  ex::check(dist(d, rho) < tol, "density-real", what, ": error ", dist(d, rho), " ", d(0, 0), d(0, 1), d(1, 0), d(1, 1), " instead of ", rho(0, 0), rho(0, 1), rho(1, 0), rho(1, 1));
  ex::check(std::abs(ds - double(want)) < tol, "density-real-scalar", what, ": error ", std::abs(ds - double(want)));
  ex::check(std::abs(d(0, 1) - std::conj(d(1, 0))) < 1e-14, "density-real-hermitian", what);
}
// ------------------------------------------------------------------------------------------- rebinning
JOB_SHARDED(rebinning, 8) {
  int n_old = ex::choose(ex::tier(16, 40)) + 2, n_new = ex::choose(n_old - 1) + 2;
  auto st = ex::choose(2) ? Boson : Fermion;
  double beta = ex::pick(std::vector<double>{1.0, 2.7});
  std::string what = ex::cat(n_old, " to ", n_new, " times");
  gf<imtime, matrix_valued> g{{beta, st, n_old}, {1, 2}};
  long i = 0;
  for (auto &x : g.data()) ++i, x = cplx(double((i * 37) % 101 - 50) / 16, double((i * 53) % 97 - 48) / 16);
  auto gd = g;
  auto r = rebinning_tau(g, n_new);
  ex::step();
  bool ok = r.mesh() == imtime{beta, st, n_new} && r.data().shape() == std::array<long, 3>{n_new, 1, 2} && dist(g.data(), gd.data()) == 0;
  ex::check(ok, "rebinned-mesh", what);
  // every new time has the mean of the old ones next to it; those half way may go to either side
  std::vector<std::vector<long>> sure(n_new), left(n_new), right(n_new);
  for (long k = 0; k < n_old; ++k) {
    long num = 2 * k * (n_new - 1), den = 2 * (n_old - 1); // k (n_new-1)/(n_old-1)
    long q = num / den, rem = num % den;
    if (2 * rem == den) left[q + 1].push_back(k), right[q].push_back(k);
    else sure[2 * rem > den ? q + 1 : q].push_back(k);
  }
  for (long b = 0; b < n_new; ++b)
    for (int c = 0; c < 2; ++c) {
      bool fits = false;
      for (int opt = 0; opt < 4 && !fits; ++opt) {
        auto l = sure[b];
        if (opt & 1) l.insert(l.end(), left[b].begin(), left[b].end());
        if (opt & 2) l.insert(l.end(), right[b].begin(), right[b].end());
        cplx s = 0;
        for (long k : l) s += g.data()(k, 0, c) / double(l.size());
        fits = std::abs(s - r.data()(b, 0, c)) < 1e-12;
      }
      ex::check(fits, "rebinned", what, ": time ", b);
    }
}
// ------------------------------------------------------------------------------------------- Legendre
static ld legendre_p(int l, ld x) {
  ld a = 1, b = x;
  if (l == 0) return 1;
  for (int k = 2; k <= l; ++k) {
    ld c = ((2 * k - 1) * x * b - (k - 1) * a) / k;
    a = b, b = c;
  }
  return b;
}
template <typename F> lcplx simpson(F f, int K = 1500) { // over [-1, 1]
  lcplx s = 0;
  ld h = 1.0L / K;
  for (int k = 0; k < K; ++k) {
    ld x = -1 + 2 * k * h;
    s += h / 3 * (f(x) + ld(4) * f(x + h) + f(x + 2 * h));
  }
  return s;
}
static lcplx T(statistic_enum st, long n, int l) { // frequency of the l-th function
  static std::map<std::tuple<int, long, int>, lcplx> known;
  auto [it, isnew] = known.try_emplace({int(st), n, l}, 0);
  if (isnew) {
    ld phi = (2 * n + (st == Fermion)) * PI / 2; // omega beta / 2
    it->second = sqrtl(2 * l + 1) / 2 * simpson([&](ld x) { return legendre_p(l, x) * std::exp(lcplx(0, phi * (x + 1))); });
  }
  return it->second;
}
template <typename TT> void legendre_direct(statistic_enum st, std::string const &name) {
  int lmax = ex::pick(std::vector<int>{1, 2, 5, ex::tier(9, 16)});
  int l0 = ex::choose(lmax), l1 = ex::choose(lmax);
  double beta = ex::pick(std::vector<double>{1.0, 7.0});
  triqs::mesh::legendre ml{beta, st, lmax};
  gf<triqs::mesh::legendre, TT> gl{ml, comps<TT>::shape()};
  gl.data() = 0;
  constexpr int NC = comps<TT>::n;
  auto value = [](int l, int c) { return cplx(1 + c, 0.5 * l - c); };
  for (int c = 0; c < NC; ++c) put(gl[l0], c, value(l0, c)), put(gl[l1], c, value(l1, c));
  std::vector<int> on{l0};
  if (l1 != l0) on.push_back(l1);
  std::string what = ex::cat(name, " beta ", beta, " l ", l0, ",", l1, " of ", lmax);
  auto gd = gl;
  imfreq mw{beta, st, 6};
  imtime mt{beta, st, ex::pick(std::vector<int>{2, 7})};
  gf<imfreq, TT> gw{mw, comps<TT>::shape()};
  gf<imtime, TT> gt{mt, comps<TT>::shape()};
  for (auto &x : gw.data()) x = 77.0; // what was there before does not count
  for (auto &x : gt.data()) x = 77.0;
  if (ex::choose(2)) gw() = legendre_to_imfreq(gl), gt() = legendre_to_imtime(gl);
  else legendre_matsubara_direct(gw, gl), legendre_matsubara_direct(gt(), gl());
  ex::step();
  auto get = [&](auto const &x, int c) -> cplx {
    if constexpr (NC == 1) return x;
    else return x(c / 2, c % 2);
  };
  ex::check(dist(gl.data(), gd.data()) == 0, "argument-changed", what);
  for (auto w : mw)
    for (int c = 0; c < NC; ++c) {
      lcplx want = 0;
      for (int l : on) want += lcplx(value(l, c)) * T(st, w.index(), l);
      if (std::abs(lcplx(get(gw[w], c)) - want) > 1e-9L) {
        ex::check(false, ex::cat("to-frequencies-", sname(st)), what, ": frequency ", w.index(), " ", cplx(get(gw[w], c)), " instead of ", cplx(want));
        return;
      }
    }
  for (auto t : mt)
    for (int c = 0; c < NC; ++c) {
      lcplx want = 0;
      for (int l : on) want += lcplx(value(l, c)) * sqrtl(2 * l + 1) / ld(beta) * legendre_p(l, 2 * ld(t.index()) / (mt.size() - 1) - 1);
      ex::check(std::abs(lcplx(get(gt[t], c)) - want) < 1e-11L, "to-times", what, ": time ", t.index());
    }
  // and back from the times
  imtime fine{beta, st, 3001};
  gf<imtime, TT> gf_{fine, comps<TT>::shape()};
  gf_() = legendre_to_imtime(gl);
  gf<triqs::mesh::legendre, TT> back{ml, comps<TT>::shape()};
  for (auto &x : back.data()) x = 77.0;
  back() = imtime_to_legendre(gf_);
  ex::check(dist(back.data(), gl.data()) < 1e-4 * lmax, "back", what, ": error ", dist(back.data(), gl.data()));
  // density: -G(beta), transposed
  if (st == Fermion) {
    auto d = density(gl);
    bool ok = true;
    for (int c = 0; c < NC; ++c) {
      lcplx want = 0;
      for (int l : on) want -= lcplx(value(l, NC == 1 ? 0 : (c % 2) * 2 + c / 2)) * sqrtl(2 * l + 1) / ld(beta);
      ok = ok && std::abs(lcplx(get(d, c)) - want) < 1e-12L;
    }
    ex::check(ok, "density", what);
  }
}
JOB_SHARDED(legendre_direct, 4) {
  switch (ex::choose(4)) {
    case 0: return legendre_direct<scalar_valued>(Fermion, "fermion scalar");
    case 1: return legendre_direct<matrix_valued>(Fermion, "fermion matrix");
    case 2: return legendre_direct<scalar_valued>(Boson, "boson scalar");
    case 3: return legendre_direct<matrix_valued>(Boson, "boson matrix");
  }
}
// the coefficients of poles
JOB_SHARDED(legendre_poles, 8) {
  int i = ex::choose(8);
  auto st = i % 2 ? Boson : Fermion;
  double e = std::vector<double>{-2, -0.4, 0.7, 3}[i / 2], beta = ex::pick(std::vector<double>{1.0, 5.0});
  bool matrix = ex::choose(2);
  auto Gt = [&](ld tau) { return st == Fermion ? -expl(-e * tau) / (1 + expl(-beta * e)) : -expl(-e * tau) / (1 - expl(-beta * e)); };
  int L = 6;
  std::vector<cplx> want(L);
  for (int l = 0; l < L; ++l) want[l] = cplx(sqrtl(2 * l + 1) * ld(beta) / 2 * simpson([&](ld x) { return lcplx(legendre_p(l, x) * Gt(beta * (x + 1) / 2)); }));
  std::string what = ex::cat(sname(st), " pole ", e, " beta ", beta, matrix ? " matrix" : "");
  imfreq mw{beta, st, 200};
  imtime mt{beta, st, 4001};
  triqs::mesh::legendre ml{beta, st, L};
  auto test = [&]<typename TT>(TT) {
    gf<imfreq, TT> gw{mw, comps<TT>::shape()};
    gf<imtime, TT> gt{mt, comps<TT>::shape()};
    gf<triqs::mesh::legendre, TT> a{ml, comps<TT>::shape()}, b{ml, comps<TT>::shape()}, w{ml, comps<TT>::shape()};
    for (auto &x : a.data()) x = 5;
    for (auto &x : b.data()) x = 5;
    for (int c = 0; c < comps<TT>::n; ++c) {
      cplx r(1 + c, 0.5 * c);
      for (auto om : mw) put(gw[om], c, r / (cplx(om.value()) - e));
      for (auto t : mt) put(gt[t], c, r * double(Gt(t.value())));
      for (int l = 0; l < L; ++l) put(w[l], c, r * want[l]);
    }
    a() = imfreq_to_legendre(gw);
    b() = imtime_to_legendre(gt);
    ex::step();
    ex::check(dist(a.data(), w.data()) < 1e-4, "from-frequencies", what, ": error ", dist(a.data(), w.data()));
    ex::check(dist(b.data(), w.data()) < 1e-4, "from-times", what, ": error ", dist(b.data(), w.data()));
  };
  if (matrix) test(matrix_valued{});
  else test(scalar_valued{});
}
JOB_SHARDED(legendre_jump, 6) {
  int L = ex::choose(6) + 1, k = ex::choose(L * 4), v = ex::choose(3), d = ex::choose(5);
  double beta = ex::pick(std::vector<double>{1.0, 7.0});
  gf<triqs::mesh::legendre, matrix_valued> g{{beta, Fermion, L}, {2, 2}};
  g.data() = 0;
  for (int l = 0; l < L; ++l) g.data()(l, 0, 1) = 0.25 * l, g.data()(l, 1, 1) = -1.0 / (l + 1);
  g.data()(k / 4, (k / 2) % 2, k % 2) = std::vector<cplx>{1, cplx(-2), cplx(0, 1)}[v];
  nda::array<double, 2> disc(2, 2);
  disc = 0;
  if (d < 4) disc(d / 2, d % 2) = 1.5;
  else disc(0, 0) = disc(1, 1) = 1;
  std::string what = ex::cat("L ", L, " component ", k, " value ", v, " jump ", d);
  auto before = g;
  auto view = g();
  enforce_discontinuity(view, disc);
  ex::step();
  // the first moment: minus the sum of the values at both ends
  std::vector<ld> t(L);
  ld norm = 0;
  for (int l = 0; l < L; ++l) t[l] = -(legendre_p(l, -1) + legendre_p(l, 1)) * sqrtl(2 * l + 1) / beta, norm += t[l] * t[l];
  bool jump = true, minimal = true;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) {
      lcplx s = 0, b = 0;
      for (int l = 0; l < L; ++l) s += t[l] * lcplx(g.data()(l, i, j)), b += t[l] * lcplx(before.data()(l, i, j));
      jump = jump && std::abs(s - lcplx(disc(i, j))) < 1e-11L;
      for (int l = 0; l < L; ++l) minimal = minimal && std::abs(lcplx(g.data()(l, i, j)) - lcplx(before.data()(l, i, j)) - (lcplx(disc(i, j)) - b) * t[l] / norm) < 1e-11L;
    }
  ex::check(jump, "jump", what);
  ex::check(minimal, "jump-minimal", what);
  auto g0 = nda::array<cplx, 2>(g(0.0)), gb = nda::array<cplx, 2>(g(beta));
  ex::check(dist(nda::array<cplx, 2>(-g0 - gb), nda::array<cplx, 2>(disc)) < 1e-11, "jump-in-time", what);
}
