// C29: Fourier transforms between times, frequencies and lattices
#include "explore.hpp"
#include <triqs/gfs.hpp>
#include <triqs/mesh.hpp>
using namespace triqs::gfs;
using namespace triqs::mesh;
using triqs::lattice::bravais_lattice;
using triqs::lattice::brillouin_zone;
using cplx  = std::complex<double>;
using lcplx = std::complex<long double>;
static const bool quiet = (std::cerr.setstate(std::ios::failbit), true); // the transforms warn about coarse meshes
static const lcplx I1(0, 1);
static const long double PI = acosl(-1.0L);
static auto const _ = nda::range::all;

template <typename F> bool refuses(F f) {
  try {
    f();
  } catch (triqs::runtime_error const &) { return true; }
  return false;
}
template <typename G, typename H> double distance(G const &g, H const &h) { // data of the same shape
  if (g.data().shape() != h.data().shape()) return 1e300;
  nda::array<cplx, G::data_rank> a = g.data(), b = h.data();
  double d = 0;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) {
    double x = std::abs(*i - *j);
    d = x <= d ? d : x; // NaN wins
    if (x != x) return 1e300;
  }
  return d;
}
static double stat_sign(statistic_enum s) { return s == Fermion ? -1 : 1; }
// ---------------------------------------------------------------- Matsubara
// a sum of poles: its values in frequency and time, its moments
struct Poles {
  std::vector<double> e;
  std::vector<cplx> a;
  lcplx freq(lcplx z) const {
    lcplx s = 0;
    for (size_t i = 0; i < e.size(); ++i) s += lcplx(a[i]) / (z - lcplx(e[i]));
    return s;
  }
  cplx time(double tau, double beta, statistic_enum st) const {
    lcplx s = 0;
    for (size_t i = 0; i < e.size(); ++i) {
      long double x = e[i], b = beta, t = tau;
      long double k = st == Fermion ? (x >= 0 ? expl(-x * t) / (1 + expl(-b * x)) : expl(x * (b - t)) / (1 + expl(b * x))) :
                                      (x >= 0 ? -expl(-x * t) / (expl(-b * x) - 1) : -expl(x * (b - t)) / (1 - expl(b * x)));
      s -= lcplx(a[i]) * k;
    }
    return cplx(s);
  }
  cplx moment(int n) const {
    if (n == 0) return 0;
    cplx s = 0;
    for (size_t i = 0; i < e.size(); ++i) s += a[i] * std::pow(e[i], n - 1);
    return s;
  }
  double scale() const {
    double s = 0;
    for (size_t i = 0; i < e.size(); ++i) s += std::abs(a[i]) * (2 + std::abs(e[i]) + std::pow(std::abs(e[i]), 2) + std::pow(std::abs(e[i]), 3));
    return s;
  }
};
static const std::vector<double> PF{-2.5, -1, 0, 0.4, 1, 3}, PB{-2.5, -1, -0.5, 0.4, 1, 3};
template <typename T> struct comps { static constexpr int n = 1; static std::array<long, 0> shape() { return {}; } };
template <> struct comps<matrix_valued> { static constexpr int n = 6; static std::array<long, 2> shape() { return {2, 3}; } };
// the components of the target are different sums of poles
static Poles component(std::vector<double> const &e, int c) {
  Poles p;
  p.e = e;
  for (size_t i = 0; i < e.size(); ++i) p.a.push_back(cplx(1 + 0.5 * c - 0.25 * i, c == 0 ? 0 : 0.3 * c - 0.2 * i));
  return p;
}
// bound of what is left of the sum of poles beyond 4 moments, aliased by meshes of L times
static double aliasing(double scale, double beta, long L, long n) {
  double s = 0;
  for (int k = 1; k < 40; ++k) s += 2 * std::pow(beta / (2 * M_PI * (k * L - n - 1)), 4);
  return 4 * scale * s + 1e-11 * scale;
}
static double truncation(double scale, double beta, long N) {
  double s = 0;
  for (long n = N; n < 50 * N + 400; ++n) s += 2 * std::pow(beta / (2 * M_PI * n), 4);
  return 4 * scale * s / beta + 1e-11 * scale;
}
template <typename T> void matsubara(statistic_enum st, std::string const &name) {
  constexpr int NC = comps<T>::n;
  double beta = ex::pick(std::vector<double>{1.0, 6.0});
  auto const &P = st == Fermion ? PF : PB;
  int set = ex::choose(1 << P.size());
  std::vector<double> e;
  for (size_t i = 0; i < P.size(); ++i)
    if (set >> i & 1) e.push_back(P[i]);
  long niw = ex::pick(std::vector<int>{4, 7, 24});
  long L = niw * ex::pick(std::vector<int>{2, 3, 6, 20}) + ex::pick(std::vector<int>{0, 1});
  int route = ex::choose(3);
  imfreq miw{beta, st, niw};
  imtime mt{beta, st, L + 1};
  std::string what = ex::cat(name, " beta ", beta, " poles ", set, " n_iw ", niw, " n_tau ", L + 1, " route ", route);
  gf<imfreq, T> gw{miw, comps<T>::shape()};
  gf<imtime, T> gt{mt, comps<T>::shape()};
  nda::array<cplx, 1 + T::rank> mom = make_zero_tail(gw, 4);
  double scale = 0, inner = 0;
  bool exact = true; // only poles of the model subtracted before the transform
  for (int c = 0; c < NC; ++c) {
    auto p = component(e, c);
    scale = std::max(scale, p.scale());
    auto put = [&](auto &&x, cplx v) {
      if constexpr (NC == 1) x = v;
      else x(c / 3, c % 3) = v;
    };
    for (auto w : miw) put(gw[w], cplx(p.freq(lcplx(0, (2 * w.index() + (st == Fermion)) * PI / beta))));
    for (auto t : mt) put(gt[t], p.time(t.value(), beta, st));
    for (int n = 0; n < 4; ++n) put(mom(n, nda::ellipsis()), p.moment(n));
  }
  (void)inner, (void)exact;
  auto w_in = gw;
  auto t_in = gt;
  // both directions, with the known moments
  gf<imfreq, T> rw;
  gf<imtime, T> rt;
  switch (route) {
    case 0: rw = make_gf_from_fourier(gt, miw, mom), rt = make_gf_from_fourier(gw, mt, mom); break;
    case 1: rw = make_gf_from_fourier(gt(), miw, mom), rt = make_gf_from_fourier(gw(), mt, mom); break;
    case 2: {
      rw = gf<imfreq, T>{miw, comps<T>::shape()}, rt = gf<imtime, T>{mt, comps<T>::shape()};
      rw() = fourier(gt, mom), rt() = fourier(gw, mom);
      break;
    }
  }
  ex::step();
  ex::check(distance(gw, w_in) == 0 && distance(gt, t_in) == 0, "argument-changed", what);
  ex::check(rw.mesh() == miw && rt.mesh() == mt, "mesh", what);
  ex::check(distance(rw, gw) <= aliasing(scale, beta, L, niw), "to-frequencies", what, ": error ", distance(rw, gw), " scale ", scale);
  ex::check(distance(rt, gt) <= truncation(scale, beta, niw), "to-times", what, ": error ", distance(rt, gt), " scale ", scale);
  // and back: frequencies -> times -> frequencies
  auto back = make_gf_from_fourier(rt, miw, mom);
  ex::check(distance(back, gw) <= 1e-11 * (1 + scale), "round-trip", what, ": error ", distance(back, gw));
  // a time mesh that is too short is refused
  if (L == 2 * niw) {
    imtime ms{beta, st, 2 * niw};
    gf<imtime, T> gs{ms, comps<T>::shape()};
    ex::check(refuses([&] { make_gf_from_fourier(gs, miw, mom); }), "too-short", what);
    ex::check(refuses([&] { make_gf_from_fourier(gw, ms, mom); }), "too-short", what);
  }
  // a function with a constant at high frequency is refused
  if (L == 3 * niw) {
    auto m0 = mom;
    m0(0, nda::ellipsis()) = 0.1;
    ex::check(refuses([&] { make_gf_from_fourier(gt, miw, m0); }), "constant", what);
    ex::check(refuses([&] { make_gf_from_fourier(gw, mt, m0); }), "constant", what);
  }
}
JOB_SHARDED(matsubara, 4) {
  switch (ex::choose(4)) {
    case 0: return matsubara<scalar_valued>(Fermion, "fermion scalar");
    case 1: return matsubara<matrix_valued>(Fermion, "fermion matrix");
    case 2: return matsubara<scalar_valued>(Boson, "boson scalar");
    case 3: return matsubara<matrix_valued>(Boson, "boson matrix");
  }
}
// the transforms are linear: their values on all the unit vectors and on the poles above decide them for all functions
JOB_SHARDED(matsubara_units, 8) {
  auto st = ex::choose(2) ? Fermion : Boson;
  long niw = ex::choose(4) + 1, L = 2 * niw + ex::choose(4);
  double beta = ex::pick(std::vector<double>{1.0, 6.0});
  imfreq miw{beta, st, niw};
  imtime mt{beta, st, L + 1};
  nda::array<cplx, 1> mom = nda::zeros<cplx>(std::array<long, 1>{4});
  auto omega = [&](long n) { return (2 * n + (st == Fermion)) * PI / beta; };
  std::string what = ex::cat(st == Fermion ? "fermion" : "boson", " beta ", beta, " n_iw ", niw, " n_tau ", L + 1);
  if (ex::choose(2)) {
    long j = ex::choose(int(miw.size()));
    gf<imfreq, scalar_valued> gw{miw};
    gw.data()(j) = cplx(1, 0.5);
    long n = miw.to_index(j);
    auto gt = make_gf_from_fourier(gw, mt, mom);
    bool ok = true;
    for (auto t : mt) {
      lcplx want = lcplx(1, 0.5L) * std::exp(-I1 * omega(n) * (static_cast<long double>(beta) * t.index() / L)) / static_cast<long double>(beta);
      ok = ok && std::abs(lcplx(cplx(gt[t])) - want) < 1e-13L;
    }
    ex::step();
    ex::check(ok, "unit-to-times", what, ": frequency ", n);
    auto back = make_gf_from_fourier(gt, miw, mom);
    ex::check(distance(back, gw) < 1e-13, "unit-round-trip", what, ": frequency ", n);
  } else {
    long j = ex::choose(int(L) + 1);
    gf<imtime, scalar_valued> gt{mt};
    gt.data()(j) = cplx(1, 0.5);
    auto gw = make_gf_from_fourier(gt, miw, mom);
    bool ok = true;
    for (auto w : miw) {
      lcplx want = lcplx(1, 0.5L) * std::exp(I1 * omega(w.index()) * (static_cast<long double>(beta) * j / L)) * static_cast<long double>(beta) / static_cast<long double>(L);
      if (j == 0 || j == L) want /= 2;
      ok = ok && std::abs(lcplx(cplx(gw[w])) - want) < 1e-13L;
    }
    ex::step();
    ex::check(ok, "unit-to-frequencies", what, ": time ", j);
  }
}
// without moments: they are deduced from the data
JOB_SHARDED(matsubara_fit, 2) {
  auto st = ex::choose(2) ? Fermion : Boson;
  auto const &P = st == Fermion ? PF : PB;
  double beta = ex::pick(std::vector<double>{1.0, 6.0});
  int set = ex::choose(1 << P.size());
  std::vector<double> e;
  for (size_t i = 0; i < P.size(); ++i)
    if (set >> i & 1) e.push_back(P[i]);
  int nknown = ex::choose(5); // moments passed
  imfreq miw{beta, st, 200};
  imtime mt{beta, st, 2401};
  auto p = component(e, 1);
  gf<imfreq, scalar_valued> gw{miw};
  gf<imtime, scalar_valued> gt{mt};
  for (auto w : miw) gw[w] = cplx(p.freq(lcplx(0, (2 * w.index() + (st == Fermion)) * PI / beta)));
  for (auto t : mt) gt[t] = p.time(t.value(), beta, st);
  nda::array<cplx, 1> mom(nknown);
  for (int n = 0; n < nknown; ++n) mom(n) = p.moment(n);
  std::string what = ex::cat(st == Fermion ? "fermion" : "boson", " beta ", beta, " poles ", set, " known moments ", nknown);
  auto rt = make_gf_from_fourier(gw, mt, mom);
  ex::step();
  ex::check(distance(rt, gt) < 2e-6 * (1 + p.scale()), "fit-to-times", what, ": error ", distance(rt, gt));
  if (nknown == 0) {
    auto rw = make_gf_from_fourier(gt, miw);
    ex::check(distance(rw, gw) < 1e-5 * (1 + p.scale()), "fit-to-frequencies", what, ": error ", distance(rw, gw));
    auto rt2 = make_gf_from_fourier(gw, 2401);
    ex::check(distance(rt2, rt) == 0 && rt2.mesh() == mt, "adjoint", what);
    auto rw2 = make_gf_from_fourier(gt, 200);
    ex::check(distance(rw2, rw) == 0 && rw2.mesh() == miw, "adjoint", what);
    ex::check(make_gf_from_fourier(gt).mesh() == imfreq{beta, st, 400} && make_gf_from_fourier(gw).mesh() == imtime{beta, st, 1201}, "adjoint-default", what);
  } else {
    nda::array<cplx, 1> m4 = nda::zeros<cplx>(std::array<long, 1>{4});
    for (int n = 0; n < std::min(nknown, 4); ++n) m4(n) = mom(n);
    ex::check(distance(make_gf_from_fourier(gt, miw, mom), make_gf_from_fourier(gt, miw, m4)) < 1e-12, "fewer-moments", what);
  }
  // tiny meshes
  for (int L = 2; L < 12; ++L) {
    gf<imtime, scalar_valued> z{imtime{beta, st, L + 1}}, y{imtime{beta, st, L + 1}};
    for (auto t : y.mesh()) y[t] = -0.5 + 0.01 * t.value();
    auto zw = make_gf_from_fourier(z, imfreq{beta, st, 1}), yw = make_gf_from_fourier(y, imfreq{beta, st, 1});
    ex::check(distance(zw, gf<imfreq, scalar_valued>{imfreq{beta, st, 1}}) < 1e-12, "tiny", what, ": zero on ", L + 1, " times");
    bool fin = true;
    for (auto w : yw.mesh()) fin = fin && std::abs(cplx(yw[w])) < 10 * beta;
    ex::check(fin, "tiny", what, ": line on ", L + 1, " times");
  }
}
// ---------------------------------------------------------------- real times: exact discrete transforms of arbitrary data
template <typename G> void scramble(G &g, int seed) {
  long i = seed * 1000;
  for (auto &x : g.data()) ++i, x = cplx(double((i * 37) % 101 - 50) / 16, double((i * 53) % 97 - 48) / 16);
}
JOB_SHARDED(real_units, 8) {
  long L = ex::choose(7) + 2;
  double t0 = ex::pick(std::vector<double>{-3.0, -1.25, 0.0, 0.5}), dt = ex::pick(std::vector<double>{0.25, 1.0});
  bool shift = ex::choose(2);
  int mode = ex::choose(3); // times to frequencies, frequencies to times, of a mesh of frequencies of one's own
  std::string what = ex::cat(L, " times from ", t0, " step ", dt, shift ? " shifted" : "", " mode ", mode);
  retime mt{t0, t0 + dt * (L - 1), L};
  refreq mw = make_adjoint_mesh(mt, shift);
  if (mode == 2) {
    double dw = 2 * M_PI / (L * dt), w0 = 0.3 - dw;
    mw = refreq{w0, w0 + dw * (L - 1), L};
  }
  auto T = [&](long j) { return static_cast<long double>(mt.to_value(j)); };
  auto W = [&](long k) { return static_cast<long double>(mw.to_value(k)); };
  ex::check(std::abs(mt.delta() * mw.delta() * L - 2 * M_PI) < 1e-12, "adjoint-step", what);
  if (mode < 2 && L > 1) {
    double c = (mw.w_min() + mw.w_max()) / 2;
    ex::check(std::abs(c - (shift ? mw.delta() / 2 : 0)) < 1e-12 * L, "adjoint-centre", what, ": frequencies centred on ", c);
  }
  int j = ex::choose(int(L) + 1); // unit vectors, and one with everything
  gf<retime, scalar_valued> gt{mt};
  gf<refreq, scalar_valued> gw{mw};
  if (j == L) scramble(gt, 1), scramble(gw, 2);
  else gt.data()(j) = cplx(1, 0.5), gw.data()(j) = cplx(1, 0.5);
  auto dir = [&](long k) {
    lcplx s = 0;
    for (long a = 0; a < L; ++a) s += lcplx(gt.data()(a)) * std::exp(I1 * W(k) * T(a)) * static_cast<long double>(mt.delta());
    return s;
  };
  auto inv = [&](long a) {
    lcplx s = 0;
    for (long k = 0; k < L; ++k) s += lcplx(gw.data()(k)) * std::exp(-I1 * W(k) * T(a)) / (static_cast<long double>(mt.delta()) * L);
    return s;
  };
  bool ok = true;
  auto rw = make_gf_from_fourier(gt, mw);
  auto rt = make_gf_from_fourier(gw, mt);
  for (long k = 0; k < L; ++k) ok = ok && std::abs(lcplx(rw.data()(k)) - dir(k)) < 1e-11L * L && std::abs(lcplx(rt.data()(k)) - inv(k)) < 1e-11L * L;
  ex::step();
  ex::check(ok && rw.mesh() == mw && rt.mesh() == mt, "real-transform", what, ": component ", j);
  ex::check(distance(make_gf_from_fourier(rw, mt), gt) < 1e-11 * L, "real-round-trip", what);
  ex::check(distance(make_gf_from_fourier(rt, mw), gw) < 1e-11 * L, "real-round-trip", what);
  if (mode < 2) ex::check(distance(make_gf_from_fourier(gt, shift), rw) < 1e-13, "real-default", what);
  { // moments are subtracted before and added after: the round trip does not depend on them
    nda::array<cplx, 1> mom{cplx(0), cplx(1, 0.25), cplx(-0.5)};
    auto a = make_gf_from_fourier(make_gf_from_fourier(gt, mw, mom), mt, mom);
    ex::check(distance(a, gt) < 1e-10 * L, "real-round-trip-moments", what);
    mom(0) = 0.1;
    ex::check(refuses([&] { make_gf_from_fourier(gt, mw, mom); }) && refuses([&] { make_gf_from_fourier(gw, mt, mom); }), "real-constant", what);
    nda::array<cplx, 1> few{cplx(0), cplx(1)};
    ex::check(refuses([&] { make_gf_from_fourier(gt, mw, few); }) && refuses([&] { make_gf_from_fourier(gw, mt, few); }), "real-few-moments", what);
  }
  { // meshes that do not fit
    refreq other{mw.w_min(), mw.w_max() * 1.01 + 0.1, L};
    refreq longer{mw.w_min(), mw.w_max(), L + 1};
    ex::check(refuses([&] { make_gf_from_fourier(gt, other); }) && refuses([&] { make_gf_from_fourier(gt, longer); }), "real-mismatch", what);
    gf<refreq, scalar_valued> go{other}, gl{longer};
    ex::check(refuses([&] { make_gf_from_fourier(go, mt); }) && refuses([&] { make_gf_from_fourier(gl, mt); }), "real-mismatch", what);
  }
}
// with moments: an analytic pair
JOB_SHARDED(real_poles, 8) {
  double a = ex::pick(std::vector<double>{0.5, 1.0, 2.0, 4.0}) , e = ex::pick(std::vector<double>{-1.0, 0.0, 0.7});
  cplx r = ex::pick(std::vector<cplx>{1, cplx(0.5, -1)});
  bool adv = ex::choose(2);
  long L = 4000 + ex::choose(2);
  double tm = 40;
  retime mt{-tm, tm, L + 1};
  refreq mw = make_adjoint_mesh(mt);
  gf<retime, scalar_valued> gt{mt};
  gf<refreq, scalar_valued> gw{mw};
  cplx I(0, 1);
  for (auto t : mt) {
    double x = t.value();
    bool zero = std::abs(x) < 1e-9;
    double th = zero ? 0.5 : (x > 0) != adv ? 1 : 0;
    gt[t] = (adv ? I : -I) * r * th * std::exp(-I * e * x - a * std::abs(x));
  }
  for (auto w : mw) gw[w] = r / (w.value() - e + (adv ? -I : I) * a);
  cplx z = e + (adv ? I : -I) * a;
  nda::array<cplx, 1> mom{cplx(0), r, r * z};
  auto rw = make_gf_from_fourier(gt, mw, mom);
  auto rt = make_gf_from_fourier(gw, mt, mom);
  double s = std::abs(r) * (1 + a) * (1 + a) * (1 + std::abs(e)) * (1 + std::abs(e));
  std::string what = ex::cat("pole ", e, " width ", a, " residue ", r, adv ? " advanced" : " retarded", " on ", L + 1, " times");
  double dw = 0, dtm = 0;
  for (auto w : mw)
    if (std::abs(w.value()) < 20) dw = std::max(dw, std::abs(rw[w] - gw[w]));
  for (auto t : mt)
    if (std::abs(t.value()) > 0.5 && std::abs(t.value()) < 20) dtm = std::max(dtm, std::abs(rt[t] - gt[t]));
  ex::step();
  // the step at zero is half on a grid with or without the time zero; both leave an error of the order of the square of the step
  ex::check(dw < 0.02 * s * mt.delta(), "real-pole-to-frequencies", what, ": error ", dw);
  ex::check(dtm < 2e-3 * s, "real-pole-to-times", what, ": error ", dtm);
}
// ---------------------------------------------------------------- lattices
static bravais_lattice lattice_of(int k) {
  switch (k) {
    case 0: return bravais_lattice{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
    case 1: return bravais_lattice{{{1, 0}, {0.5, 0.75}}};
    case 2: return bravais_lattice{{{2, 0, 0.5}, {0, 1, 0}, {1, 1, 1.5}}};
    default: return bravais_lattice{{{1.5}}};
  }
}
JOB_SHARDED(lattice, 4) {
  int k = ex::choose(4);
  auto bl = lattice_of(k);
  std::array<long, 3> dims{ex::choose(4) + 1, 1, 1};
  if (bl.ndim() > 1) dims[1] = ex::choose(4) + 1;
  if (bl.ndim() > 2) dims[2] = ex::choose(3) + 1;
  brzone mk{brillouin_zone{bl}, dims};
  cyclat mr{bl, dims};
  std::string what = ex::cat("lattice ", k, " size ", dims[0], " ", dims[1], " ", dims[2]);
  long n = mk.size();
  auto dot = [&](auto const &kp, auto const &rp) { // k . R in cartesian coordinates
    auto a = kp.value();
    auto b = nda::vector<double>(rp.value());
    long double s = 0;
    for (int i = 0; i < 3; ++i) s += static_cast<long double>(a[i]) * b[i];
    return s;
  };
  int unit = ex::choose(int(n) + 1);
  gf<brzone, matrix_valued> gk{mk, {1, 2}};
  gf<cyclat, matrix_valued> gr{mr, {1, 2}};
  if (unit == n) scramble(gk, 1), scramble(gr, 2);
  else gk.data()(unit, 0, 0) = cplx(1, 0.5), gk.data()(unit, 0, 1) = 2, gr.data()(unit, 0, 0) = cplx(1, 0.5), gr.data()(unit, 0, 1) = 2;
  int route = ex::choose(3);
  gf<cyclat, matrix_valued> rr{mr, {1, 2}};
  gf<brzone, matrix_valued> rk{mk, {1, 2}};
  if (route == 0) rr = make_gf_from_fourier(gk, mr), rk = make_gf_from_fourier(gr, mk);
  if (route == 1) rr = make_gf_from_fourier(gk), rk = make_gf_from_fourier(gr());
  if (route == 2) rr() = fourier(gk), rk() = fourier(gr);
  bool ok = rr.mesh() == mr && rk.mesh() == mk;
  for (int c = 0; c < 2; ++c) {
    for (auto r : mr) {
      lcplx s = 0;
      for (auto q : mk) s += lcplx(gk[q](0, c)) * std::exp(-I1 * dot(q, r)) / static_cast<long double>(n);
      ok = ok && std::abs(s - lcplx(rr[r](0, c))) < 1e-11L;
    }
    for (auto q : mk) {
      lcplx s = 0;
      for (auto r : mr) s += lcplx(gr[r](0, c)) * std::exp(I1 * dot(q, r));
      ok = ok && std::abs(s - lcplx(rk[q](0, c))) < 1e-11L * n;
    }
  }
  ex::step();
  ex::check(ok, "lattice", what, ": component ", unit);
  ex::check(distance(make_gf_from_fourier(rr), gk) < 1e-11 * n && distance(make_gf_from_fourier(rk), gr) < 1e-11 * n, "lattice-round-trip", what);
}
// ---------------------------------------------------------------- one variable of several
// the transform of one variable is the transform of every function of that variable with the other ones fixed
template <int N, typename M2, typename MP, typename T> void one_of(gf<MP, T> const &g, M2 const &m2, std::string const &what) {
  constexpr int n = n_variables<MP>;
  auto all = make_gf_from_fourier<N>(g, m2);
  auto const &mN = std::get<N>(g.mesh());
  using MN = std::decay_t<decltype(mN)>;
  ex::step();
  bool ok = std::get<N>(all.mesh()) == m2;
  std::array<long, n> sz;
  [&]<size_t... Is>(std::index_sequence<Is...>) { ((sz[Is] = std::get<Is>(g.mesh()).size(), ok = ok && (Is == N || long(std::get<Is>(all.mesh()).size()) == sz[Is])), ...); }(std::make_index_sequence<n>{});
  nda::array<cplx, n + T::rank> din = g.data(), dout = all.data();
  long tgt = 1;
  for (int i = 0; i < T::rank; ++i) tgt *= din.shape()[n + i];
  long before = 1, after = tgt;
  for (int i = 0; i < N; ++i) before *= sz[i];
  for (int i = N + 1; i < n; ++i) after *= sz[i];
  double err = 0;
  for (long b = 0; b < before; ++b)
    for (long a = 0; a < after; ++a) {
      gf<MN, scalar_valued> h{mN};
      for (long i = 0; i < sz[N]; ++i) h.data()(i) = din.data()[(b * sz[N] + i) * after + a];
      auto r = make_gf_from_fourier(h, m2);
      for (long i = 0; i < long(m2.size()); ++i) {
        double d = std::abs(r.data()(i) - dout.data()[(b * long(m2.size()) + i) * after + a]);
        err = d <= err ? err : d;
      }
    }
  ex::check(ok && err < 1e-11, "one-variable", what, ": variable ", N, " error ", err);
  // and into a view
  auto v = all;
  v.data() = 0;
  v() = fourier<N>(g);
  ex::check(distance(v, all) == 0, "one-variable-lazy", what, ": variable ", N);
}
JOB_SHARDED(products, 12) {
  int which = ex::choose(12);
  auto bl = lattice_of(1);
  brzone mk{brillouin_zone{bl}, std::array<long, 3>{2, 3, 1}};
  cyclat mr{bl, std::array<long, 3>{2, 3, 1}};
  imfreq mw{2.0, Fermion, 2}, mb{2.0, Boson, 1};
  imtime mt{2.0, Fermion, 14};
  retime ms{-1, 2, 5};
  refreq me = make_adjoint_mesh(ms);
  auto go = [&]<typename MP, typename T>(gf<MP, T> g, auto f) {
    scramble(g, which + 1);
    f(g);
  };
  switch (which) {
    case 0: go(gf<prod<brzone, refreq>, scalar_valued>{{mk, me}}, [&](auto const &g) { one_of<0>(g, mr, "k w"), one_of<1>(g, ms, "k w"); }); break;
    case 1: go(gf<prod<brzone, refreq>, matrix_valued>{{mk, me}, {2, 3}}, [&](auto const &g) { one_of<0>(g, mr, "k w matrix"), one_of<1>(g, ms, "k w matrix"); }); break;
    case 2: go(gf<prod<refreq, brzone>, matrix_valued>{{me, mk}, {2, 3}}, [&](auto const &g) { one_of<0>(g, ms, "w k matrix"), one_of<1>(g, mr, "w k matrix"); }); break;
    case 3: go(gf<prod<brzone, retime, cyclat>, scalar_valued>{{mk, ms, mr}}, [&](auto const &g) { one_of<0>(g, mr, "k t r"), one_of<1>(g, me, "k t r"), one_of<2>(g, mk, "k t r"); }); break;
    case 4: go(gf<prod<brzone, retime, refreq>, matrix_valued>{{mk, ms, me}, {2, 1}}, [&](auto const &g) { one_of<0>(g, mr, "k t w"), one_of<1>(g, me, "k t w"), one_of<2>(g, ms, "k t w"); }); break;
    case 5: { // two and three variables at once
      gf<prod<brzone, retime>, matrix_valued> g{{mk, ms}, {2, 1}};
      scramble(g, 1);
      auto a = make_gf_from_fourier<1>(make_gf_from_fourier<0>(g, mr), me);
      auto b = make_gf_from_fourier<0>(make_gf_from_fourier<1>(g, me), mr);
      auto c = make_gf_from_fourier<0, 1>(g, mr, me);
      auto d = make_gf_from_fourier<1, 0>(g, me, mr);
      auto e = make_gf_from_fourier<0, 1>(g);
      ex::step();
      ex::check(distance(a, b) < 1e-11 && distance(a, c) < 1e-11 && distance(a, d) < 1e-11 && distance(a, e) < 1e-11 && c.mesh() == a.mesh() && e.mesh() == a.mesh(), "two-variables", "k t");
      break;
    }
    case 6: {
      gf<prod<brzone, retime, cyclat>, scalar_valued> g{{mk, ms, mr}};
      scramble(g, 1);
      auto a = make_gf_from_fourier<2>(make_gf_from_fourier<1>(make_gf_from_fourier<0>(g, mr), me), mk);
      auto c = make_gf_from_fourier<0, 1, 2>(g, mr, me, mk);
      auto d = make_gf_from_fourier<2, 0, 1>(g, mk, mr, me);
      ex::step();
      ex::check(distance(a, c) < 1e-11 && distance(a, d) < 1e-11, "three-variables", "k t r");
      break;
    }
    case 7: case 8: case 9: { // Matsubara frequencies with moments that depend on the other variables
      int N = which - 7;
      // flattened function of (other indices) -> poles
      auto pole = [](long i) { return component({-1, 0, 1}, int(i % 7)); };
      auto omega = [&](long n) { return (2 * n + 1) * PI / 2.0L; };
      auto run = [&]<int K>(auto g, std::integral_constant<int, K>) {
        constexpr int R = decltype(g)::data_rank;
        long after = 1, before = 1, nw = mw.size();
        auto sh = g.data().shape();
        for (int i = 0; i < K; ++i) before *= sh[i];
        for (int i = K + 1; i < R; ++i) after *= sh[i];
        nda::array<cplx, R> mom = make_zero_tail<K>(g, 4);
        for (long b = 0; b < before; ++b)
          for (long a = 0; a < after; ++a) {
            auto p = pole(b * after + a);
            for (long i = 0; i < nw; ++i) g.data().data()[(b * nw + i) * after + a] = cplx(p.freq(lcplx(0, omega(mw.to_index(i)))));
            for (int m = 0; m < 4; ++m) mom.data()[m * before * after + b * after + a] = p.moment(m); // the frequency first, the others in their order
          }
        auto t = make_gf_from_fourier<K>(g, mt, mom);
        double err = 0;
        for (long b = 0; b < before; ++b)
          for (long a = 0; a < after; ++a)
            for (long i = 0; i < long(mt.size()); ++i) {
              double d = std::abs(t.data().data()[(b * long(mt.size()) + i) * after + a] - pole(b * after + a).time(2.0 * i / (mt.size() - 1), 2.0, Fermion));
              err = d <= err ? err : d;
            }
        ex::check(err < 1e-11, "moments-of-other-variables", "frequency at position ", K, " of ", R, ": error ", err);
        auto w = make_gf_from_fourier<K>(t, mw, mom);
        ex::check(distance(w, g) < 1e-11, "moments-of-other-variables-back", "frequency at position ", K, " of ", R, ": error ", distance(w, g));
      };
      ex::step();
      int r = ex::choose(2);
      if (N == 0 && r) run(gf<prod<imfreq, brzone>, matrix_valued>{{mw, mk}, {2, 1}}, std::integral_constant<int, 0>{});
      if (N == 0 && !r) run(gf<prod<imfreq, refreq, brzone>, scalar_valued>{{mw, me, mk}}, std::integral_constant<int, 0>{});
      if (N == 1 && r) run(gf<prod<brzone, imfreq>, matrix_valued>{{mk, mw}, {2, 3}}, std::integral_constant<int, 1>{});
      if (N == 1 && !r) run(gf<prod<brzone, imfreq, refreq>, matrix_valued>{{mk, mw, me}, {2, 1}}, std::integral_constant<int, 1>{});
      if (N == 2 && r) run(gf<prod<brzone, refreq, imfreq>, scalar_valued>{{mk, me, mw}}, std::integral_constant<int, 2>{});
      if (N == 2 && !r) run(gf<prod<brzone, refreq, imfreq>, matrix_valued>{{mk, me, mw}, {2, 1}}, std::integral_constant<int, 2>{});
      break;
    }
    case 10: { // blocks
      auto st = ex::choose(2) ? Fermion : Boson;
      imfreq w{2.0, st, 8};
      imtime t{2.0, st, 49};
      std::vector<gf<imfreq, matrix_valued>> v;
      std::vector<nda::array<cplx, 3>> moms;
      for (int b = 0; b < 3; ++b) {
        v.push_back(gf<imfreq, matrix_valued>{w, {b + 1, b + 1}});
        moms.push_back(make_zero_tail(v.back(), 4));
        auto p = component({-1, 0.4, 3}, b);
        for (auto x : w) v.back()[x] = cplx(p.freq(lcplx(0, (2 * x.index() + (st == Fermion)) * PI / 2)));
        for (int n = 0; n < 4; ++n)
          for (int i = 0; i <= b; ++i) moms.back()(n, i, i) = p.moment(n);
      }
      auto bg = make_block_gf<imfreq>({"x", "y", "z"}, v);
      auto bt = make_gf_from_fourier(bg, t, moms);
      auto bw = make_gf_from_fourier(bt, w, moms);
      bool ok = bt.size() == 3 && bt.block_names() == bg.block_names();
      for (int b = 0; b < 3 && ok; ++b) ok = distance(bt[b], make_gf_from_fourier(v[b], t, moms[b])) == 0 && distance(bw[b], v[b]) < 1e-11;
      ex::step();
      ex::check(ok, "blocks", "three blocks with moments");
      moms.pop_back();
      ex::check(refuses([&] { make_gf_from_fourier(bg, t, moms); }), "blocks-mismatch", "two moments for three blocks");
      // without moments: every block on its own
      auto b2 = make_block_gf<imtime>({"x", "y", "z"}, {bt[0], bt[1], bt[2]});
      auto r2 = make_gf_from_fourier(b2, w);
      ok = r2.block_names() == bg.block_names();
      for (int b = 0; b < 3 && ok; ++b) ok = distance(r2[b], make_gf_from_fourier(bt[b], w)) == 0;
      ex::check(ok, "blocks", "three blocks without moments");
      break;
    }
    case 11: { // slices and constant views
      gf<retime, matrix_valued> g{ms, {3, 3}};
      scramble(g, 4);
      auto s = slice_target(g, nda::range(0, 2), nda::range(1, 3));
      auto r = make_gf_from_fourier(s, me);
      auto whole = make_gf_from_fourier(g, me);
      ex::check(distance(r, slice_target(whole, nda::range(0, 2), nda::range(1, 3))) < 1e-13, "slice", "of a matrix");
      gf<refreq, matrix_valued> out{me, {3, 3}};
      slice_target(out, nda::range(0, 2), nda::range(1, 3)) = fourier(s);
      ex::check(distance(slice_target(out, nda::range(0, 2), nda::range(1, 3)), r) < 1e-13, "slice-assign", "of a matrix");
      double rest = 0;
      for (auto w : me) rest += std::abs(out[w](2, 2)) + std::abs(out[w](0, 0)) + std::abs(out[w](2, 0));
      ex::check(rest == 0, "slice-assign-rest", "of a matrix");
      gf<prod<brzone, retime>, scalar_valued> p{{mk, ms}};
      scramble(p, 5);
      for (auto q : mk) {
        auto part = p[q, nda::range::all];
        auto f = make_gf_from_fourier(part, me);
        auto all = make_gf_from_fourier<1>(p, me);
        ex::check(distance(f, all[q, nda::range::all]) < 1e-13, "partial", "one momentum");
      }
      break;
    }
  }
}
