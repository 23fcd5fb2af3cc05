// C34-C36: accumulators, jackknife and mean/error estimates, histograms against their definitions
#include "explore.hpp"
#include <triqs/gfs.hpp>
#include <triqs/stat/accumulator.hpp>
#include <triqs/stat/jackknife.hpp>
#include <triqs/stat/mean_error.hpp>
#include <triqs/stat/histograms.hpp>
#include <numeric>
using namespace triqs::stat;
using cplx = std::complex<double>;
using ld   = long double;
using lc   = std::complex<ld>;
template <int R, typename V> using arr = nda::array<V, R>;
// ---- sample values as lists of components
template <typename T> struct tr;
template <> struct tr<double> {
  static std::vector<lc> list(double x) { return {lc(x)}; }
  static double make(std::vector<lc> const &v) { return double(v[0].real()); }
  static constexpr int n = 1;
};
template <> struct tr<cplx> {
  static std::vector<lc> list(cplx x) { return {lc(x)}; }
  static cplx make(std::vector<lc> const &v) { return cplx(v[0]); }
  static constexpr int n = 1;
};
template <typename V, int R> struct tr<nda::array<V, R>> {
  static std::vector<lc> list(nda::array<V, R> const &x) {
    std::vector<lc> r;
    for (auto const &y : x) r.push_back(lc(y));
    return r;
  }
  static nda::array<V, R> make(std::vector<lc> const &v) {
    nda::array<V, R> a = [] {
      if constexpr (R == 1)
        return nda::array<V, R>(3);
      else
        return nda::array<V, R>(2, 2);
    }();
    int k = 0;
    for (auto &y : a) y = tr<V>::make({v[k++]});
    return a;
  }
  static constexpr int n = R == 1 ? 3 : 4;
};
// the i-th sample of series s: integers without pattern, complex where the type allows
static std::vector<lc> sample(int i, int s, int n) {
  std::vector<lc> v;
  for (int k = 0; k < n; ++k) {
    long a = (long(i + 1) * 7919 + s * 104729 + k * 1299709) % 23 - 11, b = (long(i + 3) * 6101 + s * 31 + k * 7) % 17 - 8;
    v.push_back(s == 1 ? lc(1 + (a + 11) % 5, b / 4.0L) : lc(a, b));
  }
  return v;
}
template <typename T> constexpr bool cx = std::is_same_v<T, cplx> || std::is_same_v<T, nda::array<cplx, 1>>;
template <typename T> std::vector<lc> smp(int i, int s = 0) {
  auto v = sample(i, s, tr<T>::n);
  if (!cx<T>)
    for (auto &x : v) x = x.real();
  return v;
}
static lc comp(std::vector<std::vector<lc>> const &v, int k, int a, int b) { // mean of component k over [a,b)
  lc s = 0;
  for (int i = a; i < b; ++i) s += v[i][k];
  return s / ld(b - a);
}
static bool near(lc a, lc b, ld tol = 1e-10L) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }
template <typename T> bool same(T const &x, std::vector<lc> const &w, ld tol = 1e-10L) {
  auto v = tr<T>::list(x);
  if (v.size() != w.size()) return false;
  for (size_t k = 0; k < v.size(); ++k)
    if (!near(v[k], w[k], tol)) return false;
  return true;
}
template <typename T> std::string show(T const &x) {
  std::ostringstream s;
  for (auto y : tr<T>::list(x)) s << double(y.real()) << (y.imag() != 0 ? "+i" + std::to_string(double(y.imag())) : "") << " ";
  return s.str();
}
static std::string show(std::vector<lc> const &v) {
  std::ostringstream s;
  for (auto y : v) s << double(y.real()) << (y.imag() != 0 ? "+i" + std::to_string(double(y.imag())) : "") << " ";
  return s.str();
}
// ---- reference accumulator: keeps every sample
struct ref {
  int max_log, max_lin;
  long cap;
  int n;
  std::vector<std::vector<lc>> x;
  std::vector<std::vector<lc>> lin() const {
    std::vector<std::vector<lc>> r;
    if (max_lin == 0) return r;
    int N = x.size(), c = max_lin == 1 ? std::max(N, 1) : int(cap);
    if (N == 0) return {std::vector<lc>(n, 0)};
    for (int a = 0; a < N; a += c) {
      std::vector<lc> b;
      for (int k = 0; k < n; ++k) b.push_back(comp(x, k, a, std::min(N, a + c)));
      r.push_back(b);
    }
    return r;
  }
  void add(std::vector<lc> v) {
    if (max_lin > 1 && long(x.size()) == long(max_lin) * cap) cap *= 2;
    x.push_back(std::move(v));
  }
  void compress(int f) {
    if (max_lin != 0 && f >= 2) cap *= f;
  }
  int levels() const {
    if (max_log == 0) return 0;
    int l = 1;
    while ((1L << l) <= long(x.size()) && (max_log < 0 || l < max_log)) ++l;
    return l;
  }
  // sum of squared distances of the blocks of level l from their mean
  std::vector<lc> means(int k, int l) const {
    std::vector<lc> m;
    long b = 1L << l;
    for (long a = 0; a + b <= long(x.size()); a += b) m.push_back(comp(x, k, a, a + b));
    return m;
  }
};
static ld error_of(std::vector<lc> const &m) {
  long N = m.size();
  if (N <= 1) return 0;
  lc M = std::accumulate(m.begin(), m.end(), lc(0)) / ld(N);
  ld q = 0;
  for (auto x : m) q += std::norm(x - M);
  return std::sqrt(q / (ld(N) * (N - 1)));
}
template <typename R> std::vector<lc> list_any(R const &x) { return tr<R>::list(x); }
template <typename T> void compare(accumulator<T> const &a, ref const &r, std::string const &what) {
  ex::step();
  ex::check(a.data_input_count() == long(r.x.size()), "count", what, ": ", a.data_input_count(), " samples counted instead of ", r.x.size());
  ex::check(a.n_lin_bins_max() == r.max_lin && a.n_log_bins_max() == r.max_log, "limits", what, ": the maximal numbers of bins are ", a.n_lin_bins_max(), " ", a.n_log_bins_max(), " instead of ", r.max_lin, " ", r.max_log);
  auto lin = r.lin();
  auto &b  = a.linear_bins();
  if (r.max_lin != 0) ex::check(a.lin_bin_capacity() == r.cap, "capacity", what, ": the capacity is ", a.lin_bin_capacity(), " instead of ", r.cap);
  ex::check(b.size() == lin.size() && a.n_lin_bins() == int(lin.size()), "bins", what, ": ", b.size(), " linear bins instead of ", lin.size());
  for (size_t i = 0; i < std::min(b.size(), lin.size()); ++i)
    ex::check(same(b[i], lin[i]), "bin", what, ": linear bin ", i, " of ", lin.size(), " is ", show(b[i]), " instead of ", show(lin[i]));
  auto [err, cnt] = a.log_bin_errors();
  int L           = r.levels();
  ex::check(int(err.size()) == L && int(cnt.size()) == L && a.n_log_bins() == L, "levels", what, ": ", err.size(), " logarithmic bins instead of ", L);
  for (int l = 0; l < std::min<int>(L, err.size()); ++l) {
    ex::check(cnt[l] == long(r.x.size() >> l), "level-count", what, ": level ", l, " has ", cnt[l], " blocks");
    std::vector<lc> w;
    for (int k = 0; k < r.n; ++k) w.push_back(error_of(r.means(k, l)));
    ex::check(same(err[l], w, 1e-9L), "level-error", what, ": the error of level ", l, " of ", r.x.size(), " samples is ", show(err[l]), " instead of ", show(w));
  }
}
template <typename T> accumulator<T> new_acc(ref const &r) { return {tr<T>::make(sample(5, 0, tr<T>::n)), r.max_log, r.max_lin, int(r.cap)}; }
static const std::vector<int> LIN = {-1, 0, 1, 2, 3, 4, 7};
static const std::vector<int> LOG = {-1, 0, 1, 2, 3, 5};
// every count of samples for every configuration, with compressions at up to two points
template <typename T> void counts() {
  ref r{ex::pick(LOG), ex::pick(LIN), ex::pick({1, 2, 3, 5}), tr<T>::n, {}};
  auto a  = new_acc<T>(r);
  int at = ex::choose(13), f = at ? ex::pick({2, 3, 5, 1, -1}) : 1, at2 = at ? ex::choose(5) : 0, f2 = at2 ? ex::pick({2, 3, 7}) : 1;
  if (at && r.max_log != -1 && r.max_log != 2) return; // the two kinds of binning are independent
  int N = (at ? 30 : 70) * (ex::thorough() ? 2 : 1);
  compare(a, r, "no samples");
  for (int i = 0; i < N; ++i) {
    if (at == i + 1) a.compress_linear_bins(f), r.compress(f), compare(a, r, "compressed");
    if (at2 && at + at2 == i + 1) a.compress_linear_bins(f2), r.compress(f2), compare(a, r, "compressed again");
    auto v = smp<T>(i);
    a << tr<T>::make(v);
    r.add(v);
    compare(a, r, std::to_string(i + 1) + " samples");
    if (ex::failed()) return;
  }
}
JOB_SHARDED(acc_double, 6) { counts<double>(); }
JOB_SHARDED(acc_complex, 6) { counts<cplx>(); }
JOB_SHARDED(acc_array, 6) { counts<nda::array<double, 1>>(); }
JOB_SHARDED(acc_carray, 6) { counts<nda::array<cplx, 1>>(); }
JOB_SHARDED(acc_array2, 6) { counts<nda::array<double, 2>>(); }
// programs with copies, moves, archives in between; the source of a copy must not follow
template <typename T> void programs() {
  ref r{ex::pick({-1, 0, 2}), ex::pick({-1, 1, 2, 3}), ex::pick({1, 2}), tr<T>::n, {}};
  auto a  = new_acc<T>(r);
  int i   = 0;
  int len = ex::thorough() ? 5 : 4;
  for (int s = 0; s < len; ++s) {
    int op = ex::choose(7);
    if (op < 3) {
      int n = std::array{1, 3, 8}[op];
      for (int k = 0; k < n; ++k, ++i) {
        auto v = smp<T>(i);
        a << tr<T>::make(v);
        r.add(v);
      }
    } else if (op == 3) {
      a.compress_linear_bins(2), r.compress(2);
    } else if (op == 4) { // copy; the original goes its own way
      auto b = a;
      a << tr<T>::make(smp<T>(99)) << tr<T>::make(smp<T>(98));
      a.compress_linear_bins(3);
      a = b;
    } else if (op == 5) {
      accumulator<T> b{std::move(a)};
      a = accumulator<T>{};
      a = std::move(b);
    } else { // archive
      h5::file f{}; // in memory
      h5_write(f, "acc", a);
      accumulator<T> b;
      if (ex::flip()) {
        b = accumulator<T>{tr<T>::make(smp<T>(1)), 4, 3, 2};
        for (int k = 0; k < 9; ++k) b << tr<T>::make(smp<T>(k));
      }
      h5_read(f, "acc", b);
      a = std::move(b);
    }
    compare(a, r, "program");
    if (ex::failed()) return;
  }
}
JOB_SHARDED(prog_double, 3) { programs<double>(); }
JOB_SHARDED(prog_array, 3) { programs<nda::array<cplx, 1>>(); }
// autocorrelation estimate
JOB(tau) {
  std::vector<double> e = {0.5, 1.0, 1.5, 2.0, 0.25};
  double x = ex::pick(e), y = ex::pick(e);
  ex::check(ex::near(tau_estimate_from_errors(x, y), 0.5 * (x * x / (y * y) - 1)), "tau", "errors ", x, " ", y);
  nda::array<double, 1> a{x, 2 * x}, b{y, 3 * y};
  nda::array<double, 1> t = tau_estimate_from_errors(a, b);
  ex::check(ex::near(t(0), 0.5 * (x * x / (y * y) - 1)) && ex::near(t(1), 0.5 * (4 * x * x / (9 * y * y) - 1)), "tau-array", "errors ", x, " ", y);
  ex::step();
}
// ---- ranks
static mpi::sim::outcome ranks(int n, std::function<void(int)> f) {
  int k = ex::choose(n); // which rank runs first, and whether ranks run in rounds or to the next communication
  bool rounds = ex::flip();
  return mpi::sim::run(n, f, [=](std::vector<int> const &en, int last) {
    if (!rounds && last >= 0 && std::find(en.begin(), en.end(), last) != en.end()) return int(std::find(en.begin(), en.end(), last) - en.begin());
    for (int d = last < 0 ? 0 : 1; d <= n; ++d) {
      int r = ((last < 0 ? k : last) + (k ? n - d : d)) % n;
      auto it = std::find(en.begin(), en.end(), r);
      if (it != en.end()) return int(it - en.begin());
    }
    return 0;
  });
}
static void fine(mpi::sim::outcome const &o) {
  ex::check(o.error.empty(), "mpi", o.error);
  for (auto &e : o.exceptions)
    if (e) try {
        std::rethrow_exception(e);
      } catch (std::exception const &x) { ex::fail("exception", x.what()); }
}
template <typename T> void reduced_errors() {
  int n = 1 + ex::choose(3), max_log = ex::pick({-1, 2, 4, 1});
  std::vector<int> N;
  for (int r = 0; r < n; ++r) N.push_back(ex::pick({0, 1, 2, 3, 5, 8, 17}));
  std::vector<ref> R;
  int i = 0, L = 0;
  for (int r = 0; r < n; ++r) {
    R.push_back({max_log, 0, 1, tr<T>::n, {}});
    for (int k = 0; k < N[r]; ++k) R[r].add(smp<T>(i++));
    L = std::max(L, R[r].levels());
  }
  std::vector<std::vector<lc>> want;
  std::vector<long> cw;
  for (int l = 0; l < L; ++l) {
    std::vector<lc> w;
    long c = 0;
    for (int k = 0; k < tr<T>::n; ++k) {
      std::vector<lc> m;
      for (auto &r : R)
        if (l < r.levels()) {
          auto y = r.means(k, l);
          m.insert(m.end(), y.begin(), y.end());
        }
      c = m.size();
      w.push_back(error_of(m));
    }
    want.push_back(w), cw.push_back(c);
  }
  fine(ranks(n, [&](int r) {
    auto a = new_acc<T>(R[r]);
    for (auto &v : R[r].x) a << tr<T>::make(v);
    auto [err, cnt] = a.log_bin_errors_all_reduce(mpi::communicator{});
    ex::step();
    ex::check(cnt == cw, "reduced-counts", "rank ", r, " of ", n, " has other block counts than the union of the samples");
    ex::check(err.size() == want.size(), "reduced-levels", "rank ", r, " of ", n, " has ", err.size(), " levels instead of ", want.size());
    for (size_t l = 0; l < std::min(err.size(), want.size()); ++l)
      ex::check(same(err[l], want[l], 1e-9L), "reduced-error", "rank ", r, " of ", n, ": level ", l, " is ", show(err[l]), " instead of ", show(want[l]));
    compare(a, R[r], "after reduction");
  }));
}
JOB_SHARDED(log_mpi, 3) { reduced_errors<double>(); }
JOB_SHARDED(log_mpi_array, 3) { reduced_errors<nda::array<cplx, 1>>(); }

// ---- C35
using vlc = std::vector<lc>;
template <typename T> std::vector<T> series(int N, int s, int from = 0) {
  std::vector<T> v;
  for (int i = 0; i < N; ++i) v.push_back(tr<T>::make(smp<T>(from + i, s)));
  return v;
}
template <typename T> std::vector<vlc> rseries(int N, int s) {
  std::vector<vlc> v;
  for (int i = 0; i < N; ++i) v.push_back(smp<T>(i, s));
  return v;
}
struct jk {
  lc corrected, mean, direct;
  ld err;
};
// component k of the estimates of f
template <typename F> jk jack(F f, std::vector<std::vector<vlc>> const &s, int k) {
  long N = s[0].size();
  auto at = [&](long skip) {
    std::vector<lc> a;
    for (auto &x : s) {
      lc t = 0;
      for (long i = 0; i < N; ++i)
        if (i != skip) t += x[i][k];
      a.push_back(t / ld(skip < 0 ? N : N - 1));
    }
    return f(a);
  };
  jk r;
  r.direct = at(-1);
  r.mean   = 0;
  std::vector<lc> v;
  for (long i = 0; i < N; ++i) v.push_back(at(i)), r.mean += v.back() / ld(N);
  ld q = 0;
  for (auto x : v) q += std::norm(x - r.mean) / N;
  r.err       = std::sqrt((N - 1) * q);
  r.corrected = ld(N) * r.direct - ld(N - 1) * r.mean;
  return r;
}
template <typename Tup, typename F> void check_jack(Tup const &t, F f, std::vector<std::vector<vlc>> const &s, std::string const &what) {
  auto [av, er, mean, direct] = t;
  auto a = list_any(av), e = list_any(er), m = list_any(mean), d = list_any(direct);
  ex::step();
  for (size_t k = 0; k < a.size(); ++k) {
    auto j = jack(f, s, k);
    ex::check(near(d[k], j.direct, 1e-9L), "direct", what, ": the function of the averages is ", cplx(d[k]), " instead of ", cplx(j.direct));
    ex::check(near(m[k], j.mean, 1e-9L), "mean", what, ": the jackknife mean is ", cplx(m[k]), " instead of ", cplx(j.mean));
    ex::check(near(e[k], j.err, 1e-8L), "error", what, ": the error is ", cplx(e[k]), " instead of ", double(j.err));
    ex::check(near(a[k], j.corrected, 1e-8L), "corrected", what, ": the corrected average is ", cplx(a[k]), " instead of ", cplx(j.corrected));
  }
}
static const auto f_id    = [](std::vector<lc> const &x) { return x[0]; };
static const auto f_sq    = [](std::vector<lc> const &x) { return x[0] * x[0]; };
static const auto f_ratio = [](std::vector<lc> const &x) { return x[0] / x[1]; };
static const auto f_mix   = [](std::vector<lc> const &x) { return x[0] * x[1] - x[2]; };
// call jackknife(f, series...) with f number `which`; `call` forwards to the serial or parallel version
template <typename T, typename Call> void with(int which, Call call, std::vector<std::vector<vlc>> const &s, std::string const &what) {
  switch (which) {
    case 0: return check_jack(call([](auto const &x) { return x; }, 1), f_id, s, what + " identity");
    case 1: return check_jack(call([](auto const &x) { return x * x; }, 1), f_sq, s, what + " square");
    case 2: return check_jack(call([](auto const &x, auto const &y) { return x / y; }, 2), f_ratio, s, what + " ratio");
    case 3: return check_jack(call([](auto const &x, auto const &y, auto const &z) { return nda::make_regular(x * y - z); }, 3), f_mix, s, what + " mix");
  }
}
template <typename T> struct caller {
  bool acc, parallel;
  std::vector<std::vector<T>> s;
  template <typename F> auto operator()(F f, int) const {
    if constexpr (std::is_invocable_v<F, T, T, T>)
      return go(f, s[0], s[1], s[2]);
    else if constexpr (std::is_invocable_v<F, T, T>)
      return go(f, s[0], s[1]);
    else
      return go(f, s[0]);
  }
  template <typename F, typename... S> auto go(F f, S const &...v) const {
    if (acc) {
      auto mk = [](auto const &x) {
        accumulator<T> a{x[0], 0, -1, 1};
        for (auto const &y : x) a << y;
        return a;
      };
      return parallel ? jackknife_mpi(mpi::communicator{}, f, mk(v)...) : jackknife(f, mk(v)...);
    }
    return parallel ? jackknife_mpi(mpi::communicator{}, f, v...) : jackknife(f, v...);
  }
};
template <typename T> void jack_serial() {
  int which = ex::choose(4), N = 2 + ex::choose(ex::thorough() ? 40 : 14);
  bool acc = ex::flip();
  std::vector<std::vector<vlc>> s;
  caller<T> c{acc, false, {}};
  for (int k = 0; k < 3; ++k) s.push_back(rseries<T>(N, k)), c.s.push_back(series<T>(N, k));
  with<T>(which, c, s, std::to_string(N) + " data");
  // wrong input
  auto throws = [](auto f) {
    try {
      f();
      return false;
    } catch (triqs::runtime_error const &) { return true; }
  };
  auto f2 = [](auto const &x, auto const &y) { return nda::make_regular(x * y); };
  ex::check(throws([&] { jackknife(f2, c.s[0], series<T>(N + 1, 1)); }) && throws([&] { jackknife(f2, c.s[0], series<T>(N - 1, 1)); }), "mismatch", "series of different lengths are accepted");
}
JOB_SHARDED(jack_double, 4) { jack_serial<double>(); }
JOB_SHARDED(jack_complex, 4) { jack_serial<cplx>(); }
JOB_SHARDED(jack_array, 4) { jack_serial<nda::array<double, 1>>(); }
JOB_SHARDED(jack_carray, 4) { jack_serial<nda::array<cplx, 1>>(); }
template <typename T> std::vector<int> spread(int n) {
  std::vector<int> N;
  for (int r = 0; r < n; ++r) N.push_back(ex::pick({1, 2, 3, 6}));
  return N;
}
template <typename T> void jack_parallel() {
  int which = ex::choose(4), n = 1 + ex::choose(ex::thorough() ? 4 : 3);
  bool acc = ex::flip();
  auto N   = spread<T>(n);
  int tot  = std::accumulate(N.begin(), N.end(), 0);
  if (tot < 2) return;
  std::vector<std::vector<vlc>> s;
  for (int k = 0; k < 3; ++k) s.push_back(rseries<T>(tot, k));
  fine(ranks(n, [&](int r) {
    int from = std::accumulate(N.begin(), N.begin() + r, 0);
    caller<T> c{acc, true, {}};
    for (int k = 0; k < 3; ++k) c.s.push_back(series<T>(N[r], k, from));
    with<T>(which, c, s, "rank " + std::to_string(r) + " of " + std::to_string(n) + " with " + std::to_string(N[r]) + " of " + std::to_string(tot) + " data");
  }));
}
JOB_SHARDED(jack_mpi_double, 4) { jack_parallel<double>(); }
JOB_SHARDED(jack_mpi_carray, 4) { jack_parallel<nda::array<cplx, 1>>(); }
template <typename T> void check_mean(std::vector<vlc> const &x, T const &m, std::string const &what) {
  vlc w;
  for (int k = 0; k < tr<T>::n; ++k) w.push_back(comp(x, k, 0, x.size()));
  ex::check(same(m, w), "mean", what, ": the mean is ", show(m), " instead of ", show(w));
}
template <typename R> void check_err(std::vector<vlc> const &x, R const &e, std::string const &what) {
  auto v = list_any(e);
  for (size_t k = 0; k < v.size(); ++k) {
    vlc y;
    for (auto &a : x) y.push_back(a[k]);
    ex::check(near(v[k], error_of(y), 1e-8L), "standard-error", what, ": the standard error is ", cplx(v[k]), " instead of ", double(error_of(y)));
  }
}
template <typename T> void means() {
  int n = ex::choose(ex::thorough() ? 5 : 4); // 0: serial
  auto N  = spread<T>(std::max(n, 1));
  int add = n ? 0 : ex::choose(12), s = ex::choose(2);
  N[0] += add;
  int tot = std::accumulate(N.begin(), N.end(), 0);
  auto x  = rseries<T>(tot, s);
  if (!n) {
    auto d = series<T>(tot, s);
    check_mean<T>(x, mean(d), "serial");
    if (tot < 2) return;
    auto [m, e] = mean_and_err(d);
    check_mean<T>(x, m, "serial");
    check_err(x, e, "serial");
    ex::step();
    return;
  }
  fine(ranks(n, [&](int r) {
    int from    = std::accumulate(N.begin(), N.begin() + r, 0);
    auto d      = series<T>(N[r], s, from);
    auto what   = "rank " + std::to_string(r) + " of " + std::to_string(n);
    check_mean<T>(x, mean_mpi(mpi::communicator{}, d), what);
    if (tot < 2) return;
    auto [m, e] = mean_and_err_mpi(mpi::communicator{}, d);
    check_mean<T>(x, m, what);
    check_err(x, e, what);
    ex::step();
  }));
}
JOB_SHARDED(mean_double, 4) { means<double>(); }
JOB_SHARDED(mean_complex, 4) { means<cplx>(); }
JOB_SHARDED(mean_array, 4) { means<nda::array<double, 1>>(); }
JOB_SHARDED(mean_carray, 4) { means<nda::array<cplx, 1>>(); }

// ---- C36
struct rhist {
  double a, b;
  long n;
  std::vector<double> c;
  unsigned long long pts = 0, lost = 0;
  // the bins that may take x: two if x lies on an edge up to rounding
  std::vector<long> bins(double x) const {
    if (!(x >= a && x <= b)) return {};
    ld u = n == 1 ? 0.5L : (ld(x) - a) * (n - 1) / (ld(b) - a) + 0.5L;
    long k = std::floor(u);
    bool exact = n == 1 || std::fmod((b - a) * 1024, 1) == 0;
    ld fr = u - k, eps = 1e-12L * n;
    std::vector<long> r;
    if (fr < eps && !(exact && fr == 0) && k > 0) r.push_back(k - 1);
    if (k >= 0 && k < n) r.push_back(k);
    if (1 - fr < eps && k + 1 < n) r.push_back(k + 1);
    return r;
  }
};
static void same_hist(histogram const &h, rhist const &r, std::string const &what) {
  ex::step();
  ex::check(h.size() == size_t(r.n) && h.limits() == std::make_pair(r.a, r.b), "shape", what, ": ", h.size(), " bins over ", h.limits().first, " ", h.limits().second);
  ex::check(h.n_data_pts() == r.pts && h.n_lost_pts() == r.lost, "points", what, ": ", h.n_data_pts(), " data points and ", h.n_lost_pts(), " lost instead of ", r.pts, " and ", r.lost);
  for (long i = 0; i < std::min<long>(r.n, h.size()); ++i) ex::check(h.data()(i) == r.c[i], "bin", what, ": bin ", i, " of ", r.n, " over [", r.a, ",", r.b, "] holds ", h.data()(i), " instead of ", r.c[i]);
  for (long i = 0; i < r.n && r.n > 1; ++i) ex::check(ex::near(h.mesh_point(i), r.a + i * (r.b - r.a) / (r.n - 1)), "centre", what, ": the centre of bin ", i, " is ", h.mesh_point(i));
}
static rhist spec(int k) {
  static const std::vector<rhist> v = {{0, 1, 2, {}}, {-1, 3, 5, {}}, {0, 0.3, 4, {}}, {-2.5, 1.7, 10, {}}, {1e-3, 2e-3, 3, {}}, {0, 10, 11, {}}, {-4, 4, 1, {}}, {-1e6, 1e6, 101, {}}, {0, 1, 1000, {}}};
  auto r = v[k];
  r.c.assign(r.n, 0);
  return r;
}
static histogram make(rhist const &r) { return {r.a, r.b, r.n}; }
static void fill(histogram &h, rhist &r, double x, std::string const &what) {
  auto b = r.bins(x);
  auto old = h.data();
  h << x;
  if (b.empty()) {
    r.lost++;
  } else {
    r.pts++;
    long k = b[0];
    if (b.size() > 1)
      for (auto y : b)
        if (y < long(h.size()) && h.data()(y) != old(y)) k = y;
    r.c[k] += 1;
  }
  same_hist(h, r, what);
}
static std::vector<double> xs(rhist const &r) {
  std::vector<double> v;
  double st = r.n > 1 ? (r.b - r.a) / (r.n - 1) : r.b - r.a;
  for (long i = 0; i < std::min<long>(r.n, 12); ++i) {
    long k = r.n <= 12 ? i : i * (r.n - 1) / 11;
    for (double d : {0.0, 0.25, 0.5, -0.5, -0.49, 0.49, -0.25}) v.push_back(r.a + (k + d) * st);
    v.push_back(std::nextafter(r.a + (k + 0.5) * st, -1e300));
  }
  for (double e : {r.a, r.b}) v.push_back(e), v.push_back(std::nextafter(e, 1e300)), v.push_back(std::nextafter(e, -1e300));
  v.push_back(r.a - st), v.push_back(r.b + st), v.push_back(1e300), v.push_back(-1e300);
  v.push_back(std::numeric_limits<double>::infinity()), v.push_back(-std::numeric_limits<double>::infinity()), v.push_back(std::numeric_limits<double>::quiet_NaN());
  return v;
}
JOB_SHARDED(hist_points, 9) {
  auto r = spec(ex::choose(9));
  auto h = make(r);
  same_hist(h, r, "empty");
  auto v = xs(r);
  double x = v[ex::choose(v.size())];
  fill(h, r, x, "value " + std::to_string(x));
  double y = v[ex::choose(v.size())];
  fill(h, r, y, "values " + std::to_string(x) + " " + std::to_string(y));
}
// integer limits: one bin per integer
JOB(hist_integers) {
  int a = ex::choose(7) - 3, b = ex::choose(9) - 4;
  if (b < a - 1) return; // a negative number of bins
  bool thrown = false;
  try {
    histogram h(a, b);
    rhist r{double(a), double(b), b - a + 1, {}};
    r.c.assign(b - a + 1, 0);
    for (int i = -6; i < 7; ++i) fill(h, r, i, "integer " + std::to_string(i));
  } catch (triqs::runtime_error const &) { thrown = true; }
  ex::check(thrown == (a >= b), "limits", "limits ", a, " ", b, thrown ? " are refused" : " are accepted");
  for (long n : {1, 2, 5}) {
    thrown = false;
    try {
      histogram h(double(a), double(b), n);
    } catch (triqs::runtime_error const &) { thrown = true; }
    ex::check(thrown == (a >= b), "limits", "limits ", a, " ", b, thrown ? " are refused" : " are accepted");
  }
  ex::step();
}
// histories of two histograms
static void derived(histogram const &h, rhist const &r) {
  if (!r.pts) return;
  auto p = pdf(h), c = cdf(h);
  double s = 0;
  for (long i = 0; i < r.n; ++i) {
    s += r.c[i];
    ex::check(ex::near(p.data()(i), r.c[i] / r.pts, 1e-13), "pdf", "bin ", i, " of the pdf is ", p.data()(i));
    ex::check(ex::near(c.data()(i), s / r.pts, 1e-13), "cdf", "bin ", i, " of the cdf is ", c.data()(i));
  }
  ex::check(c.data()(r.n - 1) == 1, "cdf-end", "the cdf ends at ", c.data()(r.n - 1));
  ex::check(p.limits() == h.limits() && c.limits() == h.limits() && p.n_data_pts() == r.pts && c.n_lost_pts() == r.lost, "pdf-shape", "pdf or cdf lose limits or counts");
  same_hist(h, r, "source of pdf and cdf");
}
JOB_SHARDED(hist_programs, 6) {
  int k0 = ex::choose(6), k1 = ex::flip() ? k0 : (k0 + 1) % 6;
  std::array<rhist, 2> r = {spec(k0), spec(k1)};
  std::array<histogram, 2> h = {make(r[0]), make(r[1])};
  int len = ex::thorough() ? 5 : 4;
  for (int s = 0; s < len; ++s) {
    int op = ex::choose(9), t = 0;
    switch (op) {
      case 0: fill(h[0], r[0], r[0].a, "fill"); break;
      case 1: fill(h[1], r[1], r[1].b, "fill"); break;
      case 2: fill(h[0], r[0], r[0].b + 1, "fill"); break;
      case 3: h[1] << r[1].a << r[1].a - 1, r[1].c[0]++, r[1].pts++, r[1].lost++; break;
      case 4: {
        bool thrown = false, ok = k0 == k1;
        try {
          auto sum = h[0] + h[1];
          if (ok) {
            for (size_t i = 0; i < r[0].c.size(); ++i) r[0].c[i] += r[1].c[i];
            r[0].pts += r[1].pts, r[0].lost += r[1].lost;
          }
          h[0] = sum;
        } catch (triqs::runtime_error const &) { thrown = true; }
        ex::check(thrown == !ok, "sum", "sum of ", ok ? "equal" : "different", " ranges ", thrown ? "refused" : "accepted");
        if (!ok) return;
        break;
      }
      case 5: h[1].clear(), r[1].c.assign(r[1].n, 0), r[1].pts = r[1].lost = 0; break;
      case 6: std::swap(h[0], h[1]), std::swap(r[0], r[1]), std::swap(k0, k1); break;
      case 7: {
        h5::file f{};
        h5_write(f, "h", h[0]);
        histogram b(-7, 2);
        b << 1 << 1;
        if (ex::flip()) {
          histogram c;
          h5_read(f, "h", c);
          b = c;
        } else
          h5_read(f, "h", b);
        ex::check(b == h[0] && !(b != h[0]), "archive", "the histogram read back differs");
        h[0] = b;
        fill(h[0], r[0], r[0].a, "fill after reading"); // the bin width is restored
        fill(h[0], r[0], r[0].b, "fill after reading");
        break;
      }
      case 8: h[1] = h[0], r[1] = r[0], k1 = k0; break;
    }
    for (int i : {0, 1}) same_hist(h[i], r[i], "program"), derived(h[i], r[i]);
    bool eq = r[0].a == r[1].a && r[0].b == r[1].b && r[0].c == r[1].c && r[0].pts == r[1].pts && r[0].lost == r[1].lost;
    ex::check((h[0] == h[1]) == eq && (h[0] != h[1]) == !eq, "equality", "equality of the histograms is ", !eq);
    if (ex::failed()) return;
  }
}
JOB_SHARDED(hist_mpi, 6) {
  int k = ex::choose(6), n = 1 + ex::choose(ex::thorough() ? 4 : 3), root = ex::choose(n), kind = ex::choose(3);
  auto R = spec(k);
  std::vector<rhist> r(n, R);
  rhist sum = R;
  std::vector<std::vector<double>> x(n);
  for (int i = 0; i < n; ++i) {
    x[i] = ex::pick(std::vector<std::vector<double>>{{}, {R.a}, {R.b, R.b, R.a - 1}, {R.b + 1}});
    auto h = make(R);
    for (auto y : x[i]) fill(h, r[i], y, "fill");
    for (size_t j = 0; j < sum.c.size(); ++j) sum.c[j] += r[i].c[j];
    sum.pts += r[i].pts, sum.lost += r[i].lost;
  }
  bool other = kind == 2 && ex::flip();
  fine(ranks(n, [&](int me) {
    auto h = make(R);
    for (auto y : x[me]) h << y;
    mpi::communicator c;
    if (kind == 2) {
      if (other && me != root) h = histogram{0, 3};
      mpi::broadcast(h, c, root);
      same_hist(h, r[root], "broadcast");
      auto q = r[root];
      fill(h, q, q.b, "after broadcast");
    } else {
      histogram s = mpi::reduce(h, c, root, kind == 1);
      if (kind == 1 || me == root) same_hist(s, sum, "reduced");
      same_hist(h, r[me], "own part");
    }
  }));
}
