// C21: Legendre polynomials, T_nl, t_l^p and spherical Bessel functions against independent formulas in long double
#include "explore.hpp"
#include <triqs/utility/legendre.hpp>
using namespace triqs::utility;
using ld = long double;
static const ld PI = acosl(-1.0L);
// P_l(x) from the explicit sum of binomials: P_l = sum_k C(l,k)^2 ((x-1)/2)^{l-k} ((x+1)/2)^k
static ld P(int l, ld x) {
  ld s = 0, c = 1;
  for (int k = 0; k <= l; ++k) {
    s += c * c * powl((x - 1) / 2, l - k) * powl((x + 1) / 2, k);
    c = c * (l - k) / (k + 1);
  }
  return s;
}
// for larger orders: the Laplace integral P_l(cos t) = 1/M sum_j (cos t + i sin t cos phi_j)^l, exact with M > l points (trapezoidal rule)
static ld PL(int l, ld x) {
  int M = l + 2;
  std::complex<ld> s = 0;
  ld y = sqrtl(std::max(0.0L, 1 - x * x));
  for (int j = 0; j < M; ++j) {
    std::complex<ld> z(x, y * cosl(2 * PI * (j + 0.37L) / M)), r = 1;
    for (int k = 0; k < l; ++k) r *= z;
    s += r;
  }
  return s.real() / M;
}
JOB_SHARDED(generator, 8) {
  std::vector<double> xs = {-1, -0.999, -0.75, -0.3, -1e-9, 0, 1e-9, 0.1, 0.5, 0.77, 0.999, 1};
  int nx = xs.size();
  legendre_generator g;
  std::string tr;
  int rounds = ex::tier(2, 3), lmax = ex::tier(60, 120);
  for (int r = 0; r < rounds; ++r) { // resets after any number of calls
    double x = xs[ex::choose(nx)];
    int n    = ex::pick({1, 2, 3, 4, 7, lmax});
    g.reset(x);
    tr += ex::cat(" reset(", x, ") ", n, " calls");
    for (int l = 0; l < n; ++l) {
      double v = g.next();
      static std::map<std::pair<double, int>, ld> ref; // the oracle is a pure function: remember its values
      auto [it, fresh] = ref.emplace(std::pair(x, l), 0);
      if (fresh) it->second = l < 12 ? P(l, x) : PL(l, x);
      ld want = it->second;
      ex::step();
      ex::check(std::abs(v - want) < 1e-12, "generator", "after", tr, ": P_", l, "(", x, ") is ", v, " instead of ", double(want));
    }
    legendre_generator h = g; // a copy goes on by itself
    if (n < lmax) {
      double v = h.next();
      ld want  = n < 12 ? P(n, x) : PL(n, x);
      ex::check(std::abs(v - want) < 1e-12, "generator-copy", "a copy of the generator gives ", v, " instead of P_", n, "(", x, ")");
    }
  }
  ex::state(ex::hash(tr));
}
// spherical Bessel function j_l(z) by downward recursion (Miller) in long double
static std::vector<ld> bessel_j(int lmax, ld z) {
  int top = lmax + 60 + int(z);
  std::vector<ld> j(top + 2, 0);
  j[top] = 1e-300L;
  for (int l = top; l > 0; --l) {
    j[l - 1] = (2 * l + 1) / z * j[l] - j[l + 1];
    if (fabsl(j[l - 1]) > 1e1000L)
      for (auto &x : j) x *= 1e-1000L;
  }
  // normalisation sum (2l+1) j_l^2 = 1, sign from j_0 = sin z / z or j_1
  ld s = 0;
  for (int l = 0; l <= top; ++l) s += (2 * l + 1) * j[l] * j[l];
  s = 1 / sqrtl(s);
  ld j0 = sinl(z) / z, j1 = sinl(z) / (z * z) - cosl(z) / z;
  bool neg = fabsl(j0) > fabsl(j1) ? (j0 < 0) != (j[0] < 0) : (j1 < 0) != (j[1] < 0);
  if (neg) s = -s;
  for (auto &x : j) x *= s;
  return j;
}
static std::complex<ld> Tref(int n, int l) { // T_nl = (-1)^n i^{l+1} sqrt(2l+1) j_l((2n+1) pi/2), Boehnke et al. 2011 Eq. E2, n >= 0
  ld z = (2 * std::abs(2 * n + 1)) * PI / 4;
  static std::map<int, std::vector<ld>> cache;
  auto it = cache.find(std::abs(2 * n + 1));
  if (it == cache.end()) it = cache.emplace(std::abs(2 * n + 1), bessel_j(260, z)).first;
  ld j = it->second[l];
  if (2 * n + 1 < 0 && l % 2) j = -j; // j_l(-z) = (-1)^l j_l(z)
  std::complex<ld> il[] = {1, {0, 1}, -1, {0, -1}};
  return ((n % 2) ? -1.0L : 1.0L) * il[(l + 1) % 4] * sqrtl(2 * l + 1) * j;
}
JOB_SHARDED(T_nl, 8) {
  int N = ex::tier(60, 400), L = ex::tier(60, 200);
  int n = ex::choose(2 * N) - N;
  for (int l = 0; l <= L; ++l) {
    auto t = legendre_T(n, l);
    auto w = Tref(n, l);
    ex::step();
    ex::check(std::abs(std::complex<ld>(t) - w) < 1e-12L, "T_nl", "T(", n, ",", l, ") is ", t, " instead of ", std::complex<double>(w));
    ex::check(std::abs(legendre_T(-n - 1, l) - std::conj(t)) < 1e-15, "T_nl-conj", "T(", -n - 1, ",", l, ") is not the conjugate of T(", n, ",", l, ")");
  }
  ex::state(ex::hash(n));
}
// T_nl is the transform of the polynomials: T_nl = sqrt(2l+1)/2 int_{-1}^{1} e^{i (2n+1) pi (x+1)/2} P_l(x) dx
JOB_SHARDED(T_integral, 8) {
  int n = ex::choose(24) - 12, l = ex::choose(16);
  const int M = 4000; // Simpson
  std::complex<ld> s = 0;
  for (int k = 0; k <= M; ++k) {
    ld x = -1 + 2.0L * k / M, w = (k == 0 || k == M) ? 1 : (k % 2 ? 4 : 2);
    static std::map<std::pair<int, int>, ld> ref;
    auto [it, fresh] = ref.emplace(std::pair(l, k), 0);
    if (fresh) it->second = l < 12 ? P(l, x) : PL(l, x);
    s += w * std::polar(1.0L, (2 * n + 1) * PI * (x + 1) / 2) * it->second;
  }
  s *= 2.0L / M / 3 * sqrtl(2 * l + 1) / 2;
  auto t = legendre_T(n, l);
  ex::step();
  ex::state(n * 100 + l);
  ex::check(std::abs(std::complex<ld>(t) - s) < 1e-7L, "T-integral", "T(", n, ",", l, ") is ", t, " instead of the integral ", std::complex<double>(s));
}
// unitarity: the sum over n < N of T*_nl T_nl' tends to delta_ll' like 1/N
JOB_SHARDED(unitary, 8) {
  int l = ex::choose(ex::tier(12, 30)), m = ex::choose(ex::tier(12, 30));
  int N = ex::tier(2000, 20000);
  std::complex<double> s = 0;
  for (int n = -N; n < N; ++n) s += std::conj(legendre_T(n, l)) * legendre_T(n, m);
  // the tail: |T_nl| <= 2 sqrt(2l+1)/((2n+1) pi) (1 + O(l^2/n))
  double bound = 1.5 * sqrt(2 * l + 1.) * sqrt(2 * m + 1.) / N + 1e-10;
  ex::step(2 * N);
  ex::state(l * 100 + m);
  ex::check(std::abs(s - double(l == m)) < bound, "unitary", "sum over n of T*_n", l, " T_n", m, " is ", s, ", bound of the tail ", bound);
}
JOB(t_lp) {
  int l = ex::choose(ex::tier(30, 60)), p = 1 + ex::choose(ex::tier(12, 30));
  // t_l^p = (-1)^p 2 sqrt(2l+1) (l+p-1)! / ((p-1)! (l-p+1)!) delta_{p+l odd}
  ld want = 0;
  if ((p + l) % 2 && p <= l + 1) {
    want = (p % 2 ? -1 : 1) * 2 * sqrtl(2 * l + 1);
    for (int i = l - p + 2; i <= l + p - 1; ++i) want *= i;
    for (int i = 2; i <= p - 1; ++i) want /= i;
  }
  double t = legendre_t(l, p);
  ex::step();
  ex::state(l * 100 + p);
  ex::check(std::abs(t - want) <= 1e-13L * fabsl(want), "t_lp", "t(", l, ",", p, ") is ", t, " instead of ", double(want));
  // the coefficients are the derivatives of the polynomials at the ends: t^p = (-1)^p sqrt(2l+1) 2^{p-1} (P^{(p-1)}(1) + P^{(p-1)}(-1))
  if (p <= 4 && l <= 20) {
    ld d = 1; // P_l^{(k)}(1) = (l+k)!/((l-k)! 2^k k!)
    int k = p - 1;
    if (k > l) d = 0;
    for (int i = l - k + 1; i <= l + k; ++i) d *= i;
    for (int i = 1; i <= k; ++i) d /= 2 * i;
    ld both = d + ((l + k) % 2 ? -d : d);
    ld w2   = (p % 2 ? -1 : 1) * sqrtl(2 * l + 1) * powl(2, p - 1) * both;
    ex::check(std::abs(t - w2) <= 1e-12L * (fabsl(w2) + 1), "t_lp", "t(", l, ",", p, ") is ", t, ", from the derivatives ", double(w2));
  }
  // tail of T: i omega_n -> sum_p t^p / (i omega_n)^p
  if (l <= 6) {
    int n = 3000;
    std::complex<double> w = 0, io(0, (2 * n + 1) * M_PI);
    for (int q = 1; q <= l + 1; ++q) w += legendre_t(l, q) / std::pow(io, q);
    ex::check(std::abs(legendre_T(n, l) - w) < 1e-10, "tail", "T(", n, ",", l, ") is ", legendre_T(n, l), ", its tail is ", w);
  }
}
// i_n(x) from its power series x^n sum_k (x^2/2)^k / (k! (2n+2k+1)!!)
static ld sph_i(int n, ld x) {
  ld t = 1;
  for (int k = 1; k <= n; ++k) t *= x / (2 * k + 1);
  ld s = 0;
  for (int k = 0; k < 2000; ++k) {
    s += t;
    t *= x * x / 2 / (k + 1) / (2 * n + 2 * k + 3);
    if (t < s * 1e-21L) break;
  }
  return s;
}
JOB(bessel_i) {
  int n    = ex::choose(ex::tier(25, 60));
  double x = ex::pick({0.0, 1e-8, 1e-3, 0.1, 0.5, 1.0, 2.0, 3.7, 10.0, 25.0, 60.0, 200.0, 600.0});
  double v = mod_cyl_bessel_i(n, x);
  ld want  = x == 0 ? (n == 0) : sph_i(n, x);
  ex::step();
  ex::state(ex::mix(n, ex::hash(x)));
  ex::check(std::abs(v - want) <= 1e-11L * fabsl(want) + 1e-300L, "bessel_i", "i_", n, "(", x, ") is ", v, " instead of ", double(want));
  if (n >= 1 && x > 0) {
    double a = mod_cyl_bessel_i(n - 1, x), b = mod_cyl_bessel_i(n + 1, x);
    ex::check(std::abs(a - b - (2 * n + 1) / x * v) <= 1e-9 * a, "bessel-recursion", "i_", n - 1, " - i_", n + 1, " at ", x);
  }
}
