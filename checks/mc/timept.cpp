// C17: imaginary-time points against exact integers modulo Nmax
#include "explore.hpp"
#include <triqs/utility/time_pt.hpp>
#include <h5/h5.hpp>
using namespace triqs::utility;
using u128 = unsigned __int128;
static const uint64_t N = ~uint64_t(0);
static std::vector<uint64_t> alphabet(bool big) {
  std::vector<uint64_t> r = {0, 1, 2, 3, 5, 1000, (1ull << 32) - 1, 1ull << 32, (1ull << 53) - 1, 1ull << 53, (1ull << 53) + 1, N / 3, N / 2 - 1, N / 2, N / 2 + 1, (1ull << 63) + 1, N / 3 * 2, N - 1000, N - 2, N - 1, N};
  if (big)
    for (int k = 3; k < 64; k += 3)
      for (long d : {-1, 0, 1}) r.push_back((1ull << k) + d);
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static uint64_t index_of(time_pt const &p) { // n is private: read it from the printed text
  std::ostringstream s;
  s << p;
  auto t = s.str();
  auto i = t.find("n = ");
  if (i == std::string::npos) ex::hard_error("print of a time point: " + t);
  return std::stoull(t.substr(i + 4));
}
static uint64_t mod(u128 x) { return uint64_t(x % N); }
// congruent modulo Nmax: 0 and beta are the same point of the circle
static void same(time_pt const &p, uint64_t n, double beta, std::string const &what) {
  uint64_t m = index_of(p);
  ex::check(m % N == n % N, "cyclic:" + what.substr(0, what.find(' ')), what, " is the point ", m, " instead of ", n);
  double v = double(p);
  ex::check(v >= 0 && v <= beta, "in-range", what, " has the value ", v, ", beta = ", beta);
  double want = beta * (double(m) / 18446744073709551616.0);
  ex::check(std::abs(v - want) <= 1e-15 * beta, "value", what, " has the value ", v, " instead of ", want);
}
static double betas(int i) { return std::vector<double>{1.0, 10.0, 0.1, 3.7, 1e-3, 12345.678}[i]; }

JOB_SHARDED(arithmetic, 6) {
  double beta = betas(ex::choose(6));
  auto A      = alphabet(ex::thorough());
  time_segment seg(beta);
  uint64_t a = ex::pick(A), b = ex::pick(A);
  time_pt p(a, beta), q(b, beta);
  ex::step();
  ex::state(ex::mix(ex::hash(beta), ex::mix(a, b)));
  same(p, a, beta, "construction");
  same(p + q, mod(u128(a) + b), beta, ex::cat("sum of ", a, " ", b));
  same(p - q, mod(u128(a) + N - b), beta, ex::cat("difference of ", a, " ", b));
  same(-p, N - a, beta, ex::cat("negation of ", a));
  same((p + q) - q, a, beta, ex::cat("a+b-b of ", a, " ", b));
  same((p - q) + q, a, beta, ex::cat("a-b+b of ", a, " ", b));
  same(p + (-p), 0, beta, ex::cat("a+(-a) of ", a));
  same(q + p, index_of(p + q), beta, "b+a");
  same(p - q, index_of(-(q - p)), beta, "-(b-a)");
  // order
  ex::check((p < q) == (a < b) && (p > q) == (a > b) && (p <= q) == (a <= b) && (p >= q) == (a >= b) && (p == q) == (a == b) && (p != q) == (a != b), "order", "comparison of ", a, " and ", b);
  if (a <= b) ex::check(double(p) <= double(q), "monotonic", a, " < ", b, " but ", double(p), " > ", double(q));
  if (a < b && double(a) < double(b) * (1 - 1e-15)) ex::check(double(p) < double(q), "monotonic", a, " < ", b, " but ", double(p), " >= ", double(q));
  // decay to doubles
  double x = double(p), y = double(q);
  ex::check(p * q == x * y, "double-ops", "product of two points");
  if (b) ex::check(p / q == x / y, "double-ops", "quotient of two points");
  for (double z : {0.5, -2.0, 7.0})
    ex::check(p + z == x + z && z + p == z + x && p - z == x - z && z - p == z - x && p * z == x * z && z * p == z * x && p / z == x / z && (!a || z / p == z / x), "double-ops", "arithmetic of ", x, " with ", z);
  // grid division
  if (b) ex::check(floor_div(p, q) == a / b, "floor-div", "floor_div of ", a, " ", b, " is ", floor_div(p, q));
  for (size_t k : {1, 2, 3, 7, 1000}) {
    same(div_by_int(p, k), a / k, beta, ex::cat("div_by_int of ", a, " ", k));
    if (u128(a) * k <= N) same(mult_by_int(p, k), a * k, beta, ex::cat("mult_by_int of ", a, " ", k));
  }
  // special points
  ex::check(index_of(seg.get_lower_pt()) == 0 && index_of(seg.get_upper_pt()) == N && index_of(seg.get_epsilon()) == 1, "special", "special points");
  ex::check(seg.get_lower_pt() <= p && p <= seg.get_upper_pt() && (a == 0 || seg.get_epsilon() <= p), "extreme", a, " is not between the special points");
  ex::check(double(seg.get_upper_pt()) == beta && double(seg.get_lower_pt()) == 0, "special", "values of the special points");
  // copies
  time_pt c = p, d;
  d         = p;
  same(c, a, beta, "copy");
  same(d, a, beta, "assignment");
  ex::check(index_of(time_pt{}) == 0 && double(time_pt{}) == 0, "default", "default constructed point");
}

JOB_SHARDED(associativity, 8) {
  auto A     = alphabet(false);
  uint64_t a = ex::pick(A), b = ex::pick(A), c = ex::pick(A);
  double beta = 3.7;
  time_pt p(a, beta), q(b, beta), r(c, beta);
  ex::step();
  ex::state(ex::mix(a, ex::mix(b, c)));
  uint64_t s = mod(u128(a) + b + c);
  same((p + q) + r, s, beta, ex::cat("(a+b)+c of ", a, " ", b, " ", c));
  same(p + (q + r), s, beta, ex::cat("a+(b+c) of ", a, " ", b, " ", c));
  same((p - q) - r, mod(u128(a) + N - b + N - c), beta, ex::cat("(a-b)-c of ", a, " ", b, " ", c));
  same(p - (q + r), mod(u128(a) + N - b + N - c), beta, ex::cat("a-(b+c) of ", a, " ", b, " ", c));
  same(p - (q - r), mod(u128(a) + N - b + c), beta, ex::cat("a-(b-c) of ", a, " ", b, " ", c));
}

// a generator whose answers are choices
struct script_rng {
  std::vector<uint64_t> asked;
  std::vector<uint64_t> answers;
  uint64_t operator()(uint64_t n) {
    asked.push_back(n);
    std::vector<uint64_t> v;
    for (uint64_t x : {uint64_t(0), uint64_t(1), n / 2, n - 1})
      if (x < n && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x);
    if (v.empty()) ex::hard_error("empty range asked");
    answers.push_back(ex::pick(v));
    return answers.back();
  }
};
JOB_SHARDED(random, 3) {
  int form    = ex::choose(3);
  double beta = betas(ex::choose(6));
  time_segment seg(beta);
  auto A = alphabet(ex::thorough());
  script_rng rng;
  uint64_t lo = 0, hi = N;
  time_pt p;
  if (form == 0) p = seg.get_random_pt(rng);
  if (form == 1) {
    hi = ex::pick(A);
    if (!hi) return;
    p = seg.get_random_pt(rng, time_pt(hi, beta));
  }
  if (form == 2) {
    lo = ex::pick(A), hi = ex::pick(A);
    if (lo == hi || (lo > hi && hi == 0)) return;
    p = seg.get_random_pt(rng, time_pt(lo, beta), time_pt(hi, beta));
  }
  ex::step();
  uint64_t n = index_of(p);
  ex::state(ex::mix(ex::hash(beta), ex::mix(lo, ex::mix(hi, rng.answers[0]))));
  same(p, n, beta, "random point");
  if (lo < hi) {
    ex::check(lo <= n && n < hi, "random-range", "point ", n, " is not in [", lo, ",", hi, "[");
    ex::check(rng.asked.size() == 1 && rng.asked[0] == hi - lo, "random-uniform", "the range asked of the generator is not the number of points of the interval");
    ex::check(n == lo + rng.answers[0] || n == hi - 1 - rng.answers[0], "random-uniform", "the map from the random number to the point is not one to one");
  } else {
    ex::check(n >= lo || n <= hi, "random-range", "point ", n, " is not in the wrapped interval [", lo, ",", hi, "[");
  }
}
JOB_SHARDED(from_double, 6) {
  double beta = betas(ex::choose(6));
  time_segment seg(beta);
  std::vector<double> fr = {0, 1e-300, 1e-19, 1e-17, 1e-10, 0.1, 0.25, 1.0 / 3, 0.5, 0.75, 0.9999, 1 - 1e-15, 1 - 1e-16, 1.0};
  if (ex::thorough())
    for (int k = 1; k < 200; ++k) fr.push_back(k / 200.0 + 1e-9);
  std::vector<double> xs;
  for (auto f : fr) xs.push_back(std::min(beta, f * beta));
  xs.push_back(std::nextafter(beta, 0.0));
  double x = ex::pick(xs), y = ex::pick(xs);
  time_pt p = seg.make_time_pt(x), q = seg.make_time_pt(y);
  ex::step();
  ex::state(ex::mix(ex::hash(beta), ex::mix(ex::hash(x), ex::hash(y))));
  ex::check(double(p) >= 0 && double(p) <= beta && std::abs(double(p) - x) <= 4e-16 * beta, "make-time-pt", "make_time_pt(", x, ") is ", double(p), ", beta = ", beta);
  if (x <= y) ex::check(p <= q, "make-time-pt-order", "make_time_pt(", x, ") > make_time_pt(", y, ")");
  if (x == beta) ex::check(p == seg.get_upper_pt(), "make-time-pt-beta", "make_time_pt(beta) is the point ", index_of(p));
  if (x == 0) ex::check(p == seg.get_lower_pt(), "make-time-pt-zero", "make_time_pt(0) is the point ", index_of(p));
}
JOB(storage) {
  double beta = betas(ex::choose(6));
  uint64_t a  = ex::pick(alphabet(true));
  time_pt p(a, beta), q(17, 2.0);
  std::string fn = ex::cat("tp", getpid(), ".h5");
  {
    h5::file f(fn, 'w');
    h5_write(h5::group(f), "p", p);
  }
  {
    h5::file f(fn, 'r');
    h5_read(h5::group(f), "p", q);
  }
  unlink(fn.c_str());
  ex::step();
  ex::state(ex::mix(ex::hash(beta), a));
  ex::check(q == p && double(q) == double(p), "h5", "point ", a, " read back is ", index_of(q));
  same(q - p, 0, beta, "difference of read back point");
  same(q + p, mod(u128(a) + a), beta, "sum of read back point");
  same(p + q, mod(u128(a) + a), beta, "sum with read back point");
}
