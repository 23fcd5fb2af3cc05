// C18: real_or_complex and the numeric operations against plain complex arithmetic
#include "explore.hpp"
#include <triqs/utility/real_or_complex.hpp>
using namespace triqs::utility;
using cplx = std::complex<double>;
static const double EPS = 100 * std::numeric_limits<double>::epsilon();

struct model {
  bool real;
  cplx x;
};
static model M(double x) { return {true, x}; }
static model M(cplx x) { return {false, x}; }
static std::string txt(cplx z) { return ex::cat("(", z.real(), ",", z.imag(), ")"); }
static bool close(cplx a, cplx b, double scale) { return std::abs(a - b) <= 1e-14 * scale; }
static void compare(real_or_complex const &r, model const &m, std::string const &what, double scale = -1) {
  if (scale < 0) scale = std::abs(m.x);
  std::string k = what.substr(0, what.find(' '));
  cplx v = cplx(r);
  ex::check(r.is_real() == m.real, "kind:" + k, what, " is ", r.is_real() ? "real" : "complex");
  ex::check(close(v, m.x, scale), "value:" + k, what, " is ", txt(v), " instead of ", txt(m.x));
  ex::check(real(r) == v.real() && imag(r) == v.imag(), "parts:" + k, "real and imaginary part of ", what);
  ex::check(abs(r) == std::abs(v), "abs:" + k, "modulus of ", what);
  bool thrown = false;
  double d = 0;
  try {
    d = double(r);
  } catch (triqs::runtime_error const &) { thrown = true; }
  ex::check(thrown == !m.real, "to-double:" + k, "conversion of ", what, " to double: ", thrown ? "an exception" : "no exception");
  if (m.real) ex::check(d == v.real() && v.imag() == 0, "to-double:" + k, what, " converted to double is ", d, ", value ", txt(v));
  // conj, minus, zero test and print of the result
  auto c = conj(r);
  ex::check(cplx(c) == std::conj(v) && c.is_real() == r.is_real(), "conj", "conj of ", what, " is ", txt(cplx(c)));
  auto n = -r;
  ex::check(cplx(n) == -v && n.is_real() == r.is_real(), "minus", "minus ", what, " is ", txt(cplx(n)));
  ex::check(is_zero(r) == (std::abs(v.real()) < EPS && std::abs(v.imag()) < EPS), "is-zero", "is_zero of ", txt(v));
  for (double tol : {0.0, 1e-3, 2.0}) ex::check(is_zero(r, tol) == (std::abs(v.real()) < tol && std::abs(v.imag()) < tol), "is-zero", "is_zero of ", txt(v), " with tolerance ", tol);
  std::ostringstream s, w;
  s << r;
  if (m.real) w << v.real();
  else w << "(" << v.real() << (std::signbit(v.imag()) ? "" : "+") << v.imag() << "j)";
  ex::check(s.str() == w.str(), "print", "print of ", what, " is ", s.str(), " instead of ", w.str());
}
static std::vector<double> reals() { return {0.0, -0.0, 1.0, -2.5, 1e-300, 1e-14, -3e-14, 1e10, 0.1}; }
static std::vector<cplx> cplxs() { return {0.0, {1, 0}, {0, 1}, {-2.5, 0.5}, {1e-15, -1e-15}, {0, -1e-300}, {1e10, -3}, {0.1, 0.2}, {-0.0, -0.0}}; }
// an operand: form 0 default, 1.. real, then complex
static int noper() { return 1 + reals().size() + cplxs().size(); }
static std::pair<real_or_complex, model> oper(int i) {
  if (i == 0) return {real_or_complex{}, M(0.0)};
  int n = reals().size();
  if (i <= n) return {real_or_complex{reals()[i - 1]}, M(reals()[i - 1])};
  return {real_or_complex{cplxs()[i - 1 - n]}, M(cplxs()[i - 1 - n])};
}
static cplx apply(int op, cplx a, cplx b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
static const char *opname[] = {"+", "-", "*", "/"};
static double scale_of(int op, cplx a, cplx b) { return op < 2 ? std::abs(a) + std::abs(b) : std::abs(apply(op, a, b)) + 1e-300; }
template <typename X, typename Y> static auto bin(int op, X const &a, Y const &b) {
  real_or_complex r;
  if (op == 0) r = a + b;
  if (op == 1) r = a - b;
  if (op == 2) r = a * b;
  if (op == 3) r = a / b;
  return r;
}
template <typename Y> static void inplace(int op, real_or_complex &a, Y const &b) {
  real_or_complex *p = nullptr;
  if (op == 0) p = &(a += b);
  if (op == 1) p = &(a -= b);
  if (op == 2) p = &(a *= b);
  if (op == 3) p = &(a /= b);
  ex::check(p == &a, "returns-self", "an in-place operation does not return the object");
}
JOB_SHARDED(pairs, 8) {
  int i = ex::choose(noper()), j = ex::choose(noper()), op = ex::choose(4), form = ex::choose(6);
  auto [a, ma] = oper(i);
  auto [b, mb] = oper(j);
  if (op == 3 && std::abs(mb.x) < 1e-100) return;
  if (op == 3 && mb.x == 0.0) return;
  ex::step();
  ex::state(((i * 32 + j) * 4 + op) * 6 + form);
  model m{ma.real && mb.real, apply(op, ma.x, mb.x)};
  double sc = scale_of(op, ma.x, mb.x);
  std::string w = ex::cat(opname[op], " of ", txt(ma.x), " and ", txt(mb.x), " form ", form);
  real_or_complex r;
  switch (form) {
    case 0: r = bin(op, a, b); break;
    case 1: // with the plain number on the right
      r = mb.real ? bin(op, a, double(b)) : bin(op, a, cplx(b));
      break;
    case 2: r = ma.real ? bin(op, double(a), b) : bin(op, cplx(a), b); break;
    case 3: r = a, inplace(op, r, b); break;
    case 4:
      r = a;
      if (mb.real) inplace(op, r, double(b));
      else inplace(op, r, cplx(b));
      break;
    case 5: // with itself
      if (i != j) return;
      r = a;
      inplace(op, r, r);
      break;
  }
  compare(r, m, w, sc);
  compare(a, ma, "left operand after " + w);
  compare(b, mb, "right operand after " + w);
  ex::check((a == b) == (ma.x == mb.x) && (a != b) == (ma.x != mb.x), "equality", "equality of ", txt(ma.x), " and ", txt(mb.x));
  ex::check((a == b) == (b == a), "equality", "equality is not symmetric");
  // equality of neighbours
  if (form == 0) {
    real_or_complex c(ma.real ? real_or_complex(std::nextafter(ma.x.real(), 1e300)) : real_or_complex(cplx(ma.x.real(), std::nextafter(ma.x.imag(), 1e300))));
    ex::check(!(c == a) && c != a, "equality", "neighbouring numbers are equal");
  }
}
JOB_SHARDED(programs, 8) { // expressions of several operations on two variables
  int depth = ex::tier(4, 5);
  real_or_complex v[2];
  model m[2] = {M(0.0), M(0.0)};
  auto init = std::vector<int>{0, 3, 4, 12, 13, 14};
  std::string tr;
  for (int k = 0; k < 2; ++k) {
    int i = ex::pick(init);
    std::tie(v[k], m[k]) = oper(i);
    tr += ex::cat(" v", k, "=", txt(m[k].x));
  }
  for (int d = 0; d < depth; ++d) {
    int op = ex::choose(9);
    ex::step();
    double sc = 1;
    if (op < 4) {
      if (op == 3 && std::abs(m[1].x) < 1e-6) return;
      m[0] = {m[0].real && m[1].real, apply(op, m[0].x, m[1].x)};
      inplace(op, v[0], v[1]);
    } else if (op == 4) std::swap(v[0], v[1]), std::swap(m[0], m[1]);
    else if (op == 5) v[1] = v[0] - v[1], m[1] = {m[0].real && m[1].real, m[0].x - m[1].x};
    else if (op == 6) v[0] = 2.0 * v[0] + cplx(0, 1) * v[1], m[0] = {false, 2.0 * m[0].x + cplx(0, 1) * m[1].x};
    else if (op == 7) v[1] = v[0], m[1] = m[0];
    else v[0] = conj(-v[0]), m[0].x = std::conj(-m[0].x);
    tr += ex::cat(" op", op);
    compare(v[0], m[0], "program v0 " + tr, 1e3);
    compare(v[1], m[1], "program v1 " + tr, 1e3);
  }
  ex::state(ex::hash(tr));
}
template <typename T> static void integral(std::vector<T> v) {
  for (T x : v) {
    ex::check(triqs::utility::is_zero(x) == (x == 0), "integral", "is_zero of an integer");
    ex::check(triqs::utility::conj(x) == x && triqs::utility::real(x) == x && triqs::utility::imag(x) == T(0), "integral", "conj, real or imag of an integer");
    static_assert(std::is_same_v<decltype(triqs::utility::conj(x)), T> && std::is_same_v<decltype(triqs::utility::real(x)), T> && std::is_same_v<decltype(triqs::utility::imag(x)), T>);
    ex::step();
  }
}
template <typename T> static void floating() {
  T e = 100 * std::numeric_limits<T>::epsilon();
  for (T x : {T(0), -T(0), e, -e, std::nextafter(e, T(0)), -std::nextafter(e, T(0)), std::nextafter(e, T(1)), T(1), T(-2.5), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()}) {
    ex::step();
    ex::check(triqs::utility::is_zero(x) == (std::abs(x) < e), "floating", "is_zero of ", x);
    for (T t : {T(0), T(1e-3), T(3)}) ex::check(triqs::utility::is_zero(x, t) == (std::abs(x) < t), "floating", "is_zero of ", x, " with tolerance ", t);
    if (x == x) ex::check(triqs::utility::conj(x) == x && triqs::utility::real(x) == x && triqs::utility::imag(x) == 0, "floating", "conj, real or imag of ", x);
    for (T y : {T(0), e, -std::nextafter(e, T(0)), T(1), std::numeric_limits<T>::quiet_NaN()}) {
      std::complex<T> z(x, y);
      ex::check(triqs::utility::is_zero(z) == (std::abs(x) < e && std::abs(y) < e), "complex", "is_zero of (", x, ",", y, ")");
      ex::check(triqs::utility::is_zero(z, T(0.5)) == (std::abs(x) < T(0.5) && std::abs(y) < T(0.5)), "complex", "is_zero of (", x, ",", y, ") with tolerance");
      if (x == x && y == y) {
        ex::check(triqs::utility::conj(z) == std::conj(z), "complex", "conj of (", x, ",", y, ")");
        ex::check(triqs::utility::real(z) == std::complex<T>(x, 0), "complex", "real of (", x, ",", y, ")");
        ex::check(triqs::utility::imag(z) == std::complex<T>(y, 0), "complex", "imag of (", x, ",", y, ")");
      }
    }
  }
}
JOB(numeric_ops) {
  int c = ex::choose(9);
  ex::state(c);
  if (c == 0) integral<int>({0, 1, -1, INT_MAX, INT_MIN});
  if (c == 1) integral<long>({0, 1, -1, LONG_MAX, LONG_MIN, 1l << 32, 1l << 40});
  if (c == 2) integral<unsigned char>({0, 1, 255});
  if (c == 3) integral<uint64_t>({0, 1, ~0ull, 1ull << 63});
  if (c == 4) integral<bool>({false, true});
  if (c == 5) floating<double>();
  if (c == 6) floating<float>();
  if (c == 7) floating<long double>();
  if (c == 8) {
    ex::check(triqs::is_complex<cplx>::value && triqs::is_complex<std::complex<float>>::value && !triqs::is_complex<double>::value && !triqs::is_complex<int>::value && !triqs::is_complex<std::vector<cplx>>::value, "is-complex", "is_complex");
  }
}
